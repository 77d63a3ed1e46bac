--------------------------- MODULE ReactiveTrace ---------------------------
(***************************************************************************)
(* Accepts the working solutions of a recorded reactive tabu search iff    *)
(* they and the result are those of a behaviour of ReactiveTabu.tla.       *)
(*   walk    consecutive different solutions in which moves were evaluated *)
(*   final   returned labels                                               *)
(***************************************************************************)
EXTENDS ReactiveTabu, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLE j
Case == Cases[inst.t]

Inst(t) ==
  LET c == Cases[t] IN
  [nb |-> ToMap(c.nb), obj |-> c.obj, attr |-> c.attr, D |-> DistTable(c.obj.metric, c.attr),
   maxit |-> c.maxit, t |-> t]

Init == \E t \in DOMAIN Cases : inst = Inst(t) /\ Start(Cases[t].walk[1]) /\ j = 1

(* every iteration evaluates moves, so its solution is in the walk *)
Shown == Case.walk[j] = lab

Step ==
  /\ Going /\ Shown
  /\ \/ \E m \in Best : /\ Move(m[1], m[2])
                        /\ \/ j < Len(Case.walk) /\ Case.walk[j + 1] = lab' /\ j' = j + 1
                           \/ j = Len(Case.walk) /\ j' = j
     \/ Stay /\ UNCHANGED j

Next == Step \/ (Finish /\ UNCHANGED j)
Accepted == pc = "done" /\ j = Len(Case.walk) /\ result = Case.final

Note ==
  LET pos == 4 * j + (IF Accepted THEN 3 ELSE IF pc = "done" THEN 2
                      ELSE IF Case.walk[j] # lab THEN 1 ELSE 0)
      old == TLCGet(2 * inst.t)
  IN  IF pos > old
      THEN TLCSet(2 * inst.t, pos)
           /\ TLCSet(2 * inst.t + 1, [lab |-> lab, pc |-> pc, j |-> j, best |-> Best, it |-> it,
                                      going |-> Going, tabu |-> tabu, result |-> result])
      ELSE TRUE

ASSUME \A t \in DOMAIN Cases : TLCSet(2 * t, 0) /\ TLCSet(2 * t + 1, <<>>)

Differ(l, m) == {a \in DOMAIN l : l[a] # m[a]}

Fault(c, s) ==
  IF s.j = Len(c.walk)
  THEN IF s.pc = "done" THEN "returned-solution-is-not-the-best-one"
       ELSE "search-ended-too-early"
  ELSE LET m == c.walk[s.j + 1]
           ch == Differ(c.walk[s.j], m)
       IN
       IF DOMAIN m # DOMAIN s.lab \/ Cardinality(ch) # 1 THEN "several-areas-changed-at-once"
       ELSE LET a == CHOOSE a \in ch : TRUE
                nb == ToMap(c.nb)
            IN
            IF ~LegalMove(nb, c.walk[s.j], a, m[a])
            THEN "illegal-move-" \o MoveFault(nb, c.walk[s.j], a, m[a])
            ELSE IF s.pc = "done" THEN "search-went-on-too-long"
            ELSE "not-the-best-admissible-move"

VerdictOf(t) ==
  LET c == Cases[t] IN
  IF c.kind # "ok" THEN <<"fit-failed", c.what>>
  ELSE IF TLCGet(2 * t) = 4 * Len(c.walk) + 3 THEN <<"ok", "">>
  ELSE LET s == TLCGet(2 * t + 1) IN
       <<Fault(c, s), "move " \o ToString(s.j) \o " of " \o ToString(Len(c.walk) - 1)>>

Verdicts ==
  \A t \in DOMAIN Cases :
     LET r == VerdictOf(t) IN PrintT("V|" \o ToString(Cases[t].tid) \o "|" \o r[1] \o "|" \o r[2])
=============================================================================
