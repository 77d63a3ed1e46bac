----------------------------- MODULE TabuTrace -----------------------------
(***************************************************************************)
(* Accepts the working solutions of a recorded basic tabu search iff they  *)
(* are those of a behaviour of BasicTabu.tla.                              *)
(*   walk   consecutive different solutions, from the start to the result  *)
(***************************************************************************)
EXTENDS BasicTabu, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLE j
tvars == <<vars, j>>
Case == Cases[inst.t]

Inst(t) ==
  LET c == Cases[t] IN
  [nb |-> ToMap(c.nb), obj |-> c.obj, attr |-> c.attr, D |-> DistTable(c.obj.metric, c.attr),
   len |-> c.len, reps |-> c.reps, t |-> t]

Init == \E t \in DOMAIN Cases : inst = Inst(t) /\ Start(Cases[t].walk[1]) /\ j = 1

Differ(l, m) == {a \in DOMAIN l : l[a] # m[a]}

Step ==
  /\ j < Len(Case.walk)
  /\ LET m == Case.walk[j + 1]
         ch == Differ(lab, m)
     IN  /\ DOMAIN m = DOMAIN lab /\ Cardinality(ch) = 1
         /\ LET a == CHOOSE a \in ch : TRUE IN Move(a, m[a])
  /\ j' = j + 1

Next == Step \/ ((Stay \/ Finish) /\ UNCHANGED j)

Accepted == pc = "done" /\ j = Len(Case.walk)

Note ==
  LET pos == 2 * j + (IF Accepted THEN 1 ELSE 0)
      old == TLCGet(2 * inst.t)
  IN  IF pos > old
      THEN TLCSet(2 * inst.t, pos)
           /\ TLCSet(2 * inst.t + 1, [lab |-> lab, pc |-> pc, tabu |-> tabu, j |-> j,
                                      best |-> Best, allowed |-> Allowed, seen |-> Seen(lab)])
      ELSE TRUE

ASSUME \A t \in DOMAIN Cases : TLCSet(2 * t, 0) /\ TLCSet(2 * t + 1, <<>>)

Fault(c, s) ==
  IF s.j = Len(c.walk)
  THEN "search-ended-too-early"
  ELSE LET m == c.walk[s.j + 1]
           ch == Differ(s.lab, m)
       IN
       IF DOMAIN m # DOMAIN s.lab \/ Cardinality(ch) # 1 THEN "several-areas-changed-at-once"
       ELSE LET a == CHOOSE a \in ch : TRUE
                nb == ToMap(c.nb)
            IN
            IF ~LegalMove(nb, s.lab, a, m[a]) THEN "illegal-move-" \o MoveFault(nb, s.lab, a, m[a])
            ELSE IF s.seen >= c.reps THEN "search-went-on-too-long"
            ELSE IF <<a, s.lab[a], m[a]>> \in Rng(s.tabu) THEN "forbidden-move-made"
            ELSE IF s.best # {} THEN "not-the-best-move"
            ELSE "worsening-move-made"

VerdictOf(t) ==
  LET c == Cases[t] IN
  IF c.kind # "ok" THEN <<"fit-failed", c.what>>
  ELSE IF TLCGet(2 * t) = 2 * Len(c.walk) + 1 THEN <<"ok", "">>
  ELSE LET s == TLCGet(2 * t + 1) IN
       <<Fault(c, s), "move " \o ToString(s.j) \o " of " \o ToString(Len(c.walk) - 1)>>

Verdicts ==
  \A t \in DOMAIN Cases :
     LET r == VerdictOf(t) IN PrintT("V|" \o ToString(Cases[t].tid) \o "|" \o r[1] \o "|" \o r[2])
=============================================================================
