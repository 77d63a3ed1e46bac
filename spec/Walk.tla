------------------------------- MODULE Walk -------------------------------
(***************************************************************************)
(* The working solutions of a local search on one component, as seen by    *)
(* the objective function whenever it was asked for the change by a move.  *)
(*   nb, obj, attr   the component                                         *)
(*   start    start labels (<<>>: random start, unknown)                   *)
(*   walk     <<labels>>, consecutive ones differ                          *)
(*   final    returned labels of the component                             *)
(*   descent  TRUE: no move may increase the objective                     *)
(*   best     TRUE: the best solution of the walk is returned, otherwise   *)
(*            the last one                                                 *)
(* The last move of a search is seen only in the result.                   *)
(***************************************************************************)
EXTENDS Regions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

Differ(l, m) == {a \in DOMAIN l : l[a] # m[a]}

StepFault(c, nb, D, l, m) ==
  LET moved == Differ(l, m) IN
  IF DOMAIN l # DOMAIN nb \/ DOMAIN m # DOMAIN nb THEN "areas-missing"
  ELSE IF Cardinality(moved) # 1 THEN "several-areas-changed-at-once"
  ELSE LET a == CHOOSE a \in moved : TRUE
           f == MoveFault(nb, l, a, m[a])
       IN  IF f # "ok" THEN "illegal-move-" \o f
           ELSE IF c.descent /\ Delta(c.obj, c.attr, D, l, a, m[a]) > 0
                THEN "move-increases-the-objective"
           ELSE "ok"

FirstFault(c, nb, D, w) ==
  LET bad == {k \in 1..(Len(w) - 1) : StepFault(c, nb, D, w[k], w[k + 1]) # "ok"}
  IN  IF bad = {} THEN <<"ok", 0>>
      ELSE LET k == MinOf(bad) IN <<StepFault(c, nb, D, w[k], w[k + 1]), k>>

FinalFault(c, nb, D, w) ==
  LET last == w[Len(w)] IN
  IF DOMAIN c.final # DOMAIN nb THEN "areas-missing-in-the-result"
  ELSE IF c.best THEN
    LET best == MinOf({Obj(c.obj, c.attr, D, w[k]) : k \in DOMAIN w}) IN
    IF \/ /\ \E k \in DOMAIN w : w[k] = c.final
          /\ Obj(c.obj, c.attr, D, c.final) = best
       \/ /\ StepFault(c, nb, D, last, c.final) = "ok"
          /\ Obj(c.obj, c.attr, D, c.final) <= best
    THEN "ok" ELSE "result-is-not-the-best-of-the-walk"
  ELSE IF c.final = last THEN "ok"
  ELSE IF StepFault(c, nb, D, last, c.final) = "ok" THEN "ok"
  ELSE "result-is-not-the-end-of-the-walk"

Verdict(c) ==
  IF c.kind = "error" THEN <<"fit-failed", 0>>
  ELSE IF c.kind = "timeout" THEN IF c.mayrun THEN <<"ok", 0>> ELSE <<"does-not-end", 0>>
  ELSE IF c.kind = "mixed" THEN <<"areas-and-attributes-do-not-match", 0>>
  ELSE LET nb == ToMap(c.nb)
           D == DistTable(c.obj.metric, c.attr)
           w == IF c.start = <<>> \/ (c.walk # <<>> /\ c.walk[1] = c.start) THEN c.walk
                ELSE <<c.start>> \o c.walk
       IN
       IF w = <<>> THEN <<"ok", 0>>
       ELSE IF FeasibilityFault(nb, w[1], -1) # "ok" THEN <<"infeasible-start", 0>>
       ELSE LET f == FirstFault(c, nb, D, w) IN
            IF f[1] # "ok" THEN f
            ELSE IF c.final = <<>> THEN <<"ok", 0>>
            ELSE <<FinalFault(c, nb, D, w), Len(w)>>

Init == i \in DOMAIN Cases /\ v = <<"?", 0>>
Next == /\ v = <<"?", 0>>
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v'[1] \o "|"
                  \o Cases[i].what \o " step " \o ToString(v'[2]))
        /\ UNCHANGED i
=============================================================================
