-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* What a single fit of a heuristic p-regions algorithm may end in:        *)
(* judged case by case.                                                    *)
(*   nb      neighbours of each area (1-based)                             *)
(*   p       requested number of regions                                   *)
(*   start   start labels, or <<>> if the start solution is random         *)
(*   kind    "ok" / "error" / "timeout"                                    *)
(*   labels  labels_ after the fit (<<>> if they are no integers)          *)
(*   obj     objective; attr its attributes                                *)
(*   mayrun  annealing with equal-value moves: no promise to end soon        *)
(*   mode    "feasible", "better", "ends"                                  *)
(***************************************************************************)
EXTENDS Regions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)

VARIABLES i, v

NotWorse(c, nb) ==
  LET D == DistTable(c.obj.metric, c.attr)
      before == Obj(c.obj, c.attr, D, c.start)
      after == Obj(c.obj, c.attr, D, c.labels)
  IN  after <= before

Text(c) == c.what

Verdict(c) ==
  LET nb == ToMap(c.nb)
      legalStart == c.start = <<>> \/ Feasible(nb, c.start, c.p)
  IN
  IF ~(Satisfiable(nb, c.p) /\ legalStart) THEN "harness-made-an-unsatisfiable-request"
  ELSE IF c.kind = "timeout" /\ c.mayrun THEN "ok"
  ELSE IF c.kind = "timeout" THEN "does-not-end"
  ELSE IF c.kind = "error" THEN "satisfiable-request-refused"
  ELSE IF c.mode = "ends" THEN "ok"
  ELSE IF c.labels = <<>> THEN "labels-are-not-labels"
  ELSE LET f == FeasibilityFault(nb, c.labels, c.p) IN
       IF f # "ok" THEN f
       ELSE IF c.mode = "better" /\ c.start # <<>> /\ ~NotWorse(c, nb)
            THEN "worse-than-the-start"
       ELSE "ok"

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Text(Cases[i]))
        /\ UNCHANGED i
=============================================================================
