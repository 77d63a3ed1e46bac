------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Judges labels returned by the exact algorithms against the best of all  *)
(* regionalizations of the map.                                            *)
(*   nb, attr, metric                                                      *)
(*   p       number of regions, or 0 for max-p                             *)
(*   ext, thr   max-p: spatially extensive attributes, thresholds          *)
(*   kind, labels, what                                                    *)
(***************************************************************************)
EXTENDS Optimum, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

Verdict(c) ==
  LET nb == ToMap(c.nb)
      D == DistTable(c.metric, c.attr)
      all == TLCEval(Regionalizations(nb))
      good == TLCEval(IF c.p > 0 THEN RequestsP(all, c.p)
                      ELSE LET r == TLCEval(Reaching(all, c.ext, c.thr))
                           IN  IF r = {} THEN {} ELSE MostRegions(r))
      mine == Grouping(c.labels)
  IN
  IF good = {}
  THEN IF c.kind = "ok" THEN "labels-for-an-unsatisfiable-request"
       ELSE IF c.kind = "error" THEN "ok" ELSE "does-not-end"
  ELSE IF c.kind = "slow" THEN "ok"
  ELSE IF c.kind # "ok" THEN "satisfiable-request-refused"
  ELSE IF c.labels = <<>> THEN "labels-are-not-labels"
  ELSE LET f == FeasibilityFault(nb, c.labels, IF c.p > 0 THEN c.p ELSE -1) IN
       IF f # "ok" THEN f
       ELSE IF c.p = 0 /\ \E S \in mine : ~Reaches(c.ext, c.thr, S)
       THEN "threshold-not-reached"
       ELSE IF c.p = 0 /\ mine \notin good THEN "more-regions-are-possible"
       ELSE IF PartObj(D, mine) # BestValue(D, good) THEN "not-optimal"
       ELSE "ok"

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
        /\ UNCHANGED i
=============================================================================
