---------------------------- MODULE SkaterTrace ----------------------------
(***************************************************************************)
(* Accepts recorded fits of the spanning forest iff they are behaviours of *)
(* Skater.tla.  A case:                                                    *)
(*   nb, attr, obj, quorum, islands                                        *)
(*   mode "fit"   : n, kind, labels, forest, warned                        *)
(*        "prune" : kind, forests (for one region per component, and one   *)
(*                  more in each fit), labels of the same fits,            *)
(*                  stuck (the last fit found no cut), scores              *)
(*                  [labels, quorum, value; value -1: infinite],           *)
(*                  finds [forest, quorum, within, plain (no data), edge,  *)
(*                  score (-1: none)],                                     *)
(*                  cuts [forest, edge, after, labels],                    *)
(*                  trace [labels, links, scores, forest, final]: what one *)
(*                  fit stored of its own history                          *)
(***************************************************************************)
EXTENDS Regions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

S == INSTANCE Skater WITH inst <- 0, forest <- 0, pc <- 0

Forest(f) == {Rng(e) : e \in Rng(f)}
Proper(f) == \A e \in Rng(f) : Len(e) = 2 /\ e[1] # e[2]
Parts2(n, f) == S!RegionsOf(n, Forest(f))

Fit(c, nb) ==
  LET n == Len(nb)
      k == Cardinality(Components(nb))
      target == MaxOf({S!Target(nb, c.n, c.islands), k})
      parts == Grouping(c.labels)
      inst == [nb |-> nb, attr |-> c.attr, obj |-> c.obj, quorum |-> c.quorum]
      fits == S!QuorumHolds(Components(nb), c.quorum)
  IN
  IF S!Refused(nb, c.quorum)
  THEN IF c.kind = "ok" THEN "islands-below-quorum-accepted"
       ELSE IF c.kind = "error" THEN "ok" ELSE "does-not-end"
  ELSE IF c.kind = "error" /\ ~fits THEN "ok"
  ELSE IF c.kind = "timeout" THEN "does-not-end"
  ELSE IF c.kind # "ok" THEN "satisfiable-request-refused"
  ELSE IF c.labels = <<>> THEN "labels-are-not-labels"
  ELSE LET f == FeasibilityFault(nb, c.labels, -1) IN
  IF f # "ok" THEN f
  ELSE IF ~Proper(c.forest) \/ ~(Forest(c.forest) \subseteq S!MapEdges(nb))
  THEN "forest-is-no-part-of-the-map"
  ELSE IF Parts2(n, c.forest) # parts THEN "regions-are-not-the-components-of-the-forest"
  ELSE IF Cardinality(Forest(c.forest)) # n - Cardinality(parts) THEN "forest-has-a-cycle"
  ELSE IF fits /\ ~S!QuorumHolds(parts, c.quorum) THEN "region-below-quorum"
  ELSE IF Cardinality(parts) > target THEN "too-many-regions"
  ELSE IF Cardinality(parts) < target
  THEN IF S!Cuts(inst, Forest(c.forest)) # {} THEN "too-few-regions"
       ELSE IF ~c.warned THEN "no-warning-about-missing-regions" ELSE "ok"
  ELSE IF c.stuckwarned THEN "wrong-warning"
  ELSE "ok"

ScoreOK(c, s) ==
  LET P == Grouping(s.labels) IN
  IF ~S!QuorumHolds(P, s.quorum) THEN s.value = -1
  ELSE s.value = S!PartScore(c.obj, c.attr, P)

FindOK(c, nb, f) ==
  LET F == Forest(f.forest)
      inst == [nb |-> nb, attr |-> IF f.plain THEN [a \in DOMAIN nb |-> <<1>>] ELSE c.attr,
               obj |-> c.obj, quorum |-> f.quorum]
      cuts == {x \in S!Cuts(inst, F) : x[1] \subseteq Rng(f.within)}
  IN  IF cuts = {} THEN f.score = -1
      ELSE <<Rng(f.edge), f.score>> \in S!Best(cuts)

CutOK(nb, x) ==
  /\ Forest(x.after) = Forest(x.forest) \ {Rng(x.edge)}
  /\ Len(x.after) = Len(x.forest) - 1
  /\ Grouping(x.labels) = Parts2(Len(nb), x.after)
  /\ x.count = Cardinality(Grouping(x.labels))

(* what a fit tells about its history is a behaviour that leads to its result *)
TraceFault(c, nb, D, t) ==
  LET n == Len(nb)
      m == Len(t.links)
      inst == [nb |-> nb, attr |-> c.attr, obj |-> c.obj, quorum |-> c.quorum]
      F == TLCEval([k \in 0..m |-> Forest(t.forest) \cup {Rng(t.links[j]) : j \in (k + 1)..m}])
      made(k) == <<Rng(t.links[k]), t.scores[k]>>
  IN
  IF Len(t.labels) # m + 1 THEN "trace-has-a-gap"
  ELSE IF ~S!MinimumForest(nb, D, F[0]) THEN "trace-starts-elsewhere"
  ELSE IF \E k \in 1..m : made(k) \notin S!Best(S!Cuts(inst, F[k - 1]))
  THEN "trace-of-other-cuts"
  ELSE IF \E k \in 0..m : Grouping(t.labels[k + 1]) # S!RegionsOf(n, F[k])
  THEN "trace-of-other-regions"
  ELSE IF Grouping(t.final) # Grouping(t.labels[m + 1]) THEN "trace-ends-elsewhere"
  ELSE "ok"

Prune(c, nb) ==
  LET D == DistTable(c.obj.metric, c.attr)
      inst == [nb |-> nb, attr |-> c.attr, obj |-> c.obj, quorum |-> c.quorum]
      F == TLCEval([k \in DOMAIN c.forests |-> Forest(c.forests[k])])
      Fault(k) ==   \* of the step from fit k to fit k + 1
        LET cuts == TLCEval(S!Cuts(inst, F[k])) IN
        IF F[k + 1] = F[k] THEN IF cuts = {} THEN "ok" ELSE "stopped-although-a-cut-was-left"
        ELSE IF \E e \in F[k] : F[k + 1] = F[k] \ {e}
        THEN LET e == CHOOSE e \in F[k] : F[k + 1] = F[k] \ {e} IN
             IF \E x \in cuts : x[1] = e
             THEN IF \E x \in S!Best(cuts) : x[1] = e THEN "ok" ELSE "not-the-best-cut"
             ELSE "cut-breaks-the-quorum"
        ELSE "not-one-cut-more"
      bad == {k \in 1..(Len(c.forests) - 1) : Fault(k) # "ok"}
  IN
  IF c.kind = "timeout" THEN "does-not-end"
  ELSE IF c.kind # "ok" THEN "fails"
  ELSE IF \E k \in DOMAIN c.forests : ~Proper(c.forests[k]) THEN "forest-has-a-loop"
  ELSE IF ~S!SpanningForest(nb, F[1]) THEN "no-spanning-forest"
  ELSE IF ~S!Cheapest(nb, D, F[1]) THEN "not-a-minimum-spanning-forest"
  ELSE IF bad # {} THEN Fault(MinOf(bad))
  ELSE IF \E k \in DOMAIN c.labels : Grouping(c.labels[k]) # S!RegionsOf(Len(nb), F[k])
  THEN "regions-are-not-the-components-of-the-forest"
  ELSE IF \E k \in DOMAIN c.trace : TraceFault(c, nb, D, c.trace[k]) # "ok"
  THEN TraceFault(c, nb, D, c.trace[1])
  ELSE IF \E k \in DOMAIN c.scores : ~ScoreOK(c, c.scores[k]) THEN "wrong-score"
  ELSE IF \E k \in DOMAIN c.finds : ~FindOK(c, nb, c.finds[k]) THEN "wrong-cut-found"
  ELSE IF \E k \in DOMAIN c.cuts : ~CutOK(nb, c.cuts[k]) THEN "wrong-cut-made"
  ELSE "ok"

Verdict(c) == LET nb == ToMap(c.nb) IN IF c.mode = "fit" THEN Fit(c, nb) ELSE Prune(c, nb)

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
        /\ UNCHANGED i
=============================================================================
