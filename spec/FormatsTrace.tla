--------------------------- MODULE FormatsTrace ---------------------------
(***************************************************************************)
(* Judges fits in all input formats, and the converters.                   *)
(* A case of mode "fit":                                                   *)
(*   fmt, rows, rank, nb, cells, queen, attr (distinct rows), est, p, ext, *)
(*   thr, metric, quorum, start, kind, labels                              *)
(*   seen   <<[rows, labels]>>  what the objective function was shown      *)
(*   whole  everything the objective was shown is in seen                  *)
(* A case of mode "matrix" or "table": what a converter returned.          *)
(***************************************************************************)
EXTENDS Formats, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

----------------------------------------------------------------------------
(* What the objective function was shown: the areas of one component *)

SameRow(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A z \in Rng(x) : Cardinality({k \in DOMAIN x : x[k] = z})
                       = Cardinality({k \in DOMAIN y : y[k] = z})
AreasWith(c, row) == {a \in DOMAIN c.attr : SameRow(c.attr[a], row)}

(* area -> label; areas of other components are missing *)
Shown(c, s) ==
  LET who == TLCEval([k \in DOMAIN s.rows |-> AreasWith(c, s.rows[k])])
      all == TLCEval(UNION Rng(who))
  IN  [a \in all |-> s.labels[CHOOSE k \in DOMAIN s.rows : a \in who[k]]]

ShownFault(c, nb, s) ==
  IF Len(s.rows) # Len(s.labels) THEN "labels-and-attributes-do-not-match"
  ELSE IF \E k \in DOMAIN s.rows : AreasWith(c, s.rows[k]) = {} THEN "unknown-attributes"
  ELSE LET lab == TLCEval(Shown(c, s)) IN
       IF Cardinality(DOMAIN lab) # Len(s.rows) THEN "an-area-shown-twice"
       ELSE IF DOMAIN lab \notin Components(nb) THEN "not-a-component-of-the-map"
       ELSE IF \E r \in LabelSet(lab) : ~Connected(nb, Region(lab, r))
            THEN "attributes-not-aligned-with-the-map"
       ELSE IF c.est = "maxp" /\ \E r \in LabelSet(lab) : ~Reaches(c.ext, c.thr, Region(lab, r))
            THEN "extensive-attributes-not-aligned"
       ELSE "ok"

(* labels g of one component can have come from the labels l *)
Near(nb, l, g) ==
  LET moved == {a \in DOMAIN l : l[a] # g[a]} IN
  \/ moved = {}
  \/ /\ Cardinality(moved) = 1
     /\ LET a == CHOOSE a \in moved : TRUE IN LegalMove(nb, l, a, g[a])

SearchFault(c, nb, lab) ==
  LET shown == TLCEval({Shown(c, c.seen[k]) : k \in DOMAIN c.seen})
      parts == TLCEval({DOMAIN l : l \in shown})
      of(S) == {l \in shown : DOMAIN l = S}
      cut(f, S) == [a \in S |-> f[a]]
      start == IF c.start = <<>> THEN <<>> ELSE c.start
  IN
  IF c.est = "maxp" THEN "ok"
  ELSE IF start # <<>> /\ \E S \in parts : cut(start, S) \notin of(S)
       THEN "start-labels-not-aligned"
  ELSE IF c.whole /\ \E S \in parts : \A l \in of(S) : ~Near(nb, l, cut(lab, S))
       THEN "labels-not-in-the-order-of-the-areas"
  ELSE "ok"

FirstShownFault(c, nb) ==
  LET bad == {k \in DOMAIN c.seen : ShownFault(c, nb, c.seen[k]) # "ok"}
  IN  IF bad = {} THEN "ok" ELSE ShownFault(c, nb, c.seen[MinOf(bad)])

----------------------------------------------------------------------------
ExactFault(c, nb, mine) ==
  LET D == DistTable(c.metric, c.attr)
      all == TLCEval(Regionalizations(nb))
      good == TLCEval(IF c.p > 0 THEN RequestsP(all, c.p)
                      ELSE MostRegions(TLCEval(Reaching(all, c.ext, c.thr))))
  IN  IF mine \notin good THEN "not-the-best-number-of-regions"
      ELSE IF PartObj(D, mine) # BestValue(D, good) THEN "attributes-not-aligned"
      ELSE "ok"

FitVerdict(c) ==
  LET nb == MapOf(c) IN
  IF c.kind = "slow" THEN "ok"
  ELSE IF c.kind = "timeout" THEN IF c.mayrun THEN "ok" ELSE "does-not-end"
  ELSE IF c.kind = "error" /\ c.ext # <<>> /\ \E S \in Components(nb) : ~Reaches(c.ext, c.thr, S)
       THEN "ok"       \* cannot be satisfied
  ELSE IF c.kind # "ok" THEN "satisfiable-request-refused"
  ELSE IF Len(c.labels) # Len(c.attr) THEN "not-one-label-per-area"
  ELSE LET lab == TLCEval(ByArea(c, c.labels))
           f == FeasibilityFault(nb, lab, IF c.p > 0 THEN c.p ELSE -1)
           s == FirstShownFault(c, nb)
       IN
       IF s # "ok" THEN s
       ELSE IF f # "ok" THEN "labels-by-area-" \o f
       ELSE IF c.p = 0 /\ c.ext # <<>> /\ \E S \in Grouping(lab) : ~Reaches(c.ext, c.thr, S)
            THEN "threshold-not-reached"
       ELSE IF c.quorum > 0 /\ \E S \in Grouping(lab) : Cardinality(S) < c.quorum
            THEN "quorum-not-reached"
       ELSE IF c.est \in {"pexact", "maxpexact"} THEN ExactFault(c, nb, Grouping(lab))
       ELSE SearchFault(c, nb, lab)

----------------------------------------------------------------------------
(* converters: matrix[k][l] and table[k] belong to positions *)
MatrixVerdict(c) ==
  LET nb == MapOf(c)
      o == TLCEval(Order(c))
      n == Len(o)
  IN  IF c.kind # "ok" THEN "conversion-failed"
      ELSE IF Len(c.matrix) # n \/ \E k \in DOMAIN c.matrix : Len(c.matrix[k]) # n
           THEN "wrong-shape"
      ELSE IF \E k \in 1..n : \E l \in 1..n :
                (c.matrix[k][l] = 1) # (o[l] \in nb[o[k]])
           THEN "not-the-map"
      ELSE "ok"

TableVerdict(c) ==
  LET o == TLCEval(Order(c)) IN
  IF c.kind # "ok" THEN "conversion-failed"
  ELSE IF Len(c.table) # Len(o) THEN "wrong-shape"
  ELSE IF \E k \in DOMAIN o : c.table[k] # c.attr[o[k]] THEN "not-the-values-of-the-areas"
  ELSE "ok"

Verdict(c) == CASE c.mode = "fit" -> FitVerdict(c)
                [] c.mode = "matrix" -> MatrixVerdict(c)
                [] c.mode = "table" -> TableVerdict(c)

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
        /\ UNCHANGED i
=============================================================================
