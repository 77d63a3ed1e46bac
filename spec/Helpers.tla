------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* Feasibility checks and graph helpers: a case holds a map, a labelling   *)
(* and what the helpers returned for it.  Areas are 1-based.               *)
(*   nb, lab                                                               *)
(*   weights   matrix of the (symmetric) contiguity weights                *)
(*   conn      is_connected of the whole map                               *)
(*   neigh     neighbors of each area                                      *)
(*   subs      [nodes, without, matrix, conn]: submatrices of the map      *)
(*   feas      [p (-1: any), "ok" / "error" of the check,                  *)
(*              "true" / "false" / "error" of the boolean check]           *)
(*   comps     labels per connected component                              *)
(*   lists     [regions (lists of areas), labels]                          *)
(*   find      [element, regions, position or 0 if refused, found list]    *)
(*   counts    [element, count]                                            *)
(*   equal     all_elements_equal(lab)                                     *)
(*   moves     [area, region, labels afterwards]                           *)
(*   picks     [list, picked, rest]                                        *)
(*   picks1    [list, picked]: a random element, the list stays            *)
(*   tables    [what, keys, rows, got (key, values)]: tables to dicts      *)
(*   kept      [argument, still as it was]                                 *)
(***************************************************************************)
EXTENDS Regions, SequencesExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

Nothing == -1
Keep(nodes, without) == SelectSeq(nodes, LAMBDA x : x \notin Rng(without))

SubOK(c, s) ==
  LET ks == Keep(s.nodes, s.without) IN
  s.matrix = [x \in DOMAIN ks |-> [y \in DOMAIN ks |-> c.weights[ks[x]][ks[y]]]]
SubConnOK(nb, s) == s.conn = Connected(nb, Rng(Keep(s.nodes, s.without)))

CompOK(nb, lab, cs) ==
  /\ Len(cs) = Cardinality(Components(nb))
  /\ {cs[k] : k \in DOMAIN cs} =
       {[a \in DOMAIN nb |-> IF a \in C THEN lab[a] ELSE Nothing] : C \in Components(nb)}

ListOK(l) == \A k \in DOMAIN l.regions : \A x \in Rng(l.regions[k]) : l.labels[x] = k - 1

FindOK(f) ==
  LET hits == {k \in DOMAIN f.regions : f.el \in Rng(f.regions[k])} IN
  IF hits = {} THEN f.pos = 0
  ELSE /\ f.pos = MinOf(hits) /\ Rng(f.found) = Rng(f.regions[MinOf(hits)])

PickOK(q) == \E k \in DOMAIN q.list : q.list[k] = q.picked /\ q.rest = RemoveAt(q.list, k)

TableOK(q) ==
  /\ Len(q.got) = Len(q.keys)
  /\ \A k \in DOMAIN q.keys : \E g \in Rng(q.got) : g[1] = q.keys[k] /\ g[2] = q.rows[k]

Verdict(c) ==
  LET nb == ToMap(c.nb)
      lab == c.lab
      fault(p) == FeasibilityFault(nb, lab, p)
  IN
  IF c.kind # "ok" THEN "helper-fails"
  ELSE IF c.conn # Connected(nb, DOMAIN nb) THEN "is-connected"
  ELSE IF \E a \in DOMAIN nb : Rng(c.neigh[a]) # nb[a] \/ Len(c.neigh[a]) # Cardinality(nb[a])
  THEN "neighbors"
  ELSE IF \E k \in DOMAIN c.subs : ~SubOK(c, c.subs[k]) THEN "sub-adj-matrix"
  ELSE IF \E k \in DOMAIN c.subs : ~SubConnOK(nb, c.subs[k]) THEN "is-connected-of-submap"
  ELSE IF \E k \in DOMAIN c.feas : (c.feas[k].check = "ok") # (fault(c.feas[k].p) = "ok")
  THEN "assert-feasible"
  ELSE IF \E k \in DOMAIN c.feas : (c.feas[k].bool = "true") # (fault(c.feas[k].p) = "ok")
  THEN "boolean-assert-feasible"
  ELSE IF \E k \in DOMAIN c.feas : c.feas[k].p < 0 /\ c.feas[k].bool = "error"
  THEN "boolean-assert-feasible-fails"
  ELSE IF ~CompOK(nb, lab, c.comps) THEN "separate-components"
  ELSE IF \E k \in DOMAIN c.lists : ~ListOK(c.lists[k]) THEN "array-from-region-list"
  ELSE IF \E k \in DOMAIN c.find : ~FindOK(c.find[k]) THEN "find-sublist-containing"
  ELSE IF \E k \in DOMAIN c.counts : c.counts[k][2] # Cardinality(Region(lab, c.counts[k][1]))
  THEN "count"
  ELSE IF c.equal # (Cardinality(LabelSet(lab)) = 1) THEN "all-elements-equal"
  ELSE IF \E k \in DOMAIN c.moves :
            c.moves[k].after # Moved(lab, c.moves[k].area, c.moves[k].region)
  THEN "make-move"
  ELSE IF \E k \in DOMAIN c.picks : ~PickOK(c.picks[k]) THEN "random-pick"
  ELSE IF \E k \in DOMAIN c.picks1 : c.picks1[k].picked \notin Rng(c.picks1[k].list)
  THEN "random-element"
  ELSE IF \E k \in DOMAIN c.tables : ~TableOK(c.tables[k])
  THEN (CHOOSE q \in Rng(c.tables) : ~TableOK(q)).what
  ELSE IF \E k \in DOMAIN c.kept : ~c.kept[k][2]
  THEN "changed-" \o (CHOOSE q \in Rng(c.kept) : ~q[2])[1]
  ELSE "ok"

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
        /\ UNCHANGED i
=============================================================================
