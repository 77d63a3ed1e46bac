------------------------------- MODULE Skater -------------------------------
(***************************************************************************)
(* Pruning of a minimum spanning forest.  The forest is a set of edges     *)
(* (sets of two areas); its connected parts are the regions.               *)
(*                                                                         *)
(* inst: nb map, D dissimilarities, attr, obj (metric, centre, red),       *)
(*       quorum, target number of regions                                  *)
(***************************************************************************)
EXTENDS Regions

VARIABLES inst, forest, pc

skvars == <<inst, forest, pc>>

MapEdges(nb) == UNION {{{a, b} : b \in nb[a]} : a \in DOMAIN nb}
ForestMap(n, F) == TLCEval([a \in 1..n |-> TLCEval({b \in 1..n : a # b /\ {a, b} \in F})])
RegionsOf(n, F) == Components(ForestMap(n, F))
Weight(D, e) == LET a == MinOf(e) IN D[a][MaxOf(e)]

(* F links the areas of every component of the map without any cycle *)
SpanningForest(nb, F) ==
  /\ F \subseteq MapEdges(nb)
  /\ RegionsOf(Len(nb), F) = Components(nb)
  /\ Cardinality(F) = Len(nb) - Cardinality(Components(nb))

(* no link could be replaced by a cheaper one *)
Cheapest(nb, D, F) ==
  \A e \in F :
    LET side == ReachIn(ForestMap(Len(nb), F \ {e}), DOMAIN nb, MinOf(e))
        other == ReachIn(ForestMap(Len(nb), F \ {e}), DOMAIN nb, MaxOf(e))
    IN \A a \in side : \A b \in nb[a] \cap other : Weight(D, e) <= D[a][b]

MinimumForest(nb, D, F) == SpanningForest(nb, F) /\ Cheapest(nb, D, F)

(* total dissimilarity of the areas to the centres of their regions *)
PartScore(o, attr, P) == Reduce(o.red, [S \in P |-> Het(o, attr, S)])
QuorumHolds(P, q) == \A S \in P : Cardinality(S) >= q

(* the cuts that the quorum admits, with their scores *)
Cuts(i, F) ==
  {<<e, PartScore(i.obj, i.attr, RegionsOf(Len(i.nb), F \ {e}))>> :
      e \in {e \in F : QuorumHolds(RegionsOf(Len(i.nb), F \ {e}), i.quorum)}}
Best(cuts) == LET b == MinOf({c[2] : c \in cuts}) IN {c \in cuts : c[2] = b}

(* a map of islands has to be larger than the quorum everywhere *)
Refused(nb, q) == /\ Cardinality(Components(nb)) > 1
                  /\ ~QuorumHolds(Components(nb), q)
Target(nb, n, islands) ==
  LET k == Cardinality(Components(nb))
  IN  IF k > 1 /\ islands = "increase" THEN n + k ELSE n

Start(F) == /\ MinimumForest(inst.nb, inst.D, F)
            /\ forest = F /\ pc = "cut"

Size == Cardinality(RegionsOf(Len(inst.nb), forest))

Cut == /\ pc = "cut" /\ Size < inst.target
       /\ LET cuts == Cuts(inst, forest) IN
          IF cuts = {} THEN pc' = "stuck" /\ forest' = forest
          ELSE \E c \in Best(cuts) : forest' = forest \ {c[1]} /\ pc' = pc
       /\ UNCHANGED inst
Finish == /\ pc = "cut" /\ Size >= inst.target
          /\ pc' = "done" /\ UNCHANGED <<inst, forest>>

Next == Cut \/ Finish

----------------------------------------------------------------------------
RegionsConnected == \A S \in RegionsOf(Len(inst.nb), forest) : Connected(inst.nb, S)
(* the start forest may have a component below the quorum if it is the only one *)
QuorumKept == QuorumHolds(Components(inst.nb), inst.quorum)
                => QuorumHolds(RegionsOf(Len(inst.nb), forest), inst.quorum)
RightNumber == pc = "done" =>
  Size = MaxOf({inst.target, Cardinality(Components(inst.nb))})
StuckOnlyWithoutCut == pc = "stuck" => Cuts(inst, forest) = {} /\ Size < inst.target
Refines == [][\A S \in RegionsOf(Len(inst.nb), forest') :
                \E T \in RegionsOf(Len(inst.nb), forest) : S \subseteq T]_skvars
OneMore == [][forest' # forest =>
                Cardinality(RegionsOf(Len(inst.nb), forest')) = Size + 1]_skvars
=============================================================================
