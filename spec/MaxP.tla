-------------------------------- MODULE MaxP --------------------------------
(***************************************************************************)
(* The max-p heuristic of Duque, Anselin & Rey: construction of regions    *)
(* that reach the thresholds, assignment of the areas left over, local     *)
(* search that keeps the thresholds.                                       *)
(*                                                                         *)
(* inst: nb map, D dissimilarities, ext spatially extensive attributes     *)
(* (nonnegative), thr thresholds (one per extensive attribute)             *)
(***************************************************************************)
EXTENDS Regions

VARIABLES inst,
          pc,      \* "seed", "grow", "assign", "search", "done"
          free,    \* areas not assigned yet
          grown,   \* region that grows
          parts,   \* regions that reach the thresholds
          over     \* areas left over

mpvars == <<inst, pc, free, grown, parts, over>>

(* total dissimilarity of an area to the areas of a region *)
Cost(D, a, S) == SumTo(D, a, S)
Border(nb, S) == (UNION {nb[a] : a \in S}) \ S
Nearest(D, cand, S) == {a \in cand : \A b \in cand : Cost(D, a, S) <= Cost(D, b, S)}
Closest(D, a, cand) == {S \in cand : \A T \in cand : Cost(D, a, S) <= Cost(D, a, T)}
Enough(i, S) == Reaches(i.ext, i.thr, S)

(* a threshold is satisfiable if every component of the map reaches it *)
SatisfiableThr(nb, ext, thr) == \A C \in Components(nb) : Reaches(ext, thr, C)

Start == /\ pc = "seed" /\ free = DOMAIN inst.nb /\ grown = {} /\ parts = {} /\ over = {}

Seed(a) == /\ pc = "seed" /\ a \in free
           /\ grown' = {a} /\ free' = free \ {a} /\ pc' = "grow"
           /\ UNCHANGED <<inst, parts, over>>
Ready == /\ pc = "grow" /\ Enough(inst, grown)
         /\ parts' = parts \cup {grown} /\ grown' = {} /\ pc' = "seed"
         /\ UNCHANGED <<inst, free, over>>
Grow(a) == /\ pc = "grow" /\ ~Enough(inst, grown)
           /\ a \in Nearest(inst.D, Border(inst.nb, grown) \cap free, grown)
           /\ grown' = grown \cup {a} /\ free' = free \ {a}
           /\ UNCHANGED <<inst, pc, parts, over>>
Fail == /\ pc = "grow" /\ ~Enough(inst, grown)
        /\ Border(inst.nb, grown) \cap free = {}
        /\ over' = over \cup grown /\ grown' = {} /\ pc' = "seed"
        /\ UNCHANGED <<inst, free, parts>>
Constructed == /\ pc = "seed" /\ free = {} /\ pc' = "assign"
               /\ UNCHANGED <<inst, free, grown, parts, over>>
Bordering(a) == {S \in parts : S \cap inst.nb[a] # {}}
Join(a, S) == /\ pc = "assign" /\ a \in over /\ S \in Closest(inst.D, a, Bordering(a))
              /\ parts' = (parts \ {S}) \cup {S \cup {a}} /\ over' = over \ {a}
              /\ UNCHANGED <<inst, pc, free, grown>>
Assigned == /\ pc = "assign" /\ over = {} /\ pc' = "search"
            /\ UNCHANGED <<inst, free, grown, parts, over>>

(* the move rule: donor and recipient keep the thresholds, nothing worsens *)
KeepsThr(i, S, T, a) == Enough(i, S \ {a}) /\ Enough(i, T \cup {a})
Gain(a, S, T) == Cost(inst.D, a, T) - Cost(inst.D, a, S \ {a})
Move(a, S, T) == /\ pc = "search" /\ S \in parts /\ T \in parts /\ S # T
                 /\ a \in S /\ T \cap inst.nb[a] # {} /\ Connected(inst.nb, S \ {a})
                 /\ KeepsThr(inst, S, T, a) /\ Gain(a, S, T) <= 0
                 /\ parts' = (parts \ {S, T}) \cup {S \ {a}, T \cup {a}}
                 /\ UNCHANGED <<inst, pc, free, grown, over>>

Building == (\E a \in free : Seed(a) \/ Grow(a)) \/ Ready \/ Fail \/ Constructed
            \/ (\E a \in over : \E S \in Bordering(a) : Join(a, S)) \/ Assigned
Searching == \E S, T \in parts : \E a \in S : Move(a, S, T)
Next == Building \/ Searching

----------------------------------------------------------------------------
(* areas are never in two places *)
Disjoint == /\ \A S, T \in parts : S = T \/ S \cap T = {}
            /\ \A S \in parts : S \cap (free \cup grown \cup over) = {}
            /\ free \cap (grown \cup over) = {} /\ grown \cap over = {}
            /\ (UNION parts) \cup free \cup grown \cup over = DOMAIN inst.nb
AllReach == \A S \in parts : Enough(inst, S) /\ Connected(inst.nb, S)
(* a failed region had no way out: nothing unassigned borders on it *)
OverIsClosed == Border(inst.nb, over) \cap free = {}
                /\ (pc = "grow" => Border(inst.nb, over) \cap grown = {})
NeverBlocked == pc = "assign" /\ over # {} => \E a \in over : Bordering(a) # {}
Final == pc = "search" => UNION parts = DOMAIN inst.nb
SameNumber == [][pc = "search" => Cardinality(parts') = Cardinality(parts)]_mpvars

----------------------------------------------------------------------------
(* Can the construction build these regions in this order?                 *)

RECURSIVE GrowTo(_, _, _, _)
(* region G can go on growing such that it becomes exactly S *)
GrowTo(i, G, avail, S) ==
  IF Enough(i, G) THEN G = S
  ELSE LET c == TLCEval(Border(i.nb, G) \cap avail)
       IN  \E a \in Nearest(i.D, c, G) \cap S : GrowTo(i, TLCEval(G \cup {a}), avail \ {a}, S)

Buildable(i, avail, S) == \E s \in S : GrowTo(i, {s}, avail \ {s}, S)

(* seq: regions in the order of construction; rest: areas left over *)
ConstructionFault(i, seq, rest) ==
  LET before(k) == UNION {seq[l] : l \in 1..(k - 1)}
      areas == DOMAIN i.nb
  IN
  IF \E k, l \in DOMAIN seq : k # l /\ seq[k] \cap seq[l] # {} THEN "regions-overlap"
  ELSE IF (UNION Rng(seq)) \cup rest # areas \/ (UNION Rng(seq)) \cap rest # {}
  THEN "areas-lost"
  ELSE IF \E k \in DOMAIN seq : ~Enough(i, seq[k]) THEN "constructed-region-below-threshold"
  ELSE IF \E k \in DOMAIN seq : ~Buildable(i, areas \ before(k), seq[k])
  THEN "region-not-grown-by-the-rule"
  ELSE IF \E C \in Parts(i.nb, rest) : Enough(i, C) THEN "left-over-areas-reach-the-threshold"
  ELSE "ok"

RECURSIVE Assignable(_, _, _, _)
(* the areas in E can be joined one by one such that they end as in lab *)
Assignable(i, P, E, lab) ==
  \/ E = {}
  \/ \E a \in E :
       LET cand == {S \in P : S \cap i.nb[a] # {}}
           own == {S \in Closest(i.D, a, cand) : \E b \in S : lab[b] = lab[a]}
       IN  \E S \in own : Assignable(i, TLCEval((P \ {S}) \cup {S \cup {a}}), E \ {a}, lab)
=============================================================================
