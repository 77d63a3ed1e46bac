------------------------------ MODULE Optimum ------------------------------
(***************************************************************************)
(* What exact solutions are: the best of all regionalizations of the map.  *)
(* Regionalizations are sets of regions here.                              *)
(***************************************************************************)
EXTENDS Regions

PartObj(D, P) == Sum(P, LAMBDA S : Within(D, S))

(* p-regions: the regionalizations into p regions *)
RequestsP(all, p) == {P \in all : Cardinality(P) = p}

(* max-p: the regionalizations that reach the threshold everywhere ...  *)
Reaching(all, ext, thr) == {P \in all : \A S \in P : Reaches(ext, thr, S)}
(* ... and among them those with most regions *)
MostRegions(Ps) ==
  LET top == MaxOf({Cardinality(P) : P \in Ps}) IN {P \in Ps : Cardinality(P) = top}

BestValue(D, Ps) == MinOf({PartObj(D, P) : P \in Ps})
Optimal(D, Ps) == LET b == BestValue(D, Ps) IN {P \in Ps : PartObj(D, P) = b}
=============================================================================
