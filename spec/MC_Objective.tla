---------------------------- MODULE MC_Objective ----------------------------
(***************************************************************************)
(* The objective on all labellings of N areas with attributes 0..V, and    *)
(* all moves: the incremental change is the change, a walk of moves back   *)
(* to the start sums up to nothing, and labels are just names.             *)
(***************************************************************************)
EXTENDS SmallMaps

CONSTANTS N, V
VARIABLES attr, lab, obj, acc, start, steps

vars == <<attr, lab, obj, acc, start, steps>>

Objs == {[kind |-> "pairwise", metric |-> m, centre |-> "mean", red |-> "sum"] :
            m \in {"manhattan", "sqeuclidean", "chebyshev"}}
        \cup {[kind |-> "centre", metric |-> m, centre |-> c, red |-> r] :
            m \in {"manhattan", "sqeuclidean"}, c \in {"max", "min"}, r \in {"sum", "max", "min"}}

Val(l) == Obj(obj, attr, DistTable(obj.metric, attr), l)

Init == /\ attr \in AttrTables(N, V) /\ lab \in CanonicalLabels(N) /\ obj \in Objs
        /\ acc = 0 /\ start = lab /\ steps = 0

Next == \E a \in DOMAIN lab : \E r \in LabelSet(lab) \ {lab[a]} :
          /\ steps < 2 /\ steps' = steps + 1
          /\ acc' = acc + Delta(obj, attr, DistTable(obj.metric, attr), lab, a, r)
          /\ lab' = Moved(lab, a, r)
          /\ UNCHANGED <<attr, obj, start>>

Telescopes == acc = Val(lab) - Val(start)
OnlyNames == steps = 0 => /\ Val(lab) = Val([a \in DOMAIN lab |-> 7 - 2 * lab[a]])
                          /\ Val(lab) >= 0
AloneIsFree == (steps = 0 /\ Cardinality(LabelSet(lab)) = N) => Val(lab) = 0
=============================================================================
