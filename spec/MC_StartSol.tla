---------------------------- MODULE MC_StartSol ----------------------------
EXTENDS StartSol, SmallMaps
CONSTANT N

Init == \E map \in AllMaps(N), q \in 1..N : Satisfiable(map, q) /\ SStart(map, q)

(* all labellings of component c by the next free numbers *)
Labellings(c) ==
  {[a \in DOMAIN nb |-> IF a \in c THEN f[a] ELSE Nothing] :
     f \in [c -> Cardinality(used)..(Cardinality(used) + share[c] - 1)]}

Next == \E c \in left : \E lab \in Labellings(c) : Deliver(c, lab)
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)
(* every satisfiable request can be completed, whatever has been delivered *)
NeverStuck == left # {} => ENABLED Next
AllDelivered == <>Complete
=============================================================================
