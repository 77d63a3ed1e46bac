----------------------------- MODULE SmallMaps -----------------------------
(* All small instances, for exhaustive exploration. *)
EXTENDS Regions

Pairs(N) == {<<a, b>> \in (1..N) \X (1..N) : a < b}
MapOf(N, E) == [a \in 1..N |-> {b \in 1..N : <<a, b>> \in E \/ <<b, a>> \in E}]
AllMaps(N) == {MapOf(N, E) : E \in SUBSET Pairs(N)}
ConnectedMaps(N) == {nb \in AllMaps(N) : Connected(nb, 1..N)}
(* one attribute per area, values 0..V *)
AttrTables(N, V) == {[a \in 1..N |-> <<f[a]>>] : f \in [1..N -> 0..V]}
(* one attribute per area, all different and without equal differences *)
SpreadTables(N) ==
  {[a \in 1..N |-> <<2^f[a] - 1>>] : f \in {g \in [1..N -> 0..(N - 1)] :
      \A a, b \in 1..N : a # b => g[a] # g[b]}}
Tables(N, V) == IF V = 99 THEN SpreadTables(N) ELSE AttrTables(N, V)
(* label functions numbering the regions in order of their smallest area *)
CanonicalLabels(N) ==
  {l \in [1..N -> 0..(N - 1)] :
     /\ l[1] = 0
     /\ \A a \in 2..N : l[a] <= 1 + MaxOf({l[b] : b \in 1..(a - 1)})}
=============================================================================
