------------------------------ MODULE MC_Skater ------------------------------
(* Skater on all maps of N areas, attributes 0..V, quorums and targets. *)
EXTENDS Skater, SmallMaps

CONSTANTS N, V

Obj0 == [kind |-> "centre", metric |-> "manhattan", centre |-> "max", red |-> "sum"]

MCInit ==
  \E nb \in AllMaps(N), f \in Tables(N, V), q \in 0..N, n \in 1..N :
    /\ ~Refused(nb, q)
    /\ inst = [nb |-> nb, D |-> DistTable("manhattan", f), attr |-> f, obj |-> Obj0,
               quorum |-> q, target |-> Target(nb, n, "ignore")]
    /\ \E F \in SUBSET MapEdges(nb) : Start(F)

MCSpec == MCInit /\ [][Next]_skvars /\ WF_skvars(Next)
Ends == <>(pc \in {"done", "stuck"})
=============================================================================
