-------------------------- MODULE MC_ReactiveTabu --------------------------
EXTENDS ReactiveTabu, SmallMaps
CONSTANTS N, V, MaxIts
VARIABLE seen   \* all solutions so far

mcvars == <<vars, seen>>
Init ==
  \E nb \in ConnectedMaps(N), f \in Tables(N, V), l \in CanonicalLabels(N), m \in MaxIts :
     /\ FeasibilityFault(nb, l, -1) = "ok"
     /\ Cardinality(LabelSet(l)) > 1
     /\ inst = [nb |-> nb, obj |-> [kind |-> "pairwise", metric |-> "manhattan",
                                    centre |-> "mean", red |-> "sum"],
                attr |-> f, D |-> DistTable("manhattan", f),
                p |-> Cardinality(LabelSet(l)), maxit |-> m]
     /\ Start(l)
     /\ seen = {l}
Next == ReactiveNext /\ seen' = seen \cup {lab'}
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)
Terminates == <>(pc = "done")
BestVisited == pc = "done" => \A l \in seen : Value(result) <= Value(l)
ResultVisited == pc = "done" => result \in seen
=============================================================================
