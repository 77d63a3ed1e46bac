---------------------------- MODULE MC_BasicTabu ----------------------------
EXTENDS BasicTabu, SmallMaps
CONSTANTS N, V, Lens, Reps

Init ==
  \E nb \in ConnectedMaps(N), f \in Tables(N, V), l \in CanonicalLabels(N),
     len \in Lens, reps \in Reps :
     /\ FeasibilityFault(nb, l, -1) = "ok"
     /\ Cardinality(LabelSet(l)) > 1
     /\ inst = [nb |-> nb, obj |-> [kind |-> "pairwise", metric |-> "manhattan",
                                    centre |-> "mean", red |-> "sum"],
                attr |-> f, D |-> DistTable("manhattan", f),
                p |-> Cardinality(LabelSet(l)), len |-> len, reps |-> reps]
     /\ Start(l)
Spec == Init /\ [][TabuNext]_vars /\ WF_vars(TabuNext)
Terminates == <>(pc = "done")
=============================================================================
