------------------------------ MODULE MC_AZP ------------------------------
(***************************************************************************)
(* All runs of AZP on all maps with N areas, all attributes in 0..V, all   *)
(* numbers of regions and all start solutions.                             *)
(***************************************************************************)
EXTENDS AZP, SmallMaps

CONSTANTS N, V
VARIABLE calm   \* moves since the last improvement or sweep

mcvars == <<vars, calm>>

Init ==
  \E nb \in ConnectedMaps(N), f \in Tables(N, V), l \in CanonicalLabels(N) :
     /\ FeasibilityFault(nb, l, -1) = "ok"
     /\ inst = [nb |-> nb, obj |-> [kind |-> "pairwise", metric |-> "manhattan",
                                    centre |-> "mean", red |-> "sum"],
                attr |-> f, D |-> DistTable("manhattan", f),
                p |-> Cardinality(LabelSet(l))]
     /\ Start(l)
     /\ calm = 0

Counted(A) == /\ A
              /\ calm' = IF lab' = lab /\ pc # "sweep" THEN calm
                         ELSE IF pc = "sweep" \/ Value(lab') < Value(lab) THEN 0
                         ELSE calm + 1

NextAZP == Counted(AZPNext)
NextAny == Counted(AnyNext)
SpecAZP == Init /\ [][NextAZP]_mcvars /\ WF_mcvars(NextAZP)

Terminates == <>(pc = "done")
(* between two improvements AZP makes fewer moves than areas times regions *)
BoundedCalm == calm <= N * inst.p
=============================================================================
