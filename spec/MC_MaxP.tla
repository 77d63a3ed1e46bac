------------------------------- MODULE MC_MaxP -------------------------------
(* The max-p heuristic on all maps of N areas, all attributes, thresholds. *)
EXTENDS MaxP, SmallMaps
CONSTANTS N, V, X, T

VARIABLES seq,    \* regions in the order of construction
          rest    \* areas left over by the construction

hvars == <<mpvars, seq, rest>>

MCInit ==
  \E nb \in AllMaps(N), f \in Tables(N, V), e \in AttrTables(N, X), t \in 0..T :
    /\ SatisfiableThr(nb, e, <<t>>)
    /\ inst = [nb |-> nb, D |-> DistTable("manhattan", f), ext |-> e, thr |-> <<t>>]
    /\ Start /\ seq = <<>> /\ rest = {}

Noted(A) == /\ A
            /\ seq' = IF pc = "grow" /\ pc' = "seed" /\ parts' # parts
                      THEN Append(seq, grown) ELSE seq
            /\ rest' = IF pc = "seed" /\ pc' = "assign" THEN over ELSE rest

MCNext == Noted(Next)
MCBuilding == Noted(Building)
MCSpec == MCInit /\ [][MCNext]_hvars
(* without the search, that may go on with equal-value moves *)
BuildSpec == MCInit /\ [][MCBuilding]_hvars /\ WF_hvars(MCBuilding)
Ends == <>(pc = "search")

(* the judgement of recorded constructions accepts all constructions *)
Labels(P) == [a \in DOMAIN inst.nb |-> MinOf(CHOOSE S \in P : a \in S)]
Recognised == pc = "assign" /\ over = rest => ConstructionFault(inst, seq, rest) = "ok"
RecognisedToo == pc = "assign" /\ over = {} =>
                   Assignable(inst, Rng(seq), rest, Labels(parts))
=============================================================================
