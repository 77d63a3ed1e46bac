----------------------------- MODULE Instances -----------------------------
(***************************************************************************)
(* The instance spaces of the exhaustively explored machines, written to a *)
(* file so that the real code is run on the very same instances.           *)
(*   search   MC_AZP, MC_BasicTabu, MC_ReactiveTabu (here: all maps, not   *)
(*            only connected ones): map, attributes, start solution        *)
(*   start    MC_StartSol: map, number of regions                          *)
(*   maxp     MC_MaxP: map, attributes, extensive attributes, threshold    *)
(*   skater   MC_Skater: map, attributes, quorum, number of regions        *)
(*   exact    map, attributes, number of regions                           *)
(***************************************************************************)
EXTENDS SmallMaps, SequencesExt, Json, IOUtils

CONSTANTS Kind, N, V, X, T

Plain(nb) == [a \in DOMAIN nb |-> SetToSortSeq(nb[a], <)]

(* what varies besides the attributes *)
Bases(nb) ==
  LET C == TLCEval(Components(nb)) IN
  CASE Kind = "search" ->
         {[nb |-> Plain(nb), start |-> l] :
            l \in {l \in CanonicalLabels(N) : FeasibilityFault(nb, l, -1) = "ok"}}
    [] Kind \in {"start", "exact"} ->
         {[nb |-> Plain(nb), p |-> p] : p \in Cardinality(C)..N}
    [] Kind = "maxp" ->
         {[nb |-> Plain(nb), ext |-> m[1], thr |-> <<m[2]>>] :
            m \in {m \in AttrTables(N, X) \X (0..T) : \A S \in C : Reaches(m[1], <<m[2]>>, S)}}
    [] Kind = "skater" ->
         {[nb |-> Plain(nb), quorum |-> m[1], n |-> m[2]] :
            m \in {m \in (0..N) \X (1..N) : \A S \in C : Cardinality(S) >= m[1]}}

(* the instances are all pairs of a base and an attribute table *)
VARIABLE written
Init == written = FALSE
Next == /\ ~written
        /\ LET maps == TLCEval(SetToSeq(AllMaps(N)))
               bases == TLCEval([k \in DOMAIN maps |-> SetToSeq(Bases(maps[k]))])
           IN JsonSerialize(IOEnv.OUT, [bases |-> bases, tables |-> SetToSeq(Tables(N, V))])
        /\ written' = TRUE
=============================================================================
