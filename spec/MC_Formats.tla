----------------------------- MODULE MC_Formats -----------------------------
(***************************************************************************)
(* A caller describes a map piece by piece, a reader turns the description *)
(* into a matrix and tables, an algorithm labels the positions.            *)
(*                                                                         *)
(* Fmt "nx":   areas are added one by one or with an edge; values are      *)
(*             attached to areas in any order.                             *)
(* Fmt "dict": areas are added with all their neighbours, values are       *)
(*             stored under names in any order.                            *)
(* A reader lists the areas by name ("sorted"), in the order of the map    *)
(* ("nodes") or in the order of the values ("values").  MapBy, ValuesBy:   *)
(* how the reader lists the areas for the matrix and for the values.       *)
(***************************************************************************)
EXTENDS Formats, SequencesExt
CONSTANTS N, Fmt, MapBy, ValuesBy

Areas == 1..N
Perms == {f \in [Areas -> Areas] : \A a, b \in Areas : f[a] = f[b] => a = b}
VARIABLES rank, nb, nodes, values, done, mat, table

vars == <<rank, nb, nodes, values, done, mat, table>>

Maps == {m \in [Areas -> SUBSET Areas] : \A a, b \in Areas : /\ a \notin m[a]
                                                            /\ (b \in m[a]) = (a \in m[b])}
Init == /\ rank \in Perms /\ nb \in Maps
        /\ nodes = <<>> /\ values = <<>> /\ done = FALSE
        /\ mat = <<>> /\ table = <<>>

Put(seq, a) == IF a \in Rng(seq) THEN seq ELSE Append(seq, a)

AddArea == \E a \in Areas \ Rng(nodes) :
             /\ nodes' = Append(nodes, a)
             /\ UNCHANGED <<rank, nb, values, done, mat, table>>
AddEdge == /\ Fmt = "nx"
           /\ \E a \in Areas : \E b \in nb[a] :
                /\ nodes' = Put(Put(nodes, a), b)
                /\ nodes' # nodes
                /\ UNCHANGED <<rank, nb, values, done, mat, table>>
AddValue == \E a \in Areas \ Rng(values) :
              /\ Fmt = "nx" => Rng(nodes) = Areas
              /\ Fmt = "dict" => Rng(nodes) = Areas
              /\ values' = Append(values, a)
              /\ UNCHANGED <<rank, nb, nodes, done, mat, table>>

Sorted == [k \in Areas |-> CHOOSE a \in Areas : rank[a] = k]
Listing(how) == CASE how = "sorted" -> Sorted
                  [] how = "nodes" -> nodes
                  [] how = "values" -> values

Read == /\ Len(nodes) = N /\ Len(values) = N /\ ~done
        /\ done' = TRUE
        /\ mat' = LET l == Listing(MapBy) IN [k \in Areas |-> {m \in Areas : l[m] \in nb[l[k]]}]
        /\ table' = Listing(ValuesBy)
        /\ UNCHANGED <<rank, nb, nodes, values>>

Next == AddArea \/ AddEdge \/ AddValue \/ Read
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Case == [fmt |-> Fmt, rank |-> rank, rows |-> nodes]

(* the matrix is the map, in the order the labels come back *)
MatrixIsMap == done => LET o == Order(Case) IN
                 \A k, m \in Areas : (m \in mat[k]) = (o[m] \in nb[o[k]])
(* each position has the values of the area whose neighbours it has *)
ValuesAligned == done => table = Order(Case)
(* a labelling of the positions that is feasible for the matrix is feasible *)
(* for the areas                                                            *)
LabelsByArea ==
  done => \A lab \in [Areas -> 1..2] :
            FeasibilityFault(mat, lab, -1) = FeasibilityFault(nb, ByArea(Case, lab), -1)
=============================================================================
