------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* What the input formats mean.                                            *)
(*                                                                         *)
(* Areas are 1..n.  The caller gives them names and passes them in some    *)
(* order (rows).  Labels come back position by position; Order says which  *)
(* area stands at which position:                                          *)
(*   sparse, fit, gdf   rows of the matrix or frame                        *)
(*   w                  the order of the ids                               *)
(*   nx                 the order of the nodes                             *)
(*   dict               sorted by name (rank[a]: position of a's name)     *)
(* The map of a frame of unit squares follows from the squares.            *)
(***************************************************************************)
EXTENDS Optimum

----------------------------------------------------------------------------
Touching(x, y, queen) ==
  LET dr == Abs(x[1] - y[1])
      dc == Abs(x[2] - y[2])
  IN  dr + dc = 1 \/ (queen /\ dr = 1 /\ dc = 1)

MapOf(c) ==
  IF c.fmt = "gdf"
  THEN TLCEval([a \in DOMAIN c.cells |->
                  {b \in DOMAIN c.cells : Touching(c.cells[a], c.cells[b], c.queen)}])
  ELSE ToMap(c.nb)

Order(c) ==
  IF c.fmt = "dict" THEN [k \in DOMAIN c.rank |-> CHOOSE a \in DOMAIN c.rank : c.rank[a] = k]
  ELSE c.rows

PositionOf(c, a) == LET o == TLCEval(Order(c)) IN CHOOSE k \in DOMAIN o : o[k] = a

(* position -> value   becomes   area -> value *)
ByArea(c, values) ==
  LET o == TLCEval(Order(c))
  IN  [a \in DOMAIN o |-> values[CHOOSE k \in DOMAIN o : o[k] = a]]
=============================================================================
