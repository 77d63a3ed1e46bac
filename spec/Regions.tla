------------------------------ MODULE Regions ------------------------------
(***************************************************************************)
(* Vocabulary shared by all specifications of pysal/region.                *)
(*                                                                         *)
(* A map is a sequence nb of sets: nb[a] is the set of neighbours of area  *)
(* a (areas are 1..n).  A labelling lab is a function from areas to region *)
(* labels (integers).  Attributes are sequences of integers; instances are *)
(* chosen such that all values are exact integers.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
ToMap(nbseq) == TLCEval([a \in DOMAIN nbseq |-> Rng(nbseq[a])])

Sum(S, f(_)) == MapThenSumSet(f, S)
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

----------------------------------------------------------------------------
(* Connectivity *)

RECURSIVE Flood(_, _, _, _)
Flood(nb, S, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nxt == TLCEval(((UNION {nb[a] : a \in front}) \cap S) \ seen)
       IN  Flood(nb, S, TLCEval(seen \cup nxt), nxt)

ReachIn(nb, S, a) == Flood(nb, S, {a}, {a})
Connected(nb, S) == S # {} /\ ReachIn(nb, S, CHOOSE a \in S : TRUE) = S

RECURSIVE Parts(_, _)
(* the connected parts of the areas in S *)
Parts(nb, S) ==
  IF S = {} THEN {}
  ELSE LET c == TLCEval(ReachIn(nb, S, CHOOSE a \in S : TRUE))
       IN  {c} \cup Parts(nb, TLCEval(S \ c))

Components(nb) == Parts(nb, DOMAIN nb)

----------------------------------------------------------------------------
(* Regions *)

Region(lab, r) == {a \in DOMAIN lab : lab[a] = r}
LabelSet(lab) == {lab[a] : a \in DOMAIN lab}
Grouping(lab) == {Region(lab, r) : r \in LabelSet(lab)}

(* Name of the first broken clause of "lab is a regionalization of the map *)
(* into p regions", or "ok".  p < 0: the number of regions is free.        *)
FeasibilityFault(nb, lab, p) ==
  IF DOMAIN lab # DOMAIN nb THEN "not-every-area-labelled"
  ELSE IF p >= 0 /\ Cardinality(LabelSet(lab)) # p THEN "wrong-number-of-regions"
  ELSE IF \E r \in LabelSet(lab) : ~Connected(nb, Region(lab, r))
       THEN "disconnected-region"
  ELSE "ok"

Feasible(nb, lab, p) == FeasibilityFault(nb, lab, p) = "ok"

(* A request for p regions can be satisfied. *)
Satisfiable(nb, p) == /\ p <= Cardinality(DOMAIN nb)
                      /\ Cardinality(Components(nb)) <= p

(* Name of the broken clause of "area a may move to region r", or "ok". *)
MoveFault(nb, lab, a, r) ==
  LET rest == Region(lab, lab[a]) \ {a} IN
  IF r = lab[a] THEN "stays"
  ELSE IF r \notin {lab[b] : b \in nb[a]} THEN "region-not-bordering"
  ELSE IF rest = {} THEN "donor-emptied"
  ELSE IF ~Connected(nb, rest) THEN "donor-disconnected"
  ELSE "ok"

LegalMove(nb, lab, a, r) == MoveFault(nb, lab, a, r) = "ok"

(* Areas that may leave their region. *)
Movable(nb, lab) ==
  {a \in DOMAIN lab : LET rest == Region(lab, lab[a]) \ {a}
                      IN  rest # {} /\ Connected(nb, rest)}

LegalMoves(nb, lab) ==
  UNION {{<<a, r>> : r \in {lab[b] : b \in nb[a]} \ {lab[a]}} : a \in Movable(nb, lab)}

(* Areas that may join region r. *)
Candidates(nb, lab, r) == {a \in DOMAIN lab : LegalMove(nb, lab, a, r)}

Moved(lab, a, r) == [lab EXCEPT ![a] = r]

----------------------------------------------------------------------------
(* Dissimilarity.  The generators only use tables for which the values are *)
(* integers.                                                               *)

RECURSIVE ISqrtUp(_, _, _)
ISqrtUp(x, lo, hi) ==  \* largest r in lo..hi with r*r <= x
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF m * m <= x THEN ISqrtUp(x, m, hi) ELSE ISqrtUp(x, lo, m - 1)
ISqrt(x) == ISqrtUp(x, 0, 46340)

SqDist(x, y) == Sum(DOMAIN x, LAMBDA k : (x[k] - y[k]) * (x[k] - y[k]))
Dot(x, y) == Sum(DOMAIN x, LAMBDA k : x[k] * y[k])

Dist(metric, x, y) ==
  CASE metric \in {"manhattan", "cityblock", "l1"}
         -> Sum(DOMAIN x, LAMBDA k : Abs(x[k] - y[k]))
    [] metric \in {"euclidean", "l2"} -> ISqrt(SqDist(x, y))
    [] metric = "sqeuclidean" -> SqDist(x, y)
    [] metric = "first" -> Abs(x[1] - y[1])
    [] metric = "last" -> Abs(x[Len(x)] - y[Len(y)])
    [] metric = "chebyshev" -> MaxOf({Abs(x[k] - y[k]) : k \in DOMAIN x})
    [] metric = "cosine"
         -> 1 - (Dot(x, y) \div (ISqrt(Dot(x, x)) * ISqrt(Dot(y, y))))

DistTable(metric, attr) ==
  TLCEval([a \in DOMAIN attr |->
             TLCEval([b \in DOMAIN attr |-> Dist(metric, attr[a], attr[b])])])

----------------------------------------------------------------------------
(* Objective functions *)

SumTo(D, a, S) == Sum(S, LAMBDA b : D[a][b])
(* twice the sum over unordered pairs, halved *)
Within(D, S) == Sum(S, LAMBDA a : SumTo(D, a, S)) \div 2
PairObj(D, lab) == Sum(LabelSet(lab), LAMBDA r : Within(D, Region(lab, r)))
PairDelta(D, lab, a, r) ==
  SumTo(D, a, Region(lab, r) \ {a}) - SumTo(D, a, Region(lab, lab[a]) \ {a})

Reduce(red, f) ==
  LET total == Sum(DOMAIN f, LAMBDA x : f[x]) IN
  CASE red = "sum" -> total
    [] red = "mean" -> total \div Cardinality(DOMAIN f)
    [] red = "max" -> MaxOf({f[x] : x \in DOMAIN f})
    [] red = "min" -> MinOf({f[x] : x \in DOMAIN f})

RECURSIVE SortedSeq(_, _)
SortedSeq(f, S) ==  \* values f[x], x in S, in ascending order
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : f[x] <= f[y]
       IN  <<f[x]>> \o SortedSeq(f, S \ {x})

CentreOf(centre, attr, S) ==
  LET dim == DOMAIN attr[CHOOSE a \in S : TRUE]
      col(k) == TLCEval([a \in S |-> attr[a][k]])
      med(k) == LET s == SortedSeq(col(k), S)
                    m == Len(s)
                IN  IF m % 2 = 1 THEN s[(m + 1) \div 2]
                    ELSE (s[m \div 2] + s[(m \div 2) + 1]) \div 2
  IN  [k \in dim |-> IF centre = "median" THEN med(k) ELSE Reduce(centre, col(k))]

(* heterogeneity of one region *)
Het(o, attr, S) ==
  LET c == TLCEval(CentreOf(o.centre, attr, S))
  IN  Reduce(o.red, [a \in S |-> Dist(o.metric, attr[a], c)])
CentreObj(o, attr, lab) ==
  Reduce(o.red, [r \in LabelSet(lab) |-> Het(o, attr, Region(lab, r))])

(* o = [kind, metric, centre, red]; D is the distance table of o.metric *)
Obj(o, attr, D, lab) ==
  IF o.kind = "pairwise" THEN PairObj(D, lab) ELSE CentreObj(o, attr, lab)
Delta(o, attr, D, lab, a, r) ==
  IF o.kind = "pairwise" THEN PairDelta(D, lab, a, r)
  ELSE CentreObj(o, attr, Moved(lab, a, r)) - CentreObj(o, attr, lab)

----------------------------------------------------------------------------
(* Thresholds on spatially extensive attributes (max-p) *)

ExtSum(ext, S, k) == Sum(S, LAMBDA a : ext[a][k])
Reaches(ext, thr, S) == \A k \in DOMAIN thr : ExtSum(ext, S, k) >= thr[k]

----------------------------------------------------------------------------
(* All regionalizations of a (small) map *)

ConnectedSets(nb) == {S \in SUBSET DOMAIN nb : S # {} /\ Connected(nb, S)}

RECURSIVE PartitionsInto(_, _)
(* all partitions of S into sets that belong to Good *)
PartitionsInto(S, Good) ==
  IF S = {} THEN {{}}
  ELSE LET a == MinOf(S)
           first == {T \in Good : a \in T /\ T \subseteq S}
       IN  UNION {{{T} \cup P : P \in PartitionsInto(TLCEval(S \ T), Good)} : T \in first}

Regionalizations(nb) == PartitionsInto(DOMAIN nb, TLCEval(ConnectedSets(nb)))
=============================================================================
