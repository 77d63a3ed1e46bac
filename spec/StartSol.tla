------------------------------ MODULE StartSol ------------------------------
(***************************************************************************)
(* Random start solutions.  The p regions are distributed over the         *)
(* components of the map, then the components are delivered one by one,    *)
(* each divided into its number of connected regions.  Regions of          *)
(* different components have different numbers.  A delivery assigns        *)
(* Nothing to the areas outside of its component.                          *)
(***************************************************************************)
EXTENDS Regions

Nothing == -1

VARIABLES nb, p,
          share,     \* component -> number of regions
          left,      \* components not delivered yet
          used,      \* region numbers in use
          out        \* deliveries so far

svars == <<nb, p, share, left, used, out>>

Shares(comps, q) ==
  {s \in [comps -> 1..q] : /\ \A c \in comps : s[c] <= Cardinality(c)
                           /\ Sum(comps, LAMBDA c : s[c]) = q}

SStart(map, q) ==
  /\ nb = map /\ p = q
  /\ share \in Shares(Components(map), q)
  /\ left = Components(map) /\ used = {} /\ out = <<>>

(* division of component c into its share of regions, numbered by names *)
Deliver(c, lab) ==
  /\ c \in left
  /\ DOMAIN lab = DOMAIN nb
  /\ \A a \in DOMAIN lab : IF a \in c THEN lab[a] >= 0 ELSE lab[a] = Nothing
  /\ LET names == {lab[a] : a \in c} IN
     /\ Cardinality(names) = share[c]
     /\ names \cap used = {}
     /\ \A r \in names : Connected(nb, Region(lab, r))
     /\ used' = used \cup names
  /\ left' = left \ {c}
  /\ out' = Append(out, lab)
  /\ UNCHANGED <<nb, p, share>>

(* the start solution that the deliveries make up *)
Whole == [a \in DOMAIN nb |-> MaxOf({out[k][a] : k \in DOMAIN out} \cup {Nothing})]

Complete == left = {}
FeasibleWhenComplete == Complete => FeasibilityFault(nb, Whole, p) = "ok"
OneComponentAtATime ==
  \A k \in DOMAIN out : {a \in DOMAIN nb : out[k][a] # Nothing} \in Components(nb)
=============================================================================
