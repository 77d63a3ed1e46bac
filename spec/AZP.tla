-------------------------------- MODULE AZP --------------------------------
(***************************************************************************)
(* The AZP algorithm of Openshaw & Rao on one connected component.         *)
(*                                                                         *)
(* A sweep takes every region once, in any order, as recipient.  The areas *)
(* that may legally join the recipient are offered to a move rule in any   *)
(* order; an accepted area moves at once and the candidates are determined *)
(* anew, a rejected one is not offered again until the next move.  When    *)
(* the rule has rejected all candidates the next recipient is taken.       *)
(* Another sweep follows iff the last one lowered the objective.           *)
(***************************************************************************)
EXTENDS Regions

VARIABLES inst,     \* the instance: map, objective, attributes (constant)
          lab,      \* current labels
          pc,       \* "sweep", "pick", "offer", "done"
          todo,     \* regions not yet taken as recipient in this sweep
          rec,      \* current recipient
          cand,     \* candidates not yet offered
          objStart, \* objective at the start of the sweep
          tied      \* an equal-value move was made in this sweep

vars == <<inst, lab, pc, todo, rec, cand, objStart, tied>>

Value(l) == Obj(inst.obj, inst.attr, inst.D, l)
Change(a, r) == Delta(inst.obj, inst.attr, inst.D, lab, a, r)
NoRegion == -1

Start(labels) ==
  /\ lab = labels
  /\ pc = "sweep" /\ todo = {} /\ rec = NoRegion /\ cand = {}
  /\ objStart = Value(labels)
  /\ tied = FALSE

BeginSweep ==
  /\ pc = "sweep"
  /\ pc' = "pick" /\ todo' = LabelSet(lab) /\ objStart' = Value(lab) /\ tied' = FALSE
  /\ UNCHANGED <<inst, lab, rec, cand>>

Pick(r) ==
  /\ pc = "pick" /\ r \in todo
  /\ todo' = todo \ {r} /\ rec' = r /\ cand' = Candidates(inst.nb, lab, r)
  /\ pc' = "offer"
  /\ UNCHANGED <<inst, lab, objStart, tied>>

(* the rule's decision about candidate a *)
Offer(a, accepted) ==
  /\ pc = "offer" /\ a \in cand
  /\ IF accepted
     THEN /\ lab' = Moved(lab, a, rec)
          /\ cand' = Candidates(inst.nb, lab', rec)
          /\ tied' = (tied \/ Change(a, rec) = 0)
     ELSE /\ cand' = cand \ {a}
          /\ UNCHANGED <<lab, tied>>
  /\ UNCHANGED <<inst, pc, todo, rec, objStart>>

Exhausted ==
  /\ pc = "offer" /\ cand = {} /\ todo # {}
  /\ pc' = "pick" /\ rec' = NoRegion
  /\ UNCHANGED <<inst, lab, todo, cand, objStart, tied>>

EndSweep ==
  /\ pc = "offer" /\ cand = {} /\ todo = {}
  /\ pc' = IF Value(lab) < objStart THEN "sweep" ELSE "done"
  /\ rec' = NoRegion
  /\ UNCHANGED <<inst, lab, todo, cand, objStart, tied>>

(* AZP's own rule: take every move that does not worsen the objective *)
AZPRule(a) == Change(a, rec) <= 0

Silent == BeginSweep \/ (\E r \in todo : Pick(r)) \/ Exhausted \/ EndSweep
AZPNext == Silent \/ (\E a \in cand : Offer(a, AZPRule(a)))
(* any other rule *)
AnyNext == Silent \/ (\E a \in cand, d \in BOOLEAN : Offer(a, d))

----------------------------------------------------------------------------
(* Properties *)

Legal == [][lab' # lab =>
              \E a \in DOMAIN lab : /\ LegalMove(inst.nb, lab, a, lab'[a])
                                    /\ lab' = Moved(lab, a, lab'[a])]_vars
Regionalization == FeasibilityFault(inst.nb, lab, inst.p) = "ok"
Descent == [][Value(lab') <= Value(lab)]_vars
LocalOptimum ==
  (pc = "done" /\ ~tied) =>
     \A m \in LegalMoves(inst.nb, lab) : Change(m[1], m[2]) > 0
=============================================================================
