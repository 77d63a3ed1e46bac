----------------------------- MODULE BasicTabu -----------------------------
(***************************************************************************)
(* AZP with a basic tabu list on one connected component.                  *)
(*                                                                         *)
(* inst.len: length of the tabu list (< 0: unlimited); inst.reps: number   *)
(* of earlier occurrences of the current solution that end the search.     *)
(***************************************************************************)
EXTENDS Regions

VARIABLES inst, lab, pc,
          tabu,      \* forbidden moves <<area, from, to>>, latest last
          visits     \* how often each solution has been current

vars == <<inst, lab, pc, tabu, visits>>

Value(l) == Obj(inst.obj, inst.attr, inst.D, l)
Change(a, r) == Delta(inst.obj, inst.attr, inst.D, lab, a, r)

Start(labels) ==
  /\ lab = labels /\ pc = "search" /\ tabu = <<>> /\ visits = << >>

Seen(l) == IF l \in DOMAIN visits THEN visits[l] ELSE 0
Visit == visits' = (lab :> (Seen(lab) + 1)) @@ visits

Trim(s) == IF inst.len >= 0 /\ Len(s) > inst.len
           THEN SubSeq(s, Len(s) - inst.len + 1, Len(s)) ELSE s
Forbid(a, r) == Trim(Append(tabu, <<a, r, lab[a]>>))

Allowed == {m \in LegalMoves(inst.nb, lab) : <<m[1], lab[m[1]], m[2]>> \notin Rng(tabu)}
(* best moves that are not forbidden; those that would worsen are not made *)
Best == LET ch == TLCEval([m \in Allowed |-> Change(m[1], m[2])]) IN
        {m \in Allowed : ch[m] <= 0 /\ \A k \in Allowed : ch[m] <= ch[k]}
(* forbidden moves that improve; some may turn out to be illegal *)
Aspirations ==
  {<<m[1], m[3]>> : m \in {m \in Rng(tabu) :
      /\ lab[m[1]] = m[2]
      /\ Cardinality(Region(lab, m[2])) > 1
      /\ Change(m[1], m[3]) < 0}}

Going == pc = "search" /\ Seen(lab) < inst.reps

Finish ==
  /\ pc = "search" /\ Seen(lab) >= inst.reps
  /\ pc' = "done"
  /\ UNCHANGED <<inst, lab, tabu, visits>>

Move(a, r) ==
  /\ Going
  /\ IF Best # {} THEN <<a, r>> \in Best
     ELSE <<a, r>> \in Aspirations /\ LegalMove(inst.nb, lab, a, r)
  /\ lab' = Moved(lab, a, r) /\ tabu' = Forbid(a, r) /\ Visit
  /\ UNCHANGED <<inst, pc>>

(* an iteration without a move; an attempted one may have been recorded *)
Stay ==
  /\ Going /\ Best = {}
  /\ \/ Aspirations = {} /\ UNCHANGED tabu
     \/ \E m \in Aspirations : /\ ~LegalMove(inst.nb, lab, m[1], m[2])
                               /\ tabu' \in {tabu, Forbid(m[1], m[2])}
  /\ Visit
  /\ UNCHANGED <<inst, lab, pc>>

TabuNext == Finish \/ Stay \/ (\E m \in LegalMoves(inst.nb, lab) : Move(m[1], m[2]))

----------------------------------------------------------------------------
Legal == [][lab' # lab =>
              \E a \in DOMAIN lab : /\ LegalMove(inst.nb, lab, a, lab'[a])
                                    /\ lab' = Moved(lab, a, lab'[a])]_vars
Regionalization == FeasibilityFault(inst.nb, lab, inst.p) = "ok"
Descent == [][Value(lab') <= Value(lab)]_vars
(* a move that undoes one of the latest moves is taken only if it improves *)
Honoured == [][\A a \in DOMAIN lab :
                 (lab'[a] # lab[a] /\ <<a, lab[a], lab'[a]>> \in Rng(tabu))
                    => Value(lab') < Value(lab)]_vars
BoundedVisits == \A l \in DOMAIN visits : visits[l] <= inst.reps
=============================================================================
