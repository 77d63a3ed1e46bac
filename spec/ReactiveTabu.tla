---------------------------- MODULE ReactiveTabu ----------------------------
(***************************************************************************)
(* AZP with reactive tabu on one connected component, at the level its     *)
(* users see: a steepest descent over moves which are not forbidden.  It   *)
(* goes on only while the last iteration lowered the objective, for at     *)
(* most inst.maxit iterations, and returns the best solution.              *)
(*                                                                         *)
(* Because the search ends with the first iteration that does not lower    *)
(* the objective, no solution recurs before that iteration, so neither the *)
(* tabu length nor the random moves (k1, k2) can influence the result: the *)
(* forbidden move is the reverse of the last one.                          *)
(***************************************************************************)
EXTENDS Regions

VARIABLES inst, lab, pc,
          tabu,       \* forbidden moves
          it,         \* iterations made
          prev,       \* solution at the start of the last iteration
          result

vars == <<inst, lab, pc, tabu, it, prev, result>>

Value(l) == Obj(inst.obj, inst.attr, inst.D, l)
Change(a, r) == Delta(inst.obj, inst.attr, inst.D, lab, a, r)

Start(labels) ==
  /\ lab = labels /\ pc = "search" /\ tabu = {} /\ it = 0
  /\ prev = <<>> /\ result = <<>>

Allowed == {m \in LegalMoves(inst.nb, lab) : <<m[1], lab[m[1]], m[2]>> \notin tabu}
Lowered == IF prev = <<>> THEN TRUE ELSE Value(lab) < Value(prev)
Going == pc = "search" /\ it < inst.maxit /\ Lowered /\ Allowed # {}

Best == LET ch == TLCEval([m \in Allowed |-> Change(m[1], m[2])]) IN
        {m \in Allowed : ch[m] <= 0 /\ \A k \in Allowed : ch[m] <= ch[k]}

Move(a, r) ==
  /\ Going /\ <<a, r>> \in Best
  /\ lab' = Moved(lab, a, r) /\ tabu' = {<<a, r, lab[a]>>}
  /\ prev' = lab /\ it' = it + 1
  /\ UNCHANGED <<inst, pc, result>>

Stay ==
  /\ Going /\ Best = {}
  /\ prev' = lab /\ it' = it + 1
  /\ UNCHANGED <<inst, lab, pc, tabu, result>>

Finish ==
  /\ pc = "search" /\ ~Going
  /\ pc' = "done"
  /\ result' = IF Lowered THEN lab ELSE prev
  /\ UNCHANGED <<inst, lab, tabu, it, prev>>

ReactiveNext == Finish \/ Stay \/ (\E m \in LegalMoves(inst.nb, lab) : Move(m[1], m[2]))

----------------------------------------------------------------------------
Legal == [][lab' # lab =>
              \E a \in DOMAIN lab : /\ LegalMove(inst.nb, lab, a, lab'[a])
                                    /\ lab' = Moved(lab, a, lab'[a])]_vars
Regionalization == FeasibilityFault(inst.nb, lab, inst.p) = "ok"
Descent == [][Value(lab') <= Value(lab)]_vars
Bounded == it <= inst.maxit
(* with enough iterations the result is a local optimum, up to the move    *)
(* that was forbidden                                                      *)
LocalOptimum ==
  (pc = "done" /\ it < inst.maxit /\ result = lab) =>
     \A m \in Allowed : Change(m[1], m[2]) >= 0
NoBetterVisited == pc = "done" => Value(result) <= Value(lab)
=============================================================================
