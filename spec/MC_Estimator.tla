---------------------------- MODULE MC_Estimator ----------------------------
(***************************************************************************)
(* An estimator object that works step by step - check the arguments, copy *)
(* what will be changed, forget the last fit, move areas, assign the       *)
(* labels - and may be broken off by a callback before each step.  The     *)
(* caller keeps the start labels and every answer in cells of its own and  *)
(* passes answers on as start labels of later fits.                        *)
(* Checked: it implements Estimator.tla (seen by the user), cells of the   *)
(* caller never change, and every fit ends.                                *)
(***************************************************************************)
EXTENDS SmallMaps

CONSTANTS N, Fits, Copies, Forgets,
          PublishesLast   \* labels appear when the fit is over

VARIABLES labels, memo,     \* what the user sees (Estimator.tla)
          pc, req, key,     \* the fit that is running
          heap,             \* cells; <<>> is not used yet
          owned,            \* cells the caller holds, with the value it was given
          work, tabu, shown, left
vars == <<labels, memo, pc, req, key, heap, owned, work, tabu, shown, left>>

User == INSTANCE Estimator

Maps == ConnectedMaps(N)
Starts == {[a \in 1..N |-> IF a = N THEN 1 ELSE 0], [a \in 1..N |-> IF a = 1 THEN 1 ELSE 0]}

(* requests: malformed, unsatisfiable and good ones; the start is a cell or 0 *)
Requests ==
  {[what |-> "pregions", nb |-> nb, p |-> p, cell |-> c, ext |-> <<>>, thr |-> <<>>,
    quorum |-> 0, malformed |-> m, rnd |-> r] :
      nb \in Maps, p \in {2, N + 1}, c \in 0..Len(heap), m \in BOOLEAN, r \in {0, 1}}

Req(q) == [what |-> q.what, nb |-> q.nb, p |-> q.p, ext |-> q.ext, thr |-> q.thr,
           quorum |-> q.quorum, malformed |-> q.malformed,
           start |-> IF q.cell = 0 THEN User!None ELSE heap[q.cell]]

KeyOf(q) == ToString(<<q.nb, q.p, q.malformed, q.rnd,
                       IF q.cell = 0 THEN User!None ELSE heap[q.cell]>>)

Init ==
  /\ labels = [o \in {1} |-> User!None] /\ memo = [k \in {} |-> User!None]
  /\ \E s \in Starts : heap = <<s>> /\ owned = [c \in {1} |-> s]
  /\ pc = "idle" /\ req = 0 /\ key = ""
  /\ work = 0 /\ tabu = {} /\ shown = 0 /\ left = Fits

Call ==
  /\ pc = "idle" /\ left > 0
  /\ \E q \in Requests :
       /\ req' = [q |-> q, abs |-> Req(q)] /\ key' = KeyOf(q)
       /\ pc' = "check"
  /\ left' = left - 1
  /\ UNCHANGED <<labels, memo, heap, owned, work, tabu, shown>>

Check ==
  /\ pc = "check"
  /\ pc' = IF User!MustAccept(req.abs, req.abs.nb) THEN "forget" ELSE "refused"
  /\ UNCHANGED <<labels, memo, req, key, heap, owned, work, tabu, shown, left>>

Refused ==
  /\ pc = "refused"
  /\ pc' = "idle"
  /\ memo' = IF User!Known(key) THEN memo ELSE memo @@ (key :> User!Refusal)
  /\ UNCHANGED <<labels, req, key, heap, owned, work, tabu, shown, left>>

Forget ==
  /\ pc = "forget"
  /\ tabu' = IF Forgets THEN {} ELSE tabu
  /\ pc' = "copy"
  /\ UNCHANGED <<labels, memo, req, key, heap, owned, work, shown, left>>

(* a start solution drawn with the random number of the request *)
Drawn(q) == IF q.rnd = 0 THEN [a \in 1..N |-> IF a = 1 THEN 0 ELSE 1]
            ELSE [a \in 1..N |-> IF a = N THEN 0 ELSE 1]
Usable(q) == IF Feasible(q.nb, Drawn(q), q.p) THEN Drawn(q)
             ELSE CHOOSE s \in [1..N -> 0..1] : Feasible(q.nb, s, q.p)

Copy ==
  /\ pc = "copy"
  /\ LET q == req.q IN
     IF q.cell # 0 /\ ~Copies
     THEN work' = q.cell /\ UNCHANGED heap
     ELSE /\ heap' = Append(heap, IF q.cell = 0 THEN Usable(q) ELSE heap[q.cell])
          /\ work' = Len(heap) + 1
  /\ pc' = "move"
  /\ labels' = IF PublishesLast THEN labels ELSE [labels EXCEPT ![1] = heap'[work']]
  /\ UNCHANGED <<memo, req, key, owned, tabu, shown, left>>

(* the next move is a function of the solution, the random number and the memory *)
Open == {m \in LegalMoves(req.q.nb, heap[work]) : m \notin tabu}
Pick == IF req.q.rnd = 0
        THEN CHOOSE m \in Open : \A k \in Open : m[1] < k[1] \/ (m[1] = k[1] /\ m[2] <= k[2])
        ELSE CHOOSE m \in Open : \A k \in Open : m[1] > k[1] \/ (m[1] = k[1] /\ m[2] >= k[2])

Move ==
  /\ pc = "move"
  /\ IF Open = {} \/ Cardinality(tabu) > 1
     THEN pc' = "assign" /\ UNCHANGED <<heap, tabu>>
     ELSE /\ heap' = [heap EXCEPT ![work] = Moved(@, Pick[1], Pick[2])]
          /\ tabu' = tabu \cup {<<Pick[1], heap[work][Pick[1]]>>}
          /\ UNCHANGED pc
  /\ UNCHANGED <<labels, memo, req, key, owned, work, shown, left>>

Assign ==
  /\ pc = "assign"
  /\ shown' = work
  /\ labels' = [labels EXCEPT ![1] = heap[work]]
  /\ memo' = IF User!Known(key) THEN memo ELSE memo @@ (key :> heap[work])
  /\ owned' = owned @@ (work :> heap[work])    \* the caller keeps the answer
  /\ pc' = "idle"
  /\ UNCHANGED <<req, key, heap, work, tabu, left>>

Break ==
  /\ pc \in {"check", "forget", "copy", "move"}
  /\ pc' = "idle"
  /\ UNCHANGED <<labels, memo, req, key, heap, owned, work, tabu, shown, left>>

Next == Call \/ Check \/ Refused \/ Forget \/ Copy \/ Move \/ Assign \/ Break

Spec == Init /\ [][Next]_vars /\ WF_vars(Check \/ Refused \/ Forget \/ Copy \/ Move \/ Assign)

----------------------------------------------------------------------------
(* the steps a user sees are steps of Estimator.tla *)
Refines ==
  [][IF pc = "assign" THEN User!Accept(1, req.abs, req.abs.nb, labels'[1], key)
     ELSE IF pc = "refused" THEN User!Refuse(1, req.abs, req.abs.nb, key)
     ELSE User!Abort(1)]_vars

CallersCells == \A c \in DOMAIN owned : heap[c] = owned[c]
ShownIsLabels == shown # 0 => heap[shown] = labels[1]
Ends == [](pc # "idle" => <>(pc = "idle"))
=============================================================================
