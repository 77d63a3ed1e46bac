----------------------------- MODULE SimAnneal -----------------------------
(***************************************************************************)
(* Simulated annealing around AZP: rounds of AZP runs.                     *)
(*   par.maxit   largest number of runs in a round (0: unlimited)          *)
(*   par.term    number of accepted worsening moves that ends a round      *)
(*   par.stop    number of rounds without any move that ends annealing     *)
(*   par.reps    number of earlier rounds that ended in the same solution  *)
(*               and end annealing                                         *)
(* A run starts in the current solution; the very first one may start in a *)
(* random solution which annealing does not know.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES par, pc,      \* "run", "done"
          sol,          \* current solution
          known,        \* the start of the next run is known to annealing
          round,        \* rounds completed: the temperature is T0 * cooling^round
          runs,         \* runs made in this round
          worse,        \* worsening moves accepted in this round
          moved,        \* a move was made in this round
          idle,         \* rounds without a move
          ends          \* solutions in which earlier rounds ended

avars == <<par, pc, sol, known, round, runs, worse, moved, idle, ends>>

AStart(s, k) ==
  /\ sol = s /\ known = k
  /\ pc = (IF par.stop > 0 THEN "run" ELSE "done")
  /\ round = 0 /\ runs = 0 /\ worse = 0 /\ moved = FALSE /\ idle = 0 /\ ends = <<>>

Occurrences(s) == Cardinality({k \in DOMAIN ends : ends[k] = s})

(* the AZP run ended in solution s, with w worsening moves, any moves: m *)
RunEnds(s, w, m) ==
  LET roundOver == \/ (par.maxit > 0 /\ runs + 1 >= par.maxit)
                   \/ worse + w >= par.term
                   \/ (known /\ s = sol)
      anyMove == moved \/ m
      recurs == Occurrences(s) >= par.reps
      idle1 == IF anyMove THEN idle ELSE idle + 1
  IN
  /\ pc = "run"
  /\ sol' = s /\ known' = TRUE
  /\ IF ~roundOver
     THEN /\ runs' = runs + 1 /\ worse' = worse + w /\ moved' = anyMove
          /\ UNCHANGED <<pc, round, idle, ends>>
     ELSE /\ runs' = 0 /\ worse' = 0 /\ moved' = FALSE
          /\ IF recurs
             THEN pc' = "done" /\ UNCHANGED <<round, idle, ends>>
             ELSE /\ ends' = Append(ends, s) /\ round' = round + 1
                  /\ idle' = idle1
                  /\ pc' = IF idle1 >= par.stop THEN "done" ELSE "run"
  /\ UNCHANGED par
=============================================================================
