---------------------------- MODULE MC_SimAnneal ----------------------------
(***************************************************************************)
(* Annealing over abstract solutions 1..S with different objective values: *)
(* a run without worsening moves ends no worse than it started.            *)
(***************************************************************************)
EXTENDS SimAnneal

CONSTANTS S, MaxIts, Terms, Stops, Reps
Sols == 1..S

Init ==
  /\ par \in [maxit : MaxIts, term : Terms, stop : Stops, reps : Reps]
  /\ \E s \in Sols, k \in BOOLEAN : AStart(s, k)

Next ==
  \E s \in Sols, w \in 0..2, m \in BOOLEAN :
     /\ (w > 0 \/ s # sol) => m
     /\ w = 0 => s <= sol      \* solutions are numbered by value
     /\ RunEnds(s, w, m)

Spec == Init /\ [][Next]_avars /\ WF_avars(Next)

Terminates == <>(pc = "done")
Bounded == round <= S * par.reps /\ idle <= par.stop /\ worse < par.term
NoRecurrence == \A s \in Sols : Occurrences(s) <= par.reps
RoundLimit == par.maxit > 0 => runs < par.maxit
UnchangedEndsRound == [][(pc = "run" /\ known /\ sol' = sol) => runs' = 0]_avars
CoolsOncePerRound == [][round' \in {round, round + 1}]_avars
=============================================================================
