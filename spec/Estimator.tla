----------------------------- MODULE Estimator -----------------------------
(***************************************************************************)
(* One or several estimator objects as their user sees them: a history of  *)
(* fits.  A request is a record                                            *)
(*   what       "pregions", "maxp", "skater", "call"                       *)
(*   nb, p, start (<<>>: random), ext, thr, quorum                         *)
(*   malformed  an argument is outside of its documented domain            *)
(* The state is what the user can observe:                                 *)
(*   labels     labels of the last successful fit of each object           *)
(*   memo       answers that were given; requests that agree in everything *)
(*              an answer may depend on have the same key                  *)
(***************************************************************************)
EXTENDS Regions

VARIABLES labels, memo

None == <<>>

(* what a request may be answered with *)
StartOK(q, nb) == q.start = None \/ Feasible(nb, q.start, q.p)
ThrOK(q, nb) == \A C \in Components(nb) : Reaches(q.ext, q.thr, C)

Satisfied(q, nb) ==
  CASE q.what = "pregions" -> Satisfiable(nb, q.p) /\ StartOK(q, nb)
    [] q.what = "maxp" -> ThrOK(q, nb)
    [] q.what = "skater" -> \A C \in Components(nb) : Cardinality(C) >= q.quorum
    [] q.what = "call" -> TRUE

MustAccept(q, nb) == ~q.malformed /\ Satisfied(q, nb)
(* a connected map that is smaller than the quorum may be returned as one region *)
MayAccept(q, nb) ==
  ~q.malformed /\ (Satisfied(q, nb) \/ (q.what = "skater" /\ Cardinality(Components(nb)) = 1))

AnswerFault(q, nb, lab) ==
  IF q.what = "call" THEN "ok"
  ELSE IF lab = None THEN "labels-are-not-labels"
  ELSE IF q.what = "pregions" THEN FeasibilityFault(nb, lab, q.p)
  ELSE LET f == FeasibilityFault(nb, lab, -1) IN
       IF f # "ok" THEN f
       ELSE IF q.what = "maxp" /\ \E S \in Grouping(lab) : ~Reaches(q.ext, q.thr, S)
       THEN "threshold-not-reached" ELSE "ok"

Answer(q, nb, lab) == AnswerFault(q, nb, lab) = "ok"

----------------------------------------------------------------------------
(* transitions *)

Refusal == <<-99>>     \* answer of a request that is refused
Known(key) == key # "" /\ key \in DOMAIN memo
Agrees(key, ans) == Known(key) => memo[key] = ans

Show(o, q, lab) == labels' = [labels EXCEPT ![o] = IF q.what = "call" THEN @ ELSE lab]
Remember(key, ans) ==
  memo' = IF key = "" \/ Known(key) THEN memo ELSE memo @@ (key :> ans)

(* object o accepts q and from now on shows lab *)
Accept(o, q, nb, lab, key) ==
  /\ MayAccept(q, nb)
  /\ Answer(q, nb, lab)
  /\ Agrees(key, lab)
  /\ Show(o, q, lab)
  /\ Remember(key, lab)

(* object o refuses q and shows what it showed before *)
Refuse(o, q, nb, key) ==
  /\ ~MustAccept(q, nb)
  /\ Agrees(key, Refusal)
  /\ UNCHANGED labels
  /\ Remember(key, Refusal)

(* a callback of the user breaks the fit off *)
Abort(o) == UNCHANGED <<labels, memo>>
=============================================================================
