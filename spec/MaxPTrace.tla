----------------------------- MODULE MaxPTrace -----------------------------
(***************************************************************************)
(* Judges recorded fits of the max-p heuristic and decisions of its move   *)
(* rule.                                                                   *)
(* mode "ends": as "fit", the labels do not matter                          *)
(* mode "fit": nb, attr, obj, ext, thr, kind, labels, mayrun               *)
(* mode "build": additionally                                              *)
(*   built   constructions in order: [seq, rest (lists of areas)]          *)
(*   joined  complete regionalizations: [from (index of a construction),   *)
(*           regions]                                                      *)
(*   azp     the local search is AZP; tied: it met an equal-value move     *)
(* mode "rule": lab, moves [area, region, allowed, wouldallow]             *)
(***************************************************************************)
EXTENDS MaxP, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

Sets(l) == {Rng(x) : x \in Rng(l)}
SeqOfSets(l) == TLCEval([k \in DOMAIN l |-> Rng(l[k])])

FitFault(c, nb) ==
  IF ~SatisfiableThr(nb, c.ext, c.thr)
  THEN IF c.kind = "ok" THEN "labels-for-an-unsatisfiable-request"
       ELSE IF c.kind = "error" THEN "ok" ELSE "does-not-end"
  ELSE IF c.kind = "timeout" THEN IF c.mayrun THEN "ok" ELSE "does-not-end"
  ELSE IF c.kind # "ok" THEN "satisfiable-request-refused"
  ELSE IF c.mode = "ends" THEN "ok"
  ELSE IF c.labels = <<>> THEN "labels-are-not-labels"
  ELSE LET f == FeasibilityFault(nb, c.labels, -1) IN
       IF f # "ok" THEN f
       ELSE IF \E S \in Grouping(c.labels) : ~Reaches(c.ext, c.thr, S)
       THEN "threshold-not-reached"
       ELSE "ok"

Keeps(c, a, r) ==
  /\ Reaches(c.ext, c.thr, Region(c.labels, c.labels[a]) \ {a})
  /\ Reaches(c.ext, c.thr, Region(c.labels, r) \cup {a})

BuildFault(c, nb) ==
  LET D == DistTable(c.obj.metric, c.attr)
      in == TLCEval([nb |-> nb, D |-> D, ext |-> c.ext, thr |-> c.thr])
      seqs == TLCEval([k \in DOMAIN c.built |-> SeqOfSets(c.built[k].seq)])
      rest(k) == Rng(c.built[k].rest)
      most == MaxOf({Len(seqs[k]) : k \in DOMAIN seqs})
      whole == TLCEval([k \in DOMAIN c.joined |-> Sets(c.joined[k].regions)])
      labelOf(P) == TLCEval([a \in DOMAIN nb |-> MinOf(CHOOSE S \in P : a \in S)])
      good(k) == /\ UNION whole[k] = DOMAIN nb
                 /\ \A S, T \in whole[k] : S = T \/ S \cap T = {}
      badBuilt == {k \in DOMAIN seqs : ConstructionFault(in, seqs[k], rest(k)) # "ok"}
      final == Obj(c.obj, c.attr, D, c.labels)
      tops == {k \in DOMAIN whole : Cardinality(whole[k]) = most}
      pre == FitFault(c, nb)
  IN
  IF pre # "ok" \/ c.kind # "ok" THEN pre
  ELSE IF seqs = <<>> THEN "ok"    \* construction not observable
  ELSE IF badBuilt # {}
  THEN ConstructionFault(in, seqs[MinOf(badBuilt)], rest(MinOf(badBuilt)))
  ELSE IF \E k \in DOMAIN whole : ~good(k) THEN "assignment-loses-areas"
  ELSE IF \E k \in DOMAIN whole :
            /\ Cardinality(rest(c.joined[k].from)) <= 6
            /\ ~Assignable(in, Rng(seqs[c.joined[k].from]), rest(c.joined[k].from),
                           labelOf(whole[k]))
  THEN "left-over-area-not-joined-by-the-rule"
  ELSE IF Cardinality(LabelSet(c.labels)) < most THEN "fewer-regions-than-constructed"
  ELSE IF Cardinality(LabelSet(c.labels)) > most THEN "more-regions-than-constructed"
  ELSE IF \E k \in DOMAIN seqs : Len(seqs[k]) = most
            /\ ~\E l \in DOMAIN c.joined : c.joined[l].from = k
  THEN "construction-with-most-regions-not-considered"
  ELSE IF c.notworse /\ \E k \in tops : final > Obj(c.obj, c.attr, D, labelOf(whole[k]))
  THEN "worse-than-a-construction"
  ELSE IF c.azp /\ ~c.tied /\ \E m \in LegalMoves(nb, c.labels) :
            Keeps(c, m[1], m[2]) /\ Delta(c.obj, c.attr, D, c.labels, m[1], m[2]) < 0
  THEN "one-move-improves-the-result"
  ELSE "ok"

RuleFault(c, nb) ==
  IF c.kind # "ok" THEN "rule-fails"
  ELSE IF \E k \in DOMAIN c.moves : c.moves[k].allowed
            /\ ~Keeps(c, c.moves[k].area, c.moves[k].region)
  THEN "move-breaks-the-threshold"
  ELSE IF \E k \in DOMAIN c.moves : c.moves[k].allowed /\ ~c.moves[k].inner
  THEN "move-against-the-decorated-rule"
  ELSE IF c.complete /\ \E k \in DOMAIN c.moves : ~c.moves[k].allowed /\ c.moves[k].inner
            /\ Keeps(c, c.moves[k].area, c.moves[k].region)
  THEN "good-move-refused"
  ELSE "ok"

Verdict(c) ==
  LET nb == ToMap(c.nb) IN
  IF c.mode \in {"fit", "ends"} THEN FitFault(c, nb)
  ELSE IF c.mode = "build" THEN BuildFault(c, nb)
  ELSE RuleFault(c, nb)

TInit == i \in DOMAIN Cases /\ v = "?" /\ inst = 0 /\ pc = 0 /\ free = 0 /\ grown = 0
         /\ parts = 0 /\ over = 0
TNext == /\ v = "?"
         /\ v' = Verdict(Cases[i])
         /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
         /\ UNCHANGED <<i, inst, pc, free, grown, parts, over>>
=============================================================================
