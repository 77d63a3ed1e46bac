---------------------------- MODULE AnnealTrace ----------------------------
(***************************************************************************)
(* Accepts recorded annealing fits iff their rounds are those of           *)
(* SimAnneal.tla and each decision keeps the rule: a move that does not    *)
(* worsen is accepted, a worsening one with probability exp(-d/T).         *)
(*   nb, obj, attr, start, known, par                                      *)
(*   runs   sequence of [from, ev, to]; ev = <<<<a, r, ok>>>>; from: the   *)
(*          solution the run starts in; to: the one it ends in             *)
(*   final  returned labels                                                *)
(*   scale  0, or: a worsening by d in round k has probability             *)
(*          2^(-(d \div scale) * 2^k / 2), to be checked by frequencies    *)
(*   cold   TRUE: no worsening move may be accepted (T is almost 0)        *)
(*   hot    TRUE: every move must be accepted in round 0 (T is huge)       *)
(***************************************************************************)
EXTENDS SimAnneal, Regions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)

VARIABLES c, D, nb, j, e, lab, w, m

tvars == <<avars, c, D, nb, j, e, lab, w, m>>
Case == Cases[c]
Run == Case.runs[j]

Init ==
  \E t \in DOMAIN Cases :
     /\ c = t
     /\ nb = ToMap(Cases[t].nb)
     /\ D = DistTable(Cases[t].obj.metric, Cases[t].attr)
     /\ par = Cases[t].par
     /\ AStart(Cases[t].start, Cases[t].known)
     /\ j = 1 /\ e = 0 /\ w = 0 /\ m = FALSE
     /\ lab = Cases[t].start

(* registers: 1000 + k + 20 * exponent -> trials; 5000 + ... -> accepted *)
MaxExp == 12
TallyReg(x, k) == 1000 + 20 * x + (IF k > 19 THEN 19 ELSE k)
Tally(x, k, ok) ==
  TLCSet(TallyReg(x, k), TLCGet(TallyReg(x, k)) + 1)
  /\ (IF ok THEN TLCSet(4000 + TallyReg(x, k), TLCGet(4000 + TallyReg(x, k)) + 1) ELSE TRUE)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE IF k >= 20 THEN Pow2(19) ELSE 2 * Pow2(k - 1)
Exponent(d) == IF d > 4000 THEN 4000 ELSE (d \div Case.scale) * Pow2(round)

Decision(d, ok) ==
  IF d <= 0 THEN ok
  ELSE IF Case.cold THEN ~ok
  ELSE IF Case.hot /\ round = 0 THEN ok
  ELSE IF Case.scale = 0 THEN TRUE
  ELSE IF Exponent(d) >= 70 THEN ~ok
  ELSE IF Exponent(d) <= MaxExp THEN Tally(Exponent(d), round, ok)
  ELSE TRUE

RunStarts ==
  /\ pc = "run" /\ j <= Len(Case.runs) /\ e = 0
  /\ Run.from = sol
  /\ e' = 1 /\ lab' = sol /\ w' = 0 /\ m' = FALSE
  /\ UNCHANGED <<avars, c, D, nb, j>>

Offered ==
  /\ e > 0 /\ e <= Len(Run.ev)
  /\ LET ev == Run.ev[e]
         d == PairDelta(D, lab, ev[1], ev[2])
     IN  /\ ev[1] \in DOMAIN lab
         /\ LegalMove(nb, lab, ev[1], ev[2])
         /\ Decision(d, ev[3] = 1)
         /\ IF ev[3] = 1
            THEN /\ lab' = Moved(lab, ev[1], ev[2])
                 /\ w' = w + (IF d > 0 THEN 1 ELSE 0) /\ m' = TRUE
            ELSE UNCHANGED <<lab, w, m>>
  /\ e' = e + 1
  /\ UNCHANGED <<avars, c, D, nb, j>>

RunStops ==
  /\ e > Len(Run.ev) /\ Run.to = lab
  /\ RunEnds(lab, w, m)
  /\ j' = j + 1 /\ e' = 0
  /\ UNCHANGED <<c, D, nb, lab, w, m>>

Next == IF e = 0 THEN RunStarts ELSE IF e <= Len(Run.ev) THEN Offered ELSE RunStops

Accepted == /\ j = Len(Case.runs) + 1 /\ e = 0
            /\ (IF Case.cut THEN TRUE ELSE pc = "done" /\ Case.final = sol)

Note ==
  LET pos == IF Accepted THEN 1000000 ELSE 1000 * j + e
      old == TLCGet(10000 + 2 * c)
  IN  IF pos > old
      THEN TLCSet(10000 + 2 * c, pos)
           /\ TLCSet(10001 + 2 * c, [lab |-> lab, pc |-> pc, j |-> j, e |-> e, sol |-> sol,
                                     round |-> round])
      ELSE TRUE

ASSUME \A t \in DOMAIN Cases : TLCSet(10000 + 2 * t, 0) /\ TLCSet(10001 + 2 * t, <<>>)
ASSUME \A x \in 0..MaxExp, k \in 0..19 : /\ TLCSet(TallyReg(x, k), 0)
                                         /\ TLCSet(4000 + TallyReg(x, k), 0)

Fault(cc, s) ==
  IF s.j > Len(cc.runs)
  THEN IF s.pc = "done" THEN "returned-labels-are-not-the-final-ones"
       ELSE "annealing-ended-too-early"
  ELSE IF s.e = 0
  THEN IF s.pc = "done" THEN "annealing-went-on-too-long"
       ELSE "run-does-not-start-in-the-current-solution"
  ELSE IF s.e > Len(cc.runs[s.j].ev) THEN "run-ends-in-another-solution"
  ELSE LET ev == cc.runs[s.j].ev[s.e] IN
       IF ~LegalMove(ToMap(cc.nb), s.lab, ev[1], ev[2]) THEN "illegal-move-considered"
       ELSE IF ev[3] = 0 THEN "move-rejected-against-the-rule"
       ELSE "move-accepted-against-the-rule"

VerdictOf(t) ==
  LET cc == Cases[t] IN
  IF cc.kind # "ok" THEN <<"fit-failed", cc.what>>
  ELSE IF TLCGet(10000 + 2 * t) = 1000000 THEN <<"ok", "">>
  ELSE LET s == TLCGet(10001 + 2 * t) IN
       <<Fault(cc, s), "run " \o ToString(s.j) \o " event " \o ToString(s.e)
                       \o " round " \o ToString(s.round)>>

(* 1000 * 2^(-x/2) *)
P == <<1000, 707, 500, 354, 250, 177, 125, 88, 63, 44, 31, 22, 16>>
Plausible(n, k, p) ==
  LET dev == Abs(1000 * k - n * p)
      sd == ISqrt(n * ((p * (1000 - p)) \div 1000) + 1)     \* in 1/sqrt(1000)
  IN  dev <= 7 * 32 * (sd + 1) + 8000 + n
BinOk(x, k) == LET n == TLCGet(TallyReg(x, k)) IN
               IF n = 0 THEN TRUE ELSE Plausible(n, TLCGet(4000 + TallyReg(x, k)), P[x + 1])
Tested == {x \in (0..MaxExp) \X (0..19) : TLCGet(TallyReg(x[1], x[2])) > 0}
BadBins == {x \in Tested : ~BinOk(x[1], x[2])}

Verdicts ==
  /\ \A t \in DOMAIN Cases :
       LET r == VerdictOf(t) IN
       IF r[1] = "ok" /\ BadBins # {} /\ Cases[t].scale > 0
       THEN LET b == CHOOSE b \in BadBins : TRUE IN
            PrintT("V|" \o ToString(Cases[t].tid) \o "|acceptance-probability-is-wrong|"
                   \o "exponent " \o ToString(b[1]) \o " round " \o ToString(b[2])
                   \o " trials " \o ToString(TLCGet(TallyReg(b[1], b[2])))
                   \o " accepted " \o ToString(TLCGet(4000 + TallyReg(b[1], b[2])))
                   \o " permille " \o ToString(P[b[1] + 1]))
       ELSE PrintT("V|" \o ToString(Cases[t].tid) \o "|" \o r[1] \o "|" \o r[2])
  /\ PrintT("BINS " \o ToString({<<x[1], x[2], TLCGet(TallyReg(x[1], x[2])),
                                   TLCGet(4000 + TallyReg(x[1], x[2]))>> : x \in Tested}))
=============================================================================
