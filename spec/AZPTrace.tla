----------------------------- MODULE AZPTrace -----------------------------
(***************************************************************************)
(* Accepts a recorded run of the real AZP on one component iff it is a     *)
(* behaviour of AZP.tla.  A case has                                       *)
(*   nb, obj, attr, start   the component                                  *)
(*   rule     "azp" (decisions must follow AZP's rule) or "any"            *)
(*   events   <<[a, r, ok, l]>>: area offered for region r, decision, and  *)
(*            the labels shown to the rule (<<>>: as before)               *)
(*   final    labels of the component after the fit                        *)
(*   kind     outcome of the fit                                           *)
(***************************************************************************)
EXTENDS AZP, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
Inst(t) ==
  LET c == Cases[t] IN
  [nb |-> ToMap(c.nb), obj |-> c.obj, attr |-> c.attr, D |-> DistTable(c.obj.metric, c.attr),
   p |-> Cardinality(LabelSet(c.start)), t |-> t]

VARIABLES j,       \* next event
          fresh    \* labels changed since the last event

tvars == <<vars, j, fresh>>
Case == Cases[inst.t]
Ev == Case.events[j]
Last == Len(Case.events) + 1

Init ==
  \E t \in DOMAIN Cases :
     /\ inst = Inst(t) /\ Start(Cases[t].start)
     /\ j = 1 /\ fresh = TRUE

TraceSilent == Silent /\ UNCHANGED <<j, fresh>>

LabelsShown == IF Ev.l = <<>> THEN ~fresh ELSE Ev.l = lab

TraceOffer ==
  /\ j < Last
  /\ pc = "offer" /\ rec = Ev.r /\ Ev.a \in cand
  /\ LabelsShown
  /\ Case.rule = "azp" => Ev.ok = AZPRule(Ev.a)
  /\ Offer(Ev.a, Ev.ok)
  /\ j' = j + 1 /\ fresh' = Ev.ok

Next == TraceSilent \/ TraceOffer

Accepted == pc = "done" /\ j = Last /\ Case.final = lab

(* remember how far each trace got and in which state *)
Note ==
  LET pos == IF Accepted THEN Last + 1 ELSE j
      old == TLCGet(2 * inst.t)
  IN  IF pos > old
      THEN TLCSet(2 * inst.t, pos) /\ TLCSet(2 * inst.t + 1,
             [lab |-> lab, pc |-> pc, todo |-> todo, rec |-> rec, cand |-> cand, j |-> j])
      ELSE TRUE

ASSUME \A t \in DOMAIN Cases : TLCSet(2 * t, 0) /\ TLCSet(2 * t + 1, <<>>)

EventFault(c, s, nb) ==
  LET e == c.events[s.j] IN
  IF e.a \notin DOMAIN s.lab \/ e.r \notin LabelSet(s.lab) THEN "offered-an-unknown-area-or-region"
  ELSE IF e.l # <<>> /\ e.l # s.lab THEN "labels-shown-to-the-rule-are-not-the-current-ones"
  ELSE IF ~LegalMove(nb, s.lab, e.a, e.r) THEN "offered-illegal-move-" \o MoveFault(nb, s.lab, e.a, e.r)
  ELSE IF e.a \in s.cand /\ e.r = s.rec /\ c.rule = "azp"
       THEN "decision-differs-from-the-rule"
  ELSE "offered-out-of-turn"

EndFault(c, s) ==
  IF s.pc = "done" /\ c.final # s.lab THEN "returned-labels-are-not-the-final-ones"
  ELSE IF s.cand # {} THEN "legal-moves-not-offered"
  ELSE "ended-before-the-sweeps-were-finished"

VerdictOf(t) ==
  LET c == Cases[t] IN
  IF c.kind = "error" THEN <<"fit-failed", c.what>>
  ELSE IF c.kind = "timeout" THEN <<"does-not-end", c.what>>
  ELSE IF TLCGet(2 * t) = Len(c.events) + 2 THEN <<"ok", "">>
  ELSE LET s == TLCGet(2 * t + 1) IN
       <<IF s.j <= Len(c.events) THEN EventFault(c, s, ToMap(c.nb)) ELSE EndFault(c, s),
         "event " \o ToString(s.j) \o " of " \o ToString(Len(c.events))>>

Verdicts ==
  \A t \in DOMAIN Cases :
     LET r == VerdictOf(t) IN PrintT("V|" \o ToString(Cases[t].tid) \o "|" \o r[1] \o "|" \o r[2])
=============================================================================
