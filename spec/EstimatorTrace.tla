--------------------------- MODULE EstimatorTrace ---------------------------
(***************************************************************************)
(* Accepts recorded histories iff they are behaviours of Estimator.tla.    *)
(* A case: mode, objects (how many), events; an event:                     *)
(*   est       object (1..objects)                                         *)
(*   what, nb, p, start, ext, thr, quorum, malformed: the request           *)
(*   aborted   a callback raised an exception on purpose                   *)
(*   key       "" or what the answer may depend on                         *)
(*   kind      "ok", "error", "timeout"                                    *)
(*   labels    labels the object shows afterwards                          *)
(*   attr, metric  <<>>, or what exact labels are worth (solvers may choose *)
(*             among equally good solutions): attributes in label order    *)
(*   changed   names of things of the caller that are not as before        *)
(*   text      for messages                                                *)
(* mode "refuse": which requests are accepted and what refusals leave      *)
(*      "args"  : the caller's objects                                     *)
(*      "same"  : equal keys have equal answers                            *)
(*      "all"   : all of it                                                *)
(***************************************************************************)
EXTENDS Json, IOUtils, Estimator

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, l, v
vars == <<labels, memo, i, l, v>>

Shown(o) == labels[o]

RefuseFault(e, nb) ==
  IF e.kind = "timeout" THEN "does-not-end"
  ELSE IF e.kind = "ok" /\ e.malformed THEN "malformed-request-accepted"
  ELSE IF e.kind = "ok" /\ ~MayAccept(e, nb) THEN "labels-for-an-unsatisfiable-request"
  ELSE IF e.kind = "error" /\ ~e.aborted /\ MustAccept(e, nb)
  THEN "satisfiable-request-refused"
  ELSE IF e.kind = "error" /\ e.labels # Shown(e.est)
  THEN "labels-changed-without-a-successful-fit"
  ELSE "ok"

ArgsFault(e) == IF e.changed # <<>> THEN "argument-of-the-caller-changed" ELSE "ok"

Told(e) ==
  IF e.attr = <<>> THEN e.labels
  ELSE <<Len(e.labels), Cardinality(LabelSet(e.labels)),
         PairObj(DistTable(e.metric, e.attr), e.labels)>>

SameFault(e) ==
  IF e.key = "" \/ e.kind = "timeout" \/ e.aborted THEN "ok"
  ELSE IF Agrees(e.key, IF e.kind = "ok" THEN Told(e) ELSE Refusal) THEN "ok"
  ELSE "another-answer-to-the-same-request"

Fault(c, e) ==
  LET nb == ToMap(e.nb)
      r == IF c.mode \in {"refuse", "all"} THEN RefuseFault(e, nb) ELSE "ok"
      a == IF c.mode \in {"args", "all"} THEN ArgsFault(e) ELSE "ok"
      s == IF c.mode \in {"same", "all"} THEN SameFault(e) ELSE "ok"
      f == IF c.mode = "all" /\ e.kind = "ok" THEN AnswerFault(e, nb, e.labels) ELSE "ok"
  IN  IF r # "ok" THEN r ELSE IF a # "ok" THEN a ELSE IF s # "ok" THEN s ELSE f

Text(e) == e.text

Init ==
  /\ i \in DOMAIN Cases
  /\ l = 1 /\ v = "?"
  /\ labels = [o \in 1..Cases[i].objects |-> None]
  /\ memo = [k \in {} |-> None]

Say(word, text) == PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o word \o "|" \o text)

Effect(e) ==
  IF e.kind = "ok"
  THEN Show(e.est, e, e.labels) /\ Remember(e.key, Told(e))
  ELSE IF e.kind = "error" /\ ~e.aborted
  THEN UNCHANGED labels /\ Remember(e.key, Refusal)
  ELSE Abort(e.est)

Next ==
  /\ v = "?"
  /\ UNCHANGED i
  /\ IF l > Len(Cases[i].events)
     THEN /\ v' = "ok" /\ Say("ok", "") /\ UNCHANGED <<labels, memo, l>>
     ELSE LET c == Cases[i]
              e == c.events[l]
              f == Fault(c, e)
          IN  IF f = "ok"
              THEN Effect(e) /\ l' = l + 1 /\ UNCHANGED v
              ELSE /\ v' = f
                   /\ Say(f, "event " \o ToString(l) \o ": " \o e.text)
                   /\ UNCHANGED <<labels, memo, l>>
=============================================================================
