----------------------------- MODULE Objective -----------------------------
(***************************************************************************)
(* Judges what the objective functions report.  A case:                    *)
(*   labels, attr, obj                                                     *)
(*   kind    "ok", "error", "inexact" (a value that is no integer),        *)
(*           "mutated" (labels or attributes were modified)                *)
(*   value   reported objective value of labels                            *)
(*   moves   <<area, region, reported change>>, ...                        *)
(***************************************************************************)
EXTENDS Regions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

(* the change, by its definition *)
Exact(c, D, a, r) == Obj(c.obj, c.attr, D, Moved(c.labels, a, r)) - Obj(c.obj, c.attr, D, c.labels)

Verdict(c) ==
  LET D == DistTable(c.obj.metric, c.attr) IN
  IF c.kind = "error" THEN "evaluation-fails"
  ELSE IF c.kind = "mutated" THEN "evaluation-modifies-its-arguments"
  ELSE IF c.kind # "ok" THEN "value-is-not-exact"
  ELSE IF c.value # Obj(c.obj, c.attr, D, c.labels) THEN "wrong-value"
  ELSE IF \E k \in DOMAIN c.moves :
            c.moves[k][3] # Exact(c, D, c.moves[k][1], c.moves[k][2])
  THEN "update-is-not-the-change"
  ELSE "ok"

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
        /\ UNCHANGED i
=============================================================================
