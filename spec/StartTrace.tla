----------------------------- MODULE StartTrace -----------------------------
(***************************************************************************)
(* Accepts recorded deliveries of generate_initial_sol iff they are a      *)
(* behaviour of StartSol.tla; judges the distribution of the regions over  *)
(* components, too.  A case: nb, p, kind, out (deliveries), what           *)
(***************************************************************************)
EXTENDS Regions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES i, v

S == INSTANCE StartSol WITH nb <- 0, p <- 0, share <- 0, left <- 0, used <- 0, out <- 0

Assigned(lab) == {a \in DOMAIN lab : lab[a] # S!Nothing}

Verdict(c) ==
  LET nb == ToMap(c.nb)
      comps == Components(nb)
      o == c.out
      Names(k) == {o[k][a] : a \in Assigned(o[k])}
  IN
  IF c.kind = "shares"
  THEN \* c.comp: component label per area, c.share: [comp label, number of regions]
       LET pairs == Rng(c.share)
           Size(l) == Cardinality({a \in DOMAIN c.comp : c.comp[a] = l})
       IN
       IF {x[1] : x \in pairs} # Rng(c.comp) \/ Len(c.share) # Cardinality(pairs)
          \/ Cardinality({x[1] : x \in pairs}) # Len(c.share)
       THEN "not-every-component-gets-its-share"
       ELSE IF \E x \in pairs : x[2] < 1 THEN "component-without-region"
       ELSE IF \E x \in pairs : x[2] > Size(x[1]) THEN "more-regions-than-areas"
       ELSE IF Sum(DOMAIN c.share, LAMBDA k : c.share[k][2]) # c.p
       THEN "wrong-total-number-of-regions"
       ELSE "ok"
  ELSE IF c.kind = "timeout" THEN "does-not-end"
  ELSE IF c.kind # "ok" THEN "satisfiable-request-refused"
  ELSE IF \E k \in DOMAIN o : DOMAIN o[k] # DOMAIN nb THEN "delivery-has-wrong-length"
  ELSE IF \E k \in DOMAIN o : \E a \in DOMAIN nb : o[k][a] < -1 THEN "negative-region-number"
  ELSE IF \E k \in DOMAIN o : Assigned(o[k]) \notin comps THEN "delivery-is-not-one-component"
  ELSE IF \E k, l \in DOMAIN o : k # l /\ Assigned(o[k]) = Assigned(o[l])
  THEN "component-delivered-twice"
  ELSE IF Len(o) # Cardinality(comps) THEN "component-not-delivered"
  ELSE IF \E k, l \in DOMAIN o : k # l /\ Names(k) \cap Names(l) # {}
  THEN "components-share-a-region-number"
  ELSE IF \E k \in DOMAIN o : \E r \in Names(k) : ~Connected(nb, Region(o[k], r))
  THEN "disconnected-region"
  ELSE IF Sum(DOMAIN o, LAMBDA k : Cardinality(Names(k))) # c.p
  THEN "wrong-total-number-of-regions"
  ELSE "ok"

Init == i \in DOMAIN Cases /\ v = "?"
Next == /\ v = "?"
        /\ v' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].tid) \o "|" \o v' \o "|" \o Cases[i].what)
        /\ UNCHANGED i
=============================================================================
