------------------------------ MODULE DsnTrace ------------------------------
(* Recorded calls: what was returned for a URL must be a possible answer. *)
EXTENDS Dsn, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<t, l>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ TLCSet(t, 1)
Map(ps) == [k \in {ps[i].k : i \in DOMAIN ps} |-> (CHOOSE i \in DOMAIN ps : ps[i].k = k)]
Step(e) ==
  CASE e.e = "Parse" -> LET f == Map(e.ps) IN Answer(e.u, e.os, e.r, [k \in DOMAIN f |-> e.ps[f[k]].v])
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
