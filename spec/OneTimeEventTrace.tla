------------------------- MODULE OneTimeEventTrace -------------------------
EXTENDS OneTimeEvent, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ Init /\ TLCSet(t, 1)
Step(e) ==
  CASE e.e = "Call" -> Call(e.t, e.op)
    [] e.e = "Ret" -> IF e.op = "fire" THEN FireRet(e.t, e.r) ELSE SeeRet(e.t, e.r)
    [] e.e = "Quiesce" -> Quiesce
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
