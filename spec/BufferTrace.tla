---------------------------- MODULE BufferTrace ----------------------------
EXTENDS Buffer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ Init /\ TLCSet(t, 1)
Step(e) ==
  CASE e.e = "Write" -> Write(e.op, e.v)
    [] e.e = "Read"  -> Read(e.op, e.k, e.ok, e.v)
    [] e.e = "Look"  -> e.n = Len(buf) /\ Look(e.b)
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
