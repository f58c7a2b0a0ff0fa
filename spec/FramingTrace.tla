---------------------------- MODULE FramingTrace ----------------------------
EXTENDS Framing, TLC, Json, IOUtils

CONSTANTS On
G(gs, cond) == (gs \cap On # {}) => cond
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[t].stream) /\ TLCSet(t, 1)
Step(e) ==
  CASE e.e = "Call" -> Call(e.what)
    [] e.e = "Read" -> IF "framing" \in On THEN Read(e.n, e.end) ELSE UNCHANGED vars
    [] e.e = "Ok"   -> IF "framing" \in On THEN Ok(e.p) ELSE UNCHANGED vars
    [] e.e = "Err"  -> IF "framing" \in On THEN Err ELSE UNCHANGED vars
    [] e.e = "Alloc" -> G({"res"}, e.kb <= 0) /\ UNCHANGED vars     \* out of proportion to what has been handed out
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
