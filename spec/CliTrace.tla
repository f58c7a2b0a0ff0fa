------------------------------ MODULE CliTrace ------------------------------
EXTENDS Cli, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ TLCSet(t, 1) /\ Begin(Traces[t].args, Traces[t].files)
Step(e) ==
  CASE e.e = "Run" -> Run(e.p, e.d)
    [] e.e = "Ends" -> Ends(e.err)
    [] e.e = "Exit" -> Exit(e.code, e.out)
    [] e.e = "Kill" -> Kill
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
\* a recorded execution is complete
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
