---------------------------- MODULE ReloadTrace ----------------------------
(* Recorded executions of the program must be behaviours of Reload. *)
EXTENDS Reload, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ TLCSet(t, 1) /\ Start(Traces[t].c0)
Step(e) ==
  CASE e.e = "Save" -> Save(e.c)
    [] e.e = "Remove" -> Remove
    [] e.e = "Deadline" -> Deadline
    [] e.e = "OpenCall" -> OpenCall(e.s, e.p)
    [] e.e = "OpenRet" -> OpenRet(e.s, e.d)
    [] e.e = "Echo" -> Echo(e.s, e.d)
    [] e.e = "Bye" -> Bye(e.s)
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ \/ Step(Traces[t].ev[l]) /\ l' = l + 1
               \* what the program does by itself can wait until it is observed
            \/ Traces[t].ev[l].e \in {"OpenRet", "Deadline"} /\ Works /\ l' = l
         /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
