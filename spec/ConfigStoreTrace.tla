-------------------------- MODULE ConfigStoreTrace --------------------------
(* Recorded histories of the real store must be behaviours of ConfigStore. *)
EXTENDS ConfigStore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>

TInit == t \in 1..Len(Traces) /\ l = 1 /\ Init /\ TLCSet(t, 1)

Step(e) ==
  CASE e.e = "Push"      -> Push(e.l, e.d)
    [] e.e = "Pushed"    -> Pushed
    [] e.e = "SrcClose"  -> SrcClose
    [] e.e = "Stall"     -> Reading(e.c, FALSE)
    [] e.e = "Resume"    -> Reading(e.c, TRUE)
    [] e.e = "GetCall"   -> Call(e.t, "get", 0, <<>>, 0)
    [] e.e = "SubCall"   -> Call(e.t, "sub", e.c, e.p, e.hint)
    [] e.e = "UnsubCall" -> Call(e.t, "unsub", e.c, <<>>, 0)
    [] e.e = "CloseCall" -> Call(e.t, "close", 0, <<>>, 0)
    [] e.e = "GetRet"    -> GetRet(e.t, e.k)
    [] e.e = "SubRet"    -> SubRet(e.t, e.r)
    [] e.e = "UnsubRet"  -> UnsubRet(e.t, e.n)
    [] e.e = "CloseRet"  -> CloseRet(e.t, e.ns)
    [] e.e = "Recv"      -> Recv(e.c, e.k)
    [] e.e = "Pred"      -> Pred(e.c, e.old, e.new)
    [] e.e = "Quiesce"   -> Quiesce
    [] OTHER -> FALSE    \* Panic, Leak, a value that is no configuration

TNext ==
  /\ l <= Len(Traces[t].ev) /\ TLCGet(t) <= Len(Traces[t].ev)   \* one accepting run is enough
  /\ \/ Step(Traces[t].ev[l]) /\ l' = l + 1
     \/ Internal /\ l' = l
  /\ UNCHANGED t
  /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE

TSpec == TInit /\ [][TNext]_tvars

Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
