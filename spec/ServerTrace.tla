---------------------------- MODULE ServerTrace ----------------------------
(* Recorded executions of the real server must be behaviours of Server. *)
EXTENDS Server, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>

TInit == t \in 1..Len(Traces) /\ l = 1 /\ Init /\ TLCSet(t, 1)

Step(e) ==
  CASE e.e = "Push"      -> Push(e.a)
    [] e.e = "DistClose" -> DistClose
    [] e.e = "Avail"     -> Avail(e.a, e.ok)
    [] e.e = "Call"      -> Call(e.t, e.op, e.a, e.s)
    [] e.e = "Connect"   -> Connect(e.s, e.a)
    [] e.e = "Ping"      -> Ping(e.s)
    [] e.e = "CClose"    -> CClose(e.s)
    [] e.e = "Listen"    -> Listen(e.a, e.ok)
    [] e.e = "Unlisten"  -> Unlisten(e.a)
    [] e.e = "DStart"    -> DStart(e.s)
    [] e.e = "Pong"      -> Pong(e.s)
    [] e.e = "CEof"      -> CEof(e.s)
    [] e.e = "Ret"       -> (CASE e.op = "start" -> StartRet(e.t, e.r)
                              [] e.op = "serve" -> ServeRet(e.t, e.r, e.oc)
                              [] e.op = "serveconn" -> ServeConnRet(e.t, e.r, e.oc, e.od)
                              [] e.op = "sstart" -> SStartRet(e.t, e.r, e.oc, e.od)
                              [] e.op = "sclose" -> SCloseRet(e.t)
                              [] e.op = "close" -> CloseRet(e.t))
    [] e.e = "Quiesce"   -> Quiesce(Range(e.b), Range(e.oc), Range(e.od), e.ox)
    [] OTHER -> FALSE    \* Panic, Leak, something odd

TNext ==
  /\ l <= Len(Traces[t].ev) /\ TLCGet(t) <= Len(Traces[t].ev)   \* one accepting run is enough
  /\ \/ Step(Traces[t].ev[l]) /\ l' = l + 1
     \/ Internal /\ l' = l
  /\ UNCHANGED t
  /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE

TSpec == TInit /\ [][TNext]_tvars

Accepted ==
  LET bad_ == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad_ : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
