----------------------------- MODULE ProxyTrace -----------------------------
(* Recorded executions of the real proxy must be behaviours of Proxy. *)
EXTENDS Proxy, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l

tvars == <<S, cfgs, pushed, lo, srv, mode, run, t, l>>

Rng(q) == {q[i] : i \in DOMAIN q}

TInit ==
  /\ t \in 1..Len(Traces)
  /\ l = 1
  /\ mode = Traces[t].mode
  /\ Init
  /\ TLCSet(t, 1)

Ev == Traces[t].ev[l]

Step(e) ==
  CASE e.e = "Push"      -> Push(e.db, e.addr)
    [] e.e = "Pushed"    -> Pushed
    [] e.e = "Connect"   -> Connect(e.s)
    [] e.e = "CRefused"  -> CRefused(e.s)
    [] e.e = "CStart"    -> CStart(e.s, e.k, e.dbs)
    [] e.e = "CSend"     -> CSend(e.s, e.a, e.b)
    [] e.e = "DSend"     -> DSend(e.s, e.a, e.b)
    [] e.e = "CClose"    -> CLeave(e.s, "closed")
    [] e.e = "CHalf"     -> CLeave(e.s, "half")
    [] e.e = "DHalf"     -> IF e.s = 0 THEN UNCHANGED vars ELSE DLeave(e.s, "half")
    [] e.e = "CReset"    -> CLeave(e.s, "reset")
    [] e.e = "DClose"    -> IF e.s = 0 THEN UNCHANGED vars ELSE DLeave(e.s, "closed")
    [] e.e = "DReset"    -> IF e.s = 0 THEN UNCHANGED vars ELSE DLeave(e.s, "reset")
    [] e.e = "CJunk"     -> CJunk(e.s)
    [] e.e = "DJunk"     -> DJunk(e.s)
    [] e.e = "CStall"    -> CReading(e.s, FALSE)
    [] e.e = "CResume"   -> CReading(e.s, TRUE)
    [] e.e = "DStall"    -> DReading(e.s, FALSE)
    [] e.e = "DResume"   -> DReading(e.s, TRUE)
    [] e.e = "SrvClose"  -> SrvClose
    [] e.e = "NRecv"     -> NRecv(e.s)
    [] e.e = "Dial"      -> IF e.s # 0 THEN Dial(e.s, e.addr, e.mode)
                            ELSE \/ \E s \in Sess : S[s].d = "none" /\ Dial(s, e.addr, e.mode)
                                 \/ (\A s \in Sess : ~ENABLED (S[s].d = "none" /\ Dial(s, e.addr, e.mode)))
                                    /\ G({"shake", "gate", "cfg"}, FALSE) /\ UNCHANGED vars
    [] e.e = "DStart"    -> DStart(e.s, e.exact)
    [] e.e = "CRecv"     -> CRecv(e.s, e.src, e.a, e.b)
    [] e.e = "DRecv"     -> DRecv(e.s, e.src, e.a, e.b)
    [] e.e = "CAlien"    -> CAlien(e.s)
    [] e.e = "DAlien"    -> DAlien(e.s)
    [] e.e = "CBad"      -> CBad(e.s)
    [] e.e = "DBad"      -> DBad(e.s)
    [] e.e = "CTorn"     -> CTorn(e.s)
    [] e.e = "DTorn"     -> IF e.s = 0 THEN UNCHANGED vars ELSE DTorn(e.s)
    [] e.e = "CEof"      -> CEof(e.s)
    [] e.e = "DEof"      -> IF e.s # 0 THEN DEof(e.s)
                            ELSE \/ \E s \in Sess : S[s].d = "dialed" /\ DEof(s)
                                 \/ G({"shake"}, FALSE) /\ UNCHANGED vars
    [] e.e = "Ret"       -> Ret(e.s, e.oc, e.od)
    [] e.e = "RunRet"    -> RunRet
    [] e.e = "SrvClosed" -> SrvClosed(Rng(e.oc), Rng(e.od), e.bound)
    [] e.e = "Quiesce"   -> Quiesce(Rng(e.oc), Rng(e.od), e.ox, e.bound, Rng(e.pc), Rng(e.pd))
    [] e.e = "Crowd"     -> Crowd(e.ok)
    [] e.e = "Leak"      -> Leak
    [] OTHER -> FALSE      \* Panic and whatever else the proxy must never do

TNext ==
  /\ l <= Len(Traces[t].ev) /\ TLCGet(t) <= Len(Traces[t].ev)   \* one accepting run is enough
  /\ Step(Ev)
  /\ l' = l + 1
  /\ UNCHANGED t
  /\ IF TLCGet(t) < l + 1 THEN TLCSet(t, l + 1) ELSE TRUE

TSpec == TInit /\ [][TNext]_tvars

\* TLC registers hold the longest prefix of every trace that was accepted
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)

=============================================================================
