----------------------------- MODULE ServerGen -----------------------------
(* Scripts for the environment of the real server, and the finite instance on which the design is checked. *)
EXTENDS Server, TLC, Json

CONSTANTS As, MaxCfg, MaxPing, MaxOps, Hist, Ops

VARIABLES h, rel
gvars == <<vars, h, rel>>

P(k) == ~Hist \/ RandomElement(1..20) <= k
Rec(op) == h' = IF Hist THEN Append(h, op) ELSE Append(h, 0)
Same == UNCHANGED rel
Has(o) == o \in Ops

\* the address of a listener that is handed over
Own(t) == "s" \o ToString(t)
FirstIdle(t) == thr[t].op = "idle" /\ \A u \in Th : u < t => thr[u].op # "idle"
FirstNone(s) == ss[s].st = "none" /\ \A u \in Ss : u < s => ss[u].st # "none"

Settled == Rest(bnd, {s \in Ss : ss[s].st # "none"} \ rel, {}, 0)
\* addresses change their availability right after everything has come to rest
EQuiesce == /\ P(8) /\ Hist => (Len(h) > 0 /\ h[Len(h)].op # "q")
            /\ Settled /\ UNCHANGED vars /\ Rec([op |-> "q"]) /\ Same
EAvail(a) == /\ Has("avail") /\ P(9) /\ Settled /\ (IF Hist /\ Len(h) > 0 THEN h[Len(h)].op \in {"q", "avail"} ELSE TRUE)
             /\ a \notin bnd \/ a \in bad
             /\ Avail(a, a \in bad) /\ Rec([op |-> "avail", addr |-> a, n |-> IF a \in bad THEN 1 ELSE 0]) /\ Same
EPush(a) == Has("push") /\ Len(cfgs) < MaxCfg /\ Push(a) /\ Rec([op |-> "push", addr |-> a]) /\ Same
EDist == Has("dist") /\ P(1) /\ dist /\ DistClose /\ Rec([op |-> "dist"]) /\ Same
EStart(t) == Has("start") /\ (ran => P(4)) /\ FirstIdle(t) /\ Call(t, "start", "", 0) /\ Rec([op |-> "start", s |-> t]) /\ Same
EServe(t) == Has("serve") /\ P(9) /\ FirstIdle(t) /\ Call(t, "serve", Own(t), 0) /\ Rec([op |-> "serve", s |-> t, addr |-> Own(t)]) /\ Same
EClose(t) == Has("close") /\ (IF closing THEN P(3) ELSE P(2)) /\ FirstIdle(t) /\ Call(t, "close", "", 0) /\ Rec([op |-> "close", s |-> t]) /\ Same
EConn(t, s) == /\ Has("serveconn") /\ P(10) /\ FirstIdle(t) /\ FirstNone(s)
               /\ Call(t, "serveconn", "", s) /\ Rec([op |-> "serveconn", s |-> t, n |-> s]) /\ Same
ESStart(t, s) == /\ Has("sess") /\ P(8) /\ FirstIdle(t)
                 /\ \/ FirstNone(s)
                    \/ ss[s].st = "direct" /\ ss[s].over # "no" /\ (\E u \in Th : thr[u].s = s /\ thr[u].op \in {"sclose", "done"})
                       /\ (\A u \in Th : thr[u].s = s => thr[u].op \notin {"sstart", "serveconn"})
                       /\ (\E u \in Th : thr[u].s = s /\ thr[u].a = "sess")
                 /\ Call(t, "sstart", "sess", s) /\ Rec([op |-> "sstart", s |-> t, n |-> s]) /\ Same
ESClose(t, s) == /\ Has("sess") /\ P(7) /\ FirstIdle(t)
                 /\ \/ FirstNone(s)
                    \/ ss[s].st = "direct" /\ \E u \in Th : thr[u].s = s /\ thr[u].a = "sess"
                 /\ Call(t, "sclose", "sess", s) /\ Rec([op |-> "sclose", s |-> t, n |-> s]) /\ Same
EConnect(s) == /\ FirstNone(s) /\ \E a \in bnd : Connect(s, a) /\ Rec([op |-> "connect", s |-> s, addr |-> a]) /\ Same
EPing(s) == /\ P(12) /\ ~ss[s].gone /\ ss[s].ping < MaxPing /\ Ping(s) /\ Rec([op |-> "ping", s |-> s]) /\ Same
ECClose(s) == /\ P(5) /\ ~ss[s].gone /\ CClose(s) /\ Rec([op |-> "cclose", s |-> s]) /\ Same

EnvNext == \/ EQuiesce \/ EDist
           \/ \E a \in As : EAvail(a) \/ EPush(a)
           \/ \E t \in Th : EStart(t) \/ EServe(t) \/ EClose(t) \/ \E s \in Ss : EConn(t, s) \/ ESStart(t, s) \/ ESClose(t, s)
           \/ \E s \in Ss : EConnect(s) \/ EPing(s) \/ ECClose(s)

---------------------------------------------------------------------------
(* A correct server *)
SListen == /\ runner # 0 /\ ~closing /\ tgt # "" /\ tgt # lastc /\ fq = <<>> /\ tgt \notin bnd
           /\ \A t \in Th : thr[t].op = "serve" => thr[t].lin
           /\ Listen(tgt, TRUE)
SUnlisten(a) == (a \in dead \/ (closing /\ a \in bnd)) /\ Unlisten(a)
Mine(s) == \E t \in Th : thr[t].s = s /\ thr[t].op \in {"serveconn", "sstart"} /\ ~thr[t].after
Alive(s) == /\ s \notin rel /\ ss[s].over = "no" /\ ~ss[s].gone
            /\ (closing => ss[s].st = "direct" /\ \E t \in Th : thr[t].s = s /\ thr[t].op = "sstart")
SDStart(s) == /\ Alive(s) /\ cur > 0 /\ dist /\ ~ss[s].db
              /\ (ss[s].st = "via" => ~ss[s].cut) /\ (ss[s].st = "direct" => Mine(s))
              /\ DStart(s)
SPong(s) == Alive(s) /\ ss[s].db /\ Pong(s)
\* cut off while waiting in the queue of a listener that has been closed; without a store no session starts
Release(s) == /\ ss[s].st # "none" /\ s \notin rel
              /\ ~Alive(s) \/ (ss[s].cut /\ ~ss[s].db) \/ (~dist /\ ~ss[s].db)
              /\ rel' = rel \cup {s}
              /\ UNCHANGED vars
SysRet(t) ==
  \/ thr[t].op = "start" /\ runner = t /\ closing /\ StartRet(t, "closed")
  \/ thr[t].op = "start" /\ runner = t /\ ~dist /\ tgt = "" /\ lastc = "" /\ StartRet(t, "store")
  \/ thr[t].op = "start" /\ runner # t /\ ran /\ ~thr[t].after /\ StartRet(t, "already")
  \/ thr[t].op = "start" /\ closing /\ runner # t /\ StartRet(t, "closed")
  \/ thr[t].op = "serve" /\ thr[t].lin /\ thr[t].a \notin bnd /\ ServeRet(t, "net", FALSE)
  \/ thr[t].op = "serve" /\ closing /\ thr[t].a \notin bnd /\ ServeRet(t, "closed", FALSE)
  \/ thr[t].op = "serveconn" /\ thr[t].s \in rel /\ ServeConnRet(t, IF closing THEN "closed" ELSE "nil", FALSE, FALSE)
  \/ thr[t].op = "sstart" /\ thr[t].s \in rel /\ SStartRet(t, IF ss[thr[t].s].over # "no" THEN "sclosed" ELSE "nil", FALSE, FALSE)
  \/ thr[t].op = "sclose" /\ thr[t].s \in rel /\ SCloseRet(t)
  \/ thr[t].op = "close" /\ bnd = {} /\ CloseRet(t)
SysAct == SListen \/ (\E a \in bnd : SUnlisten(a)) \/ (\E s \in Ss : SDStart(s) \/ SPong(s)) \/ (\E t \in Th : SysRet(t)) \/ Internal
SysNext == UNCHANGED h /\ \/ SysAct /\ UNCHANGED rel
                          \/ \E s \in Ss : Release(s)

GInit == Init /\ h = <<>> /\ rel = {}
GNext == \/ Len(h) < MaxOps /\ EnvNext
         \/ (Hist => Len(h) < MaxOps) /\ SysNext
         \/ Hist /\ Len(h) = MaxOps /\ Rec([op |-> "end"]) /\ UNCHANGED <<vars, rel>>
GSpec == GInit /\ [][GNext]_gvars
Emit == (Hist /\ Len(h) > MaxOps) => PrintT(<<"SCRIPT", ToJson([ops |-> SubSeq(h, 1, MaxOps)])>>)

---------------------------------------------------------------------------
(* Design *)
S(A) == A /\ UNCHANGED <<h, rel>>
Fair == /\ WF_gvars(S(SListen)) /\ WF_gvars(S(StartSub)) /\ WF_gvars(S(Apply)) /\ WF_gvars(S(InstallCfg))
        /\ \A a \in As \cup {Own(t) : t \in Th} : WF_gvars(S(SUnlisten(a)))
        /\ \A s \in Ss : WF_gvars(S(SDStart(s))) /\ WF_gvars(S(SPong(s))) /\ WF_gvars(Release(s) /\ UNCHANGED h)
        /\ \A t \in Th : WF_gvars(S(SysRet(t))) /\ WF_gvars(S(StartLin(t))) /\ WF_gvars(S(InstallServe(t)))
FairSpec == GSpec /\ Fair

Sane == /\ dead \subseteq bnd /\ (inst # "" => inst \in bnd) /\ inst \notin dead
        /\ (closed => closing)
        /\ \A s \in Ss : ss[s].pong <= ss[s].ping
\* closing is final; the server is never started twice
Final == [][(closed => closed') /\ (closing => closing') /\ (ran => ran' /\ runner' \in {0, runner})]_gvars
\* a correct server always comes to rest
Rests == []<>Settled
=============================================================================
