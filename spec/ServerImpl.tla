----------------------------- MODULE ServerImpl -----------------------------
(***************************************************************************)
(* How the server works: the loop of Start, loops that accept, sessions,    *)
(* a mutex over the current listener and the registered sessions, an event  *)
(* for the shutdown. Every step is taken together with the action of Server *)
(* it implements; ok becomes FALSE when Server does not allow it. When no   *)
(* step of the server is possible, Server must be at rest.                  *)
(*                                                                         *)
(* Parts are the decisions the algorithm depends on; without any one of     *)
(* them Server is violated:                                                 *)
(*   once     only one Start goes past the event, whoever else looks        *)
(*   look     a listener is installed only if, under the mutex, the server  *)
(*            is seen to be open; otherwise it is closed                    *)
(*   reg      so is a session registered, or else closed                    *)
(*   old      installing a listener closes the one before                   *)
(*   turn     the loop of Start installs the listener itself, before it     *)
(*            looks at the next configuration                               *)
(*   first    closing fires the event before it collects what to close      *)
(*   rest     closing closes what is registered, sessions included          *)
(*   goon     an address that cannot be bound does not end the loop         *)
(***************************************************************************)
EXTENDS Server, TLC

CONSTANTS As, MaxCfg, MaxOps, Ops, MaxPing, Parts

VARIABLES
  n,       \* operations of the environment so far
  ok,      \* every step so far was one of Server
  shut, started,   \* events
  sub, sq, \* Start has subscribed; configurations on their way to it
  lsn,     \* current listener
  late,    \* listeners goroutines are to install (without turn)
  mu,      \* who holds the mutex for longer than one step
  reg,     \* registered sessions
  scl,     \* sessions told to close
  loop,    \* addresses with a loop that accepts: "off", "go" (a goroutine of its own), "in" (inside a call)
  sv,      \* where a session is: [l, by]; by: "go", "in" (inside a loop), or the call
  sent,    \* sessions whose client has been shown the end
  pc       \* where a call is: [l, a, go]

ivars == <<vars, n, ok, shut, started, sub, sq, lsn, late, mu, reg, scl, loop, sv, sent, pc>>

Has(x) == x \in Parts
Own(t) == "s" \o ToString(t)
Addrs == As \cup {Own(t) : t \in Th}
At(t, l) == pc[t].l = l
Go(t, l) == pc' = [pc EXCEPT ![t].l = l]
End(t) == pc' = [pc EXCEPT ![t].l = "end"]
By(A) == IF ENABLED A THEN A /\ ok' = ok ELSE ok' = FALSE /\ UNCHANGED vars
Silent == UNCHANGED vars /\ ok' = ok
Sev == UNCHANGED <<shut, started>>
Cfg == UNCHANGED <<sub, sq>>
Ses == UNCHANGED <<reg, scl, sv, sent>>

IInit == /\ Init /\ n = 0 /\ ok = TRUE /\ shut = FALSE /\ started = FALSE /\ sub = FALSE /\ sq = <<>> /\ lsn = "" /\ late = {} /\ mu = 0
         /\ reg = {} /\ scl = {} /\ loop = [a \in Addrs |-> "off"] /\ sv = [s \in Ss |-> [l |-> "none", by |-> ""]] /\ sent = {}
         /\ pc = [t \in Th |-> [l |-> "off", a |-> ""]]

---------------------------------------------------------------------------
(* The environment *)
Env == UNCHANGED <<shut, started, sub, sq, lsn, late, mu, reg, scl, loop, sent>>
FirstIdle(t) == thr[t].op = "idle" /\ \A u \in Th : u < t => thr[u].op # "idle"
FirstNone(s) == ss[s].st = "none" /\ \A u \in Ss : u < s => ss[u].st # "none"
Begin(t, op, a, s, l) == /\ FirstIdle(t) /\ Call(t, op, a, s) /\ pc' = [pc EXCEPT ![t] = [l |-> l, a |-> a]]
Keep == UNCHANGED <<pc, sv>>
EnvStep ==
  /\ n < MaxOps /\ n' = n + 1 /\ Env /\ ok' = ok
  /\ \/ \E a \in As : "push" \in Ops /\ Len(cfgs) < MaxCfg /\ Push(a) /\ Keep
     \/ "dist" \in Ops /\ dist /\ DistClose /\ Keep
     \/ \E t \in Th : \/ "start" \in Ops /\ Begin(t, "start", "", 0, "st0") /\ UNCHANGED sv
                      \/ "serve" \in Ops /\ Begin(t, "serve", Own(t), 0, "e0") /\ UNCHANGED sv
                      \/ "close" \in Ops /\ Begin(t, "close", "", 0, "c0") /\ UNCHANGED sv
                      \/ "serveconn" \in Ops /\ \E s \in Ss : /\ FirstNone(s) /\ Begin(t, "serveconn", "", s, "w")
                                                              /\ sv' = [sv EXCEPT ![s] = [l |-> "v0", by |-> ToString(t)]]
     \/ \E s \in Ss : \/ FirstNone(s) /\ (\E a \in bnd : Connect(s, a)) /\ Keep
                      \/ ~ss[s].gone /\ ss[s].ping < MaxPing /\ Ping(s) /\ Keep
                      \/ ~ss[s].gone /\ CClose(s) /\ Keep

---------------------------------------------------------------------------
(* Configurations on their way *)
Update == /\ dist
          /\ LET k == cur + 1 IN
             /\ By(Apply /\ (k > 1 /\ cfgs[k] = cfgs[k - 1] => tgt' = tgt))
             /\ sq' = IF sub /\ (k = 1 \/ cfgs[k] # cfgs[k - 1]) THEN Append(sq, cfgs[k]) ELSE sq
          /\ UNCHANGED <<n, sub, lsn, mu, loop, pc>> /\ Sev /\ Ses

---------------------------------------------------------------------------
(* Start *)
St0(t) == /\ At(t, "st0") /\ IF shut THEN By(StartRet(t, "closed")) /\ End(t) ELSE Silent /\ Go(t, "st1")
          /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses
\* (without once the event is looked at and fired in two steps)
St1(t) == /\ At(t, "st1")
          /\ IF started THEN By(StartRet(t, "already")) /\ End(t) /\ UNCHANGED started
             ELSE IF Has("once") THEN By(StartLin(t)) /\ Go(t, "st2") /\ started' = TRUE
             ELSE Silent /\ Go(t, "st1b") /\ UNCHANGED started
          /\ UNCHANGED <<n, shut, lsn, mu, loop>> /\ Cfg /\ Ses
St1b(t) == /\ At(t, "st1b") /\ started' = TRUE /\ By(StartLin(t)) /\ Go(t, "st2")
           /\ UNCHANGED <<n, shut, lsn, mu, loop>> /\ Cfg /\ Ses
St2(t) == /\ At(t, "st2")
          /\ IF ~dist THEN By(StartRet(t, "store")) /\ End(t) /\ UNCHANGED <<sub, sq>>
             ELSE By(StartSub) /\ Go(t, "st3") /\ sub' = TRUE /\ sq' = IF cur = 0 THEN <<>> ELSE <<cfgs[cur]>>
          /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Ses
St3(t) == /\ At(t, "st3")
          /\ \/ /\ sq # <<>> /\ sq' = Tail(sq) /\ Silent /\ pc' = [pc EXCEPT ![t].l = "st4", ![t].a = Head(sq)] /\ UNCHANGED sub
             \/ /\ shut /\ By(StartRet(t, "closed")) /\ End(t) /\ sub' = FALSE /\ sq' = <<>>
          /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Ses
St4(t) == /\ At(t, "st4")
          /\ LET a == pc[t].a
                 fine == a \notin bad /\ a \notin bnd
             IN /\ By(Listen(a, fine))
                /\ Go(t, IF fine /\ Has("turn") THEN "st5" ELSE IF fine \/ Has("goon") THEN "st3" ELSE "stop")
                /\ late' = IF fine /\ ~Has("turn") THEN late \cup {[l |-> "new", a |-> a]} ELSE late
          /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses
St5(t) == /\ At(t, "st5") /\ mu = 0
          /\ LET a == pc[t].a IN
             IF shut /\ Has("look") THEN By(Unlisten(a)) /\ Go(t, "st3") /\ UNCHANGED <<lsn, mu>>
             ELSE /\ By(InstallCfg /\ inst' = a) /\ lsn' = a
                  /\ IF lsn # "" /\ Has("old") THEN mu' = t /\ pc' = [pc EXCEPT ![t].l = "st6:" \o lsn] ELSE mu' = mu /\ Go(t, "st7")
          /\ UNCHANGED <<n, loop>> /\ Sev /\ Cfg /\ Ses
\* the one before is closed (it may have been closed already)
Drop(a) == IF a \in bnd THEN By(Unlisten(a)) ELSE Silent
St6(t) == \E a \in Addrs :
          /\ At(t, "st6:" \o a) /\ Drop(a) /\ mu' = 0 /\ Go(t, "st7")
          /\ UNCHANGED <<n, lsn, loop>> /\ Sev /\ Cfg /\ Ses
St7(t) == /\ At(t, "st7") /\ mu = 0
          /\ loop' = [loop EXCEPT ![pc[t].a] = IF shut THEN "in" ELSE "go"]
          /\ Silent /\ Go(t, IF shut THEN "st8" ELSE "st3")
          /\ UNCHANGED <<n, lsn, mu>> /\ Sev /\ Cfg /\ Ses
St8(t) == /\ At(t, "st8") /\ loop[pc[t].a] = "off" /\ Silent /\ Go(t, "st3")
          /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses

\* without turn, a goroutine of its own does it
Late(x) == /\ mu = 0 \/ x.l = "old"
           /\ IF x.l = "old" THEN Drop(x.a) /\ mu' = 0 /\ late' = late \ {x} /\ UNCHANGED <<lsn, loop>>
              ELSE IF shut /\ Has("look") THEN By(Unlisten(x.a)) /\ late' = late \ {x} /\ UNCHANGED <<lsn, mu, loop>>
              ELSE /\ By(InstallCfg /\ inst' = x.a) /\ lsn' = x.a
                   /\ LET o == [l |-> "old", a |-> lsn]
                          w == IF lsn # "" /\ Has("old") THEN {o} ELSE {}
                      IN late' = (late \ {x}) \cup w /\ mu' = IF w = {} THEN 0 ELSE 99
                   /\ loop' = [loop EXCEPT ![x.a] = "go"]
           /\ UNCHANGED <<n, pc>> /\ Sev /\ Cfg /\ Ses

---------------------------------------------------------------------------
(* Serve *)
E0(t) == /\ At(t, "e0") /\ mu = 0
         /\ LET a == pc[t].a IN
            IF shut /\ Has("look") THEN By(Unlisten(a)) /\ Go(t, "e9") /\ UNCHANGED <<lsn, mu>>
            ELSE /\ By(InstallServe(t)) /\ lsn' = a
                 /\ IF lsn # "" /\ Has("old") THEN mu' = t /\ pc' = [pc EXCEPT ![t].l = "e1:" \o lsn] ELSE mu' = mu /\ Go(t, "e2")
         /\ UNCHANGED <<n, loop>> /\ Sev /\ Cfg /\ Ses
E1(t) == \E a \in Addrs :
         /\ At(t, "e1:" \o a) /\ Drop(a) /\ mu' = 0 /\ Go(t, "e2")
         /\ UNCHANGED <<n, lsn, loop>> /\ Sev /\ Cfg /\ Ses
E2(t) == /\ At(t, "e2") /\ loop' = [loop EXCEPT ![pc[t].a] = "in"] /\ Silent /\ Go(t, "e3")
         /\ UNCHANGED <<n, lsn, mu>> /\ Sev /\ Cfg /\ Ses
E3(t) == /\ At(t, "e3") /\ loop[pc[t].a] = "off" /\ By(ServeRet(t, "net", pc[t].a \in bnd)) /\ End(t)
         /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses
E9(t) == /\ At(t, "e9") /\ By(ServeRet(t, "closed", FALSE)) /\ End(t)
         /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses

---------------------------------------------------------------------------
(* Accepting: a session in a goroutine of its own, or, when the server is being closed, inside the loop *)
Waiting(a) == {s \in Ss : ss[s].st = "via" /\ ss[s].a = a /\ sv[s].l = "none" /\ ~ss[s].cut}
Busy(a) == \E s \in Ss : ss[s].st = "via" /\ ss[s].a = a /\ sv[s].by = "in" /\ sv[s].l # "end"
Accept(a) == /\ loop[a] # "off" /\ a \in bnd /\ ~Busy(a) /\ mu = 0
             /\ \E s \in Waiting(a) : sv' = [sv EXCEPT ![s] = [l |-> "v0", by |-> IF shut THEN "in" ELSE "go"]]
             /\ Silent /\ UNCHANGED <<n, lsn, mu, loop, pc, reg, scl, sent>> /\ Sev /\ Cfg
LoopEnd(a) == /\ loop[a] # "off" /\ a \notin bnd /\ ~Busy(a) /\ loop' = [loop EXCEPT ![a] = "off"]
              /\ Silent /\ UNCHANGED <<n, lsn, mu, pc>> /\ Sev /\ Cfg /\ Ses

---------------------------------------------------------------------------
(* Sessions *)
Sv(s, l) == sv' = [sv EXCEPT ![s].l = l]
V0(s) == /\ sv[s].l = "v0" /\ Sv(s, IF shut THEN "x" ELSE "v1")
         /\ Silent /\ UNCHANGED <<n, lsn, mu, loop, pc, reg, scl, sent>> /\ Sev /\ Cfg
V1(s) == /\ sv[s].l = "v1" /\ mu = 0
         /\ IF shut /\ Has("reg") THEN Sv(s, "x") /\ UNCHANGED reg ELSE Sv(s, "v2") /\ reg' = reg \cup {s}
         /\ Silent /\ UNCHANGED <<n, lsn, mu, loop, pc, scl, sent>> /\ Sev /\ Cfg
\* told to close, or the store is closed, or there is a configuration: then the session gets as far as the database
V2(s) == /\ sv[s].l = "v2"
         /\ \/ (s \in scl \/ ~dist \/ (ss[s].gone /\ cur > 0)) /\ Sv(s, "x") /\ Silent
            \/ s \notin scl /\ dist /\ cur > 0 /\ ~ss[s].gone /\ Sv(s, "v3") /\ By(DStart(s))
         /\ UNCHANGED <<n, lsn, mu, loop, pc, reg, scl, sent>> /\ Sev /\ Cfg
V3(s) == /\ sv[s].l = "v3"
         /\ \/ s \notin scl /\ ~ss[s].gone /\ ss[s].pong < ss[s].ping /\ By(Pong(s)) /\ UNCHANGED sv
            \/ (s \in scl \/ ss[s].gone) /\ Sv(s, "x") /\ Silent
         /\ UNCHANGED <<n, lsn, mu, loop, pc, reg, scl, sent>> /\ Sev /\ Cfg
\* the client's connection is closed
Vx(s) == /\ sv[s].l = "x"
         /\ By(CEof(s)) /\ sent' = sent \cup {s} /\ Sv(s, "v4")
         /\ UNCHANGED <<n, lsn, mu, loop, pc, reg, scl>> /\ Sev /\ Cfg
V4(s) == /\ sv[s].l = "v4" /\ mu = 0 /\ reg' = reg \ {s} /\ Sv(s, "end")
         /\ Silent /\ UNCHANGED <<n, lsn, mu, loop, pc, scl, sent>> /\ Sev /\ Cfg
W(t) == /\ At(t, "w") /\ sv[thr[t].s].l = "end"
        /\ By(ServeConnRet(t, IF shut THEN "closed" ELSE "nil", FALSE, FALSE)) /\ End(t)
        /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses

---------------------------------------------------------------------------
(* Close *)
C0(t) == /\ At(t, "c0")
         /\ IF shut THEN By(CloseRet(t)) /\ End(t) /\ UNCHANGED shut
            ELSE Silent /\ Go(t, "c1") /\ shut' = IF Has("first") THEN TRUE ELSE shut
         /\ UNCHANGED <<n, started, lsn, mu, loop>> /\ Cfg /\ Ses
C1(t) == /\ At(t, "c1") /\ mu = 0 /\ mu' = t
         /\ (IF lsn # "" THEN Drop(lsn) ELSE Silent) /\ lsn' = "" /\ Go(t, "c2")
         /\ UNCHANGED <<n, loop>> /\ Sev /\ Cfg /\ Ses
C2(t) == /\ At(t, "c2") /\ mu' = 0 /\ scl' = (IF Has("rest") THEN scl \cup reg ELSE scl) /\ reg' = {} /\ Silent
         /\ Go(t, IF Has("first") THEN "c3" ELSE "c2b")
         /\ UNCHANGED <<n, lsn, loop, sv, sent>> /\ Sev /\ Cfg
C2b(t) == /\ At(t, "c2b") /\ shut' = TRUE /\ Silent /\ Go(t, "c3") /\ UNCHANGED <<n, started, lsn, mu, loop>> /\ Cfg /\ Ses
C3(t) == /\ At(t, "c3") /\ late = {} /\ (\A a \in Addrs : loop[a] # "go") /\ (\A s \in Ss : sv[s].by = "go" => sv[s].l = "end")
         /\ By(CloseRet(t)) /\ End(t)
         /\ UNCHANGED <<n, lsn, mu, loop>> /\ Sev /\ Cfg /\ Ses

---------------------------------------------------------------------------
Upd == cur < Len(cfgs) /\ used /\ Update
Act(t) == \/ St0(t) \/ St1(t) \/ St1b(t) \/ St2(t) \/ St3(t) \/ St5(t) \/ St6(t) \/ St7(t) \/ St8(t)
          \/ E0(t) \/ E1(t) \/ E2(t) \/ E3(t) \/ E9(t) \/ W(t)
          \/ C0(t) \/ C1(t) \/ C2(t) \/ C2b(t) \/ C3(t)
SAct(s) == V0(s) \/ V1(s) \/ V2(s) \/ V3(s) \/ Vx(s) \/ V4(s)
Work == \/ Upd /\ UNCHANGED late
        \/ \E t \in Th : St4(t) \/ (Act(t) /\ UNCHANGED late)
        \/ \E s \in Ss : SAct(s) /\ UNCHANGED late
        \/ \E a \in Addrs : (Accept(a) \/ LoopEnd(a)) /\ UNCHANGED late
        \/ \E x \in late : Late(x)
\* addresses become unavailable or available when everything is at rest
Avails == /\ "avail" \in Ops /\ n < MaxOps /\ n' = n + 1 /\ Env /\ Keep /\ ok' = ok /\ ~ENABLED Work
          /\ \E a \in As : a \notin bnd /\ Avail(a, a \in bad)
INext == ok /\ (EnvStep \/ Avails \/ Work)
Spec == IInit /\ [][INext]_ivars

Allowed == ok
OpenC == {s \in Ss : ss[s].st # "none" /\ s \notin sent /\ ~(ss[s].cut /\ sv[s].l = "none")}
AtRest == ~ENABLED Work => Rest(bnd, OpenC, {s \in Ss : sv[s].l = "v3"}, 0)
\* what the current listener means, and who holds what
Sane == /\ lsn # "" => (lsn \in bnd /\ lsn = inst)
        /\ \A s \in Ss : sv[s].l \in {"v2", "v3"} => s \in reg \/ s \in scl
        /\ closed => shut
        /\ (closed /\ \A t \in Th : ~Pending(t)) => bnd = {} /\ reg = {}
=============================================================================
