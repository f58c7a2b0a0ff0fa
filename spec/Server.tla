------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* Life cycle and listeners of the server.                                  *)
(*                                                                         *)
(* Start, Serve, ServeConn and Close are calls with a beginning and an end, *)
(* any number of them in progress at the same time; so are Start and Close  *)
(* of a session used on its own. The network reports which addresses become *)
(* bound (Listen) and free (Unlisten). Clients connect to an address or are *)
(* handed over, greet, and have their pings answered by the database.       *)
(*                                                                         *)
(* A Start takes effect at the internal step StartLin and hears of          *)
(* configurations from StartSub on: the one then in force, and every later  *)
(* one that changes the address, asks for an address; tgt is the last one   *)
(* asked for that could be bound. Install makes a listener the current one, *)
(* which condemns the one before (dead).                                    *)
(*                                                                         *)
(*   addr  C12  which addresses are bound, who is disturbed                 *)
(*   life  C11  results of calls, nothing served after the end              *)
(*   rel   C10  everything is released, every call returns                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Th, Ss, On

VARIABLES
  cfgs,    \* addresses of the configurations
  cur,     \* number of the configuration in force
  used,    \* somebody needs configurations
  dist,    \* the store is open
  bad,     \* addresses that cannot be bound
  runner,  \* the Start that runs the server (0: none)
  ran,     \* some Start has run
  subd,    \* it has subscribed: from now on it hears of every configuration
  tgt,     \* the address configurations ask for
  lastc,   \* the last address installed because of a configuration
  fq,      \* bound because of a configuration, not installed yet
  inst,    \* current listener
  dead,    \* bound, but replaced
  bnd,     \* bound
  closing, \* some Close has begun
  closed,  \* some Close has returned
  thr,     \* calls
  ss       \* clients

vars == <<cfgs, cur, used, dist, bad, runner, ran, subd, tgt, lastc, fq, inst, dead, bnd, closing, closed, thr, ss>>
cfgv == <<cfgs, cur, used, dist>>
lsv == <<runner, ran, subd, tgt, lastc, fq, inst, dead, bnd>>
G(gs, cond) == (gs \cap On # {}) => cond
Range(f) == {f[i] : i \in DOMAIN f}

Idle == [op |-> "idle", a |-> "", s |-> 0, after |-> FALSE, lin |-> FALSE, done |-> FALSE]
NoOne == [st |-> "none", a |-> "", gone |-> FALSE, eof |-> FALSE, ping |-> 0, pong |-> 0, db |-> FALSE, cut |-> FALSE, over |-> "no"]

Init ==
  /\ cfgs = <<>> /\ cur = 0 /\ used = FALSE /\ dist = TRUE /\ bad = {}
  /\ runner = 0 /\ ran = FALSE /\ subd = FALSE /\ tgt = "" /\ lastc = "" /\ fq = <<>> /\ inst = "" /\ dead = {} /\ bnd = {}
  /\ closing = FALSE /\ closed = FALSE
  /\ thr = [t \in Th |-> Idle] /\ ss = [s \in Ss |-> NoOne]

---------------------------------------------------------------------------
(* Environment *)

Push(a) == /\ cfgs' = Append(cfgs, a)
           /\ UNCHANGED <<cur, used, dist, bad, closing, closed, thr, ss>> /\ UNCHANGED lsv
DistClose == dist' = FALSE /\ UNCHANGED <<cfgs, cur, used, bad, closing, closed, thr, ss>> /\ UNCHANGED lsv
\* an address stops or starts being available (only when everything is at rest)
Avail(a, ok) == /\ bad' = IF ok THEN bad \ {a} ELSE bad \cup {a}
                /\ UNCHANGED <<closing, closed, thr, ss>> /\ UNCHANGED lsv /\ UNCHANGED cfgv

\* s: the client a ServeConn or a session is for
Call(t, op, a, s) ==
  /\ thr[t] = Idle
  /\ op = "serve" => a \notin bnd
  /\ thr' = [thr EXCEPT ![t] = [Idle EXCEPT !.op = op, !.a = a, !.s = s,
              !.after = IF op \in {"sstart", "sclose"} THEN ss[s].over = "yes" ELSE closed]]
  /\ used' = (used \/ op \in {"start", "serveconn", "sstart"})
  /\ closing' = (closing \/ op = "close")
  /\ bnd' = IF op = "serve" THEN bnd \cup {a} ELSE bnd
  /\ ss' = CASE op \in {"serveconn", "sstart"} /\ ss[s].st = "none" -> [ss EXCEPT ![s].st = "direct"]
             [] op = "sclose" -> [ss EXCEPT ![s].over = IF @ = "no" THEN "maybe" ELSE @, ![s].st = "direct"]
             [] OTHER -> ss
  /\ UNCHANGED <<cfgs, cur, dist, bad, runner, ran, subd, tgt, lastc, fq, inst, dead, closed>>

\* a client connects to a bound address
Connect(s, a) ==
  /\ ss[s].st = "none" /\ a \in bnd
  /\ ss' = [ss EXCEPT ![s].st = "via", ![s].a = a]
  /\ used' = TRUE
  /\ UNCHANGED <<cfgs, cur, dist, bad, closing, closed, thr>> /\ UNCHANGED lsv
Ping(s) == /\ ss[s].st # "none" /\ ss' = [ss EXCEPT ![s].ping = @ + 1]
           /\ UNCHANGED <<bad, closing, closed, thr>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
CClose(s) == /\ ss[s].st # "none" /\ ss' = [ss EXCEPT ![s].gone = TRUE]
             /\ UNCHANGED <<bad, closing, closed, thr>> /\ UNCHANGED lsv /\ UNCHANGED cfgv

---------------------------------------------------------------------------
(* Internal steps *)

\* "Asks": the configuration that has come into force is one the started server has to follow
Asks(k, t0) == IF cfgs[k] \notin bad THEN cfgs[k] ELSE t0
\* (a configuration on its way when the store begins to close may still come into force)
Apply ==
  /\ used /\ cur < Len(cfgs)
  /\ cur' = cur + 1
  /\ LET k == cur + 1 IN
     IF runner = 0 \/ ~subd THEN UNCHANGED tgt
     ELSE IF k = 1 \/ cfgs[k] # cfgs[k - 1] THEN tgt' = Asks(k, tgt)
     ELSE tgt' \in {tgt, Asks(k, tgt)}
  /\ UNCHANGED <<cfgs, used, dist, bad, runner, ran, subd, lastc, fq, inst, dead, bnd, closing, closed, thr, ss>>

StartLin(t) ==
  /\ thr[t].op = "start" /\ ~thr[t].after /\ ~ran
  /\ runner' = t /\ ran' = TRUE
  /\ UNCHANGED <<cfgs, cur, used, dist, bad, subd, tgt, lastc, fq, inst, dead, bnd, closing, closed, thr, ss>>
StartSub ==
  /\ runner # 0 /\ ~subd /\ subd' = TRUE
  /\ tgt' = IF cur = 0 THEN tgt ELSE Asks(cur, tgt)
  /\ UNCHANGED <<cfgs, cur, used, dist, bad, runner, ran, lastc, fq, inst, dead, bnd, closing, closed, thr, ss>>

Condemn(a) == dead' = (IF inst = "" THEN dead ELSE dead \cup {inst}) \ {a}
InstallCfg ==
  /\ fq # <<>> /\ ~closed
  /\ inst' = Head(fq) /\ lastc' = Head(fq) /\ fq' = Tail(fq) /\ Condemn(Head(fq))
  /\ UNCHANGED <<runner, ran, subd, tgt, bnd, bad, closing, closed, thr, ss>> /\ UNCHANGED cfgv
InstallServe(t) ==
  /\ thr[t].op = "serve" /\ ~thr[t].lin /\ ~thr[t].after /\ thr[t].a \in bnd
  /\ thr' = [thr EXCEPT ![t].lin = TRUE]
  /\ inst' = thr[t].a /\ Condemn(thr[t].a)
  /\ UNCHANGED <<runner, ran, subd, tgt, lastc, fq, bnd, bad, closing, closed, ss>> /\ UNCHANGED cfgv

Internal == Apply \/ InstallCfg \/ StartSub \/ \E t \in Th : StartLin(t) \/ InstallServe(t)

---------------------------------------------------------------------------
(* Observations *)

\* the server binds an address, or tries to
Listen(a, ok) ==
  /\ G({"addr", "life"}, runner # 0 /\ subd)
  /\ G({"addr"}, \E k \in 1..cur : cfgs[k] = a)
  /\ IF ok THEN bnd' = bnd \cup {a} /\ fq' = Append(fq, a) ELSE UNCHANGED <<bnd, fq>>
  /\ UNCHANGED <<runner, ran, subd, tgt, lastc, inst, dead, bad, closing, closed, thr, ss>> /\ UNCHANGED cfgv

\* a listener is closed: only one that has been replaced, unless the server is being closed
Unlisten(a) ==
  /\ G({"addr"}, a \in bnd /\ (closing \/ a \in dead))
  /\ bnd' = bnd \ {a} /\ dead' = dead \ {a}
  /\ fq' = SelectSeq(fq, LAMBDA x : x # a)
  /\ inst' = IF inst = a THEN "" ELSE inst
  /\ ss' = [s \in Ss |-> IF ss[s].st = "via" /\ ss[s].a = a THEN [ss[s] EXCEPT !.cut = TRUE] ELSE ss[s]]
  /\ UNCHANGED <<runner, ran, subd, tgt, lastc, bad, closing, closed, thr>> /\ UNCHANGED cfgv

\* the client of a session and its database connection
Over(s) == ss[s].over = "yes"
Served(s) == ss[s].db     \* the session has got as far as the database
DStart(s) == /\ ss[s].st # "none"
             /\ G({"life"}, ~Over(s))
             /\ ss' = [ss EXCEPT ![s].db = TRUE]
             /\ UNCHANGED <<bad, closing, closed, thr>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
Pong(s) == /\ ss[s].pong < ss[s].ping
           /\ ss' = [ss EXCEPT ![s].pong = @ + 1]
           /\ UNCHANGED <<bad, closing, closed, thr>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
\* an end of file at the client of a session that is still in use
CEof(s) == /\ G({"addr"}, ss[s].gone \/ closing \/ ~dist \/ ss[s].over # "no" \/ (ss[s].cut /\ ~ss[s].db))
           /\ ss' = [ss EXCEPT ![s].eof = TRUE]
           /\ UNCHANGED <<bad, closing, closed, thr>> /\ UNCHANGED lsv /\ UNCHANGED cfgv

Ended(t) == thr' = [thr EXCEPT ![t] = [@ EXCEPT !.op = "done"]]

StartRet(t, r) ==
  /\ thr[t].op = "start"
  /\ G({"life"}, /\ r \in {"closed", "already", "store"}
                 /\ thr[t].after => r = "closed"
                 /\ r = "closed" => closing
                 /\ r = "already" => ran /\ runner # t
                 /\ r = "store" => ~dist /\ runner = t)
  /\ runner' = IF runner = t THEN 0 ELSE runner
  /\ Ended(t)
  /\ UNCHANGED <<ran, subd, tgt, lastc, fq, inst, dead, bnd, bad, closing, closed, ss>> /\ UNCHANGED cfgv
\* open: the listener is still open
ServeRet(t, r, open) ==
  /\ thr[t].op = "serve"
  /\ G({"life"}, /\ r \in {"closed", "net"}
                 /\ thr[t].after => r = "closed"
                 /\ r = "closed" => closing
                 /\ r = "net" => thr[t].lin)
  /\ G({"life", "rel"}, ~open)
  /\ Ended(t)
  /\ UNCHANGED <<bad, closing, closed, ss>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
\* oc, od: connections of the session that are still open
ServeConnRet(t, r, oc, od) ==
  LET s == thr[t].s IN
  /\ thr[t].op = "serveconn"
  /\ G({"life"}, /\ thr[t].after => r = "closed" /\ ~ss[s].db
                 /\ r = "closed" => closing)
  /\ G({"life", "rel"}, (\E u \in Th : thr[u].op = "close") \/ (~oc /\ ~od))
  /\ ss' = [ss EXCEPT ![s].over = "yes"]
  /\ Ended(t)
  /\ UNCHANGED <<bad, closing, closed>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
SStartRet(t, r, oc, od) ==
  LET s == thr[t].s IN
  /\ thr[t].op = "sstart"
  /\ G({"life"}, /\ thr[t].after => r = "sclosed"
                 /\ r = "sclosed" => ss[s].over # "no")
  /\ G({"life", "rel"}, (\E u \in Th : thr[u].op = "sclose" /\ thr[u].s = s) \/ (~oc /\ ~od))   \* a Close in progress may still be at it
  /\ ss' = [ss EXCEPT ![s].over = "yes"]
  /\ Ended(t)
  /\ UNCHANGED <<bad, closing, closed>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
SCloseRet(t) ==
  /\ thr[t].op = "sclose"
  /\ ss' = [ss EXCEPT ![thr[t].s].over = "yes"]
  /\ Ended(t)
  /\ UNCHANGED <<bad, closing, closed>> /\ UNCHANGED lsv /\ UNCHANGED cfgv
CloseRet(t) ==
  /\ thr[t].op = "close" /\ closed' = TRUE /\ Ended(t)
  /\ UNCHANGED <<bad, closing, ss>> /\ UNCHANGED lsv /\ UNCHANGED cfgv

---------------------------------------------------------------------------
(* Nothing happens any more unless the environment acts. b: bound addresses; oc, od: sessions whose client or
   database connection is open, ox: how many connections of nobody are. *)

Starting == \E t \in Th : thr[t].op = "start"
Pending(t) == thr[t].op \notin {"idle", "done"}
\* a client that has to be served
Due(s) == /\ ss[s].st # "none" /\ ~ss[s].gone /\ ss[s].over = "no" /\ Len(cfgs) > 0
          /\ ~(ss[s].cut /\ ~ss[s].db)
          /\ ss[s].st = "via" => \/ ss[s].db \/ ss[s].a = inst \/ \E t \in Th : thr[t].op = "serve" /\ thr[t].a = ss[s].a

\* a session that may go on: its client is there, or there is no configuration yet, for which it waits
Stays(s) == ss[s].over = "no" /\ (~ss[s].gone \/ Len(cfgs) = 0)

Rest(b, oc, od, ox) ==
  IF closing THEN
    /\ G({"rel"}, b = {} /\ \A t \in Th : Pending(t) => thr[t].op = "sstart" /\ Stays(thr[t].s))
    /\ G({"rel"}, oc \cup od \subseteq {s \in Ss : Stays(s) /\ \E t \in Th : thr[t].op = "sstart" /\ thr[t].s = s} /\ ox = 0)
  ELSE
    /\ b = bnd
    /\ G({"addr", "life"}, Starting => runner # 0 /\ {t \in Th : thr[t].op = "start"} = {runner})
    /\ runner # 0 /\ dist => subd /\ cur = Len(cfgs)
    /\ fq = <<>> /\ \A t \in Th : thr[t].op = "serve" => thr[t].lin
    /\ G({"addr"}, dead = {})
    /\ G({"addr"}, runner # 0 /\ dist /\ tgt # "" => lastc = tgt)
    /\ G({"addr"}, b \subseteq {inst})
    /\ G({"life"}, \A t \in Th : thr[t].op \in {"sclose"} \/ (Pending(t) /\ thr[t].after) => FALSE)
    /\ G({"addr"}, dist => \A s \in Ss : Due(s) => ss[s].pong = ss[s].ping /\ ss[s].db)
    /\ G({"rel"}, \A s \in Ss : s \in oc \cup od => Stays(s))
    /\ G({"rel"}, \A t \in Th : thr[t].op \in {"serveconn", "sstart"} => Stays(thr[t].s))

Quiesce(b, oc, od, ox) == Rest(b, oc, od, ox) /\ UNCHANGED vars

=============================================================================
