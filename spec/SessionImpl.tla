---------------------------- MODULE SessionImpl ----------------------------
(* How gevulot serves one session (the design behind C01, C03, C04, C06, C10), and that this is enough: a negotiation,
   then six loops - per direction one that receives, one that dispatches and one that sends, joined by bounded queues -
   over connections with bounded buffers, with the server closing at any moment. Checked: whatever the client, the
   database and the code that closes the server do, every step is one that Proxy allows, and when nothing can go on any
   more, Proxy finds that nothing is owed (a refinement; the variable a is what Proxy knows of the session, every action
   here says how it changes, and Proxy says whether it may).

   Parts holds the parts of the design that are in place; each of them is needed:
     check    the database asked for is compared with the configured one
     flush    what was received before a hang-up is handed on before the other connection is closed
     hangup   a loop that has nothing more to send closes its connection
     drain    a loop that cannot send any more goes on to empty its queue
     split    nothing is shared by the two directions
     cancel   a session being closed stops waiting for the database to answer the dial
     wait     the server waits for the session before it says that it is closed *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS CAmts, DAmts, MaxC, MaxD, MaxSsl, MaxOps, K, B, Env, Parts

VARIABLES a,      \* the session as in Proxy
          srv, mode, run,
          up, dn,   \* on their way: client to proxy, proxy to client (messages are numbers; 0: an N, garbage, a startup packet)
          du, dd,   \* proxy to database, database to proxy
          gc, gd,   \* the proxy's ends: "none", "open", "closed"
          set,      \* the session knows its connection to the database
          fired,    \* the session is being closed
          cl,       \* the calls that close it: set of [w, at]
          pc,       \* negotiation
          ci, di, do, co,   \* queues: [q, c] (closed)
          in,       \* receiving loops: "c", "d" -> [at, m]
          pr,       \* dispatching loops
          out,      \* sending loops: [at, err]
          lock,     \* (without "split") who holds the lock of both directions
          n         \* operations of the environment
vars == <<a, srv, mode, run, up, dn, du, dd, gc, gd, set, fired, cl, pc, ci, di, do, co, in, pr, out, lock, n>>

Cfgs == <<[db |-> "d1", addr |-> "h1"]>>
One == {1}
P == INSTANCE Proxy WITH Sess <- One, On <- {"relay", "iso", "stall", "close", "gate", "shake", "cfg", "fault", "srv"},
       S <- [s \in One |-> a], cfgs <- Cfgs, pushed <- 1, lo <- 1

Empty == [q |-> <<>>, c |-> FALSE]
Init == /\ a = [P!New EXCEPT !.c = "open"] /\ srv = "run" /\ mode \in {"listen", "direct"} /\ run = TRUE
        /\ up = <<>> /\ dn = <<>> /\ du = <<>> /\ dd = <<>> /\ gc = "open" /\ gd = "none" /\ set = FALSE /\ fired = FALSE /\ cl = {}
        /\ pc = "recv" /\ ci = Empty /\ di = Empty /\ do = Empty /\ co = Empty
        /\ in = [x \in {"c", "d"} |-> [at |-> "recv", m |-> 0]] /\ pr = [x \in {"c", "d"} |-> [at |-> "take", m |-> 0]]
        /\ out = [x \in {"c", "d"} |-> [at |-> "take", m |-> 0, err |-> FALSE]] /\ lock = "" /\ n = 0
Queues == <<ci, di, do, co>>
Loops == <<in, pr, out, lock>>

---------------------------------------------------------------------------
(* The environment *)
E(op) == /\ n < MaxOps /\ n' = n + 1 /\ op
         /\ UNCHANGED <<mode, run, gc, gd, set, fired, pc, Queues, Loops>>

COn == a.c \in {"open", "half"}
DOn == a.d \in {"open", "half"}
Started == \E i \in DOMAIN a.st : a.st[i].k # "ssl"
Kinds == {<<"v3", <<"d1">>, "good">>} \cup (IF "gate" \in Env THEN {<<"v3", <<"d2">>, "wrong">>, <<"bad", <<>>, "bad">>} ELSE {})
Ssls == Cardinality({i \in DOMAIN a.st : a.st[i].k = "ssl"})
CStart(k) == /\ a.c = "open" /\ ~a.ceof /\ ~Started
             /\ a' = [a EXCEPT !.st = Append(@, [k |-> k[1], dbs |-> k[2]]), !.lo0 = 1] /\ up' = Append(up, k[3])
             /\ UNCHANGED <<srv, dn, du, dd, cl>>
CSsl == /\ Ssls < MaxSsl /\ a.c = "open" /\ ~a.ceof /\ ~Started
        /\ a' = [a EXCEPT !.st = Append(@, [k |-> "ssl", dbs |-> <<>>]), !.lo0 = 1] /\ up' = Append(up, "ssl")
        /\ UNCHANGED <<srv, dn, du, dd, cl>>
Some(i, k) == [j \in 1..k |-> i + j]
CSend == /\ a.c = "open" /\ ~a.ceof /\ Started /\ a.st[Len(a.st)].k = "v3" /\ ~a.cj
         /\ \E k \in CAmts : a.cs + k <= MaxC /\ a' = [a EXCEPT !.cs = @ + k] /\ up' = up \o Some(a.cs, k)
         /\ UNCHANGED <<srv, dn, du, dd, cl>>
DSend == /\ a.d = "open" /\ ~a.deof /\ ~a.dj
         /\ \E k \in DAmts : a.ds + k <= MaxD /\ a' = [a EXCEPT !.ds = @ + k] /\ dd' = dd \o Some(a.ds, k)
         /\ UNCHANGED <<srv, up, dn, du, cl>>
CJunk == /\ "junk" \in Env /\ a.c = "open" /\ Started /\ ~a.cj /\ a' = [a EXCEPT !.cj = TRUE] /\ up' = Append(up, 0) /\ UNCHANGED <<srv, dn, du, dd, cl>>
DJunk == /\ "junk" \in Env /\ a.d = "open" /\ ~a.dj /\ a' = [a EXCEPT !.dj = TRUE] /\ dd' = Append(dd, 0) /\ UNCHANGED <<srv, up, dn, du, cl>>
\* hanging up: what was sent before still arrives, unless the connection is reset
CLeave(how) == /\ how \in Env /\ COn /\ how # a.c /\ ~a.ceof /\ a' = [a EXCEPT !.c = how]
               /\ up' = IF how = "reset" THEN <<>> ELSE up
               /\ dn' = (IF how = "half" THEN dn ELSE <<>>) /\ UNCHANGED <<srv, du, dd, cl>>
DLeave(how) == /\ how \in Env /\ (DOn \/ (a.d = "dialed" /\ how # "half")) /\ how # a.d /\ ~a.deof /\ a' = [a EXCEPT !.d = how]
               /\ dd' = IF how = "reset" THEN <<>> ELSE dd
               /\ du' = (IF how = "half" THEN du ELSE <<>>) /\ UNCHANGED <<srv, up, dn, cl>>
CStall == /\ "stall" \in Env /\ COn /\ ~a.ceof /\ a' = [a EXCEPT !.con = ~@] /\ UNCHANGED <<srv, up, dn, du, dd, cl>>
DStall == /\ "stall" \in Env /\ DOn /\ ~a.deof /\ a' = [a EXCEPT !.don = ~@] /\ UNCHANGED <<srv, up, dn, du, dd, cl>>
SrvClose == /\ "srv" \in Env /\ srv = "run" /\ srv' = "closing"
            /\ a' = [a EXCEPT !.act = IF a.d = "open" THEN "est" ELSE IF a.nN > 0 THEN "neg" ELSE "no"]
            /\ cl' = cl \cup {[w |-> "srv", at |-> "fire"]} /\ UNCHANGED <<up, dn, du, dd>>
User == E(\/ \E k \in Kinds : CStart(k)
          \/ CSsl \/ CSend \/ DSend \/ CJunk \/ DJunk \/ CStall \/ DStall \/ SrvClose
          \/ \E how \in {"closed", "half", "reset"} : CLeave(how) \/ DLeave(how))

---------------------------------------------------------------------------
(* What the environment sees *)
NoSys == UNCHANGED <<mode, gc, gd, set, fired, cl, pc, Queues, Loops, n>>
NRecv == /\ dn # <<>> /\ Head(dn) = 0 /\ COn /\ a.con /\ dn' = Tail(dn) /\ a' = [a EXCEPT !.nN = @ + 1] /\ UNCHANGED <<srv, run, up, du, dd>> /\ NoSys
CRecv == /\ dn # <<>> /\ Head(dn) # 0 /\ COn /\ a.con /\ dn' = Tail(dn) /\ a' = [a EXCEPT !.cr = Head(dn)] /\ UNCHANGED <<srv, run, up, du, dd>> /\ NoSys
DStart == /\ du # <<>> /\ Head(du) = 0 /\ a.d = "dialed" /\ du' = Tail(du) /\ a' = [a EXCEPT !.d = "open"] /\ UNCHANGED <<srv, run, up, dn, dd>> /\ NoSys
DRecv == /\ du # <<>> /\ Head(du) # 0 /\ DOn /\ a.don /\ du' = Tail(du) /\ a' = [a EXCEPT !.dr = Head(du)] /\ UNCHANGED <<srv, run, up, dn, dd>> /\ NoSys
CEof == /\ dn = <<>> /\ gc = "closed" /\ COn /\ a.con /\ ~a.ceof /\ a' = [a EXCEPT !.ceof = TRUE] /\ UNCHANGED <<srv, run, up, dn, du, dd>> /\ NoSys
DEof == /\ du = <<>> /\ gd = "closed" /\ a.d \in {"dialed", "open", "half"} /\ a.don /\ ~a.deof /\ a' = [a EXCEPT !.deof = TRUE] /\ UNCHANGED <<srv, run, up, dn, du, dd>> /\ NoSys
Ret == /\ mode = "direct" /\ pc = "done" /\ ~a.ret /\ a' = [a EXCEPT !.ret = TRUE] /\ UNCHANGED <<srv, run, up, dn, du, dd>> /\ NoSys
RunRet == /\ srv # "run" /\ run /\ run' = FALSE /\ UNCHANGED <<a, srv, up, dn, du, dd>> /\ NoSys
SrvClosed == /\ srv = "closing" /\ [w |-> "srv", at |-> "end"] \in cl
             /\ mode = "listen" /\ "wait" \in Parts => pc = "done"
             /\ srv' = "closed" /\ UNCHANGED <<a, run, up, dn, du, dd>> /\ NoSys
Seen == NRecv \/ CRecv \/ DStart \/ DRecv \/ CEof \/ DEof \/ Ret \/ RunRet \/ SrvClosed

---------------------------------------------------------------------------
(* The session: negotiation *)
CEnds == up = <<>> /\ a.c # "open"
NoQ == UNCHANGED <<Queues, Loops, srv, run, mode, n>>
Nego1 == /\ pc = "recv"
         /\ IF gc = "closed" \/ CEnds THEN pc' = "ret" /\ UNCHANGED up
            ELSE /\ up # <<>> /\ up' = Tail(up)
                 /\ pc' = CASE Head(up) = "ssl" -> "sendN"
                            [] Head(up) = "good" -> "dial"
                            [] Head(up) = "wrong" /\ "check" \notin Parts -> "dial"
                            [] OTHER -> "ret"
         /\ UNCHANGED <<a, dn, du, dd, gc, gd, set, fired, cl>> /\ NoQ
SendN == /\ pc = "sendN"
         /\ \/ gc = "closed" /\ pc' = "ret" /\ UNCHANGED dn
            \/ gc = "open" /\ a.c \in {"closed", "reset"} /\ pc' \in {"ret", "recv"} /\ UNCHANGED dn
            \/ gc = "open" /\ COn /\ Len(dn) < B /\ dn' = Append(dn, 0) /\ pc' = "recv"
         /\ UNCHANGED <<a, up, du, dd, gc, gd, set, fired, cl>> /\ NoQ
\* the answer to the dial is the environment's choice
Dial == /\ pc = "dial"
        /\ \E m \in IF "dial" \in Env THEN {"dialed", "refused", "hang"} ELSE {"dialed"} :
             /\ a' = [a EXCEPT !.d = m]
             /\ pc' = CASE m = "dialed" -> "assign" [] m = "refused" -> "ret" [] OTHER -> "hang"
             /\ gd' = IF m = "dialed" THEN "open" ELSE gd
        /\ UNCHANGED <<up, dn, du, dd, gc, set, fired, cl>> /\ NoQ
NoDial == /\ pc \in {"dial", "hang"} /\ fired /\ "cancel" \in Parts /\ pc' = "ret"
          /\ UNCHANGED <<a, up, dn, du, dd, gc, gd, set, fired, cl>> /\ NoQ
Assign == /\ pc = "assign" /\ set' = TRUE /\ pc' = "recheck" /\ UNCHANGED <<a, up, dn, du, dd, gc, gd, fired, cl>> /\ NoQ
Recheck == /\ pc = "recheck"
           /\ IF fired THEN gd' = "closed" /\ pc' = "ret" ELSE pc' = "start" /\ UNCHANGED gd
           /\ UNCHANGED <<a, up, dn, du, dd, gc, set, fired, cl>> /\ NoQ
Start == /\ pc = "start"
         /\ IF gd = "closed" THEN pc' = "ret" /\ UNCHANGED du
            ELSE du' = Append(du, 0) /\ pc' = "run"
         /\ UNCHANGED <<a, up, dn, dd, gc, gd, set, fired, cl>> /\ NoQ

(* the six loops; x is where messages come from: "c" or "d" *)
Y(x) == IF x = "c" THEN "d" ELSE "c"
Stream(x) == IF x = "c" THEN up ELSE dd
G(x) == IF x = "c" THEN gc ELSE gd
Ends(x) == IF x = "c" THEN CEnds ELSE dd = <<>> /\ a.d \in {"half", "closed", "reset"}
Room(x) == Len(IF x = "c" THEN dn ELSE du) < B
Left(x) == IF x = "c" THEN a.c \in {"closed", "reset"} ELSE a.d \in {"closed", "reset"}
QIn(x) == IF x = "c" THEN ci ELSE di
QOut(x) == IF x = "c" THEN do ELSE co
SetIn(x, v) == IF x = "c" THEN ci' = v /\ UNCHANGED di ELSE di' = v /\ UNCHANGED ci
SetOut(x, v) == IF x = "c" THEN do' = v /\ UNCHANGED co ELSE co' = v /\ UNCHANGED do
SetStream(x, v) == IF x = "c" THEN up' = v /\ UNCHANGED dd ELSE dd' = v /\ UNCHANGED up
NoNet == UNCHANGED <<up, dn, du, dd>>
NoLife == UNCHANGED <<a, srv, mode, run, set, fired, cl, pc, n>>

InRecv(x) == /\ pc = "run" /\ in[x].at = "recv"
             /\ IF G(x) = "closed" \/ Ends(x) \/ (Stream(x) # <<>> /\ Head(Stream(x)) = 0)
                THEN /\ in' = [in EXCEPT ![x].at = "end"] /\ UNCHANGED <<up, dd>>
                     /\ IF "flush" \in Parts THEN UNCHANGED <<gc, gd>> ELSE gc' = "closed" /\ gd' = "closed"
                     /\ SetIn(x, [QIn(x) EXCEPT !.c = TRUE])
                ELSE /\ Stream(x) # <<>> /\ SetStream(x, Tail(Stream(x)))
                     /\ in' = [in EXCEPT ![x] = [at |-> "put", m |-> Head(Stream(x))]]
                     /\ UNCHANGED <<gc, gd, ci, di>>
             /\ UNCHANGED <<dn, du, do, co, pr, out, lock>> /\ NoLife
InPut(x) == /\ in[x].at = "put" /\ Len(QIn(x).q) < K
            /\ SetIn(x, [QIn(x) EXCEPT !.q = Append(@, in[x].m)]) /\ in' = [in EXCEPT ![x] = [at |-> "recv", m |-> 0]]
            /\ UNCHANGED <<gc, gd, do, co, pr, out, lock>> /\ NoNet /\ NoLife
PrTake(x) == /\ pc = "run" /\ pr[x].at = "take"
             /\ IF QIn(x).q # <<>>
                THEN /\ "split" \notin Parts => lock = ""
                     /\ lock' = IF "split" \in Parts THEN lock ELSE x
                     /\ SetIn(x, [QIn(x) EXCEPT !.q = Tail(@)]) /\ pr' = [pr EXCEPT ![x] = [at |-> "put", m |-> Head(QIn(x).q)]]
                     /\ UNCHANGED <<do, co>>
                ELSE /\ QIn(x).c /\ pr' = [pr EXCEPT ![x].at = "end"] /\ SetOut(x, [QOut(x) EXCEPT !.c = TRUE]) /\ UNCHANGED <<ci, di, lock>>
             /\ UNCHANGED <<gc, gd, in, out>> /\ NoNet /\ NoLife
PrPut(x) == /\ pr[x].at = "put" /\ Len(QOut(x).q) < K
            /\ SetOut(x, [QOut(x) EXCEPT !.q = Append(@, pr[x].m)]) /\ pr' = [pr EXCEPT ![x] = [at |-> "take", m |-> 0]]
            /\ lock' = IF lock = x THEN "" ELSE lock
            /\ UNCHANGED <<gc, gd, ci, di, in, out>> /\ NoNet /\ NoLife
\* the loop that sends what came from x
OutTake(x) == /\ pc = "run" /\ out[x].at = "take"
              /\ IF QOut(x).q # <<>>
                 THEN /\ SetOut(x, [QOut(x) EXCEPT !.q = Tail(@)])
                      /\ out' = [out EXCEPT ![x].at = IF out[x].err THEN "take" ELSE "send", ![x].m = IF out[x].err THEN 0 ELSE Head(QOut(x).q)]
                      /\ UNCHANGED <<gc, gd>>
                 ELSE /\ QOut(x).c /\ out' = [out EXCEPT ![x].at = "end", ![x].m = 0] /\ UNCHANGED <<do, co>>
                      /\ IF "hangup" \notin Parts THEN UNCHANGED <<gc, gd>>
                         ELSE IF x = "c" THEN gd' = "closed" /\ UNCHANGED gc ELSE gc' = "closed" /\ UNCHANGED gd
              /\ UNCHANGED <<ci, di, in, pr, lock>> /\ NoNet /\ NoLife
OutFail(x) == IF "drain" \in Parts THEN out' = [out EXCEPT ![x] = [at |-> "take", m |-> 0, err |-> TRUE]] /\ UNCHANGED <<gc, gd>>
              ELSE /\ out' = [out EXCEPT ![x] = [at |-> "end", m |-> 0, err |-> TRUE]]
                   /\ IF x = "c" THEN gd' = "closed" /\ UNCHANGED gc ELSE gc' = "closed" /\ UNCHANGED gd
OutSend(x) == /\ out[x].at = "send"
              /\ \/ (G(Y(x)) = "closed" \/ Left(Y(x))) /\ OutFail(x) /\ UNCHANGED <<dn, du>>
                 \/ G(Y(x)) = "open" /\ Left(Y(x)) /\ out' = [out EXCEPT ![x] = [at |-> "take", m |-> 0, err |-> FALSE]] /\ UNCHANGED <<dn, du, gc, gd>>
                 \/ /\ G(Y(x)) = "open" /\ ~Left(Y(x)) /\ Room(Y(x))
                    /\ out' = [out EXCEPT ![x] = [at |-> "take", m |-> 0, err |-> FALSE]]
                    /\ IF x = "c" THEN du' = Append(du, out[x].m) /\ UNCHANGED dn ELSE dn' = Append(dn, out[x].m) /\ UNCHANGED du
                    /\ UNCHANGED <<gc, gd>>
              /\ UNCHANGED <<up, dd, Queues, in, pr, lock>> /\ NoLife
Loop(x) == InRecv(x) \/ InPut(x) \/ PrTake(x) \/ PrPut(x) \/ OutTake(x) \/ OutSend(x)

(* the end of the session, and closing: the same call from the session itself and from the server *)
Done == /\ pc = "run" /\ \A x \in {"c", "d"} : in[x].at = "end" /\ pr[x].at = "end" /\ out[x].at = "end"
        /\ pc' = "ret" /\ UNCHANGED <<a, up, dn, du, dd, gc, gd, set, fired, cl>> /\ NoQ
Fin == /\ pc = "ret" /\ pc' = "closing" /\ cl' = cl \cup {[w |-> "self", at |-> "fire"]}
       /\ UNCHANGED <<a, up, dn, du, dd, gc, gd, set, fired>> /\ NoQ
Close(k) == /\ k \in cl /\ k.at # "end"
            /\ LET to(x) == cl' = (cl \ {k}) \cup {[k EXCEPT !.at = x]} IN
               CASE k.at = "fire" -> /\ fired' = TRUE /\ to(IF fired THEN "end" ELSE "client") /\ UNCHANGED <<gc, gd>>
                 [] k.at = "client" -> gc' = "closed" /\ to("db") /\ UNCHANGED <<gd, fired>>
                 [] k.at = "db" -> /\ gd' = IF set THEN "closed" ELSE gd
                                   /\ to("end") /\ UNCHANGED <<gc, fired>>
            /\ UNCHANGED <<a, up, dn, du, dd, set, pc>> /\ NoQ
SelfEnd == /\ pc = "closing" /\ [w |-> "self", at |-> "end"] \in cl /\ pc' = "done"
           /\ UNCHANGED <<a, up, dn, du, dd, gc, gd, set, fired, cl>> /\ NoQ

Sys == \/ Nego1 \/ SendN \/ Dial \/ NoDial \/ Assign \/ Recheck \/ Start
       \/ Loop("c") \/ Loop("d")
       \/ Done \/ Fin \/ SelfEnd \/ \E k \in cl : Close(k)

Spec == Init /\ [][User \/ Seen \/ Sys]_vars /\ WF_vars(Seen \/ Sys)

---------------------------------------------------------------------------
(* The refinement *)
Oc == IF gc = "open" THEN One ELSE {}
Od == IF gd = "open" THEN One ELSE {}
SNext == \/ \E k \in CAmts \cup DAmts : P!CSend(1, a.cs + 1, a.cs + k) \/ P!DSend(1, a.ds + 1, a.ds + k)
         \/ P!CRecv(1, 1, a'.cr, a'.cr) \/ P!DRecv(1, 1, a'.dr, a'.dr)
         \/ P!NRecv(1) \/ P!DStart(1, TRUE) \/ P!CEof(1) \/ P!DEof(1)
         \/ \E how \in {"closed", "half", "reset"} : P!CLeave(1, how) \/ P!DLeave(1, how)
         \/ \E k \in Kinds \cup {<<"ssl", <<>>, "">>} : P!CStart(1, k[1], k[2])
         \/ P!CJunk(1) \/ P!DJunk(1)
         \/ \E on \in BOOLEAN : P!CReading(1, on) \/ P!DReading(1, on)
         \/ \E m \in {"accept", "refuse", "hang"} : P!Dial(1, "h1", m)
         \/ P!Ret(1, Oc # {}, Od # {})
RNext == IF srv' # srv THEN P!SrvClose \/ P!SrvClosed(Oc, Od, 0)
         ELSE IF run' # run THEN P!RunRet
         ELSE IF a' # a THEN SNext ELSE UNCHANGED P!vars
Refines == [][RNext]_vars
\* when nothing can go on any more, Proxy says that the proxy may rest
Resting == ~ENABLED (Seen \/ Sys)
Quiet == Resting => P!AtRest(Oc, Od, 0, IF srv = "run" THEN 1 ELSE 0, {}, {})
\* (mode "listen") the session has been forgotten
Forgotten == (Resting /\ P!Over(1)) => pc = "done"
Sane == P!TypeOK /\ Len(ci.q) <= K /\ Len(di.q) <= K /\ Len(do.q) <= K /\ Len(co.q) <= K
Rests == []<>(Resting \/ n < MaxOps)
=============================================================================
