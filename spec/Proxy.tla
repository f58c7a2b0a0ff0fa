------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* gevulot as its environment sees it: clients, databases, the source of   *)
(* configurations and the code that starts and closes the server.          *)
(*                                                                         *)
(* Every action is one observable event. Actions of the environment        *)
(* (Push, Connect, CStart, CSend, CClose, ...) are the *causes*; a cause    *)
(* is recorded before it is carried out. Actions of the proxy (NRecv,      *)
(* Dial, DStart, DRecv, CEof, ...) are the *observations*; an observation  *)
(* is recorded after it was made. Quiesce says that nothing can happen any *)
(* more unless the environment acts: it is allowed only when the proxy     *)
(* owes nothing, which turns the "eventually" clauses of the properties    *)
(* into safety conditions on finite histories.                             *)
(*                                                                         *)
(* C... is the client's end of a session, D... the database's end.         *)
(*                                                                         *)
(* On selects the groups of clauses that are enforced:                     *)
(*   relay  C01  intact, ordered, complete relaying in both directions     *)
(*   iso    C02  isolation of sessions                                     *)
(*   stall  C03  independence of the two directions                        *)
(*   close  C04  flush, propagation and release after a hang-up            *)
(*   gate   C05  which startups reach the database                         *)
(*   shake  C06  SSL denial and forwarding of the startup message          *)
(*   cfg    C16  one configuration per session, current at its start       *)
(*   fault  C17  faults stay local                                         *)
(*   srv    C10  closing the server                                        *)
(* A panic or a busy loop of the proxy is never allowed (C09).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Sess, On

VARIABLES
  S,       \* per session: everything known about it
  cfgs,    \* configurations handed to the source, in order: [db, addr]
  pushed,  \* how many of them the source has taken
  lo,      \* the last configuration known to be in force
  srv,     \* "run", "closing", "closed"
  mode,    \* how clients are handed over: "listen", "serve", "direct"
  run      \* the main call (Start or Serve) is still running

vars == <<S, cfgs, pushed, lo, srv, mode, run>>

\* the clause c belongs to the groups gs
G(gs, c) == (gs \cap On # {}) => c

New == [ c    |-> "none",   \* client's end: none open half closed reset refused (half: it sends no more, but reads)
         ceof |-> FALSE,    \* the client saw the end of the stream
         con  |-> TRUE,     \* the client is reading
         st   |-> <<>>,     \* startup packets sent: [k, dbs]
         nN   |-> 0,        \* 'N's received
         lo0  |-> 0,        \* lo when the last startup packet was sent
         d    |-> "none",   \* database's end: none refused hang dialed open half closed reset
         deof |-> FALSE,    \* the database saw the end of the stream
         don  |-> TRUE,     \* the database is reading
         cs   |-> 0, dr |-> 0,  \* messages sent by the client, received by the database
         ds   |-> 0, cr |-> 0,  \* messages sent by the database, received by the client
         cj   |-> FALSE, dj |-> FALSE, \* bytes that are no message were sent
         act  |-> "no",     \* was being served when the server was closed: no, neg(otiating), est(ablished)
         ret  |-> FALSE ]   \* the serving call returned (direct mode)

TypeOK ==
  /\ \A s \in Sess :
       /\ S[s].c \in {"none", "open", "half", "closed", "reset", "refused"}
       /\ S[s].d \in {"none", "refused", "hang", "dialed", "open", "half", "closed", "reset"}
       /\ S[s].nN \in Nat /\ S[s].cs \in Nat /\ S[s].dr \in Nat /\ S[s].ds \in Nat /\ S[s].cr \in Nat
  /\ srv \in {"run", "closing", "closed"}
  /\ pushed <= Len(cfgs) /\ lo <= pushed

Init ==
  /\ S = [s \in Sess |-> New]
  /\ cfgs = <<>> /\ pushed = 0 /\ lo = 0
  /\ srv = "run" /\ run = TRUE

---------------------------------------------------------------------------
(* What the environment did, in the terms of the properties *)

Ssl(s) == Cardinality({i \in DOMAIN S[s].st : S[s].st[i].k = "ssl"})
\* the packet that decides: the first one that is not an SSL request
Pk(s) == LET P == {i \in DOMAIN S[s].st : S[s].st[i].k # "ssl"}
         IN IF P = {} THEN [k |-> "none", dbs |-> <<>>]
            ELSE S[s].st[CHOOSE i \in P : \A j \in P : i <= j]

\* configurations that were current at some moment since the startup packet was sent
Window(s) == {k \in 1..Len(cfgs) : k >= S[s].lo0}

Names(dbs, db) == /\ Len(dbs) > 0
                  /\ \A i \in DOMAIN dbs : dbs[i] = db
Accepts(s, k) == /\ Pk(s).k = "v3"
                 /\ cfgs[k].db # "!"             \* "!": a configuration that cannot be used
                 /\ Names(Pk(s).dbs, cfgs[k].db)

CanAccept(s) == \E k \in Window(s) : Accepts(s, k)
CanRefuse(s) == \/ Pk(s).k \in {"other", "bad"}
                \/ Pk(s).k = "v3" /\ \E k \in Window(s) : ~Accepts(s, k)
\* the outcome of the negotiation does not depend on timing
WillAccept(s) == Pk(s).k = "v3" /\ Window(s) # {} /\ \A k \in Window(s) : Accepts(s, k)
WillRefuse(s) == \/ Pk(s).k \in {"other", "bad"}
                 \/ Pk(s).k = "v3" /\ Window(s) # {} /\ \A k \in Window(s) : ~Accepts(s, k)

\* the peer has left; it has hung up (it sends no more) but may still be reading
CLeft(s) == S[s].c \in {"closed", "reset"}
DLeft(s) == S[s].d \in {"closed", "reset"}
CGone(s) == CLeft(s) \/ S[s].c = "half"
DGone(s) == DLeft(s) \/ S[s].d = "half"
\* it can see what the proxy does
COn(s) == S[s].c \in {"open", "half"}
DOn(s) == S[s].d \in {"open", "half"}
\* an established session nobody has left
Healthy(s) == S[s].c = "open" /\ S[s].d = "open" /\ ~S[s].cj /\ ~S[s].dj

\* reasons for the proxy to end the client's connection
Fails(s) == \/ S[s].d = "none" /\ CanRefuse(s)
            \/ S[s].d \in {"refused", "hang"} \/ CGone(s) \/ DGone(s)
            \/ S[s].cj \/ S[s].dj
CReason(s) == srv # "run" \/ Fails(s)
\* reasons for the proxy to end the database's connection
DReason(s) == \/ srv # "run"
              \/ CGone(s) \/ DGone(s)
              \/ S[s].cj \/ S[s].dj

---------------------------------------------------------------------------
(* What the proxy owes when it has nothing left to do *)

OwesN(s) == /\ S[s].c = "open" /\ ~S[s].ceof /\ S[s].con
            /\ S[s].nN < Ssl(s)
OwesDial(s) == /\ S[s].c = "open" /\ ~S[s].ceof /\ S[s].d = "none" /\ WillAccept(s)
OwesDecision(s) == /\ S[s].c = "open" /\ S[s].con /\ S[s].d = "none" /\ ~S[s].ceof
                   /\ Pk(s).k = "v3" /\ Window(s) # {}
OwesRefusal(s) == /\ S[s].c = "open" /\ S[s].con /\ ~S[s].ceof
                  /\ S[s].d \in {"none", "refused"} /\ (WillRefuse(s) \/ S[s].d = "refused")
OwesStart(s) == S[s].d = "dialed" /\ ~S[s].deof
\* messages of a session nobody has left
OwesToD(s) == Healthy(s) /\ S[s].don /\ S[s].dr < S[s].cs
OwesToC(s) == Healthy(s) /\ S[s].con /\ S[s].cr < S[s].ds
\* messages sent before a hang-up, then the end of the stream
OwesDEof(s) == /\ DOn(s) /\ S[s].don /\ ~S[s].deof
               /\ CGone(s) \/ (DGone(s) /\ S[s].ceof)
OwesCEof(s) == /\ COn(s) /\ S[s].con /\ ~S[s].ceof
               /\ DGone(s) \/ (CGone(s) /\ (S[s].deof \/ S[s].d = "refused" \/ (S[s].d = "none" /\ Pk(s).k # "v3")))

\* nothing of the session remains to be done (both sides know it)
Over(s) == /\ S[s].c # "none"
           /\ CLeft(s) \/ S[s].ceof
           /\ S[s].d \in {"refused", "closed", "reset"} \/ S[s].deof \/ (S[s].d = "none" /\ Pk(s).k # "v3")
                \/ (S[s].d = "none" /\ Window(s) # {})

Progress(s) == ~OwesN(s) /\ ~OwesDial(s) /\ ~OwesDecision(s) /\ ~OwesStart(s) /\ ~OwesToD(s) /\ ~OwesToC(s)

---------------------------------------------------------------------------
(* The environment: configurations *)

Push(db, addr) ==
  /\ cfgs' = Append(cfgs, [db |-> db, addr |-> addr])
  /\ UNCHANGED <<S, pushed, lo, srv, mode, run>>

Pushed ==
  /\ pushed < Len(cfgs)
  /\ pushed' = pushed + 1
  /\ UNCHANGED <<S, cfgs, lo, srv, mode, run>>

(* The environment: clients *)

Connect(s) ==
  /\ S[s].c = "none"
  /\ S' = [S EXCEPT ![s].c = "open"]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

\* the connection could not be made: only when nothing listens
CRefused(s) ==
  /\ S[s].c = "open"
  /\ G({"fault"}, srv # "run" \/ lo = 0)
  /\ S' = [S EXCEPT ![s].c = "refused"]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

CStart(s, k, dbs) ==
  /\ S[s].c = "open"
  /\ S' = [S EXCEPT ![s].st = Append(@, [k |-> k, dbs |-> dbs]), ![s].lo0 = IF Pk(s).k = "none" THEN lo ELSE @]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

CSend(s, a, b) ==
  /\ S[s].c = "open" /\ a = S[s].cs + 1 /\ b >= a
  /\ S' = [S EXCEPT ![s].cs = b]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

CLeave(s, how) ==
  /\ COn(s) /\ how # S[s].c
  /\ S' = [S EXCEPT ![s].c = how]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

CJunk(s) ==
  /\ S' = [S EXCEPT ![s].cj = TRUE]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

CReading(s, on) ==
  /\ S' = [S EXCEPT ![s].con = on]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

(* The environment: databases *)

DSend(s, a, b) ==
  /\ S[s].d = "open" /\ a = S[s].ds + 1 /\ b >= a
  /\ S' = [S EXCEPT ![s].ds = b]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

DLeave(s, how) ==
  /\ S[s].d \in {"dialed", "open", "half"} /\ how # S[s].d
  /\ S' = [S EXCEPT ![s].d = how]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

DJunk(s) ==
  /\ S' = [S EXCEPT ![s].dj = TRUE]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

DReading(s, on) ==
  /\ S' = [S EXCEPT ![s].don = on]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

(* The environment: the server's lifecycle *)

SrvClose ==
  /\ srv = "run"
  /\ srv' = "closing"
  /\ S' = [s \in Sess |-> [S[s] EXCEPT !.act = IF S[s].d = "open" THEN "est" ELSE IF S[s].nN > 0 THEN "neg" ELSE "no"]]
  /\ UNCHANGED <<cfgs, pushed, lo, mode, run>>

---------------------------------------------------------------------------
(* The proxy: negotiation *)

NRecv(s) ==
  /\ G({"shake"}, COn(s) /\ S[s].nN < Ssl(s))
  /\ S' = [S EXCEPT ![s].nN = @ + 1]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

Dial(s, addr, m) ==
  /\ S[s].c # "none"
  /\ IF S[s].d # "none"
     THEN /\ G({"shake", "gate", "cfg"}, FALSE)          \* the only connection opened for that client
          /\ UNCHANGED S
     ELSE /\ G({"gate"}, CanAccept(s))
          /\ G({"cfg"}, \E k \in Window(s) : Accepts(s, k) /\ cfgs[k].addr = addr)
          /\ G({"shake"}, \E k \in DOMAIN cfgs : cfgs[k].addr = addr)
          /\ Pk(s).k # "none"
          /\ S' = [S EXCEPT ![s].d = IF m = "accept" THEN "dialed" ELSE IF m = "refuse" THEN "refused" ELSE "hang"]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

DStart(s, exact) ==
  /\ G({"shake"}, S[s].d = "dialed" /\ exact)
  /\ S' = [S EXCEPT ![s].d = IF @ = "dialed" THEN "open" ELSE @]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

(* The proxy: relaying *)

\* the database of session s receives messages a..b of the client of session src
DRecv(s, src, a, b) ==
  /\ G({"iso"}, src = s)
  /\ G({"relay"}, src = s /\ a = S[s].dr + 1 /\ b <= S[s].cs)
  /\ S' = IF src = s THEN [S EXCEPT ![s].dr = b] ELSE S
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

CRecv(s, src, a, b) ==
  /\ G({"iso"}, src = s)
  /\ G({"relay"}, src = s /\ a = S[s].cr + 1 /\ b <= S[s].ds)
  /\ G({"shake"}, S[s].d # "none")
  /\ S' = IF src = s THEN [S EXCEPT ![s].cr = b] ELSE S
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

\* something arrives that the peer never sent
CAlien(s) == G({"relay", "shake"}, FALSE) /\ UNCHANGED vars
DAlien(s) == G({"relay", "shake"}, FALSE) /\ UNCHANGED vars
CBad(s)   == G({"relay", "shake"}, FALSE) /\ UNCHANGED vars
DBad(s)   == G({"relay", "shake", "gate"}, FALSE) /\ UNCHANGED vars

\* the stream ends inside a message
CTorn(s) == G({"relay"}, srv # "run" \/ S[s].d = "reset" \/ S[s].cj \/ S[s].dj) /\ UNCHANGED vars
DTorn(s) == G({"relay"}, srv # "run" \/ S[s].c = "reset" \/ S[s].cj \/ S[s].dj) /\ UNCHANGED vars

(* The proxy: ending *)

CEof(s) ==
  /\ COn(s) /\ ~S[s].ceof
  /\ G({"relay", "iso", "close", "fault", "cfg", "stall"}, CReason(s))
  /\ G({"shake"}, CReason(s) /\ (srv # "run" \/ S[s].nN = Ssl(s)))
     \* everything the database sent before it hung up has arrived
  /\ G({"close"}, (S[s].d \in {"half", "closed"} /\ S[s].c = "open" /\ srv = "run" /\ ~S[s].cj /\ ~S[s].dj) => S[s].cr = S[s].ds)
  /\ S' = [S EXCEPT ![s].ceof = TRUE]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

DEof(s) ==
  /\ S[s].d \in {"dialed", "open", "half"} /\ ~S[s].deof
  /\ G({"relay", "iso", "close", "fault", "cfg", "stall", "shake"}, DReason(s))
  /\ G({"close"}, (S[s].c \in {"half", "closed"} /\ S[s].d = "open" /\ srv = "run" /\ ~S[s].cj /\ ~S[s].dj) => S[s].dr = S[s].cs)
  /\ G({"shake"}, srv = "run" /\ ~CGone(s) => DOn(s))
  /\ S' = [S EXCEPT ![s].deof = TRUE]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

\* the call serving the session returns; oc, od: its connections are still open at that moment
Ret(s, oc, od) ==
  /\ G({"close"}, srv = "run" => ~oc /\ ~od)   \* (a server that is being closed closes the connections itself)
  /\ G({"close", "iso", "fault"}, srv # "run" \/ CGone(s) \/ S[s].ceof \/ CReason(s))
  /\ S' = [S EXCEPT ![s].ret = TRUE]
  /\ UNCHANGED <<cfgs, pushed, lo, srv, mode, run>>

\* the main call returns
RunRet ==
  /\ G({"fault", "srv"}, srv # "run")
  /\ run' = FALSE
  /\ UNCHANGED <<S, cfgs, pushed, lo, srv, mode>>

\* the close call returns; oc, od: sessions whose connections are open, bound: open listeners
SrvClosed(oc, od, bound) ==
  /\ srv = "closing"
     \* a listener may come and go as long as a configuration is being taken over; so may a session that is
     \* served by a call of the environment and ends by itself or is just being connected to its database
  /\ G({"srv"}, /\ lo = Len(cfgs) => bound = 0
                /\ \A s \in oc \cup od : S[s].act # "no" =>
                      /\ mode = "direct"
                      /\ CGone(s) \/ Fails(s) \/ (s \notin oc /\ S[s].act = "neg"))
  /\ srv' = "closed"
  /\ UNCHANGED <<S, cfgs, pushed, lo, mode, run>>

\* many more clients have come; ok: those who asked for something were served or refused, as they had to be
Crowd(ok) ==
  /\ G({"relay", "iso", "stall", "fault", "gate", "cfg"}, ok)
  /\ UNCHANGED vars

\* goroutines stay behind although everything was closed
Leak == G({"srv", "close"}, FALSE) /\ UNCHANGED vars

---------------------------------------------------------------------------
(* Nothing goes on any more. oc, od: sessions whose connection to the client / to the database the proxy holds;
   ox: connections it holds that belong to no known session; pc, pd: sessions whose client / database has received
   only a part of a message. *)
AtRest(oc, od, ox, bound, pc, pd) ==
  /\ srv = "run" =>
       /\ G({"relay"}, pc = {} /\ pd = {} /\ \A s \in Sess : ~OwesToD(s) /\ ~OwesToC(s))
       /\ G({"iso", "stall", "fault"}, \A s \in Sess : Progress(s))
       /\ G({"shake"}, \A s \in Sess : ~OwesN(s) /\ ~OwesStart(s) /\ ~OwesDial(s))
       /\ G({"cfg"}, \A s \in Sess : ~OwesDial(s) /\ ~OwesDecision(s))
       /\ G({"gate"}, \A s \in Sess : ~OwesRefusal(s))
       /\ G({"close"}, \A s \in Sess : /\ ~OwesCEof(s) /\ ~OwesDEof(s) /\ ~OwesRefusal(s)
                                       /\ Over(s) => (s \notin oc \cup od /\ (mode = "direct" => S[s].ret)))
  /\ srv # "run" => G({"srv"}, /\ srv = "closed" /\ oc = {} /\ od = {} /\ ox = 0 /\ bound = 0
                               /\ mode # "direct" => ~run
                               /\ \A s \in Sess : /\ mode = "direct" /\ S[s].c # "none" => S[s].ret
                                                  /\ COn(s) /\ S[s].con => S[s].ceof
                                                  /\ DOn(s) /\ S[s].don => S[s].deof)

Quiesce(oc, od, ox, bound, pc, pd) ==
  /\ AtRest(oc, od, ox, bound, pc, pd)
  /\ lo' = pushed
  /\ UNCHANGED <<S, cfgs, pushed, srv, mode, run>>

=============================================================================
