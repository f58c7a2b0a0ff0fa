---------------------------- MODULE ConfigStore ----------------------------
(***************************************************************************)
(* The configuration store: one source of configurations, any number of    *)
(* readers and subscribers.                                                *)
(*                                                                         *)
(* Every call of the API is a pair of events (Call, Ret). A configuration   *)
(* takes effect at the internal step Apply; from then on every subscription *)
(* whose predicates accept it owes it to its channel, in order. Subscribing *)
(* takes effect at the internal step SubLin. A subscription that is being   *)
(* cancelled ("end") owes nothing any more, but may still deliver until the *)
(* cancelling call returns.                                                *)
(*                                                                         *)
(* On selects the groups of clauses that are enforced:                     *)
(*   sub   C13  what subscribers receive                                   *)
(*   get   C14  what readers get                                           *)
(*   live  C15  nothing ever gets stuck                                    *)
(* Configurations are numbered in the order of their arrival; 0 is "none".  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Th, Ch, On

VARIABLES
  cfgs,    \* configurations given to the source: [l, d]
  taken,   \* how many of them the source has taken
  cur,     \* the configuration in force
  src,     \* the source is still open
  closed,  \* "no", "maybe" (closing has begun) or "yes" (closing is over or has been noticed)
  used,    \* somebody has called Get or Subscribe
  sub,     \* per channel: subscription
  rd,      \* per channel: its receiver is receiving
  thr      \* per thread: the call in progress

vars == <<cfgs, taken, cur, src, closed, used, sub, rd, thr>>

G(gs, cond) == (gs \cap On # {}) => cond
Track == On \cap {"sub", "live"} # {}   \* subscriptions matter
Idle == [op |-> "idle", c |-> 0, p |-> <<>>, hint |-> 0, lin |-> FALSE, cov |-> FALSE, since |-> 0, cl |-> FALSE]

Init ==
  /\ cfgs = <<>> /\ taken = 0 /\ cur = 0 /\ src = TRUE /\ closed = "no" /\ used = FALSE
     \* q: what it owes; last: the last one received; of earlier subscriptions of the channel configurations up to hi
     \* may still come; lim: how many may come once everything is over
  /\ sub = [c \in Ch |-> [st |-> "off", p |-> <<>>, q |-> <<>>, last |-> 0, hi |-> 0, lim |-> 0]]
  /\ rd = [c \in Ch |-> TRUE]
  /\ thr = [t \in Th |-> Idle]

L(k) == cfgs[k].l
D(k) == cfgs[k].d

\* a predicate is given the configuration in force before (0: none) and the new one
Pass(p, old, new) ==
  CASE p = "l" -> old = 0 \/ L(old) # L(new)
    [] p = "d" -> old = 0 \/ D(old) # D(new)
    [] p = "first" -> old = 0
    [] p = "later" -> old # 0
    [] OTHER -> FALSE \* "never"
Accepts(ps, old, new) == Len(ps) = 0 \/ \E i \in DOMAIN ps : Pass(ps[i], old, new)

Ending(x) == IF x.st = "on" THEN [x EXCEPT !.st = "end", !.q = <<>>] ELSE x
Over(x, n) == [st |-> "off", p |-> <<>>, q |-> <<>>, last |-> 0, hi |-> 0, lim |-> n]

---------------------------------------------------------------------------
(* Environment *)

Push(l, d) == /\ src
              /\ cfgs' = Append(cfgs, [l |-> l, d |-> d])
              /\ UNCHANGED <<taken, cur, src, closed, used, sub, rd, thr>>
\* the end of the source closes the store
SrcClose == /\ src /\ src' = FALSE
            /\ closed' = IF closed = "no" THEN "maybe" ELSE closed
            /\ sub' = [c \in Ch |-> Ending(sub[c])]
            /\ UNCHANGED <<cfgs, taken, cur, used, rd, thr>>
Reading(c, on) == rd' = [rd EXCEPT ![c] = on] /\ UNCHANGED <<cfgs, taken, cur, src, closed, used, sub, thr>>

\* hint: the configuration the call was found to start from (0: not known)
Call(t, op, c, p, hint) ==
  /\ thr[t].op = "idle"
  /\ thr' = [thr EXCEPT ![t] = [Idle EXCEPT !.op = op, !.c = c, !.p = p, !.since = IF op = "get" THEN cur ELSE 0, !.hint = hint, !.cl = (closed = "yes"),
                                            !.cov = (op = "unsub" /\ sub[c].st # "off")]]
  /\ used' = (used \/ op \in {"get", "sub"})
  /\ closed' = IF op = "close" /\ closed = "no" THEN "maybe" ELSE closed
  /\ sub' = CASE op \in {"sub", "unsub"} -> [sub EXCEPT ![c] = Ending(@)]
              [] op = "close" -> [x \in Ch |-> Ending(sub[x])]
              [] OTHER -> sub
  /\ UNCHANGED <<cfgs, taken, cur, src, rd>>

---------------------------------------------------------------------------
(* Internal steps *)

Apply ==
  /\ cur < Len(cfgs) /\ used
  /\ cur' = cur + 1
  /\ sub' = [c \in Ch |->
       IF sub[c].st = "on" /\ Accepts(sub[c].p, cur, cur + 1) THEN [sub[c] EXCEPT !.q = Append(@, cur + 1)] ELSE sub[c]]
  /\ UNCHANGED <<cfgs, taken, src, closed, used, rd, thr>>

\* cancelling calls in progress may or may not find the new subscription; closing finds it
SubLin(t) ==
  LET c == thr[t].c
      us == {u \in Th : thr[u].op = "unsub" /\ thr[u].c = c}
      x == sub[c]
      q == IF cur > 0 /\ Accepts(thr[t].p, 0, cur) THEN <<cur>> ELSE <<>>
      hi == IF x.st = "off" /\ x.lim = 0 THEN 0 ELSE cur
  IN /\ Track /\ thr[t].op = "sub" /\ ~thr[t].lin /\ closed # "yes" /\ ~thr[t].cl /\ thr[t].hint \in {0, cur}
     /\ \E A \in SUBSET us :
          /\ thr' = [u \in Th |-> IF u = t THEN [Idle EXCEPT !.op = "sub", !.c = c, !.lin = TRUE]
                                  ELSE IF u \in us THEN [thr[u] EXCEPT !.cov = (u \in A)] ELSE thr[u]]
          /\ sub' = [sub EXCEPT ![c] = IF A # {} \/ closed = "maybe"
                                       THEN [st |-> "end", p |-> thr[t].p, q |-> <<>>, last |-> 0, hi |-> hi, lim |-> 0]
                                       ELSE [st |-> "on", p |-> thr[t].p, q |-> q, last |-> 0, hi |-> hi, lim |-> 0]]
     /\ UNCHANGED <<cfgs, taken, cur, src, closed, used, rd>>

Internal == Apply \/ \E t \in Th : SubLin(t)

---------------------------------------------------------------------------
(* Observations *)

\* the source takes one configuration after the other
Pushed == /\ taken < Len(cfgs) /\ cur >= taken
          /\ taken' = taken + 1
          /\ UNCHANGED <<cfgs, cur, src, closed, used, sub, rd, thr>>

Owed(x, k) == x.st = "on" /\ Len(x.q) > 0 /\ Head(x.q) = k
Late(x, k) == CASE x.st = "off" -> x.lim > 0
                [] x.st = "end" -> k > x.last \/ k <= x.hi
                [] OTHER -> k <= x.hi

\* the receiver of channel c receives configuration k
Recv(c, k) ==
  LET x == sub[c] IN
  /\ IF k \in 1..Len(cfgs) THEN k <= cur ELSE G({"sub"}, FALSE)
  /\ \/ Owed(x, k) /\ sub' = [sub EXCEPT ![c].q = Tail(@), ![c].last = k, ![c].hi = 0]
     \/ /\ Late(x, k)
        /\ sub' = CASE x.st = "off" -> [sub EXCEPT ![c].lim = @ - 1]
                    [] x.st = "end" -> [sub EXCEPT ![c].last = IF k > @ THEN k ELSE @]
                    [] OTHER -> sub
     \/ ~Owed(x, k) /\ ~Late(x, k) /\ G({"sub"}, FALSE) /\ UNCHANGED sub
  /\ UNCHANGED <<cfgs, taken, cur, src, closed, used, rd, thr>>

\* a predicate of channel c is consulted
Pred(c, old, new) ==
  /\ G({"sub"}, /\ new \in 1..Len(cfgs)
                /\ \/ old = new - 1
                   \/ old = 0 /\ \E t \in Th : thr[t].op = "sub" /\ thr[t].c = c)
  /\ UNCHANGED vars

GetRet(t, k) ==
  /\ thr[t].op = "get"
  /\ IF k = 0 THEN G({"get"}, closed # "no")
     ELSE G({"get"}, k \in 1..cur /\ k >= thr[t].since /\ ~thr[t].cl)
  /\ closed' = IF k = 0 /\ closed = "maybe" THEN "yes" ELSE closed
  /\ thr' = [thr EXCEPT ![t] = Idle]
  /\ UNCHANGED <<cfgs, taken, cur, src, used, sub, rd>>

SubRet(t, r) ==
  /\ thr[t].op = "sub"
  /\ G({"sub"}, r \in {"ok", "closed"})
  /\ IF r = "closed" THEN G({"sub"}, closed # "no") /\ ~thr[t].lin ELSE Track => thr[t].lin
  /\ closed' = IF r = "closed" /\ closed = "maybe" THEN "yes" ELSE closed
  /\ thr' = [thr EXCEPT ![t] = Idle]
  /\ UNCHANGED <<cfgs, taken, cur, src, used, sub, rd>>

\* n: number of configurations that lie in the buffer of the channel when the call has returned
UnsubRet(t, n) ==
  LET c == thr[t].c
      x == sub[c]
  IN /\ thr[t].op = "unsub"
     /\ IF x.st = "end" /\ thr[t].cov
        THEN sub' = [sub EXCEPT ![c] = Over(x, n)]
        ELSE G({"sub"}, x.st = "off" => n <= x.lim) /\ UNCHANGED sub
     /\ thr' = [thr EXCEPT ![t] = Idle]
     /\ UNCHANGED <<cfgs, taken, cur, src, closed, used, rd>>

CloseRet(t, ns) ==
  /\ thr[t].op = "close"
  /\ closed' = "yes"
  /\ G({"sub"}, \A c \in Ch : sub[c].st = "off" => ns[c] <= sub[c].lim)
  /\ sub' = [c \in Ch |-> IF sub[c].st = "off" THEN sub[c] ELSE Over(sub[c], ns[c])]
  /\ thr' = [thr EXCEPT ![t] = Idle]
  /\ UNCHANGED <<cfgs, taken, cur, src, used, rd>>

Stalled == IF Track THEN {c \in Ch : sub[c].st # "off" /\ ~rd[c]} ELSE {c \in Ch : ~rd[c]}
Flowing == used /\ closed = "no" /\ Stalled = {}
MustBeClosed == closed = "yes" \/ (~src /\ used /\ Stalled = {})

\* nothing happens any more unless the environment acts
Rest ==
  /\ Flowing => G({"sub", "get", "live"}, cur = Len(cfgs) /\ taken = Len(cfgs))
  /\ Flowing => G({"sub", "live"}, \A c \in Ch : rd[c] => sub[c].q = <<>>)
  /\ \A t \in Th :
       /\ thr[t].op = "get" => G({"get", "live"}, cur = 0 /\ ~MustBeClosed)
       /\ thr[t].op \in {"unsub", "close"} => G({"live"}, FALSE)
       /\ thr[t].op = "sub" => G({"live"}, ~rd[thr[t].c] /\ ~MustBeClosed /\ thr[t].lin
                                                /\ (sub[thr[t].c].st = "on" \/ (sub[thr[t].c].st = "end" /\ ~src)))
Quiesce == /\ Rest
           /\ closed' = IF MustBeClosed THEN "yes" ELSE closed
           /\ UNCHANGED <<cfgs, taken, cur, src, used, sub, rd, thr>>

=============================================================================
