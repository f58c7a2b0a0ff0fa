----------------------------- MODULE StoreImpl -----------------------------
(***************************************************************************)
(* How the configuration store works: a goroutine that monitors the source, *)
(* a table of subscriptions behind a mutex, and for every subscription a    *)
(* lock that is held while something is sent to its channel and an event    *)
(* that cancels it. Calls are sequences of steps; a step is what happens    *)
(* under the mutex, or one that may have to wait.                           *)
(*                                                                         *)
(* Every step is taken together with the action of ConfigStore it           *)
(* implements; ok becomes FALSE when ConfigStore does not allow it. When no *)
(* step of the store is possible, ConfigStore must be at rest.              *)
(*                                                                         *)
(* Parts are the decisions the algorithm depends on; without any one of     *)
(* them ConfigStore is violated:                                            *)
(*   wait     cancelling waits for the sender                              *)
(*   order    a subscription leaves the table only after it was cancelled  *)
(*   recheck  subscribing looks again whether the store is closed          *)
(*   hold     the lock is held from before the subscription is in the table *)
(*            until the current configuration was sent                     *)
(*   select   sending gives up when the subscription is cancelled          *)
(*   outside  the mutex is not held while something is sent                *)
(*   own      unsubscribing removes the subscription it has found, no other *)
(*   again    subscribing cancels the subscriptions others have made to the *)
(*            channel meanwhile                                             *)
(***************************************************************************)
EXTENDS ConfigStore, TLC

CONSTANTS Ls, Ds, MaxCfg, MaxOps, Closes, Stalls, PredLists, Parts

VARIABLES
  n,       \* operations of the environment so far
  ok,      \* every step so far was one of ConfigStore
  last,    \* the last configuration received
  started, shut, conf,  \* events: monitoring has started, the store is closed, there is a configuration
  mu,      \* who holds the mutex for longer than one step ("": nobody)
  objs,    \* subscriptions: [c, p, gone, lock]
  tab,     \* per channel: its subscription (0: none)
  pc       \* per thread and for "m", the monitoring goroutine: where it is and what it works on

FewPreds == {<<>>, <<"l">>}
ivars == <<vars, n, ok, last, started, shut, conf, mu, objs, tab, pc>>

M == "m"
Has(x) == x \in Parts
At(t, l) == pc[t].l = l
Go(t, l) == pc' = [pc EXCEPT ![t].l = l]
Spot == [l |-> "off", o |-> 0, todo |-> {}, old |-> 0, ret |-> ""]
Names == {ToString(t) : t \in Th}
Nm(t) == ToString(t)

\* the step implements A of ConfigStore
By(A) == IF ENABLED A THEN A /\ ok' = ok ELSE ok' = FALSE /\ UNCHANGED vars
Silent == UNCHANGED vars /\ ok' = ok
Env == UNCHANGED <<last, started, shut, conf, mu, objs, tab>>

IInit == /\ Init /\ n = 0 /\ ok = TRUE /\ last = 0 /\ started = FALSE /\ shut = FALSE /\ conf = FALSE /\ mu = ""
         /\ objs = <<>> /\ tab = [c \in Ch |-> 0]
         /\ pc = [t \in Names \cup {M} |-> Spot]

---------------------------------------------------------------------------
(* The environment *)

First(op) == CASE op = "get" -> "g0" [] op = "sub" -> "s0" [] op = "unsub" -> "u1" [] OTHER -> "c1"
\* what follows an unsubscribing: the call returns, subscribing goes on, closing goes on
Begin(t, op, c, p) == /\ Call(t, op, c, p, 0) /\ ok' = ok
                      /\ pc' = [pc EXCEPT ![Nm(t)] = [Spot EXCEPT !.l = First(op), !.o = c, !.ret = op]]
Op == n < MaxOps /\ n' = n + 1 /\ Env
EnvStep ==
  /\ Op
  /\ \/ \E l \in Ls, d \in Ds : Len(cfgs) < MaxCfg /\ Push(l, d) /\ ok' = ok /\ UNCHANGED pc
     \/ \E t \in Th, c \in Ch, p \in PredLists : Begin(t, "sub", c, p)
     \/ \E t \in Th, c \in Ch : Begin(t, "unsub", c, <<>>)
     \/ \E t \in Th : Begin(t, "get", 0, <<>>) \/ (Closes /\ Begin(t, "close", 0, <<>>))
     \/ Closes /\ SrcClose /\ ok' = ok /\ UNCHANGED pc
     \/ Stalls /\ \E c \in Ch : Reading(c, ~rd[c]) /\ ok' = ok /\ UNCHANGED pc

---------------------------------------------------------------------------
(* Unsubscribing: pc.o is the channel first, then the subscription that was found. ret tells who wants it. *)

T(t) == IF t = M THEN 0 ELSE CHOOSE x \in Th : Nm(x) = t
\* the end of an unsubscribing: back to the call it belongs to
Back(t) ==
  CASE pc[t].ret = "unsub" -> By(UnsubRet(T(t), 0)) /\ pc' = [pc EXCEPT ![t] = Spot]
    [] pc[t].ret = "sub"   -> Silent /\ Go(t, "s2")
    [] OTHER -> Silent /\ Go(t, "c3")

U1(t) == /\ At(t, "u1") /\ mu = ""
         /\ LET c == pc[t].o
                o == tab[c]
            IN IF o = 0 THEN /\ Back(t) /\ UNCHANGED tab
               ELSE /\ Silent /\ pc' = [pc EXCEPT ![t].l = "u2", ![t].o = o]
                    /\ IF Has("order") THEN UNCHANGED tab ELSE tab' = [tab EXCEPT ![c] = 0]
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs>>
U2(t) == /\ At(t, "u2") /\ objs' = [objs EXCEPT ![pc[t].o].gone = TRUE] /\ Go(t, IF Has("wait") THEN "u3" ELSE "u4")
         /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, tab>>
U3(t) == /\ At(t, "u3") /\ objs[pc[t].o].lock = "" /\ Go(t, "u4")
         /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
U4(t) == /\ At(t, "u4") /\ mu = ""
         /\ LET o == pc[t].o
                c == objs[o].c
            IN tab' = IF Has("order") /\ (tab[c] = o \/ ~Has("own")) THEN [tab EXCEPT ![c] = 0] ELSE tab
         /\ Back(t)
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs>>

---------------------------------------------------------------------------
(* Sending under the lock of a subscription: gone, taken by the receiver, or cancelled meanwhile *)

SendSkip(o) == objs[o].gone
CanTake(o) == rd[objs[o].c]
CanQuit(o) == Has("select") /\ objs[o].gone
Free(o) == objs' = [objs EXCEPT ![o].lock = ""]
\* what is owed is paid first
Take(o, k) == LET c == objs[o].c IN By(Recv(c, k) /\ (Owed(sub[c], k) => sub'[c].q = Tail(sub[c].q)))

---------------------------------------------------------------------------
(* Subscribing: pc.o is the channel, then the new subscription *)

S0(t) == /\ At(t, "s0")
         /\ IF shut THEN By(SubRet(T(t), "closed")) /\ pc' = [pc EXCEPT ![t] = Spot]
            ELSE Silent /\ Go(t, "u1")
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
S2(t) == /\ At(t, "s2")
         /\ objs' = Append(objs, [c |-> thr[T(t)].c, p |-> thr[T(t)].p, gone |-> FALSE, lock |-> IF Has("hold") THEN t ELSE ""])
         /\ pc' = [pc EXCEPT ![t].l = "s3", ![t].o = Len(objs) + 1]
         /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, tab>>
\* SubLin with the cancelling calls that are still to look for the subscription
Lin(t) == LET c == thr[t].c
              us == {u \in Th : thr[u].op = "unsub" /\ thr[u].c = c}
              A == {u \in us : At(Nm(u), "u1")}
          IN SubLin(t) /\ \A u \in us : thr'[u].cov = (u \in A)
S3(t) == /\ At(t, "s3") /\ mu = ""
         /\ LET c == thr[T(t)].c
                p == thr[T(t)].p
                send == last # 0 /\ Accepts(p, 0, last)
            IN IF tab[c] # 0 /\ Has("again")
               THEN /\ Silent /\ pc' = [pc EXCEPT ![t].l = "u1", ![t].o = c] /\ UNCHANGED <<objs, tab, started>>
               ELSE IF shut /\ Has("recheck")
               THEN /\ By(SubRet(T(t), "closed")) /\ pc' = [pc EXCEPT ![t] = Spot] /\ Free(pc[t].o)
                    /\ UNCHANGED <<tab, started>>
               ELSE /\ By(Lin(T(t))) /\ tab' = [tab EXCEPT ![c] = pc[t].o] /\ started' = TRUE
                    /\ pc' = [pc EXCEPT ![t].l = IF send THEN "s4" ELSE "s5", ![t].old = last,
                                        ![M].l = IF started THEN @ ELSE "m0"]
                    /\ UNCHANGED objs
         /\ UNCHANGED <<n, last, shut, conf, mu>>
\* (without hold the lock is taken only now)
S4(t) == /\ At(t, "s4")
         /\ Has("hold") \/ objs[pc[t].o].lock = ""
         /\ IF SendSkip(pc[t].o) THEN Go(t, "s5") /\ UNCHANGED objs
            ELSE Go(t, "s4b") /\ objs' = [objs EXCEPT ![pc[t].o].lock = t]
         /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, tab>>
S4b(t) == /\ At(t, "s4b")
          /\ \/ CanTake(pc[t].o) /\ Take(pc[t].o, pc[t].old)
             \/ CanQuit(pc[t].o) /\ Silent
          /\ Go(t, "s5")
          /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
S5(t) == /\ At(t, "s5") /\ Free(pc[t].o)
         /\ By(SubRet(T(t), "ok")) /\ pc' = [pc EXCEPT ![t] = Spot]
         /\ UNCHANGED <<n, last, started, shut, conf, mu, tab>>

---------------------------------------------------------------------------
(* Reading *)

G0(t) == /\ At(t, "g0")
         /\ IF shut THEN By(GetRet(T(t), 0)) /\ pc' = [pc EXCEPT ![t] = Spot] ELSE Silent /\ Go(t, "g1")
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
G1(t) == /\ At(t, "g1") /\ mu = ""
         /\ pc' = [pc EXCEPT ![t].l = IF last = 0 THEN "g2" ELSE "g4", ![t].old = last]
         /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
G2(t) == /\ At(t, "g2") /\ started' = TRUE
         /\ pc' = [pc EXCEPT ![t].l = "g3", ![M].l = IF started THEN @ ELSE "m0"]
         /\ Silent /\ UNCHANGED <<n, last, shut, conf, mu, objs, tab>>
G3(t) == /\ At(t, "g3")
         /\ \/ conf /\ mu = "" /\ pc' = [pc EXCEPT ![t].l = "g4", ![t].old = last] /\ Silent
            \/ shut /\ By(GetRet(T(t), 0)) /\ pc' = [pc EXCEPT ![t] = Spot]
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
G4(t) == /\ At(t, "g4") /\ By(GetRet(T(t), pc[t].old)) /\ pc' = [pc EXCEPT ![t] = Spot]
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>

---------------------------------------------------------------------------
(* Closing, by a call or because the source has ended *)

C1(t) == /\ At(t, "c1") /\ shut' = TRUE /\ Go(t, "c2")
         /\ Silent /\ UNCHANGED <<n, last, started, conf, mu, objs, tab>>
C2(t) == /\ At(t, "c2") /\ mu = ""
         /\ pc' = [pc EXCEPT ![t].l = "c3", ![t].todo = {c \in Ch : tab[c] # 0}]
         /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
C3(t) == /\ At(t, "c3")
         /\ IF pc[t].todo = {}
            THEN /\ pc' = [pc EXCEPT ![t] = Spot]
                 /\ IF t = M THEN Silent ELSE By(CloseRet(T(t), [c \in Ch |-> 0]))
            ELSE \E c \in pc[t].todo : /\ pc' = [pc EXCEPT ![t].l = "u1", ![t].o = c, ![t].todo = @ \ {c}]
                                       /\ Silent
         /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>

---------------------------------------------------------------------------
(* The monitoring goroutine *)

M0 == /\ At(M, "m0")
      /\ \/ taken < Len(cfgs) /\ By(Pushed) /\ Go(M, "m1")
         \/ ~src /\ taken = Len(cfgs) /\ Silent /\ pc' = [pc EXCEPT ![M].l = "c1", ![M].ret = "close"]
         \/ shut /\ Silent /\ Go(M, "off")
      /\ UNCHANGED <<n, last, started, shut, conf, mu, objs, tab>>
M1 == /\ At(M, "m1") /\ mu = ""
      /\ By(Apply) /\ last' = taken
      /\ mu' = IF Has("outside") THEN "" ELSE M
      /\ pc' = [pc EXCEPT ![M].l = "m2", ![M].old = last, ![M].todo = {tab[c] : c \in Ch} \ {0}]
      /\ UNCHANGED <<n, started, shut, conf, objs, tab>>
M2 == /\ At(M, "m2") /\ conf' = TRUE /\ Go(M, "m3")
      /\ Silent /\ UNCHANGED <<n, last, started, shut, mu, objs, tab>>
M3 == /\ At(M, "m3")
      /\ IF pc[M].todo = {} THEN Go(M, "m0") /\ mu' = "" /\ Silent
         ELSE /\ UNCHANGED mu
              /\ \E o \in pc[M].todo :
                  /\ pc' = [pc EXCEPT ![M].l = IF Accepts(objs[o].p, pc[M].old, last) THEN "m4" ELSE "m3",
                                      ![M].o = o, ![M].todo = @ \ {o}]
                  /\ IF objs[o].p = <<>> THEN Silent ELSE By(Pred(objs[o].c, pc[M].old, last))
      /\ UNCHANGED <<n, last, started, shut, conf, objs, tab>>
M4 == /\ At(M, "m4") /\ objs[pc[M].o].lock = ""
      /\ IF SendSkip(pc[M].o) THEN Go(M, "m3") /\ UNCHANGED objs
         ELSE Go(M, "m5") /\ objs' = [objs EXCEPT ![pc[M].o].lock = M]
      /\ Silent /\ UNCHANGED <<n, last, started, shut, conf, mu, tab>>
M5 == /\ At(M, "m5")
      /\ \/ CanTake(pc[M].o) /\ Take(pc[M].o, last)
         \/ CanQuit(pc[M].o) /\ Silent
      /\ Go(M, "m3") /\ Free(pc[M].o)
      /\ UNCHANGED <<n, last, started, shut, conf, mu, tab>>

---------------------------------------------------------------------------

Act(t) == \/ S0(t) \/ S2(t) \/ S3(t) \/ S4(t) \/ S4b(t) \/ S5(t)
          \/ G0(t) \/ G1(t) \/ G2(t) \/ G3(t) \/ G4(t)
ActU(t) == U1(t) \/ U2(t) \/ U3(t) \/ U4(t) \/ C1(t) \/ C2(t) \/ C3(t)
Work == (\E t \in Names : Act(t)) \/ (\E t \in Names \cup {M} : ActU(t)) \/ M0 \/ M1 \/ M2 \/ M3 \/ M4 \/ M5
INext == ok /\ (EnvStep \/ Work)
Spec == IInit /\ [][INext]_ivars

\* every step is one of ConfigStore
Allowed == ok
\* when the store has nothing left to do, ConfigStore is at rest
AtRest == ~ENABLED Work => Rest
\* what subscriptions in the table mean
Sane == /\ last = cur
        /\ \A c \in Ch : tab[c] # 0 => objs[tab[c]].c = c
        /\ \A c \in Ch : sub[c].st = "on" /\ (\A t \in Th : ~(thr[t].op = "sub" /\ thr[t].c = c)) => tab[c] # 0 /\ ~objs[tab[c]].gone
=============================================================================
