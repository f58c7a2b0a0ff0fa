------------------------------ MODULE Residue ------------------------------
(* What the proxy holds is in proportion to what goes on, however much has come and gone before.
   The environment uses one server, its configuration store and more servers on the same store, lets everything come
   to rest and counts: connections, listeners, servers, configurations and subscriptions that have not been given
   up (they are reachable from the program) and goroutines. *)
EXTENDS Integers, Sequences

CONSTANT Slack   \* what may be kept whatever has happened

VARIABLES
  served, silent,   \* clients connected to a database; connected only
  subs, stalled,    \* subscribers that receive, that do not receive
  open,             \* the server has not been closed
  cfgs,             \* some configuration has been handed over
  came,             \* how many have come
  peak,             \* how many there have been at a time
  seen              \* <<load, goroutines, memory, came, peak>> of earlier counts
vars == <<served, silent, subs, stalled, open, cfgs, came, peak, seen>>

Init == served = 0 /\ silent = 0 /\ subs = 0 /\ stalled = 0 /\ open = TRUE /\ cfgs = FALSE /\ came = 0 /\ peak = 0 /\ seen = {}

Come(n) == /\ came' = came + n
           /\ LET now == served + silent + subs + stalled + n IN peak' = IF now > peak THEN now ELSE peak

\* n new configurations, of the same or other listening addresses
Push(n) == /\ cfgs' = TRUE /\ Come(n) /\ stalled = 0   \* (which would hold up the store)
           /\ UNCHANGED <<served, silent, subs, stalled, open, seen>>
\* clients come, do something and leave, or are sent away, in one way or another
Visit(n) == Come(n) /\ UNCHANGED <<served, silent, subs, stalled, open, cfgs, seen>>
\* clients come and stay
Stay(k, n) == /\ open /\ cfgs /\ Come(n)
              /\ served' = IF k = "served" THEN served + n ELSE served
              /\ silent' = IF k = "silent" THEN silent + n ELSE silent
              /\ UNCHANGED <<subs, stalled, open, cfgs, seen>>
Leave(k, n) == /\ IF k = "served" THEN n <= served ELSE n <= silent
               /\ served' = IF k = "served" THEN served - n ELSE served
               /\ silent' = IF k = "silent" THEN silent - n ELSE silent
               /\ UNCHANGED <<subs, stalled, open, cfgs, came, peak, seen>>
Sub(k, n) == /\ cfgs /\ Come(n)
             /\ subs' = IF k = "reads" THEN subs + n ELSE subs
             /\ stalled' = IF k = "stalled" THEN stalled + n ELSE stalled
             /\ UNCHANGED <<served, silent, open, cfgs, seen>>
\* all subscribers of a kind are gone
Unsub(k) == /\ UNCHANGED <<came, peak>>
            /\ subs' = IF k = "reads" THEN 0 ELSE subs
            /\ stalled' = IF k = "stalled" THEN 0 ELSE stalled
            /\ UNCHANGED <<served, silent, open, cfgs, seen>>
\* calls of the store that return; servers on the same store that are started and closed
Get(n) == Visit(n)
Servers(n) == Visit(n)
Close == /\ UNCHANGED <<came, peak>> /\ open' = FALSE /\ served' = 0 /\ silent' = 0
         /\ UNCHANGED <<subs, stalled, cfgs, seen>>

Load == <<served, silent, subs, stalled, IF open THEN 1 ELSE 0>>
AtMost(a, b) == \A i \in DOMAIN a : a[i] <= b[i]

(* everything is at rest: connections of clients c, to databases d, listeners l, closed servers v, configurations k,
   subscriptions s, goroutines g, memory b (in units of 64 kB); whoever has come may leave 400 bytes behind, which
   is what the harness itself needs; the runtime keeps descriptors of as many goroutines as there were at a time,
   for other ones: 4096 bytes for each who was there *)
Fits(c, d, l, v, k, s, g, b) ==
  /\ c <= served + silent + Slack
  /\ d <= served + Slack
  /\ l <= (IF open THEN 1 ELSE 0) + Slack
  /\ v <= Slack
  /\ k <= 1 + served + silent + stalled + Slack
  /\ s <= subs + stalled + Slack
  /\ \A o \in seen : AtMost(Load, o[1]) => g <= o[2] + Slack /\ b <= o[3] + Slack + ((came - o[4]) * 400 + (peak - o[5]) * 4096) \div 65536
Measure(c, d, l, v, k, s, g, b) ==
  /\ Fits(c, d, l, v, k, s, g, b)
  /\ seen' = seen \cup {<<Load, g, b, came, peak>>}
  /\ UNCHANGED <<served, silent, subs, stalled, open, cfgs, came, peak>>
=============================================================================
