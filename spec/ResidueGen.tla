----------------------------- MODULE ResidueGen -----------------------------
(* Scripts for the environment of the real code; and a design: a proxy that gives up what has ended is within the
   bounds after every history, one that keeps any one kind of thing is not. *)
EXTENDS Residue, TLC, Json

CONSTANTS Kinds, N, MaxOps, Hist, Leaks

VARIABLES h, left   \* left: of each kind of thing, how many are kept for nothing
gvars == <<vars, h, left>>

P(k) == ~Hist \/ RandomElement(1..20) <= k
Rec(op) == h' = IF Hist THEN Append(h, op) ELSE Append(h, 0)
Drop(what, n) == left' = [left EXCEPT ![what] = @ + IF what \in Leaks THEN n ELSE 0]
Keep == UNCHANGED left
Things == {"client", "db", "listener", "server", "config", "sub", "go", "memory"}
Last(op) == Len(h) > 0 /\ h[Len(h)].op = op

EPush == \E a \in {"same", "new"}, n \in {1, N} :
           /\ (cfgs \/ n = 1) /\ (n = 1 \/ P(7)) /\ Push(n) /\ Rec([op |-> "push", k |-> a, n |-> n])
           /\ left' = [left EXCEPT !.config = @ + (IF "config" \in Leaks THEN n ELSE 0),
                                   !.listener = @ + (IF a = "new" /\ "listener" \in Leaks THEN n ELSE 0)]
EVisit(k) == P(8) /\ Visit(N) /\ Rec([op |-> "visit", k |-> k, n |-> N])
             /\ left' = [left EXCEPT !.client = @ + (IF "client" \in Leaks THEN N ELSE 0), !.db = @ + (IF "db" \in Leaks THEN N ELSE 0),
                                     !.go = @ + (IF "go" \in Leaks THEN N ELSE 0),
                                     !.memory = @ + (IF "memory" \in Leaks THEN N ELSE 0)]
EStay(k, n) == P(6) /\ served + silent < 2 * N /\ Stay(k, n) /\ Rec([op |-> "stay", k |-> k, n |-> n]) /\ Keep
ELeave(k) == P(10) /\ \E n \in {1, served, silent} : n > 0 /\ Leave(k, n) /\ Rec([op |-> "leave", k |-> k, n |-> n])
               /\ (IF k = "served" THEN Drop("db", n) ELSE Drop("client", n))
ESub(k) == P(6) /\ subs + stalled < 2 * N /\ Sub(k, N) /\ Rec([op |-> "sub", k |-> k, n |-> N]) /\ Keep
EUnsub(k) == P(14) /\ (IF k = "reads" THEN subs > 0 ELSE stalled > 0) /\ Unsub(k) /\ Rec([op |-> "unsub", k |-> k])
             /\ Drop("sub", IF k = "reads" THEN subs ELSE stalled)
EGet == P(4) /\ Get(N) /\ Rec([op |-> "get", n |-> N]) /\ Drop("go", N)
EServers == P(6) /\ Servers(N) /\ Rec([op |-> "servers", n |-> N]) /\ Drop("server", N)
EClose == Close /\ Rec([op |-> "close"]) /\ Drop("client", served + silent)
EMeasure == /\ P(9) /\ (Hist => ~Last("m"))
            /\ Measure(served + silent + left.client, served + left.db, (IF open THEN 1 ELSE 0) + left.listener, left.server,
                       1 + left.config, subs + stalled + left.sub, 3 * served + silent + subs + stalled + left.go, served + left.memory)
            /\ Rec([op |-> "m"]) /\ Keep

\* a script starts with a configuration and a count; it ends with a count before and after closing
EnvNext ==
  IF Hist /\ Len(h) = 0 THEN EPush
  ELSE IF Hist /\ (Len(h) \in {1, MaxOps - 4, MaxOps - 1}) THEN EMeasure
  ELSE IF Hist /\ Len(h) = MaxOps - 3 THEN EClose
  ELSE IF Hist /\ Len(h) = MaxOps - 2 THEN \E k \in Kinds : EVisit(k)
  ELSE \/ EPush \/ EGet \/ EServers \/ EMeasure
       \/ \E k \in Kinds : EVisit(k)
       \/ \E k \in {"served", "silent"} : ELeave(k) \/ \E n \in {2, N} : EStay(k, n)
       \/ \E k \in {"reads", "stalled"} : ESub(k) \/ EUnsub(k)
       \/ ~Hist /\ EClose

GInit == Init /\ h = <<>> /\ left = [x \in Things |-> 0]
GNext == \/ Len(h) < MaxOps /\ EnvNext
         \/ Hist /\ Len(h) < MaxOps /\ UNCHANGED gvars   \* another try
         \/ Hist /\ Len(h) = MaxOps /\ Rec([op |-> "end"]) /\ UNCHANGED <<vars, left>>
GSpec == GInit /\ [][GNext]_gvars
Emit == (Hist /\ Len(h) > MaxOps) => PrintT(<<"SCRIPT", ToJson([ops |-> SubSeq(h, 1, MaxOps)])>>)

\* the count that could be made now fits
Within == cfgs => Fits(served + silent + left.client, served + left.db, (IF open THEN 1 ELSE 0) + left.listener, left.server,
                       1 + left.config, subs + stalled + left.sub, 3 * served + silent + subs + stalled + left.go, served + left.memory)
=============================================================================
