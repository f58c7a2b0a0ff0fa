---------------------------- MODULE InspectorGen ----------------------------
(* Scripts for the real inspector: the database, the calls, and what fails when; and the design: an inspector that asks,
   reads to the end and starts over once when a connection fails before it has sent anything, only ever returns what
   Inspector allows, and always returns. *)
EXTENDS Inspector, TLC, Json

CONSTANTS Hist, MaxFaults, MaxCalls
VARIABLES h, n, pc, ncalls
gvars == <<vars, h, n, pc, ncalls>>

R(S) == RandomElement(S)
Pick(S) == CHOOSE x \in S : TRUE

Schemas == {<<"public", FALSE>>, <<"app", FALSE>>, <<"pg_catalog", TRUE>>, <<"information_schema", TRUE>>, <<"pg_toast", TRUE>>, <<"pgbouncer", FALSE>>, <<"Pg_x", FALSE>>,
            <<"pg_temp_3", TRUE>>, <<"information_schema2", FALSE>>, <<"q p", FALSE>>, <<"pg", FALSE>>, <<"a.b", FALSE>>, <<"INFORMATION_SCHEMA", FALSE>>}
Names_ == {"users", "companies", "t1", "T1", "a.b", "with space", "pg_class", "quote'd", "x", "public", "information_schema"}
Kinds_ == {"r", "r", "m", "v", "i", "S", "t", "c", "I"}
Rel(i, big) == LET s == R(Schemas) IN [oid |-> i, name |-> R(Names_), schema |-> s[1], kind |-> R(Kinds_), sys |-> s[2]]
Rels(k) == TLCEval([i \in 1..k |-> Pick({[oid |-> 16384 + i * R(1..3) * 1000 + i, name |-> nm, schema |-> s[1], kind |-> kd, sys |-> s[2]]
                                         : nm \in {R(Names_)}, s \in {R(Schemas)}, kd \in {R(Kinds_)}})])
ConnPlan(i) == R({"ok", "ok", "ok", "ok", "ok", "close", "error", "auth", "cut"})
QPlan(i) == Pick({[f |-> f, at |-> a, frag |-> g] :
                   f \in {R({"ok", "ok", "ok", "close", "reset", "error", "fatal", "torn", "null", "bad", "short", "lost", "errlate", "idle"})}, a \in {R(0..9)}, g \in {R({TRUE, FALSE})}})
OkPlan(i) == Pick({[f |-> "ok", at |-> 0, frag |-> g] : g \in {R({TRUE, FALSE})}})
\* calls of a batch overlap
Batch(i) == TLCEval([j \in 1..R({1, 1, 1, 2, 3}) |-> R({"tab", "tab", "tab", "db"})])
Script(z) ==
  Pick({ [db |-> R({"gevulot", "d", "My Db", "x'y", "postgres"}), rels |-> Rels(IF big = 1 THEN R({120, 300}) ELSE R(0..9)), faulty |-> fy > 1,
          conns |-> IF fy > 2 THEN TLCEval([i \in 1..R(1..4) |-> ConnPlan(i)]) ELSE <<>>,
          queries |-> IF fy > 1 THEN TLCEval([i \in 1..R(1..8) |-> QPlan(i)]) ELSE TLCEval([i \in 1..4 |-> OkPlan(i)]),
          calls |-> TLCEval([i \in 1..R(1..4) |-> Batch(i)]), down |-> IF fy > 3 THEN R(0..4) ELSE 0, race |-> R(1..5) = 1]
         : big \in {R(1..25)}, fy \in {R(1..4)} })
GInit == Hist /\ InitWith([db |-> "", rels |-> {}]) /\ n = 0 /\ pc = <<>> /\ ncalls = 0 /\ h = [s |-> Script(0)]
GNext == Hist /\ n < 40 /\ n' = n + 1 /\ h' = [s |-> Script(n)] /\ UNCHANGED <<vars, pc, ncalls>>
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT(<<"SCRIPT", ToJson(h.s)>>)

---------------------------------------------------------------------------
(* The design. pc[t]: where the call is: [at, c, got, try, end] *)
Off == [at |-> "off", c |-> 0, got |-> {}, try |-> 0, end |-> ""]
Free == CHOOSE x \in Cn \cup {0} : x # 0 /\ con[x].st = "none"
HasFree == \E x \in Cn : con[x].st = "none"
InUse(x) == \E t \in Th : pc[t].at \notin {"off", "fin"} /\ pc[t].c = x
DCat == [db |-> "d", rels |-> {[oid |-> 1, name |-> "a", schema |-> "s", kind |-> "r", sys |-> FALSE], [oid |-> 2, name |-> "b", schema |-> "s", kind |-> "v", sys |-> FALSE],
                               [oid |-> 3, name |-> "c", schema |-> "pg_x", kind |-> "r", sys |-> TRUE]}]
DInit == /\ ~Hist /\ InitWith(DCat) /\ h = 0 /\ n = 0 /\ ncalls = 0 /\ pc = [t \in Th |-> Off]
Keep == UNCHANGED <<h, n, ncalls>>
Begin(t) == /\ ncalls < MaxCalls /\ pc[t].at = "off" /\ n = 0
            /\ \E op \in {"inspect", "tab", "db", "close"} : Call(t, op) /\ pc' = [pc EXCEPT ![t] = [Off EXCEPT !.at = IF op = "close" THEN "shut" ELSE "pick"]]
            /\ ncalls' = ncalls + 1 /\ UNCHANGED <<h, n>>
Kind(t) == IF thr[t].op = "inspect" THEN "other" ELSE thr[t].op
PickConn(t) ==
           /\ pc[t].at = "pick"
           /\ IF thr[t].op # "inspect" /\ st # "open" THEN pc' = [pc EXCEPT ![t].at = "fin", ![t].end = "err"] /\ UNCHANGED vars
              ELSE IF thr[t].op # "inspect" /\ \E x \in Cn : con[x].st \in {"idle", "lost"} /\ ~InUse(x)     \* an inspection begins anew
                   THEN \E x \in Cn : con[x].st \in {"idle", "lost"} /\ ~InUse(x) /\ pc' = [pc EXCEPT ![t].at = "ask", ![t].c = x] /\ UNCHANGED vars
                   ELSE HasFree /\ Conn(Free) /\ pc' = [pc EXCEPT ![t].at = "hello", ![t].c = Free]
           /\ Keep
Hello(t) == /\ pc[t].at = "hello" /\ con[pc[t].c].st = "new" /\ Ready(pc[t].c) /\ pc' = [pc EXCEPT ![t].at = "ask"] /\ Keep
\* the loss is noticed: another try, or an error
Drop(t) == /\ pc[t].at \in {"hello", "ask", "read"} /\ con[pc[t].c].st = "lost"
           /\ Gone(pc[t].c)
           /\ pc' = [pc EXCEPT ![t] = [@ EXCEPT !.c = 0, !.try = 1, !.at = IF pc[t].at = "ask" /\ pc[t].try = 0 THEN "pick" ELSE "fin", !.end = "err"]]
           /\ Keep
Ask(t) == /\ pc[t].at = "ask" /\ con[pc[t].c].st = "idle" /\ Query(pc[t].c, Kind(t)) /\ pc' = [pc EXCEPT ![t].at = "read", ![t].got = {}] /\ Keep
Tabs == Tables(cat)
Send(t) == /\ pc[t].at = "read" /\ con[pc[t].c].st = "busy" /\ thr[t].op = "tab"
           /\ \E r \in Tabs \ con[pc[t].c].rows : Row(pc[t].c, r) /\ pc' = [pc EXCEPT ![t].got = @ \cup {r}]
           /\ Keep
Complete(t) == /\ pc[t].at = "read" /\ con[pc[t].c].st = "busy"
               /\ thr[t].op = "tab" => con[pc[t].c].rows = Tabs
               /\ Done(pc[t].c) /\ pc' = [pc EXCEPT ![t].at = "fin", ![t].end = "ok"] /\ Keep
Fails == /\ faults < MaxFaults /\ UNCHANGED <<h, n, ncalls>>
         /\ \E x \in Cn, e \in {TRUE, FALSE} :
              /\ e \/ con[x].st = "busy"
              /\ Fault(x, e)
              /\ pc' = IF e THEN pc ELSE [t \in Th |-> IF pc[t].at = "read" /\ pc[t].c = x THEN [pc[t] EXCEPT !.at = "fin", !.end = "err"] ELSE pc[t]]
RetOk(t, r) == CASE thr[t].op = "inspect" -> InspectRet(t, r)
                 [] thr[t].op = "tab" -> TabRet(t, r, IF r = "ok" THEN pc[t].got ELSE {})
                 [] thr[t].op = "db" -> DbRet(t, r, "d")
Return(t) == /\ pc[t].at = "fin" /\ RetOk(t, pc[t].end) /\ pc' = [pc EXCEPT ![t] = Off] /\ Keep
\* a failed inspection and closing leave nothing behind
Shut(t) == /\ pc[t].at = "shut"
           /\ IF \E x \in Cn : con[x].st \in {"idle", "lost"} /\ ~InUse(x)
              THEN \E x \in Cn : con[x].st \in {"idle", "lost"} /\ ~InUse(x) /\ Gone(x) /\ UNCHANGED pc
              ELSE CloseRet(t) /\ pc' = [pc EXCEPT ![t] = Off]
           /\ Keep
Sweep == /\ st \in {"none", "closed", "closing"} /\ UNCHANGED pc /\ Keep
         /\ \E x \in Cn : con[x].st \in {"idle", "lost"} /\ ~InUse(x) /\ (st = "none" => \A t \in Th : pc[t].at = "off") /\ Gone(x)
Stop == ~Hist /\ n = 0 /\ n' = 1 /\ UNCHANGED <<vars, h, pc, ncalls>>
Steps == Sweep \/ \E t \in Th : PickConn(t) \/ Hello(t) \/ Drop(t) \/ Ask(t) \/ Send(t) \/ Complete(t) \/ Return(t) \/ Shut(t)
DNext == (\E t \in Th : Begin(t)) \/ Steps \/ Fails \/ Stop
DSpec == DInit /\ [][DNext]_gvars /\ WF_gvars(Steps) /\ WF_gvars(Stop)
\* the rules let the design return
NeverStuck == \A t \in Th : pc[t].at = "fin" => ENABLED Return(t)
Returns == \A t \in Th : []<>(pc[t].at = "off" \/ ~HasFree)
AtRest == n = 1 ~> (\A t \in Th : pc[t].at = "off") \/ ~HasFree
Clean == (n = 1 /\ st \in {"none", "closed"} /\ \A t \in Th : pc[t].at = "off") ~> (~HasFree \/ \A x \in Cn : con[x].st \in {"none", "gone"})
=============================================================================
