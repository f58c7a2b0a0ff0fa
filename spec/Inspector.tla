----------------------------- MODULE Inspector -----------------------------
(***************************************************************************)
(* Metadata inspection (C20), as seen by its callers and by the database.   *)
(*                                                                         *)
(* Calls (inspect, tab, db, close) have a beginning and an end and overlap. *)
(* The database sees connections and queries; it answers a query row by row *)
(* and completes it, or something fails. comp lists the results which the   *)
(* database completed. A call may return a result only if the database      *)
(* completed it during the call, and an error only if something failed: a   *)
(* failure accounts for one error at most.                                  *)
(*                                                                         *)
(* cat: the database: its name db and its tables rels, each with schema and *)
(* kind; Tables(cat) is what there is to be reported.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Th, Cn
VARIABLES cat, st, thr, con, comp, ready, faults, errs, down
vars == <<cat, st, thr, con, comp, ready, faults, errs, down>>

\* rels: [oid, name, schema, kind, sys]; sys: the schema belongs to the database system
Tables(c) == {[oid |-> r.oid, schema |-> r.schema, name |-> r.name] : r \in {x \in c.rels : ~x.sys /\ x.kind \in {"r", "m", "v"}}}

NoCall == [op |-> "", comp |-> 0, ready |-> 0, faults |-> 0, down |-> FALSE, late |-> FALSE]
NoConn == [st |-> "none", q |-> "", rows |-> {}]

InitWith(c) == /\ cat = c /\ st = "none" /\ thr = [t \in Th |-> NoCall] /\ con = [x \in Cn |-> NoConn]
               /\ comp = <<>> /\ ready = 0 /\ faults = 0 /\ errs = 0 /\ down = FALSE

(* The callers *)

Call(t, op) ==
  /\ thr[t].op = ""
  /\ op = "inspect" => st = "none" /\ \A u \in Th : thr[u].op = ""
  /\ op # "inspect" => st \in {"open", "closing", "closed"}
  /\ thr' = [thr EXCEPT ![t] = [op |-> op, comp |-> Len(comp), ready |-> ready, faults |-> faults, down |-> down, late |-> st = "closed"]]
  /\ st' = IF op = "close" /\ st = "open" THEN "closing" ELSE st
  /\ UNCHANGED <<cat, con, comp, ready, faults, errs, down>>

(* The database *)

Conn(c) == con[c].st = "none" /\ con' = [con EXCEPT ![c].st = "new"] /\ UNCHANGED <<cat, st, thr, comp, ready, faults, errs, down>>
\* the session is established
Ready(c) == con[c].st = "new" /\ con' = [con EXCEPT ![c].st = "idle"] /\ ready' = ready + 1 /\ UNCHANGED <<cat, st, thr, comp, faults, errs, down>>
\* sem: the database has done what it was asked for, not just returned the tables there are
Query(c, k) == con[c].st = "idle" /\ con' = [con EXCEPT ![c] = [st |-> "busy", q |-> k, rows |-> {}]] /\ UNCHANGED <<cat, st, thr, comp, ready, faults, errs, down>>
Row(c, r) == con[c].st = "busy" /\ con' = [con EXCEPT ![c].rows = @ \cup {r}] /\ UNCHANGED <<cat, st, thr, comp, ready, faults, errs, down>>
Done(c) == /\ con[c].st = "busy"
           /\ comp' = Append(comp, [k |-> con[c].q, rows |-> con[c].rows])
           /\ con' = [con EXCEPT ![c].st = "idle"]
           /\ UNCHANGED <<cat, st, thr, ready, faults, errs, down>>
\* a failure; ends: the connection is lost
Fault(c, ends) == /\ con[c].st \in {"new", "idle", "busy"}
                  /\ faults' = faults + 1
                  /\ con' = [con EXCEPT ![c].st = IF ends THEN "lost" ELSE "idle"]
                  /\ UNCHANGED <<cat, st, thr, comp, ready, errs, down>>
\* the inspector has closed its end
Gone(c) == con[c].st # "none" /\ con' = [con EXCEPT ![c].st = "gone"] /\ UNCHANGED <<cat, st, thr, comp, ready, faults, errs, down>>
Down(on) == /\ down' = on
            /\ thr' = [t \in Th |-> IF thr[t].op # "" THEN [thr[t] EXCEPT !.down = TRUE] ELSE thr[t]]
            /\ UNCHANGED <<cat, st, con, comp, ready, faults, errs>>

(* Results *)

Since(t, k) == {i \in DOMAIN comp : i > thr[t].comp /\ (k = "" \/ comp[i].k = k)}
Excused(t) == st \in {"closing", "closed"} \/ thr[t].down \/ errs < faults
Left(t) == thr' = [thr EXCEPT ![t] = NoCall]
\* a failure that is due to closing or to the database being down is not one the database knows of
Charge(t) == errs' = IF st \in {"closing", "closed"} \/ thr[t].down THEN errs ELSE errs + 1

InspectRet(t, r) ==
  /\ thr[t].op = "inspect" /\ Left(t)
     \* what it asks the established session is up to the driver
  /\ IF r = "ok" THEN ready > thr[t].ready /\ st' = "open" /\ UNCHANGED errs
     ELSE r = "err" /\ Excused(t) /\ Charge(t) /\ UNCHANGED st
  /\ UNCHANGED <<cat, con, comp, ready, faults, down>>
TabRet(t, r, v) ==
  /\ thr[t].op = "tab" /\ Left(t)
  /\ IF r = "ok" THEN /\ ~thr[t].late
                      /\ \E i \in Since(t, "tab") : comp[i].rows = v
                      /\ v = Tables(cat)
                      /\ UNCHANGED errs
     ELSE r = "err" /\ v = {} /\ Excused(t) /\ Charge(t)
  /\ UNCHANGED <<cat, st, con, comp, ready, faults, down>>
DbRet(t, r, v) ==
  /\ thr[t].op = "db" /\ Left(t)
  /\ IF r = "ok" THEN ~thr[t].late /\ Since(t, "db") # {} /\ v = cat.db /\ UNCHANGED errs
     ELSE r = "err" /\ Excused(t) /\ Charge(t)
  /\ UNCHANGED <<cat, st, con, comp, ready, faults, down>>
CloseRet(t) ==
  /\ thr[t].op = "close" /\ Left(t)
  /\ st' = "closed"
  /\ UNCHANGED <<cat, con, comp, ready, faults, errs, down>>

\* nothing happens any more; o: connections which the inspector holds open
Rest(o) == /\ \A t \in Th : thr[t].op = ""
           /\ st \in {"none", "closed"} => o = {}
           /\ UNCHANGED vars
=============================================================================
