---------------------------- MODULE OneTimeEvent ----------------------------
(***************************************************************************)
(* An event that happens at most once (C11). Fire calls and observations    *)
(* (HasFired: has, Done without waiting: done, waiting for Done: wait) are  *)
(* calls with a beginning and an end, any number of them at the same time.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Th
VARIABLES
  thr,      \* the call in progress of every thread; after: some Fire had returned when it began
  begun,    \* how many Fire calls have begun
  winners,  \* how many have reported success
  back      \* some Fire call has returned
vars == <<thr, begun, winners, back>>
Idle == [op |-> "idle", after |-> FALSE]

Init == thr = [t \in Th |-> Idle] /\ begun = 0 /\ winners = 0 /\ back = FALSE

Call(t, op) == /\ thr[t] = Idle
               /\ thr' = [thr EXCEPT ![t] = [op |-> op, after |-> back]]
               /\ begun' = IF op = "fire" THEN begun + 1 ELSE begun
               /\ UNCHANGED <<winners, back>>
FireRet(t, r) == /\ thr[t].op = "fire"
                 /\ r => winners = 0
                 /\ ~r => begun > 1
                 /\ winners' = IF r THEN 1 ELSE winners
                 /\ back' = TRUE
                 /\ thr' = [thr EXCEPT ![t] = Idle]
                 /\ UNCHANGED begun
SeeRet(t, r) == /\ thr[t].op \in {"has", "done", "wait"}
                /\ r => begun > 0
                /\ ~r => thr[t].op # "wait" /\ ~thr[t].after
                /\ thr' = [thr EXCEPT ![t] = Idle]
                /\ UNCHANGED <<begun, winners, back>>
Rest == /\ \A t \in Th : thr[t].op # "idle" => thr[t].op = "wait" /\ begun = 0
        /\ begun > 0 => winners = 1
Quiesce == Rest /\ UNCHANGED vars
=============================================================================
