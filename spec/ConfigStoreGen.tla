--------------------------- MODULE ConfigStoreGen ---------------------------
(* Scripts for the environment of the real store, and the finite instance on which the design is checked. *)
EXTENDS ConfigStore, TLC, Json

CONSTANTS Ls, Ds, MaxCfg, MaxOps, Hist, Stalls, Closes, PredLists,
  Shared   \* a channel may be subscribed by several threads at once

AllPreds == {<<>>, <<"l">>, <<"d">>, <<"l", "d">>, <<"never">>, <<"first">>, <<"later">>, <<"never", "d">>}
FewPreds == {<<>>, <<"l">>}

VARIABLES h, dead
gvars == <<vars, h, dead>>

P(k) == ~Hist \/ RandomElement(1..20) <= k
Rec(op) == h' = IF Hist THEN Append(h, op) ELSE Append(h, 0)
Same == UNCHANGED dead
Owner(c) == ((c - 1) % Cardinality(Th)) + 1

EPush == \E l \in Ls, d \in Ds : Len(cfgs) < MaxCfg /\ Push(l, d) /\ Rec([op |-> "push", k |-> l, db |-> d]) /\ Same
ESub(c) == /\ c \notin dead
           /\ \E p \in PredLists, t \in IF Shared THEN Th ELSE {Owner(c)} :
                Call(t, "sub", c, p, 0) /\ Rec([op |-> "sub", s |-> t, n |-> c, dbs |-> p])
           /\ Same
EUnsub(t, c) == P(8) /\ Call(t, "unsub", c, <<>>, 0) /\ Rec([op |-> "unsub", s |-> t, n |-> c]) /\ Same
EUnsubClose(c) == /\ P(6) /\ Hist /\ ~Shared /\ c \notin dead
                  /\ Call(Owner(c), "unsub", c, <<>>, 0) /\ Rec([op |-> "unsubclose", s |-> Owner(c), n |-> c])
                  /\ dead' = dead \cup {c}
EGet(t) == Call(t, "get", 0, <<>>, 0) /\ Rec([op |-> "get", s |-> t]) /\ Same
EClose(t) == P(2) /\ Closes /\ Call(t, "close", 0, <<>>, 0) /\ Rec([op |-> "close", s |-> t]) /\ Same
ESrcClose == P(1) /\ Closes /\ SrcClose /\ Rec([op |-> "srcclose"]) /\ Same
EStall(c) == P(8) /\ Stalls /\ Reading(c, ~rd[c]) /\ Rec([op |-> IF rd[c] THEN "stall" ELSE "resume", n |-> c]) /\ Same
EQuiesce == /\ P(6) /\ Hist => (Len(h) > 0 /\ h[Len(h)].op # "q")
            /\ Quiesce /\ Rec([op |-> "q"]) /\ Same

EnvNext == \/ EPush \/ ESrcClose \/ EQuiesce
           \/ \E c \in Ch : ESub(c) \/ EUnsubClose(c) \/ EStall(c) \/ \E t \in Th : EUnsub(t, c)
           \/ \E t \in Th : EGet(t) \/ EClose(t)

SysRecv(c) == rd[c] /\ sub[c].q # <<>> /\ Owed(sub[c], Head(sub[c].q)) /\ Recv(c, Head(sub[c].q))
Left(c) == IF sub[c].st = "off" THEN sub[c].lim ELSE 0
SysRet(t) == \/ closed # "no" /\ GetRet(t, 0)
             \/ ~thr[t].cl /\ cur > 0 /\ GetRet(t, cur)
             \/ \E r \in {"ok", "closed"} : SubRet(t, r)
             \/ thr[t].op = "unsub" /\ UnsubRet(t, Left(thr[t].c))
             \/ CloseRet(t, [c \in Ch |-> Left(c)])
SysNext == (Internal \/ Pushed \/ (\E c \in Ch : SysRecv(c)) \/ (\E t \in Th : SysRet(t))) /\ UNCHANGED <<h, dead>>

GInit == Init /\ h = <<>> /\ dead = {}
GNext == \/ Len(h) < MaxOps /\ EnvNext
         \/ (Hist => Len(h) < MaxOps) /\ SysNext
         \/ Hist /\ Len(h) = MaxOps /\ Rec([op |-> "end"]) /\ UNCHANGED <<vars, dead>>
GSpec == GInit /\ [][GNext]_gvars
Emit == (Hist /\ Len(h) > MaxOps) => PrintT(<<"SCRIPT", ToJson([ops |-> SubSeq(h, 1, MaxOps)])>>)

---------------------------------------------------------------------------
(* Design *)
Fair == /\ WF_gvars(Apply /\ UNCHANGED <<h, dead>>) /\ WF_gvars(Pushed /\ UNCHANGED <<h, dead>>)
        /\ \A c \in Ch : WF_gvars(SysRecv(c) /\ UNCHANGED <<h, dead>>)
        /\ \A t \in Th : /\ WF_gvars(SubLin(t) /\ UNCHANGED <<h, dead>>)
                         /\ WF_gvars(SysRet(t) /\ UNCHANGED <<h, dead>>)
FairSpec == GSpec /\ Fair

Ordered == \A c \in Ch : \A i \in 1..Len(sub[c].q) - 1 : sub[c].q[i] < sub[c].q[i + 1]
Bounded == cur <= Len(cfgs) /\ \A c \in Ch : \A i \in DOMAIN sub[c].q : sub[c].q[i] <= cur
Monotone == [][cur' >= cur /\ (closed = "yes" => closed' = "yes")]_gvars
\* a correct store always comes to rest
Rests == []<>Rest
=============================================================================
