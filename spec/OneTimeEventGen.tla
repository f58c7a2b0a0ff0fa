-------------------------- MODULE OneTimeEventGen --------------------------
EXTENDS OneTimeEvent, TLC, Json
CONSTANTS MaxOps, Hist
VARIABLES h
gvars == <<vars, h>>
P(k) == ~Hist \/ RandomElement(1..20) <= k
Rec(op) == h' = IF Hist THEN Append(h, op) ELSE Append(h, 0)
EnvNext == \/ P(6) /\ (Hist => Len(h) > 0 /\ h[Len(h)].op # "q") /\ Quiesce /\ Rec([op |-> "q"])
           \/ \E t \in Th : \E op \in {"fire", "has", "done", "wait"} :
                (op = "fire" => P(8)) /\ Call(t, op) /\ Rec([op |-> op, s |-> t])
SysRet(t) == \/ FireRet(t, winners = 0)
             \/ SeeRet(t, begun > 0)
GInit == Init /\ h = <<>>
GNext == \/ Len(h) < MaxOps /\ EnvNext
         \/ (Hist => Len(h) < MaxOps) /\ \E t \in Th : SysRet(t) /\ UNCHANGED h
         \/ Hist /\ Len(h) = MaxOps /\ Rec([op |-> "end"]) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
Emit == (Hist /\ Len(h) > MaxOps) => PrintT(<<"SCRIPT", ToJson([ops |-> SubSeq(h, 1, MaxOps)])>>)
FairSpec == GSpec /\ \A t \in Th : WF_gvars(SysRet(t) /\ UNCHANGED h)
Once == winners <= 1 /\ (back => begun > 0)
Final == [][(winners = 1 => winners' = 1) /\ (back => back')]_gvars
Rests == []<>Rest
=============================================================================
