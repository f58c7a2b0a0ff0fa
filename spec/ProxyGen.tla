------------------------------ MODULE ProxyGen ------------------------------
(* Behaviours of Proxy as scripts for the environment of the real code: what the environment did is kept in h and
   printed when the script is long enough. Also the finite instance on which the design is checked. *)
EXTENDS Proxy, TLC, Json

CONSTANTS
  Env,     \* kinds of environment actions in use
  Amts,    \* numbers of messages sent at once
  Dbs, Addrs,
  MaxCfg, MaxMsg, MaxSsl, MaxOps,
  Hist     \* keep the script (FALSE when the design is checked)

VARIABLES h, dm   \* script so far; behaviour of the database addresses

gvars == <<vars, h, dm>>

\* one symmetric choice of names for the databases a client may ask for
Kinds == {<<"v3", <<d>>>> : d \in Dbs}
         \cup IF "gate" \in Env
              THEN {<<"v3", <<>>>>} \cup {<<"v3", <<a, b>>>> : a \in Dbs, b \in Dbs}
                   \cup {<<"v3", <<"">>>>, <<"v3", <<"d">>>>, <<"v3", <<"d1x">>>>, <<"v3", <<"D1">>>>, <<"v3", <<"d1", "">>>>,
                         <<"v3", <<"d1 ">>>>, <<"v3", <<" d1">>>>, <<"v3", <<"d1/">>>>, <<"v3", <<"d1?">>>>, <<"v3", <<"d%31">>>>}
                   \cup {<<"other", <<d>>>> : d \in Dbs} \cup {<<"bad", <<d>>>> : d \in Dbs}
              ELSE {}

\* with probability k/20 when scripts are drawn at random; always possible when the design is checked
P(k) == ~Hist \/ RandomElement(1..20) <= k
\* "late": peers leave while something is on its way to them, then the server is closed
Late == "late" \in Env
PLc(s) == IF Late THEN S[s].d = "open" /\ (S[s].cr + 80 < S[s].ds \/ P(2)) /\ P(14) ELSE P(3)
PLd(s) == IF Late THEN S[s].d = "open" /\ (S[s].dr + 80 < S[s].cs \/ P(2)) /\ P(14) ELSE P(3)
Rec(op) == h' = IF Hist THEN Append(h, op) ELSE Append(h, 0)
Same == UNCHANGED dm

EPush(db, addr) == /\ Len(cfgs) < MaxCfg /\ ("cfg" \in Env \/ Len(cfgs) = 0)
                   /\ Push(db, addr) /\ Rec([op |-> "push", db |-> db, addr |-> addr]) /\ Same
EPushBad == /\ P(3) /\ "badcfg" \in Env /\ Len(cfgs) < MaxCfg /\ Len(cfgs) > 0
            /\ Push("!", "!") /\ Rec([op |-> "push", k |-> "bad"]) /\ Same
EConnect(s) == /\ mode = "direct" \/ lo > 0
               /\ ("early" \in Env \/ lo > 0)
               /\ \A r \in Sess : r < s => S[r].c # "none"
               /\ Connect(s) /\ Rec([op |-> "conn", s |-> s]) /\ Same
ESsl(s) == /\ S[s].c = "open" /\ ~S[s].ceof /\ ~S[s].cj /\ Pk(s).k = "none" /\ Ssl(s) < MaxSsl
           /\ CStart(s, "ssl", <<>>) /\ Rec([op |-> "start", s |-> s, k |-> "ssl"]) /\ Same
EStart(s) == /\ S[s].c = "open" /\ ~S[s].ceof /\ ~S[s].cj /\ Pk(s).k = "none"
             /\ \E k \in Kinds : (Late => pushed > 0 /\ <<cfgs[pushed].db>> = k[2]) /\ CStart(s, k[1], k[2]) /\ Rec([op |-> "start", s |-> s, k |-> k[1], dbs |-> k[2]])
             /\ Same
ECut(s) == /\ P(3) /\ "cut" \in Env /\ S[s].c = "open" /\ Pk(s).k = "none" /\ ~S[s].cj
           /\ CJunk(s) /\ Rec([op |-> "cut", s |-> s, dbs |-> <<CHOOSE d \in Dbs : TRUE>>]) /\ Same
ECSend(s) == /\ (Late => S[s].d = "open" /\ P(7)) /\ S[s].c = "open" /\ ~S[s].ceof /\ ~S[s].cj /\ Pk(s).k = "v3"
             /\ \E n \in Amts : S[s].cs + n <= MaxMsg /\ CSend(s, S[s].cs + 1, S[s].cs + n)
                                /\ Rec([op |-> "csend", s |-> s, n |-> n])
             /\ Same
EDSend(s) == /\ (Late => P(7)) /\ S[s].d = "open" /\ ~S[s].deof /\ ~S[s].dj
             /\ \E n \in Amts : S[s].ds + n <= MaxMsg /\ DSend(s, S[s].ds + 1, S[s].ds + n)
                                /\ Rec([op |-> "dsend", s |-> s, n |-> n])
             /\ Same
EPart(s) == /\ P(6) /\ "part" \in Env
            /\ \/ S[s].c = "open" /\ ~S[s].ceof /\ ~S[s].cj /\ Pk(s).k = "v3" /\ Rec([op |-> "cpart", s |-> s])
               \/ S[s].d = "open" /\ ~S[s].deof /\ ~S[s].dj /\ Rec([op |-> "dpart", s |-> s])
            /\ UNCHANGED vars /\ Same
EJunk(s) == /\ P(2) /\ "junk" \in Env
            /\ \/ S[s].c = "open" /\ ~S[s].cj /\ Pk(s).k = "v3" /\ CJunk(s) /\ Rec([op |-> "cjunk", s |-> s])
               \/ S[s].d = "open" /\ ~S[s].dj /\ DJunk(s) /\ Rec([op |-> "djunk", s |-> s])
            /\ Same
EStall(s) == /\ (IF Late THEN S[s].d = "open" /\ IF S[s].con /\ S[s].don THEN P(14) ELSE P(2) ELSE P(10)) /\ "stall" \in Env /\ Same
             /\ \/ COn(s) /\ ~S[s].ceof /\ CReading(s, ~S[s].con) /\ Rec([op |-> IF S[s].con THEN "cstall" ELSE "cresume", s |-> s])
                \/ DOn(s) /\ ~S[s].deof /\ DReading(s, ~S[s].don) /\ Rec([op |-> IF S[s].don THEN "dstall" ELSE "dresume", s |-> s])
ECClose(s) == PLc(s) /\ "close" \in Env /\ ~S[s].ceof /\ CLeave(s, "closed") /\ Rec([op |-> "cclose", s |-> s]) /\ Same
EDClose(s) == PLd(s) /\ "close" \in Env /\ DOn(s) /\ ~S[s].deof /\ DLeave(s, "closed") /\ Rec([op |-> "dclose", s |-> s]) /\ Same
ECReset(s) == PLc(s) /\ "reset" \in Env /\ ~S[s].ceof /\ CLeave(s, "reset") /\ Rec([op |-> "creset", s |-> s]) /\ Same
ECHalf(s) == PLc(s) /\ "half" \in Env /\ S[s].c = "open" /\ ~S[s].ceof /\ CLeave(s, "half") /\ Rec([op |-> "chalf", s |-> s]) /\ Same
EDHalf(s) == PLd(s) /\ "half" \in Env /\ S[s].d = "open" /\ ~S[s].deof /\ DLeave(s, "half") /\ Rec([op |-> "dhalf", s |-> s]) /\ Same
EDReset(s) == PLd(s) /\ "reset" \in Env /\ DOn(s) /\ ~S[s].deof /\ DLeave(s, "reset") /\ Rec([op |-> "dreset", s |-> s]) /\ Same
EMode(a) == /\ P(4) /\ "mode" \in Env
            /\ \E m \in {"accept", "refuse", "hang"} : dm[a] # m /\ dm' = [dm EXCEPT ![a] = m] /\ Rec([op |-> "dialmode", addr |-> a, k |-> m])
            /\ UNCHANGED vars
ETemp == P(5) /\ "temp" \in Env /\ Hist /\ Rec([op |-> "tempacc", n |-> 1 + (Len(h) % 3)]) /\ UNCHANGED vars /\ Same
ESrvClose == (IF Late THEN (Len(h) * 3 >= MaxOps * 2 \/ \E s \in Sess : DGone(s) \/ CGone(s) \/ S[s].d = "half" \/ S[s].c = "half") /\ P(8) ELSE P(2)) /\ "srv" \in Env /\ SrvClose /\ Rec([op |-> "srvclose"]) /\ Same

Quiet == /\ \A s \in Sess : Progress(s) /\ ~OwesCEof(s) /\ ~OwesDEof(s) /\ ~OwesRefusal(s)
                            /\ (mode = "direct" /\ Over(s) => S[s].ret)
         /\ srv # "closing"
         /\ pushed = Len(cfgs)
EQuiesce == /\ srv = "run"
            /\ P(10) /\ (Hist => (Len(h) > 0 /\ h[Len(h)].op # "q"))
            /\ Quiet /\ Quiesce({s \in Sess : ~Over(s)}, {s \in Sess : ~Over(s)}, 0, 1, {}, {})
            /\ Rec([op |-> "q"]) /\ Same

Free ==
  \/ \E db \in Dbs, a \in Addrs : EPush(db, a)
  \/ EPushBad \/ ETemp \/ ESrvClose \/ EQuiesce
  \/ \E a \in Addrs : EMode(a)
  \/ \E s \in Sess : \/ EConnect(s) \/ ESsl(s) \/ EStart(s) \/ ECut(s) \/ ECSend(s) \/ EDSend(s) \/ EPart(s) \/ EJunk(s)
                     \/ EStall(s) \/ ECClose(s) \/ EDClose(s) \/ ECHalf(s) \/ EDHalf(s) \/ ECReset(s) \/ EDReset(s)

\* a script about closing closes the server at last
EnvNext == IF "srv" \in Env /\ Hist /\ srv = "run" /\ Len(h) >= MaxOps - 2 THEN SrvClose /\ Rec([op |-> "srvclose"]) /\ Same ELSE Free

\* what a correct proxy may do
Dm(a) == IF a \in Addrs THEN dm[a] ELSE "refuse"
SysNRecv(s) == COn(s) /\ ~S[s].ceof /\ S[s].nN < Ssl(s) /\ NRecv(s)
SysDial(s)  == S[s].d = "none" /\ ~S[s].ceof /\ srv = "run" /\ \E k \in Window(s) : Accepts(s, k) /\ Dial(s, cfgs[k].addr, Dm(cfgs[k].addr))
SysStart(s) == S[s].d = "dialed" /\ ~S[s].deof /\ DStart(s, TRUE)
SysDRecv(s) == DOn(s) /\ ~S[s].deof /\ S[s].don /\ S[s].dr < S[s].cs /\ DRecv(s, s, S[s].dr + 1, S[s].cs)
SysCRecv(s) == COn(s) /\ ~S[s].ceof /\ S[s].con /\ S[s].cr < S[s].ds /\ CRecv(s, s, S[s].cr + 1, S[s].ds)
SysCEof(s)  == S[s].con /\ CReason(s) /\ CEof(s)
SysDEof(s)  == S[s].don /\ DReason(s) /\ DEof(s)
SysRet(s)   == mode = "direct" /\ S[s].c # "none" /\ ~S[s].ret /\ (Over(s) \/ srv # "run") /\ Ret(s, FALSE, FALSE)
SysClosed   == SrvClosed({}, {}, 0)
SysRunRet   == run /\ RunRet

SysNext ==
  /\ \/ \E s \in Sess : SysNRecv(s) \/ SysDial(s) \/ SysStart(s) \/ SysDRecv(s) \/ SysCRecv(s) \/ SysCEof(s) \/ SysDEof(s) \/ SysRet(s)
     \/ SysClosed \/ SysRunRet
     \/ Pushed
  /\ UNCHANGED <<h, dm>>

GInit == Init /\ h = <<>> /\ dm = [a \in Addrs |-> "accept"] /\ mode \in {"listen", "direct"}
\* a script is over when it is long enough, or (of those about leaving late) when the server is closed
Ended == Hist /\ Len(h) > 0 /\ h[Len(h)].op = "end"
GNext == \/ ~Ended /\ Len(h) < MaxOps /\ EnvNext
         \/ ~Ended /\ (Hist => Len(h) < MaxOps) /\ SysNext
         \/ Hist /\ ~Ended /\ Len(h) < MaxOps /\ UNCHANGED gvars   \* another try
         \/ Hist /\ ~Ended /\ (Len(h) = MaxOps \/ (Late /\ srv = "closed")) /\ Rec([op |-> "end"]) /\ UNCHANGED <<vars, dm>>

GSpec == GInit /\ [][GNext]_gvars

\* printing the scripts (an action constraint would print twice; the invariant is evaluated once per state)
Emit == Ended => PrintT(<<"SCRIPT", ToJson([mode |-> mode, ops |-> SubSeq(h, 1, Len(h) - 1)])>>)

---------------------------------------------------------------------------
(* Design: for every history of the environment, a proxy that does what it owes can always come to rest, and what
   the properties say about values and order holds in every state. *)

Fair == \A s \in Sess : /\ WF_gvars(SysNRecv(s) /\ UNCHANGED <<h, dm>>) /\ WF_gvars(SysDial(s) /\ UNCHANGED <<h, dm>>)
                        /\ WF_gvars(SysStart(s) /\ UNCHANGED <<h, dm>>) /\ WF_gvars(SysDRecv(s) /\ UNCHANGED <<h, dm>>)
                        /\ WF_gvars(SysCRecv(s) /\ UNCHANGED <<h, dm>>) /\ WF_gvars(SysCEof(s) /\ UNCHANGED <<h, dm>>)
                        /\ WF_gvars(SysDEof(s) /\ UNCHANGED <<h, dm>>) /\ WF_gvars(SysRet(s) /\ UNCHANGED <<h, dm>>)
FairSpec == GSpec /\ Fair /\ WF_gvars(SysClosed /\ UNCHANGED <<h, dm>>) /\ WF_gvars(Pushed /\ UNCHANGED <<h, dm>>)

Prefix == \A s \in Sess : S[s].dr <= S[s].cs /\ S[s].cr <= S[s].ds
OnlyN == \A s \in Sess : S[s].nN <= Ssl(s)
Gate == \A s \in Sess : S[s].d # "none" => Pk(s).k = "v3" /\ \E k \in DOMAIN cfgs : Accepts(s, k)
NoTraffic == \A s \in Sess : S[s].d \in {"none", "refused", "hang"} => S[s].dr = 0 /\ S[s].cr = 0
Flushed == \A s \in Sess : srv = "run" /\ ~S[s].cj /\ ~S[s].dj =>
             /\ (S[s].c \in {"half", "closed"} /\ S[s].d = "open" /\ S[s].deof) => S[s].dr = S[s].cs
             /\ (S[s].d \in {"half", "closed"} /\ S[s].c = "open" /\ S[s].ceof) => S[s].cr = S[s].ds
Reasons == \A s \in Sess : /\ S[s].ceof /\ COn(s) => CReason(s)
                           /\ S[s].deof /\ srv = "run" => CGone(s) \/ S[s].cj \/ S[s].dj \/ DGone(s)
Invs == TypeOK /\ Prefix /\ OnlyN /\ Gate /\ NoTraffic /\ Flushed /\ Reasons

Rests == []<>(Quiet \/ srv = "closed")
=============================================================================
