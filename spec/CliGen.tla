------------------------------- MODULE CliGen -------------------------------
(* Command lines and configuration files; and the design: a program that parses, loads, runs, and does nothing out of
   order always does what Cli allows, and whatever Cli allows is what the property says. *)
EXTENDS Cli, TLC, Json

CONSTANT Hist
VARIABLES h, n
gvars == <<vars, h, n>>

G == INSTANCE ReloadGen WITH Busy <- 4, MaxSaves <- 0, MaxOpens <- 0, file <- [there |-> FALSE, c |-> <<>>], hist <- <<>>, ver <- 0, todo <- <<>>, lis <- 0, nxt <- 0,
       con <- [s |-> 0], ses <- {}
RE(S) == RandomElement(S)
Pick(S) == CHOOSE x \in S : TRUE
T(k, v) == [k |-> k, v |-> v]
NFiles == 3
FileOf(z) == Pick({IF w <= 5 THEN [s |-> "file", c |-> v] ELSE IF w <= 9 THEN [s |-> "file", c |-> i] ELSE [s |-> b, c |-> <<>>]
                   : w \in {RE(1..13)}, v \in {G!First(z)}, i \in {G!InvalidC(z)}, b \in {RE({"absent", "absent", "dir", "loop", "dangling", "notdir", "long"})}})
Tok(z) == LET w == RE(1..16) IN T("verbose", RE(0..1))
Toks(z) == Pick({ (IF c = 1 THEN <<>> ELSE <<T("cfg", RE(1..NFiles - 1) + 0 * z)>>) \o (IF v <= 2 THEN <<T("verbose", RE(0..1))>> ELSE <<>>) \o (IF hp = 1 THEN <<T("help", 0)>> ELSE <<>>)
                  \o (IF vs = 1 THEN <<T("version", 0)>> ELSE <<>>) \o (IF b <= 2 THEN <<T("bad", RE(0..11))>> ELSE <<>>)
                  : c \in {RE(1..4)}, v \in {RE(1..4)}, hp \in {RE(1..8)}, vs \in {RE(1..8)}, b \in {RE(1..10)} })
Swap(s, i, j) == [k \in DOMAIN s |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
Shuffle(s) == IF Len(s) < 2 THEN s ELSE Pick({Swap(Swap(s, i, j), 1, k) : i \in {RE(DOMAIN s)}, j \in {RE(DOMAIN s)}, k \in {RE(DOMAIN s)}})
Case(z) == Pick({[args |-> Shuffle(a), files |-> fs, outcome |-> RE({"", "server closed", "server started", "store closed", "session closed", "wrapped", "end", "boom", "listen tcp: %s \"x\"", "1", "EOF", "a\nb"})] : a \in {Toks(z)}, fs \in {TLCEval([i \in 1..NFiles |-> FileOf(i + z)])}})
GInit == Hist /\ n = 0 /\ h = <<>> /\ Begin(<<>>, <<[s |-> "absent", c |-> <<>>]>>)
GNext == Hist /\ n < 40 /\ n' = n + 1 /\ h' = Case(n) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
Emit == n > 0 => PrintT(<<"SCRIPT", ToJson(h)>>)

---------------------------------------------------------------------------
(* the design: h is where the program is *)
L(k, v) == [k |-> k, v |-> v]
DFiles == {[s |-> "absent", c |-> <<>>], [s |-> "dir", c |-> <<>>], [s |-> "file", c |-> <<L("listen", 1), L("db", 1)>>], [s |-> "file", c |-> <<L("db", 1)>>],
           [s |-> "file", c |-> <<L("listen", 2), L("junk", 0)>>], [s |-> "file", c |-> <<>>]}
DTokens == {T("cfg", 1), T("verbose", 0), T("help", 0), T("version", 0), T("bad", 0)}
DArgs == {<<>>} \cup {<<a>> : a \in DTokens} \cup {<<a, b>> : a \in DTokens, b \in DTokens} \cup {<<a, b, c>> : a \in DTokens, b \in DTokens, c \in DTokens}
Once_(a) == \A i, j \in DOMAIN a : a[i].k = a[j].k => i = j
DInit == ~Hist /\ n = 0 /\ h = "parse" /\ \E a \in {x \in DArgs : Once_(x)}, f \in DFiles, g \in DFiles : Begin(a, <<f, g>>)
Out(hp, v, e, c) == [help |-> hp, version |-> v, err |-> e, cause |-> c]
DNext == /\ ~Hist /\ UNCHANGED n
         /\ \/ /\ h = "parse"
               /\ IF Wrong THEN Exit(1, Out(FALSE, FALSE, TRUE, FALSE)) /\ h' = "done"
                  ELSE IF Asked THEN Exit(0, Out(Has("help"), Has("version"), TRUE, FALSE)) /\ h' = "done"
                  ELSE h' = "load" /\ UNCHANGED vars
            \/ /\ h = "load"
               /\ IF Loads THEN Run(R!Cfg(File.c).p, R!Cfg(File.c).d) /\ h' = "run" ELSE Exit(1, Out(FALSE, FALSE, TRUE, FALSE)) /\ h' = "done"
            \/ h = "run" /\ (\E e \in {"", "x"} : Ends(e)) /\ h' = "ran"
            \/ h = "ran" /\ Exit(IF err = "" THEN 0 ELSE 1, Out(FALSE, FALSE, err # "", err # "")) /\ h' = "done"
DSpec == DInit /\ [][DNext]_gvars /\ WF_gvars(DNext)
\* the program is never stopped by Cli, and comes to an end
Ends_ == <>(h = "done" /\ st = "exited")
\* nothing runs for help, for the version, or without a good configuration
Quiet == st \in {"running", "ended"} => ~Asked /\ ~Wrong /\ File.s = "file" /\ R!Valid(File.c)
\* from every state, what Cli allows of exits is what the property says
Codes == \A code \in 0..2, o \in [help : BOOLEAN, version : BOOLEAN, err : BOOLEAN, cause : BOOLEAN] :
  (st = "begun" /\ ENABLED Exit(code, o)) => /\ code \in {0, 1}
                                             /\ (code = 0 => Asked /\ (o.help \/ o.version))
                                             /\ (code = 1 => o.err /\ (Wrong \/ ~Loads))
=============================================================================
