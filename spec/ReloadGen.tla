----------------------------- MODULE ReloadGen -----------------------------
(* Histories of the configuration file for the running program, and a check of Reload itself on a small instance. *)
EXTENDS Reload, TLC, Json

CONSTANTS Hist, MaxSaves, MaxOpens
VARIABLES h, n
gvars == <<vars, h, n>>

R(S) == RandomElement(S)
Pick(S) == CHOOSE x \in S : TRUE
L(k, v) == [k |-> k, v |-> v]
Ports == 1..4                \* the last one is Busy
Dbs == 1..3

---------------------------------------------------------------------------
(* generation *)
\* a valid content: the two settings, and around them what does not matter
Note(i) == L("note", R(0..6))
Other(i) == L("other", i)
Before(z) == R({<<>>, <<>>, <<>>, <<Note(0)>>, <<Other(1)>>, <<Note(0), Other(2)>>})
After(z) == R({<<>>, <<>>, <<Note(0)>>, <<Other(3)>>, <<Note(0), Other(4), Note(1)>>, <<L("table", 1)>>, <<L("table", 1), L("listen", R(Ports)), L("db", R(Dbs))>>,
               <<L("table", 2), Other(1), Other(3), L("table", 1), Other(1)>>, <<L("table", 1), L("listenX", R(0..3))>>, <<L("note", 9)>>})
Port(z) == R({1, 1, 1, 2, 2, 2, 3, 3, 3, 4})
Body(z) == LET two == {<<L("listen", Port(z)), L("db", R(Dbs))>>} IN Pick({IF R(1..3) = 1 THEN <<x[2], x[1]>> ELSE IF R(1..5) = 1 THEN <<x[1], Note(1), x[2]>> ELSE x : x \in two})
ValidC(z) == Pick({b \o m \o a : b \in {Before(z)}, m \in {Body(z)}, a \in {After(z)}})
\* an invalid one: a valid one damaged, or nothing at all
Ins(c, i, x) == SubSeq(c, 1, i) \o <<x>> \o SubSeq(c, i + 1, Len(c))
Drop(c, k) == SelectSeq(c, LAMBDA x : x.k # k)
Repl(c, k, x) == [i \in DOMAIN c |-> IF c[i].k = k THEN x ELSE c[i]]
Damaged(z) == Pick({CASE w \in 1..3 -> Ins(c, R(0..Len(c)), L("junk", R(0..9)))
                      [] w = 4 -> Drop(c, "listen")
                      [] w = 5 -> Repl(c, "listen", L("listen0", 0))
                      [] w = 6 -> Repl(c, "listen", L("listenX", R(0..3)))
                      [] w = 7 -> Repl(c, "db", L("dbX", R(0..3)))
                      [] w = 8 -> Ins(c, 0, L("table", 9))
                      [] w = 9 -> <<L(R({"listen", "db"}), R(Dbs))>> \o c
                      [] w = 10 -> <<>>
                      [] w = 11 -> <<L("note", R({1, 9}))>>
                      [] w = 12 -> <<L("junk", R(0..9))>>
                    : c \in {ValidC(z)}, w \in {R(1..12)}})
\* what is generated is what it is meant to be, also by the definition of Reload
InvalidC(z) == LET F[i \in 0..20] == Pick({IF Valid(c) /\ i < 20 THEN F[i + 1] ELSE c : c \in {Damaged(z)}}) IN F[0]
\* ways of saving; the name is that of the file itself, of a link to it, or of a chain of links by way of a directory
Atomic == {"rename", "renamex", "swap", "relink", "target", "kube"}
InPlace == {"write", "trunc", "pieces", "inplace"}
Ways(lnk) == CASE lnk = "file" -> InPlace \cup {"relink", "relinkx", "target"}
               [] lnk = "chain" -> InPlace \cup {"kube"}
               [] OTHER -> (Atomic \ {"relink", "target", "kube"}) \cup InPlace \cup {"recreate"}
Fits(c, w) == w \in Atomic \/ \A i \in DOMAIN c : (c[i].k = "note" /\ c[i].v \in {5, 6, 9}) => i > 2 /\ \A j \in i..Len(c) : c[j].k \notin {"listen", "db"}
WayFor(c, lnk) == LET F[i \in 0..9] == Pick({IF Fits(c, w) \/ i = 9 THEN w ELSE F[i + 1] : w \in {R(Ways(lnk))}}) IN F[0]
Content(z) == IF R(1..5) > 2 THEN ValidC(z) ELSE InvalidC(z)

\* h = [c0, path, link, ops]; the state of the script: the file, whether the program is stopped, sessions
Op(o) == h' = [h EXCEPT !.ops = Append(@, o)]
Want == IF Good(file) THEN [ok |-> TRUE, p |-> Cfg(file.c).p, d |-> Cfg(file.c).d] ELSE [ok |-> FALSE, p |-> 0, d |-> 0]
Len0 == 22
GInit == Hist /\ n = [stop |-> FALSE, s |-> 0, k |-> 0] /\ h = [ops |-> <<>>] /\ Start(<<L("listen", 1)>>)
First(z) == LET F[i \in 0..20] == Pick({IF Cfg(x).p = Busy /\ i < 20 THEN F[i + 1] ELSE x : x \in {ValidC(z)}}) IN F[0]
GFirst == \E c \in {First(n.k)} : /\ file' = [there |-> TRUE, c |-> c] /\ UNCHANGED n
                                 /\ h' = [c0 |-> c, path |-> R({"abs", "abs", "rel", "dot", "default"}), link |-> IF R(1..4) = 1 THEN R({"file", "chain"}) ELSE "no", ops |-> <<>>]
Frame == UNCHANGED <<hist, ver, todo, lis, nxt, con, ses>>
GSave == \E c \in {Content(n.k)} : \E w \in {WayFor(c, h.link)} :
           /\ Op([op |-> "Save", way |-> w, c |-> c, gap |-> R({0, 0, 1, 3}), cut |-> R(1..3)])
           /\ file' = [there |-> TRUE, c |-> c] /\ n' = [n EXCEPT !.k = @ + 1]
GRemove == Op([op |-> "Remove"]) /\ file' = [there |-> FALSE, c |-> <<>>] /\ UNCHANGED n
GSettle == Op([op |-> "Settle", want |-> Want]) /\ UNCHANGED file /\ n' = [n EXCEPT !.k = 0]
GOpen == \E p \in {R(Ports)} : Op([op |-> "Open", s |-> n.s + 1, p |-> p]) /\ n' = [n EXCEPT !.s = @ + 1] /\ UNCHANGED file
GEcho == Op([op |-> "Echo"]) /\ UNCHANGED <<file, n>>
GBye == Op([op |-> "Bye", s |-> R(1..n.s)]) /\ UNCHANGED <<file, n>>
GPause == Op([op |-> "Pause", n |-> R({1, 3, 10, 40})]) /\ UNCHANGED <<file, n>>
GNoise == Op([op |-> "Noise", k |-> R(0..6), big |-> n.stop /\ R(1..2) = 1]) /\ UNCHANGED <<file, n>>
GStop == Op([op |-> "Stop"]) /\ n' = [n EXCEPT !.stop = TRUE] /\ UNCHANGED file
GCont == Op([op |-> "Cont"]) /\ n' = [n EXCEPT !.stop = FALSE] /\ UNCHANGED file
\* saves follow each other at most five times before things settle
GStep == \E w \in {R(1..30)} :
  IF Len(h.ops) >= Len0 - 2 \/ (n.k >= 5 /\ w <= 15) THEN (IF n.stop THEN GCont ELSE GSettle)
  ELSE IF w <= 13 THEN (IF n.k >= 5 THEN GPause ELSE IF w = 13 /\ h.link = "no" /\ file.there THEN GRemove ELSE GSave)
  ELSE IF w <= 19 THEN (IF n.stop THEN GCont ELSE GSettle)
  ELSE IF w <= 21 THEN (IF n.stop THEN GNoise ELSE GOpen)
  ELSE IF w <= 23 THEN (IF n.stop \/ n.s = 0 THEN GPause ELSE GEcho)
  ELSE IF w = 24 THEN (IF n.stop \/ n.s = 0 THEN GPause ELSE GBye)
  ELSE IF w <= 26 THEN GPause
  ELSE IF w <= 28 THEN GNoise
  ELSE (IF n.stop THEN GCont ELSE IF w = 29 THEN GStop ELSE GPause)
GNext == Hist /\ Len(h.ops) < Len0 /\ (IF DOMAIN h = {"ops"} THEN GFirst ELSE GStep) /\ Frame
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(h.ops) = Len0 => PrintT(<<"SCRIPT", ToJson(h)>>)

---------------------------------------------------------------------------
(* the design: Reload itself. Contents: some valid, some not *)
C(p, d) == <<L("listen", p), L("db", d)>>
DContents == {C(1, 1), C(1, 2), C(2, 1), C(4, 2), <<L("db", 2)>>, C(3, 2) \o <<L("junk", 0)>>, <<L("db", 2), L("table", 1), L("listen", 2)>>, C(3, 1) \o <<L("db", 3)>>}
DInit == ~Hist /\ Start(C(1, 1)) /\ h = 0 /\ n = [saves |-> 0, opens |-> 0]
Keep == UNCHANGED <<h, n>>
DNext ==
  /\ ~Hist
  /\ \/ n.saves < MaxSaves /\ n' = [n EXCEPT !.saves = @ + 1] /\ UNCHANGED h /\ ((\E c \in DContents : Save(c)) \/ Remove)
     \/ Works /\ Keep
     \/ n.opens < MaxOpens /\ n' = [n EXCEPT !.opens = @ + 1] /\ UNCHANGED h /\ \E p \in Ports : OpenCall(n.opens + 1, p)
     \/ (\E d \in 0..3 : con.s # 0 /\ OpenRet(con.s, d)) /\ Keep
DSpec == DInit /\ [][DNext]_gvars /\ WF_vars(~Hist /\ Works)
\* an invalid content is never in force, nor listened on; only contents of the file are
OnlyValid == /\ \A i \in DOMAIN hist : hist[i] \in {[p |-> x[1].v, d |-> x[2].v] : x \in {C(1, 1), C(1, 2), C(2, 1), C(4, 2)}}
             /\ {lis, nxt} \cap {3, 4} = {}
\* once it listens, it goes on listening
Listens == [][lis # 0 => lis' # 0]_vars
\* sooner or later the last save is in force, and listened on if that is possible
Settles == <>[](Good(file) => hist[ver] = Cfg(file.c) /\ todo = <<>> /\ nxt = 0 /\ (Cfg(file.c).p # Busy => lis = Cfg(file.c).p))
\* invalid or not, the file does not change what is in force by itself
Steady == [][(file' # file) => UNCHANGED <<ver, todo, lis, nxt, ses>>]_vars
\* with nothing left to do, a client that comes meets exactly what is in force
Exact == con.s # 0 /\ n.saves = 0 /\ lis # 0 => con.can \subseteq {0, 1}
=============================================================================
