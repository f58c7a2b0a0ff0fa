------------------------------- MODULE Reload -------------------------------
(* The running program and its configuration file (C18).

   A file is a sequence of lines; which contents are valid, and what they say, is defined here. Every valid content the
   file ever has may come into force, in the order of the file's history (contents that follow each other quickly may be
   skipped); others never do. The listening address follows the configurations that come into force. Deadline marks a
   moment so long after the last save that what is saved must have come into force.

   Clients that connect reach the database of a configuration in force while they connect; established sessions go on,
   whatever happens to the file. *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Busy              \* an address on which the program cannot listen

VARIABLES file,             \* [there, c]: the content
          hist,             \* the valid contents the file had: [p, d]
          ver,              \* the one in force
          todo,             \* addresses still to be listened on, in order
          lis, nxt,         \* listening on; about to replace it
          con,              \* a client connecting: [s, p, acc, can], or [s |-> 0]
          ses               \* established sessions: {[s, d]}
vars == <<file, hist, ver, todo, lis, nxt, con, ses>>

---------------------------------------------------------------------------
(* contents *)
\* the table a line belongs to: the index of its header, 0 at the top
RECURSIVE TableOf(_, _)
TableOf(c, i) == IF i = 0 \/ c[i].k = "table" THEN i ELSE TableOf(c, i - 1)
KeyOf(x) == CASE x.k \in {"listen", "listen0", "listenX"} -> <<"listen", 0>>
              [] x.k \in {"db", "dbX"} -> <<"db", 0>>
              [] OTHER -> <<x.k, x.v>>
HasKey(x) == x.k \notin {"note", "junk"}
Twice(c) == \E i, j \in DOMAIN c :
   /\ i < j /\ HasKey(c[i]) /\ HasKey(c[j]) /\ KeyOf(c[i]) = KeyOf(c[j])
   /\ c[i].k = "table" \/ TableOf(c, i) = TableOf(c, j)
Top(c) == {i \in DOMAIN c : TableOf(c, i) = 0}
Toml(c) == (\A i \in DOMAIN c : c[i].k # "junk") /\ ~Twice(c)
Valid(c) == /\ Toml(c)
            /\ \A i \in Top(c) : c[i].k \notin {"listenX", "dbX"}
            /\ \E i \in Top(c) : c[i].k = "listen"
Cfg(c) == [p |-> c[CHOOSE i \in Top(c) : c[i].k = "listen"].v,
           d |-> IF \E i \in Top(c) : c[i].k = "db" THEN c[CHOOSE i \in Top(c) : c[i].k = "db"].v ELSE 0]
Good(f) == f.there /\ Valid(f.c)

---------------------------------------------------------------------------
Start(c) == /\ Valid(c)
            /\ file = [there |-> TRUE, c |-> c] /\ hist = <<Cfg(c)>> /\ ver = 1 /\ todo = <<Cfg(c).p>> /\ lis = 0 /\ nxt = 0
            /\ con = [s |-> 0] /\ ses = {}

\* what a client that has connected, or tries to, may find now
Acc(p) == p # 0 /\ p \in {lis, nxt}
Look == con' = IF con.s = 0 THEN con
               ELSE LET acc == con.p # 0 /\ con.p \in {lis', nxt'}
                    IN [con EXCEPT !.acc = con.acc \/ acc,
                                   !.can = con.can \cup (IF con.acc \/ acc THEN {hist'[ver'].d} ELSE {}) \cup (IF ~acc \/ nxt' # 0 THEN {0} ELSE {})]

Save(c) == /\ file' = [there |-> TRUE, c |-> c]
           /\ hist' = IF Valid(c) THEN Append(hist, Cfg(c)) ELSE hist
           /\ UNCHANGED <<ver, todo, lis, nxt, con, ses>>
Remove == file' = [there |-> FALSE, c |-> <<>>] /\ UNCHANGED <<hist, ver, todo, lis, nxt, con, ses>>

\* a content comes into force
Take == /\ \E k \in ver + 1..Len(hist) :
             /\ ver' = k
             /\ todo' = IF hist[k].p # hist[ver].p THEN Append(todo, hist[k].p) ELSE todo
        /\ UNCHANGED <<file, hist, lis, nxt, ses>> /\ Look
\* the address is changed; the new one may be there before the old one is gone, or the other way around
Bind == /\ todo # <<>> /\ nxt = 0
        /\ todo' = Tail(todo)
        /\ nxt' = IF Head(todo) \in {Busy, lis} THEN 0 ELSE Head(todo)
        /\ UNCHANGED <<file, hist, ver, lis, ses>> /\ Look
Swap == /\ nxt # 0 /\ lis' = nxt /\ nxt' = 0
        /\ UNCHANGED <<file, hist, ver, todo, ses>> /\ Look
Works == Take \/ Bind \/ Swap

OpenCall(s, p) == /\ con.s = 0
                  /\ con' = [s |-> s, p |-> p, acc |-> Acc(p), can |-> (IF Acc(p) THEN {hist[ver].d} ELSE {}) \cup (IF ~Acc(p) \/ nxt # 0 THEN {0} ELSE {})]
                  /\ UNCHANGED <<file, hist, ver, todo, lis, nxt, ses>>
OpenRet(s, d) == /\ con.s = s /\ s # 0 /\ d \in con.can
                 /\ con' = [s |-> 0]
                 /\ ses' = IF d = 0 THEN ses ELSE ses \cup {[s |-> s, d |-> d]}
                 /\ UNCHANGED <<file, hist, ver, todo, lis, nxt>>
Echo(s, d) == [s |-> s, d |-> d] \in ses /\ UNCHANGED vars
Bye(s) == ses' = {x \in ses : x.s # s} /\ UNCHANGED <<file, hist, ver, todo, lis, nxt, con>>
\* what was saved last is in force (again, perhaps: the program may still be on its way through the history)
Deadline == /\ Good(file) => /\ hist[ver] = Cfg(file.c)
                             /\ todo = <<>> => (nxt = 0 /\ lis # 0 /\ (Cfg(file.c).p # Busy => lis = Cfg(file.c).p))
            /\ UNCHANGED vars
=============================================================================
