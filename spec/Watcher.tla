------------------------------ MODULE Watcher ------------------------------
(* How the program notices what happens to its configuration file (the design behind C18), and that this is enough: it
   watches the file and its directory, watches again when another file appears under the name, and reads the file
   again after every such event and whenever the queue of events has overflowed. The name may be a link: then the
   directory tells when the link is changed, but not what happens to the file behind it. Checked: a file system with names,
   files and a bounded queue, any history of at most MaxOps operations, makes the program behave as Reload demands of
   contents in force (a refinement, on the history of valid contents), and it is up to date when it is at rest.

   WatchDir, WatchAgain, WatchGone and OnError switch parts of the design off; each is needed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxOps, QMax, WatchDir, WatchAgain, WatchGone, OnError, Link

VARIABLES name,    \* the file (inode) under the name, 0: none
          data,    \* its content, per inode: [v, ok]
          nv,      \* contents ever given to the file, in order, valid ones only
          ops, newv,
          wf,      \* the inode watched, 0: none
          q,       \* events not yet seen
          pc,      \* "idle", "read"
          chan,    \* what was read, on its way
          force
vars == <<name, data, nv, ops, newv, wf, q, pc, chan, force>>
Inodes == 1..MaxOps + 1
None == [v |-> 0, ok |-> FALSE]

Push(s, e) == IF Len(s) < QMax THEN Append(s, e) ELSE IF s[Len(s)] = "O" THEN s ELSE Append(s, "O")
\* what the watches report: of the file watched, and of the name in the directory (where a link's target is not)
RECURSIVE PushAll(_, _)
PushAll(s, es) == IF es = <<>> THEN s ELSE PushAll(Push(s, Head(es)), Tail(es))
OfFile(i, e) == IF wf = i THEN <<e>> ELSE <<>>
OfName(e) == IF WatchDir THEN <<e>> ELSE <<>>
Init == /\ name = 1 /\ data = [i \in Inodes |-> IF i = 1 THEN [v |-> 1, ok |-> TRUE] ELSE None]
        /\ nv = <<1>> /\ ops = 0 /\ newv = 1 /\ wf = 1 /\ q = <<>> /\ pc = "idle" /\ chan = <<1>> /\ force = 0
Prog == <<wf, pc, chan, force>>
Give(ok) == /\ newv' = newv + 1
            /\ nv' = IF ok THEN Append(nv, newv + 1) ELSE nv
Fresh == CHOOSE i \in Inodes : data[i] = None
\* in place; truncating is such a write too
Write(ok) == /\ name # 0 /\ Give(ok) /\ data' = [data EXCEPT ![name] = [v |-> newv + 1, ok |-> ok]]
             /\ q' = PushAll(q, OfFile(name, "W") \o (IF Link THEN <<>> ELSE OfName("W"))) /\ UNCHANGED name
\* another file under the name; behind a link, the link may be changed or not
Rename(ok) == /\ Give(ok) /\ name' = Fresh /\ data' = [data EXCEPT ![Fresh] = [v |-> newv + 1, ok |-> ok]]
              /\ \E old \in BOOLEAN, new \in BOOLEAN :
                   /\ ~Link => old /\ new
                   /\ old \/ new         \* the old file goes, or the link is another one
                   /\ q' = PushAll(q, (IF name # 0 /\ old THEN OfFile(name, "D") ELSE <<>>) \o (IF new THEN OfName("C") ELSE <<>>))
Delete == /\ ~Link /\ name # 0 /\ name' = 0 /\ UNCHANGED <<data, nv, newv>> /\ q' = PushAll(q, OfFile(name, "D") \o OfName("D"))
Create == /\ ~Link /\ name = 0 /\ name' = Fresh /\ Give(FALSE) /\ data' = [data EXCEPT ![Fresh] = [v |-> newv + 1, ok |-> FALSE]] /\ q' = PushAll(q, OfName("C"))
Other == WatchDir /\ q' = Push(q, "x") /\ UNCHANGED <<name, data, nv, newv>>
User == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED Prog
        /\ \/ \E ok \in BOOLEAN : Write(ok) \/ Rename(ok)
           \/ Delete \/ Create \/ Other

\* the program
Next1 == /\ pc = "idle" /\ q # <<>> /\ q' = Tail(q)
         /\ LET e == Head(q) IN
            /\ wf' = IF (e = "C" /\ WatchAgain) \/ (e \in {"D", "O"} /\ WatchGone) THEN name
                     ELSE IF e = "D" THEN 0 ELSE wf
            /\ pc' = IF e \in {"W", "C"} \/ (e = "O" /\ OnError) \/ (e = "D" /\ WatchGone /\ name # 0) THEN "read" ELSE "idle"
         /\ UNCHANGED <<name, data, nv, ops, newv, chan, force>>
Read == /\ pc = "read" /\ pc' = "idle"
        /\ chan' = IF name # 0 /\ data[name].ok THEN Append(chan, data[name].v) ELSE chan
        /\ UNCHANGED <<name, data, nv, ops, newv, wf, q, force>>
Apply == /\ chan # <<>> /\ force' = Head(chan) /\ chan' = Tail(chan) /\ UNCHANGED <<name, data, nv, ops, newv, wf, q, pc>>
Program == Next1 \/ Read \/ Apply
Spec == Init /\ [][User \/ Program]_vars /\ WF_vars(Program)

\* only valid contents come into force, in the order of history
OnlyValid == force = 0 \/ \E i \in DOMAIN nv : nv[i] = force
Forward == [][force' >= force]_vars
\* at rest, the program is up to date
UpToDate == (pc = "idle" /\ q = <<>> /\ chan = <<>> /\ name # 0 /\ data[name].ok) => force = data[name].v
Rests == []<>(pc = "idle" /\ q = <<>> /\ chan = <<>>)

\* the refinement: what Reload says of contents and what is in force
PosOf(x) == IF x = 0 THEN 1 ELSE CHOOSE i \in DOMAIN nv : nv[i] = x
C(v, ok) == IF ok THEN <<[k |-> "listen", v |-> 1], [k |-> "db", v |-> v]>> ELSE <<>>
R == INSTANCE Reload WITH Busy <- 99, file <- [there |-> name # 0, c |-> IF name = 0 THEN <<>> ELSE C(data[name].v, data[name].ok)],
       hist <- [i \in DOMAIN nv |-> [p |-> 1, d |-> nv[i]]], ver <- PosOf(force), todo <- <<1>>, lis <- 0, nxt <- 0, con <- [s |-> 0], ses <- {}
RNext == \/ \E v \in 1..MaxOps + 1, ok \in BOOLEAN : R!Save(C(v, ok))
         \/ R!Remove \/ R!Take
Refines == R!Start(C(1, TRUE)) /\ [][RNext]_(R!vars)
=============================================================================
