-------------------------------- MODULE Cli --------------------------------
(* The command line (C21): what is printed, what runs, and how the program exits, for every list of arguments and every
   state of the configuration files.

   Arguments are tokens [k, v]: "cfg" names file v; "verbose", "help", "version"; "bad" stands for anything the program
   does not know (flags, words, a missing value). Files are [s, c]: s = "file" with lines c (as in Reload), or a reason
   why nothing can be read. File 0 is the one read when none is named. *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES st, args, files, got, err
vars == <<st, args, files, got, err>>

R == INSTANCE Reload WITH Busy <- 4, file <- [there |-> FALSE, c |-> <<>>], hist <- <<>>, ver <- 0, todo <- <<>>, lis <- 0, nxt <- 0, con <- [s |-> 0], ses <- {}

Has(k) == \E i \in DOMAIN args : args[i].k = k
Asked == Has("help") \/ Has("version")
Wrong == Has("bad")
Which == IF Has("cfg") THEN args[CHOOSE i \in DOMAIN args : args[i].k = "cfg"].v ELSE 0
File == files[Which + 1]
Loads == File.s = "file" /\ R!Valid(File.c)
MayRun == ~Asked /\ ~Wrong /\ Loads

Begin(a, f) == st = "begun" /\ args = a /\ files = f /\ got = [p |-> 0, d |-> 0] /\ err = ""
\* the server is run, with what the file says
Run(p, d) == /\ st = "begun" /\ MayRun /\ [p |-> p, d |-> d] = R!Cfg(File.c)
             /\ st' = "running" /\ got' = [p |-> p, d |-> d] /\ UNCHANGED <<args, files, err>>
\* it ends, with an error or without one ("")
Ends(e) == st = "running" /\ st' = "ended" /\ err' = e /\ UNCHANGED <<args, files, got>>
\* out: what was printed, as far as it matters: the help, the version, anything on standard error, the error of the server there
Exit(code, out) ==
  /\ \/ /\ st = "begun" /\ Asked /\ code = 0
        /\ (Has("help") /\ out.help) \/ (Has("version") /\ out.version)
     \/ st = "begun" /\ ~Asked /\ ~MayRun /\ code = 1 /\ out.err
     \/ st = "begun" /\ Asked /\ Wrong /\ code = 1 /\ out.err
     \/ st = "ended" /\ IF err = "" THEN code = 0 ELSE code = 1 /\ out.err /\ out.cause
  /\ st' = "exited" /\ UNCHANGED <<args, files, got, err>>
\* the harness ends it while it serves
Kill == st = "running" /\ st' = "exited" /\ UNCHANGED <<args, files, got, err>>
=============================================================================
