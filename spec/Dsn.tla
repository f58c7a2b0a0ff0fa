-------------------------------- MODULE Dsn --------------------------------
(***************************************************************************)
(* Database URLs (C19). A URL is a sequence of bytes, read from left to     *)
(* right by a scanner whose state is the part of the URL it is in:          *)
(*                                                                         *)
(*   postgres[ql]://[user[:password]@][host][:port][/database][?k=v&...]    *)
(*                                                                         *)
(* Read(u) is the state of the scanner after the last byte; Class and Fits  *)
(* say what the real parser may return for it:                              *)
(*   err    an error                                                        *)
(*   ok     the parameters                                                  *)
(*   okerr  either (the documentation leaves it open)                       *)
(*   any    not specified                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Digit == 48..57
Alpha == (65..90) \cup (97..122)
HexD == Digit \cup (65..70) \cup (97..102)
Unres == Digit \cup Alpha \cup {45, 46, 95, 126}                       \* - . _ ~
SubDel == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}                 \* ! $ & ' ( ) * + , ; =
High == 128..255
Ctl == (0..31) \cup {127}
Plain == Unres \cup SubDel

PostgresL == <<112, 111, 115, 116, 103, 114, 101, 115>>
SchemeSet == {PostgresL, PostgresL \o <<113, 108>>}                   \* postgres, postgresql
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

HexV(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

---------------------------------------------------------------------------
(* The scanner. at: where it is; x: what is read so far of the current item, decoded; pc: what is left to read of a
   percent escape; notes: what has been seen that matters for the verdict. *)

St0 == [at |-> "scheme", x |-> <<>>, sch |-> <<>>, user |-> <<>>, pass |-> <<>>, hasPass |-> FALSE, host |-> <<>>, port |-> <<>>,
        db |-> <<>>, q |-> <<>>, k |-> <<>>, pc |-> <<>>, notes |-> {}]
Note(s, n) == [s EXCEPT !.notes = @ \cup {n}]
Put(s, c) == [s EXCEPT !.x = Append(@, c)]

\* the authority has to be read to its end before it is known whether it begins with a user: "auth" collects it as it is
\* (escapes not decoded); Auth takes it apart.
RECURSIVE Find(_, _, _)
Find(b, c, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = c THEN i ELSE Find(b, c, i + 1)
RECURSIVE Last(_, _, _)
Last(b, c, i) == IF i = 0 THEN 0 ELSE IF b[i] = c THEN i ELSE Last(b, c, i - 1)
Count(b, c) == Cardinality({i \in DOMAIN b : b[i] = c})

\* "bad": an escape that is none
RECURSIVE Decode(_, _)
Decode(b, i) ==
  IF i > Len(b) THEN [ok |-> TRUE, v |-> <<>>, esc |-> {}]
  ELSE IF b[i] # 37 THEN LET r == Decode(b, i + 1) IN [r EXCEPT !.v = <<b[i]>> \o @]
  ELSE IF i + 2 > Len(b) THEN [ok |-> FALSE, v |-> <<>>, esc |-> {}]
  ELSE IF b[i + 1] \notin HexD \/ b[i + 2] \notin HexD THEN [ok |-> FALSE, v |-> <<>>, esc |-> {}]
  ELSE LET r == Decode(b, i + 3)
           n == 16 * HexV(b[i + 1]) + HexV(b[i + 2])
       IN [r EXCEPT !.v = <<n>> \o @, !.esc = @ \cup {n}]
Sub(b, i, j) == SubSeq(b, i, j)

\* sequence of groups of an IPv6 address
RECURSIVE SplitC(_, _, _)
SplitC(b, i, cur) == IF i > Len(b) THEN <<cur>>
                     ELSE IF b[i] = 58 THEN <<cur>> \o SplitC(b, i + 1, <<>>)
                     ELSE SplitC(b, i + 1, Append(cur, b[i]))
V6(b) ==
  LET g == SplitC(b, 1, <<>>)
      e == {i \in DOMAIN g : g[i] = <<>>}
      hexy == \A i \in DOMAIN g : Len(g[i]) <= 4 /\ \A j \in DOMAIN g[i] : g[i][j] \in HexD
  IN /\ hexy /\ Len(g) >= 3
     /\ \/ Len(g) = 8 /\ e = {}
        \/ Cardinality(e) = 1 /\ Len(g) <= 8 /\ e \cap {1, Len(g)} = {}                \* a::b
        \/ Len(g) \in 4..8 /\ (e = {1, 2} \/ e = {Len(g) - 1, Len(g)})                  \* ::a:b, a:b::
        \/ Len(g) = 3 /\ (e = {1, 2, 3} \/ e = {1, 2} \/ e = {2, 3})                    \* ::, ::a, a::

HostPort(s, b) ==
  IF b # <<>> /\ b[1] = 91 THEN
    LET j == Find(b, 93, 1)
        zone == Find(b, 37, 1)
        inner == Sub(b, 2, j - 1)
    IN IF j = 0 THEN Note(s, "err")
       ELSE LET tail == Sub(b, j + 1, Len(b))
                s1 == IF tail = <<>> THEN s
                      ELSE IF tail[1] # 58 \/ \E i \in 2..Len(tail) : tail[i] \notin Digit THEN Note(s, "err")
                      ELSE [s EXCEPT !.port = Sub(tail, 2, Len(tail))]
                s2 == [s1 EXCEPT !.host = inner]
            IN IF zone # 0 \/ ~V6(inner) THEN Note(s2, "any") ELSE s2
  ELSE
    LET j == Find(b, 58, 1)
        h == IF j = 0 THEN b ELSE Sub(b, 1, j - 1)
        p == IF j = 0 THEN <<>> ELSE Sub(b, j + 1, Len(b))
        d == Decode(h, 1)
        s1 == [s EXCEPT !.host = d.v, !.port = p]
    IN IF Count(b, 58) > 1 THEN (IF \E i \in (Last(b, 58, Len(b)) + 1)..Len(b) : b[i] \notin Digit THEN Note(s1, "err") ELSE Note(s1, "any"))
       ELSE IF \E i \in DOMAIN p : p[i] \notin Digit THEN Note(s1, "err")
       ELSE IF ~d.ok THEN Note(s1, "err")
       ELSE IF d.esc \cap (0..127) # {} THEN Note(s1, "okerr")
       ELSE IF 32 \in {h[i] : i \in DOMAIN h} THEN Note(s1, "err")
       ELSE IF \E i \in DOMAIN h : h[i] \in High THEN Note(s1, "okerr")
       ELSE IF \E i \in DOMAIN h : h[i] \notin Plain \cup {37} THEN Note(s1, "any")
       ELSE s1

Auth(s) ==
  LET b == s.x
      j == Last(b, 64, Len(b))
      ui == Sub(b, 1, j - 1)
      k == Find(ui, 58, 1)
      u == Decode(IF k = 0 THEN ui ELSE Sub(ui, 1, k - 1), 1)
      p == Decode(IF k = 0 THEN <<>> ELSE Sub(ui, k + 1, Len(ui)), 1)
      hp == Sub(b, j + 1, Len(b))
      s1 == IF j = 0 THEN s
            ELSE LET t == [s EXCEPT !.user = u.v, !.pass = p.v, !.hasPass = k # 0]
                 IN IF ~u.ok \/ ~p.ok THEN Note(t, "err")
                    ELSE IF Count(b, 64) > 1 THEN Note(t, "any")
                    ELSE IF \E i \in DOMAIN ui : ui[i] \notin Plain \cup {37, 58} THEN Note(t, IF \E i \in DOMAIN ui : ui[i] \in High THEN "okerr" ELSE "any")
                    ELSE t
  IN [HostPort(s1, hp) EXCEPT !.x = <<>>]

EndPath(s) ==
  LET d == Decode(s.x, 1)
      s1 == [s EXCEPT !.db = d.v, !.x = <<>>]
  IN IF ~d.ok THEN Note(s1, "err")
     ELSE IF \E i \in DOMAIN s.x : s.x[i] \notin Plain \cup {37, 47, 58, 64} THEN
            Note(s1, IF \E i \in DOMAIN s.x : s.x[i] \in High THEN "okerr" ELSE "any")
     ELSE s1

\* a pair of the query
EndPair(s) ==
  LET b == s.x
      j == Find(b, 61, 1)
      k == Decode(IF j = 0 THEN b ELSE Sub(b, 1, j - 1), 1)
      v == Decode(IF j = 0 THEN <<>> ELSE Sub(b, j + 1, Len(b)), 1)
      s1 == [s EXCEPT !.q = Append(@, [k |-> k.v, v |-> v.v]), !.x = <<>>]
  IN IF b = <<>> THEN Note([s EXCEPT !.x = <<>>], "okerr")
     ELSE IF ~k.ok \/ ~v.ok THEN Note(s1, "err")
     ELSE IF k.v = <<>> THEN Note(s1, "any")
     ELSE IF \E i \in DOMAIN b : b[i] = 59 THEN Note(s1, "any")        \* ; once separated pairs
     ELSE IF \E i \in DOMAIN b : b[i] = 43 THEN Note(s1, "plus")       \* + is a plus or a space
     ELSE IF j = 0 \/ Count(b, 61) > 1 THEN Note(s1, "okerr")
     ELSE IF \E i \in DOMAIN b : b[i] \notin Plain \cup {37, 47, 58, 63, 64} THEN
            Note(s1, IF \E i \in DOMAIN b : b[i] \in High THEN "okerr" ELSE "any")
     ELSE s1

Finish(s) ==
  CASE s.at = "scheme" -> Note(s, "err")           \* no scheme at all
    [] s.at \in {"s1", "s2"} -> Note(s, "any")
    [] s.at = "auth" -> Auth(s)
    [] s.at = "path" -> EndPath(s)
    [] s.at = "query" -> IF s.x = <<>> /\ s.q = <<>> THEN s ELSE EndPair(s)
    [] s.at \in {"opaque", "frag"} -> s

\* one byte
Scan(s, c) ==
  IF s.at = "frag" THEN s
  ELSE IF c \in Ctl THEN Note(s, "err")
  ELSE IF c = 35 THEN [Note(Finish(s), "any") EXCEPT !.at = "frag"]
  ELSE CASE s.at = "scheme" /\ c = 58 -> [s EXCEPT !.at = "s1", !.sch = s.x, !.x = <<>>]
         [] s.at = "scheme" -> Put(s, c)
         [] s.at = "s1" -> IF c = 47 THEN [s EXCEPT !.at = "s2"] ELSE Note([s EXCEPT !.at = "opaque"], "any")
         [] s.at = "s2" -> IF c = 47 THEN [s EXCEPT !.at = "auth"] ELSE Note([s EXCEPT !.at = "opaque"], "any")
         [] s.at = "auth" -> (CASE c = 47 -> [Auth(s) EXCEPT !.at = "path"]
                                [] c = 63 -> [Auth(s) EXCEPT !.at = "query"]
                                [] OTHER -> Put(s, c))
         [] s.at = "opaque" -> s
         [] s.at = "path" -> IF c = 63 THEN [EndPath(s) EXCEPT !.at = "query"] ELSE Put(s, c)
         [] s.at = "query" -> IF c = 38 THEN EndPair(s) ELSE Put(s, c)

RECURSIVE ReadFrom(_, _, _)
ReadFrom(s, u, i) == IF i > Len(u) THEN Finish(s) ELSE ReadFrom(Scan(s, u[i]), u, i + 1)
Read(u) == ReadFrom(St0, u, 1)

---------------------------------------------------------------------------
(* Verdicts *)

RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE IF Len(b) > 5 THEN 65536 ELSE 10 * Num(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)] - 48
LowerAll(b) == [i \in DOMAIN b |-> Lower(b[i])]
Class(s) ==
  IF LowerAll(s.sch) \notin SchemeSet THEN "err"
  ELSE IF "err" \in s.notes THEN "err"
  ELSE IF "any" \in s.notes THEN "any"
  ELSE IF s.sch \notin SchemeSet \/ "okerr" \in s.notes \/ (s.port # <<>> /\ Num(s.port) \notin 1..65535) THEN "okerr"
  ELSE "ok"

KHost == <<104, 111, 115, 116>>
KPort == <<112, 111, 114, 116>>
KUser == <<117, 115, 101, 114>>
KPass == <<112, 97, 115, 115, 119, 111, 114, 100>>
KDb == <<100, 97, 116, 97, 98, 97, 115, 101>>
LocalHost == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
P5432 == <<53, 52, 51, 50>>
Five == {KHost, KPort, KUser, KPass, KDb}

QKeys(s) == {s.q[i].k : i \in DOMAIN s.q}
Or(v, d) == IF v = <<>> THEN d ELSE v
\* what a key may be set to: by the query, else by its part of the URL, else by default. An empty value in the query may
\* count as a value or as none; of several values of one key any may be taken.
Part(s, k, os) == CASE k = KHost -> {Or(s.host, LocalHost)}
                    [] k = KPort -> {Or(s.port, P5432)}
                    [] k = KUser -> {Or(s.user, os)}
                    [] k = KPass -> {s.pass}
                    [] OTHER -> {<<>>}
QVals(s, k) == {s.q[i].v : i \in {j \in DOMAIN s.q : s.q[j].k = k}}
Vals(s, k, os) == IF k \notin QKeys(s) THEN Part(s, k, os)
                  ELSE QVals(s, k) \cup (IF <<>> \in QVals(s, k) THEN Part(s, k, os) ELSE {})
\* res: a function from keys to values
Fits(s, os, res) ==
  LET want == QKeys(s) \cup {KHost, KPort, KUser, KDb} \cup (IF s.hasPass THEN {KPass} ELSE {})
      may == IF s.pass = <<>> /\ QVals(s, KPass) \subseteq {<<>>} THEN {KPass} ELSE {}      \* an empty password may be left out
      dbs == IF KDb \in QKeys(s) /\ <<>> \notin QVals(s, KDb) THEN QVals(s, KDb)
             ELSE (IF KDb \in QKeys(s) THEN QVals(s, KDb) ELSE {})
                  \cup (IF s.db # <<>> THEN {s.db} ELSE {res[KUser]})
      plus == "plus" \in s.notes
      Same(x, y) == x = y \/ (plus /\ Len(x) = Len(y) /\ \A i \in DOMAIN x : x[i] = y[i] \/ (y[i] = 43 /\ x[i] = 32))
  IN /\ KUser \in DOMAIN res /\ KDb \in DOMAIN res
     /\ IF plus THEN Cardinality(DOMAIN res) \in {Cardinality(want), Cardinality(want \ may)}
        ELSE want \ may \subseteq DOMAIN res /\ DOMAIN res \subseteq want
     /\ \A k \in want \ {KDb} : (\A c \in DOMAIN k : k[c] # 43) => (k \in DOMAIN res => \E v \in Vals(s, k, os) : Same(res[k], v))
     /\ \E v \in dbs : Same(res[KDb], v)

\* the parser may answer r (with parameters res) to u for the operating system's user os
Answer(u, os, r, res) ==
  LET s == Read(u)
      c == Class(s)
  IN /\ r \in {"ok", "err"}
     /\ CASE c = "err" -> r = "err"
          [] c = "any" -> TRUE
          [] c = "ok" -> r = "ok" /\ Fits(s, os, res)
          [] c = "okerr" -> r = "err" \/ Fits(s, os, res)
=============================================================================
