------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* Typed reads and writes of a buffer (C22): a queue of bytes. Every write  *)
(* appends the encoding of its value; every read returns the value at the   *)
(* front and removes its bytes, or fails and changes nothing.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES buf
vars == <<buf>>
Init == buf = <<>>

Up(x) == IF x >= 128 THEN x - 256 ELSE x
I16(b, p) == Up(b[p]) * 256 + b[p + 1]
I32(b, p) == Up(b[p]) * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
E16(n) == <<(n \div 256) % 256, n % 256>>
E32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Nul(_, _)
Nul(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = 0 THEN p ELSE Nul(b, p + 1)

Coded(op, v) == CASE op = "bytes" -> v
                  [] op = "byte" -> <<v>>
                  [] op = "int32" -> E32(v)
                  [] op = "int16" -> E16(v)
                  [] op = "string" -> Append(v, 0)
                  [] op = "int32s" -> Cat([i \in DOMAIN v |-> E32(v[i])])
                  [] op = "int16s" -> Cat([i \in DOMAIN v |-> E16(v[i])])

\* how many bytes the read takes (-1: it fails), for a requested size k
Takes(op, k) ==
  LET n == Len(buf) IN
  CASE op = "bytes" -> IF k < 0 \/ k > n THEN -1 ELSE k
    [] op = "byte" -> IF n < 1 THEN -1 ELSE 1
    [] op = "int32" -> IF n < 4 THEN -1 ELSE 4
    [] op = "int16" -> IF n < 2 THEN -1 ELSE 2
    [] op = "string" -> LET q == Nul(buf, 1) IN IF q = 0 THEN -1 ELSE q
    [] op = "int32s" -> IF k < 0 \/ k > n \div 4 THEN -1 ELSE 4 * k
    [] op = "int16s" -> IF k < 0 \/ k > n \div 2 THEN -1 ELSE 2 * k
Value(op, k) ==
  CASE op = "bytes" -> SubSeq(buf, 1, k)
    [] op = "byte" -> buf[1]
    [] op = "int32" -> I32(buf, 1)
    [] op = "int16" -> I16(buf, 1)
    [] op = "string" -> SubSeq(buf, 1, Nul(buf, 1) - 1)
    [] op = "int32s" -> [i \in 1..k |-> I32(buf, 4 * i - 3)]
    [] op = "int16s" -> [i \in 1..k |-> I16(buf, 2 * i - 1)]

Write(op, v) == buf' = buf \o Coded(op, v)
Read(op, k, ok, v) ==
  LET n == Takes(op, k) IN
  IF n < 0 THEN ~ok /\ UNCHANGED buf
  ELSE ok /\ v = Value(op, k) /\ buf' = SubSeq(buf, n + 1, Len(buf))
\* the whole content is looked at
Look(b) == b = buf /\ UNCHANGED buf
=============================================================================
