-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The messages of the PostgreSQL protocol (C08): for every type, Enc gives *)
(* the bytes of its fields and Dec the fields of its bytes.                 *)
(*                                                                         *)
(* Bytes are 0..255; strings and values are sequences of bytes; integers    *)
(* are signed. Dec(kind, b) = [st, v]:                                      *)
(*   ok     b is exactly a message                                          *)
(*   trail  b begins with a message and goes on after it                    *)
(*   err    b is too short for what it declares, or declares the impossible *)
(***************************************************************************)
EXTENDS Integers, Sequences

Kinds == {"Auth", "BackendKeyData", "CommandComplete", "DataRow", "EmptyQuery", "ErrorResponse", "NoticeResponse", "NegotiateVersion",
          "ParameterStatus", "Password", "Query", "ReadyForQuery", "RowDescription", "Terminate", "Startup"}

\* type bytes
TypeOf(kind) ==
  CASE kind = "Auth" -> 82 [] kind = "BackendKeyData" -> 75 [] kind = "CommandComplete" -> 67 [] kind = "DataRow" -> 68
    [] kind = "EmptyQuery" -> 73 [] kind = "ErrorResponse" -> 69 [] kind = "NoticeResponse" -> 78 [] kind = "NegotiateVersion" -> 118
    [] kind = "ParameterStatus" -> 83 [] kind = "Password" -> 112 [] kind = "Query" -> 81 [] kind = "ReadyForQuery" -> 90
    [] kind = "RowDescription" -> 84 [] kind = "Terminate" -> 88 [] OTHER -> 0
KindOf(t) == IF \E k \in Kinds \ {"Startup"} : TypeOf(k) = t THEN CHOOSE k \in Kinds : TypeOf(k) = t ELSE "Generic"

AuthCodes == {0, 2, 3, 5, 6, 7, 8, 9}
SSL == 80877103
V3 == 196608

---------------------------------------------------------------------------
(* Integers *)
Up(x) == IF x >= 128 THEN x - 256 ELSE x
I16(b, p) == Up(b[p]) * 256 + b[p + 1]
I32(b, p) == Up(b[p]) * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
E16(n) == <<(n \div 256) % 256, n % 256>>
E32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

\* position of the first NUL at or after p; 0: none
RECURSIVE Nul(_, _)
Nul(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = 0 THEN p ELSE Nul(b, p + 1)

---------------------------------------------------------------------------
(* Readers: from position p of b to [ok, v, n], n being the position that follows *)
Bad == [ok |-> FALSE, v |-> 0, n |-> 0]
R16(b, p) == IF p + 1 > Len(b) THEN Bad ELSE [ok |-> TRUE, v |-> I16(b, p), n |-> p + 2]
R32(b, p) == IF p + 3 > Len(b) THEN Bad ELSE [ok |-> TRUE, v |-> I32(b, p), n |-> p + 4]
R8(b, p) == IF p > Len(b) THEN Bad ELSE [ok |-> TRUE, v |-> b[p], n |-> p + 1]
RN(b, p, k) == IF k < 0 \/ k > Len(b) - p + 1 THEN Bad ELSE [ok |-> TRUE, v |-> SubSeq(b, p, p + k - 1), n |-> p + k]
RS(b, p) == LET q == Nul(b, p) IN IF q = 0 THEN Bad ELSE [ok |-> TRUE, v |-> SubSeq(b, p, q - 1), n |-> q + 1]

RECURSIVE RValues(_, _, _, _)
RValues(b, p, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, v |-> acc, n |-> p]
  ELSE LET s == R32(b, p) IN
       IF ~s.ok THEN Bad
       ELSE IF s.v = -1 THEN RValues(b, s.n, k - 1, Append(acc, [null |-> TRUE, b |-> <<>>]))
       ELSE LET d == RN(b, s.n, s.v) IN
            IF ~d.ok THEN Bad ELSE RValues(b, d.n, k - 1, Append(acc, [null |-> FALSE, b |-> d.v]))

RField(b, p) ==
  LET nm == RS(b, p) IN
  IF ~nm.ok \/ nm.n + 17 > Len(b) THEN Bad
  ELSE LET q == nm.n IN
       [ok |-> TRUE, n |-> q + 18,
        v |-> [name |-> nm.v, toid |-> I32(b, q), col |-> I16(b, q + 4), doid |-> I32(b, q + 6), dsz |-> I16(b, q + 10),
               dmod |-> I32(b, q + 12), fmt |-> I16(b, q + 16)]]
RECURSIVE RFields(_, _, _, _)
RFields(b, p, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, v |-> acc, n |-> p]
  ELSE LET f == RField(b, p) IN IF ~f.ok THEN Bad ELSE RFields(b, f.n, k - 1, Append(acc, f.v))

RECURSIVE RStrings(_, _, _, _)
RStrings(b, p, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, v |-> acc, n |-> p]
  ELSE LET s == RS(b, p) IN IF ~s.ok THEN Bad ELSE RStrings(b, s.n, k - 1, Append(acc, s.v))

\* code byte and string, up to a zero byte
RECURSIVE RCodes(_, _, _)
RCodes(b, p, acc) ==
  LET c == R8(b, p) IN
  IF ~c.ok THEN Bad
  ELSE IF c.v = 0 THEN [ok |-> TRUE, v |-> acc, n |-> c.n]
  ELSE LET s == RS(b, c.n) IN IF ~s.ok THEN Bad ELSE RCodes(b, s.n, Append(acc, [t |-> c.v, v |-> s.v]))

\* name and value, up to an empty name
RECURSIVE RPairs(_, _, _)
RPairs(b, p, acc) ==
  LET s == RS(b, p) IN
  IF ~s.ok THEN Bad
  ELSE IF s.v = <<>> THEN [ok |-> TRUE, v |-> acc, n |-> s.n]
  ELSE LET w == RS(b, s.n) IN IF ~w.ok THEN Bad ELSE RPairs(b, w.n, Append(acc, [n |-> s.v, v |-> w.v]))

RList(c, f) == IF ~c.ok \/ c.v < 0 THEN Bad ELSE f

RMsg(kind, b) ==
  CASE kind = "Auth" ->
         LET c == R32(b, 1) IN
         IF ~c.ok \/ c.v \notin AuthCodes THEN Bad
         ELSE LET d == CASE c.v = 5 -> RN(b, c.n, 4) [] c.v = 8 -> RN(b, c.n, Len(b) - 4) [] OTHER -> RN(b, c.n, 0)
              IN IF ~d.ok THEN Bad ELSE [ok |-> TRUE, n |-> d.n, v |-> [code |-> c.v, data |-> d.v]]
    [] kind = "BackendKeyData" ->
         IF Len(b) < 8 THEN Bad ELSE [ok |-> TRUE, n |-> 9, v |-> [pid |-> I32(b, 1), key |-> I32(b, 5)]]
    [] kind \in {"CommandComplete", "Password", "Query"} ->
         LET s == RS(b, 1) IN IF ~s.ok THEN Bad ELSE [s EXCEPT !.v = [s |-> s.v]]
    [] kind = "DataRow" ->
         LET c == R16(b, 1) IN
         IF ~c.ok \/ c.v < 0 \/ c.v > Len(b) THEN Bad
         ELSE LET l == RValues(b, 3, c.v, <<>>) IN IF ~l.ok THEN Bad ELSE [l EXCEPT !.v = [vals |-> l.v]]
    [] kind \in {"EmptyQuery", "Terminate"} -> IF b # <<>> THEN Bad ELSE [ok |-> TRUE, n |-> 1, v |-> [z |-> 0]]
    [] kind \in {"ErrorResponse", "NoticeResponse"} ->
         LET l == RCodes(b, 1, <<>>) IN IF ~l.ok THEN Bad ELSE [l EXCEPT !.v = [fields |-> l.v]]
    [] kind = "NegotiateVersion" ->
         IF Len(b) < 8 \/ I32(b, 5) < 0 \/ I32(b, 5) > Len(b) THEN Bad
         ELSE LET l == RStrings(b, 9, I32(b, 5), <<>>) IN
              IF ~l.ok THEN Bad ELSE [l EXCEPT !.v = [ver |-> I32(b, 1), opts |-> l.v]]
    [] kind = "ParameterStatus" ->
         LET l == RStrings(b, 1, 2, <<>>) IN IF ~l.ok THEN Bad ELSE [l EXCEPT !.v = [n |-> l.v[1], v |-> l.v[2]]]
    [] kind = "ReadyForQuery" -> IF Len(b) < 1 THEN Bad ELSE [ok |-> TRUE, n |-> 2, v |-> [b |-> b[1]]]
    [] kind = "RowDescription" ->
         LET c == R16(b, 1) IN
         IF ~c.ok \/ c.v < 0 \/ c.v > Len(b) THEN Bad
         ELSE LET l == RFields(b, 3, c.v, <<>>) IN IF ~l.ok THEN Bad ELSE [l EXCEPT !.v = [fields |-> l.v]]
    [] kind = "Startup" ->
         LET c == R32(b, 1) IN
         IF ~c.ok THEN Bad
         ELSE IF c.v = SSL /\ Len(b) = 4 THEN [ok |-> TRUE, n |-> 5, v |-> [ver |-> c.v, ps |-> <<>>]]
         ELSE LET l == RPairs(b, 5, <<>>) IN IF ~l.ok THEN Bad ELSE [l EXCEPT !.v = [ver |-> c.v, ps |-> l.v], !.n = IF c.v = SSL /\ l.v = <<>> THEN 5 ELSE l.n]

Dec(kind, b) ==
  LET r == RMsg(kind, b) IN
  [st |-> IF ~r.ok THEN "err" ELSE IF r.n = Len(b) + 1 THEN "ok" ELSE "trail", v |-> r.v]

---------------------------------------------------------------------------
(* Writers *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Str(s) == Append(s, 0)
WValue(x) == IF x.null THEN E32(-1) ELSE E32(Len(x.b)) \o x.b
WField(f) == Str(f.name) \o E32(f.toid) \o E16(f.col) \o E32(f.doid) \o E16(f.dsz) \o E32(f.dmod) \o E16(f.fmt)
WCode(f) == <<f.t>> \o Str(f.v)
WPair(p) == Str(p.n) \o Str(p.v)

Enc(kind, v) ==
  CASE kind = "Auth" -> E32(v.code) \o v.data
    [] kind = "BackendKeyData" -> E32(v.pid) \o E32(v.key)
    [] kind \in {"CommandComplete", "Password", "Query"} -> Str(v.s)
    [] kind = "DataRow" -> E16(Len(v.vals)) \o Cat(Map(WValue, v.vals))
    [] kind \in {"EmptyQuery", "Terminate"} -> <<>>
    [] kind \in {"ErrorResponse", "NoticeResponse"} -> Append(Cat(Map(WCode, v.fields)), 0)
    [] kind = "NegotiateVersion" -> E32(v.ver) \o E32(Len(v.opts)) \o Cat(Map(Str, v.opts))
    [] kind = "ParameterStatus" -> Str(v.n) \o Str(v.v)
    [] kind = "ReadyForQuery" -> <<v.b>>
    [] kind = "RowDescription" -> E16(Len(v.fields)) \o Cat(Map(WField, v.fields))
    [] kind = "Startup" -> E32(v.ver) \o (IF v.ver = SSL /\ v.ps = <<>> THEN <<>> ELSE Append(Cat(Map(WPair, v.ps)), 0))

\* the frame around a body
Frame(kind, body) == (IF kind = "Startup" THEN <<>> ELSE <<TypeOf(kind)>>) \o E32(Len(body) + 4) \o body
=============================================================================
