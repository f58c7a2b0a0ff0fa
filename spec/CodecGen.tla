------------------------------ MODULE CodecGen ------------------------------
(* Inputs for the real decoders and encoders: messages, damaged messages, and fields. *)
EXTENDS Codec, TLC, Json

VARIABLES n, case
gvars == <<n, case>>

R(S) == RandomElement(S)
\* (random choices are bound by \in: a definition would be drawn again at every use)
Pick(S) == CHOOSE x \in S : TRUE
BB == {0, 1, 3, 10, 34, 65, 92, 110, 127, 128, 195, 255}
Big == -2147483647 - 1
I32s == {Big, -65537, -2, -1, 0, 1, 2, 23, 255, 256, 65535, 65536, 16777216, 2147483647, V3, SSL}
I16s == {-32768, -256, -2, -1, 0, 1, 2, 127, 128, 255, 256, 32767}
Sizes == {0, 0, 1, 2, 3, 5, 9, 30}
RStr(z) == TLCEval([i \in 1..R(Sizes) |-> R(BB \ {0})])
RBytes(z) == TLCEval([i \in 1..R(Sizes) |-> R(BB)])
RSeq(f(_)) == TLCEval([i \in 1..R({0, 1, 1, 2, 3, 4, 8}) |-> f(i)])
RVal(i) == IF R(1..3) = 1 THEN [null |-> TRUE, b |-> <<>>] ELSE [null |-> FALSE, b |-> RBytes(0)]
RFieldD(i) == [name |-> RStr(0), toid |-> R(I32s), col |-> R(I16s), doid |-> R(I32s), dsz |-> R(I16s), dmod |-> R(I32s), fmt |-> R(I16s)]
RCode(i) == [t |-> R(BB \ {0}), v |-> RStr(0)]
RName(z) == TLCEval([i \in 1..R({1, 2, 4}) |-> R({65, 66})])
RPair(i) == [n |-> RName(0), v |-> RStr(0)]
S1(i) == RStr(i)

RVals(k) ==
  CASE k = "Auth" -> Pick({[code |-> c, data |-> CASE c = 5 -> TLCEval([i \in 1..4 |-> R(BB)]) [] c = 8 -> RBytes(0) [] OTHER -> <<>>] : c \in {R(AuthCodes)}})
    [] k = "BackendKeyData" -> [pid |-> R(I32s), key |-> R(I32s)]
    [] k \in {"CommandComplete", "Password", "Query"} -> [s |-> RStr(0)]
    [] k = "DataRow" -> [vals |-> RSeq(RVal)]
    [] k \in {"EmptyQuery", "Terminate"} -> [z |-> 0]
    [] k \in {"ErrorResponse", "NoticeResponse"} -> [fields |-> RSeq(RCode)]
    [] k = "NegotiateVersion" -> [ver |-> R(I32s), opts |-> RSeq(S1)]
    [] k = "ParameterStatus" -> [n |-> RStr(0), v |-> RStr(0)]
    [] k = "ReadyForQuery" -> [b |-> R(BB)]
    [] k = "RowDescription" -> [fields |-> RSeq(RFieldD)]
    [] k = "Startup" -> [ver |-> R({V3, V3, SSL, 0, -1, 80877102}), ps |-> RSeq(RPair)]

\* damage
Cut(b) == SubSeq(b, 1, R(0..Len(b)))
More(b) == b \o RBytes(0)
Flip(b) == IF b = <<>> THEN b ELSE [b EXCEPT ![R(1..Len(b))] = R(BB)]
\* a count or length field that promises something else
Promise(k, b) ==
  CASE k \in {"DataRow", "RowDescription"} /\ Len(b) >= 2 -> E16(R(I16s)) \o SubSeq(b, 3, Len(b))
    [] k = "NegotiateVersion" /\ Len(b) >= 8 -> SubSeq(b, 1, 4) \o E32(R(I32s)) \o SubSeq(b, 9, Len(b))
    [] k \in {"Auth", "Startup"} /\ Len(b) >= 4 -> E32(R(I32s \cup (0..12))) \o SubSeq(b, 5, Len(b))
    [] OTHER -> Flip(b)
Damage(k, b) == Pick({CASE x <= 4 -> b [] x <= 6 -> Cut(b) [] x = 7 -> More(b) [] x = 8 -> Flip(b) [] OTHER -> Promise(k, b) : x \in {R(1..10)}})

CaseOf(k, v, x) ==
  CASE x <= 5 -> [c |-> "dec", kind |-> k, t |-> IF R(1..12) = 1 THEN R(BB) ELSE TypeOf(k), b |-> Damage(k, Enc(k, v))]
    [] x <= 7 -> [c |-> "enc", kind |-> k, v |-> v]
    [] x = 8 /\ k = "Startup" -> [c |-> "param", ps |-> v.ps, n |-> RName(0)]
    [] OTHER -> [c |-> "msg", t |-> IF R(1..8) = 1 THEN R(BB) ELSE TypeOf(k), b |-> Damage(k, Enc(k, v))]
Case(z) == Pick(UNION {{CaseOf(k, v, x) : v \in {RVals(k)}} : k \in {R(Kinds)}, x \in {R(1..10)}})

GInit == n = 0 /\ case = Case(0)
GNext == n < 50 /\ n' = n + 1 /\ case' = Case(n)
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT(<<"SCRIPT", ToJson(case)>>)
=============================================================================
