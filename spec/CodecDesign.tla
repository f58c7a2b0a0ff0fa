----------------------------- MODULE CodecDesign -----------------------------
(* Codec itself: decoding and encoding are inverse, exhaustively over all short bodies and over combinations of fields. *)
EXTENDS Codec, TLC, FiniteSets

CONSTANTS Alphabet, MaxLen
VARIABLES kind, b
dvars == <<kind, b>>

\* every message starts from a head that lets short bodies say something
Heads(k) == CASE k = "Auth" -> {<<>>, <<0, 0, 0>>}
              [] k = "NegotiateVersion" -> {<<>>, <<0, 3, 0, 1, 0, 0, 0>>}
              [] k = "RowDescription" -> {<<>>, <<0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 23, 255, 255>>}
              [] k = "DataRow" -> {<<>>, <<0, 2, 0, 0, 0>>}
              [] k = "Startup" -> {<<>>, E32(V3), E32(SSL)}
              [] k = "BackendKeyData" -> {<<>>, <<128, 0, 0, 0>>}
              [] OTHER -> {<<>>}
DInit == kind \in Kinds /\ b \in Heads(kind)
DNext == \E x \in Alphabet : Len(b) < MaxLen + 15 /\ (\E hd \in Heads(kind) : Len(hd) <= Len(b) /\ Len(b) < Len(hd) + MaxLen /\ SubSeq(b, 1, Len(hd)) = hd)
                             /\ b' = Append(b, x) /\ UNCHANGED kind
DSpec == DInit /\ [][DNext]_dvars

D == Dec(kind, b)
RoundTrip == /\ D.st = "ok" => Enc(kind, D.v) = b
             /\ D.st = "trail" => Len(Enc(kind, D.v)) < Len(b) /\ SubSeq(b, 1, Len(Enc(kind, D.v))) = Enc(kind, D.v)
             /\ D.st # "err" => Dec(kind, Enc(kind, D.v)) = [st |-> "ok", v |-> D.v]
\* what is refused as too short was too short all along (a message without a body is refused for having one)
Shorter == D.st = "err" /\ kind \notin {"EmptyQuery", "Terminate"} => \A n \in 0..Len(b) : (kind = "Startup" /\ n = 4) \/ Dec(kind, SubSeq(b, 1, n)).st = "err"
Ints == \A n \in {-32768, -1, 0, 1, 32767} : I16(E16(n), 1) = n /\ I32(E32(n), 1) = n
BigInts == \A n \in {-2147483647 - 1, -65536, 65535, 16777216, 2147483647} : I32(E32(n), 1) = n
TypesDiffer == \A j, k \in Kinds \ {"Startup"} : TypeOf(j) = TypeOf(k) => j = k
=============================================================================
