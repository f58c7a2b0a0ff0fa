------------------------------ MODULE BufferGen ------------------------------
(* Sequences of writes and reads for the real buffers; and the design: what is written is read back. *)
EXTENDS Buffer, TLC, Json

CONSTANTS MaxOps, Hist, Ints32, Ints16, Bytes
VARIABLES h, sent, back
gvars == <<vars, h, sent, back>>

R(S) == RandomElement(S)
Ops == {"bytes", "byte", "int32", "int16", "string", "int32s", "int16s"}
Big == -2147483647 - 1
RBs(S, n) == TLCEval([i \in 1..R(n) |-> R(S)])
AllInts32 == {Big, -65537, -256, -1, 0, 1, 127, 128, 255, 256, 65535, 65536, 8388608, 2147483647}
AllInts16 == {-32768, -257, -256, -1, 0, 1, 127, 128, 255, 256, 32767}
FewInts32 == {Big, -1, 65536}
FewInts16 == {-32768, 258}
AllBytes == {0, 1, 65, 127, 128, 255}
RV(op) == CASE op = "bytes" -> RBs(Bytes, {0, 1, 2, 5, 9})
            [] op = "byte" -> R(Bytes)
            [] op = "int32" -> R(Ints32)
            [] op = "int16" -> R(Ints16)
            [] op = "string" -> RBs(Bytes \ {0}, {0, 1, 3, 8})
            [] op = "int32s" -> RBs(Ints32, {0, 1, 2, 5})
            [] op = "int16s" -> RBs(Ints16, {0, 1, 2, 5})
Size(op, v) == IF op \in {"bytes", "int32s", "int16s"} THEN Len(v) ELSE 0
Ks == {Big, -1073741824, -5, -4, -2, -1, 0, 1, 2, 3, 4, 5, 8, 536870912, 1073741823, 1073741824, 2147483647}

GWrite == /\ Len(h) < MaxOps
          /\ \E op \in {R(Ops)} : \E v \in {RV(op)} :
             h' = Append(h, [w |-> 1, op |-> op, v |-> v]) /\ sent' = Append(sent, <<op, Size(op, v)>>)
          /\ UNCHANGED <<buf, back>>
\* reads: of what has been written, or of something else
GRead == /\ Len(h) < MaxOps
         /\ IF sent # <<>> /\ R(1..3) > 1
            THEN h' = Append(h, [w |-> 0, op |-> sent[1][1], k |-> sent[1][2]]) /\ sent' = Tail(sent)
            ELSE h' = Append(h, [w |-> 0, op |-> R(Ops), k |-> R(Ks)]) /\ UNCHANGED sent
         /\ UNCHANGED <<buf, back>>
GEnd == Len(h) = MaxOps /\ h' = Append(h, [w |-> 2]) /\ UNCHANGED <<buf, sent, back>>
GInit == Init /\ h = <<>> /\ sent = <<>> /\ back = <<>>
GNext == GWrite \/ GRead \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
Emit == (Len(h) > MaxOps) => PrintT(<<"SCRIPT", ToJson([ops |-> SubSeq(h, 1, MaxOps)])>>)

---------------------------------------------------------------------------
Vals(op) == CASE op = "bytes" -> {<<>>} \cup {<<x>> : x \in Bytes} \cup {<<x, y>> : x, y \in Bytes}
              [] op = "byte" -> Bytes
              [] op = "int32" -> Ints32 [] op = "int16" -> Ints16
              [] op = "string" -> {<<>>} \cup {<<x>> : x \in Bytes \ {0}}
              [] op = "int32s" -> {<<>>} \cup {<<x, y>> : x, y \in Ints32}
              [] op = "int16s" -> {<<>>} \cup {<<x>> : x \in Ints16}
DWrite == /\ Len(h) < MaxOps /\ back = <<>>
          /\ \E op \in Ops : \E v \in Vals(op) : Write(op, v) /\ sent' = Append(sent, <<op, Size(op, v), v>>)
          /\ h' = Append(h, 0) /\ UNCHANGED back
DRead == /\ Len(back) < Len(sent)
         /\ LET s == sent[Len(back) + 1] IN
            /\ Takes(s[1], s[2]) >= 0
            /\ Read(s[1], s[2], TRUE, Value(s[1], s[2]))
            /\ back' = Append(back, <<s[1], s[2], Value(s[1], s[2])>>)
         /\ UNCHANGED <<h, sent>>
DNext == DWrite \/ DRead
DSpec == GInit /\ [][DNext]_gvars
Mirror == /\ back = SubSeq(sent, 1, Len(back))
          /\ (Len(back) = Len(sent)) => buf = <<>>
          /\ (Len(back) < Len(sent)) => Takes(sent[Len(back) + 1][1], sent[Len(back) + 1][2]) >= 0
=============================================================================
