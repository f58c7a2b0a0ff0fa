----------------------------- MODULE FramingGen -----------------------------
(* Streams and ways to cut them for the real readers; and the design: on a small instance, over all streams and all cuts,
   a reader that keeps to Framing returns the same packets whatever the cuts. *)
EXTENDS Framing, TLC, Json

CONSTANTS Alphabet, MaxLen, Calls, Hist
VARIABLES h, out
gvars == <<vars, h, out>>

NoCalls == <<>>
TwoStd == <<"std", "std">>
StartStd == <<"start", "std">>
R(S) == RandomElement(S)
Pick(S) == CHOOSE x \in S : TRUE
BB == {0, 1, 4, 5, 65, 127, 128, 255}
RBytes(k) == TLCEval([i \in 1..k |-> R(BB)])
Lens == {0, 0, 1, 2, 3, 4, 7, 16, 60, 300}
Sp(what) == IF what \in {"start", "cstart"} THEN <<>> ELSE <<R(BB \cup {68, 69, 81, 82, 84, 90})>>
\* a startup message nobody objects to
Good(z) == Pick({E32(Len(b) + 4) \o b : b \in {E32(V3) \o <<117, 0, 65, 0>> \o (IF R(1..2) = 1 THEN <<100, 0, 0>> ELSE <<>>) \o <<0>>}})
Packet(what) == IF what = "cstart" /\ R(1..4) > 1
                THEN IF R(1..3) = 1 THEN E32(8) \o E32(SSL) ELSE Good(what)
                ELSE Pick({Sp(what) \o E32(k + 4) \o RBytes(k) : k \in {R(Lens)}})
\* lengths nobody may declare, or that promise more than follows
Wrong(what) == Sp(what)
               \o E32(R({-2147483647 - 1, -5, -1, 0, 1, 2, 3, 2147483647, 2147483646, 1073741824, 65536, 5, 9})) \o RBytes(R({0, 1, 3, 8}))
RECURSIVE Packets(_)
Packets(ws) == IF ws = <<>> THEN <<>>
               ELSE (IF R(1..6) = 1 THEN TLCEval(Wrong(Head(ws))) ELSE TLCEval(Packet(Head(ws)))) \o Packets(Tail(ws))
\* (random choices are bound by \in: a definition would be drawn again at every use)
\* (and a parameter, or TLC draws once for all)
Script(z) ==
  Pick({ [stream |-> SubSeq(z_[1], 1, IF R(1..3) = 1 THEN R(0..Len(z_[1])) ELSE Len(z_[1])),
          calls |-> IF R(1..3) = 1 THEN Append(z_[2], z_[2][1]) ELSE z_[2],
          style |-> R({"all", "one", "few", "mix", "zero"}), eof |-> R({"after", "with", "broken"})]
         : z_ \in {<<Packets(cs), cs>> : cs \in {
             TLCEval([i \in 1..n |-> IF fam = 1 THEN R({<<"cmsg", 1>>, <<"cmsg", 2>>, <<"cstart", 1>>})[1]
                                            ELSE R({<<"std", 1>>, <<"std", 2>>, <<"start", 1>>})[1]])
             : n \in {R(1..6)}, fam \in {R(1..3)}}} })

\* simulation: one script per step
GInit == /\ Hist /\ InitWith(<<>>) /\ h = [s |-> Script(0)] /\ out = <<>>
GNext == Hist /\ Len(out) < 40 /\ h' = [s |-> Script(out)] /\ out' = Append(out, 0) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT(<<"SCRIPT", ToJson(h.s)>>)

---------------------------------------------------------------------------
Streams == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
DInit == h = 0 /\ out = <<>> /\ \E s \in Streams : InitWith(s)
\* a reader that asks for what it needs
Need == IF ~Head_(call) THEN Skip(call) + 4 - (got - base) ELSE Length(call) - (got - base - Skip(call))
DNext == /\ UNCHANGED h
         /\ \/ Len(out) < Len(Calls) /\ call = "" /\ Call(Calls[Len(out) + 1]) /\ UNCHANGED out
            \/ /\ call \notin {"", "failed"} /\ ~over /\ ~Complete(call) /\ (Head_(call) => Possible(call))
               /\ \E n \in 0..MaxLen : /\ (n <= Need /\ n > 0) \/ got = Len(stream)
                                       /\ got + n <= Len(stream)
                                       /\ Read(n, got + n = Len(stream) /\ (n = 0))
               /\ UNCHANGED out
            \/ \E p \in {SubSeq(stream, base + 1, got)} : call \in Whats /\ Ok(p) /\ out' = Append(out, p)
            \/ call \in Whats /\ Err /\ out' = Append(out, <<-1>>)
DSpec == DInit /\ [][DNext]_gvars /\ WF_gvars(DNext)
\* what the calls give, as a function of the stream alone
RECURSIVE Expect(_, _)
Expect(p, i) ==
  IF i > Len(Calls) THEN <<>>
  ELSE LET sk == Skip(Calls[i]) IN
       IF Len(stream) - p < sk + 4 THEN << <<-1>> >>
       ELSE LET n == I32(stream, p + sk + 1) IN
            IF n < 4 \/ n > Len(stream) - p - sk THEN << <<-1>> >>
            ELSE << SubSeq(stream, p + 1, p + sk + n) >> \o Expect(p + sk + n, i + 1)
SameWhateverTheCuts == Len(out) <= Len(Expect(0, 1)) /\ out = SubSeq(Expect(0, 1), 1, Len(out))
NothingTwice == base <= got
Finishes == <>(Len(out) = Len(Expect(0, 1)))
=============================================================================
