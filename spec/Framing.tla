------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* Cutting a byte stream into packets (C07). Standard packets: a type byte, *)
(* then a length that counts itself and what follows; startup packets: the  *)
(* length first. The reader is handed the stream in pieces of any size and  *)
(* asked for one packet after the other. It has to return exactly the bytes *)
(* of the packet, to take nothing beyond it, and to fail when the stream    *)
(* ends early or the length is impossible.                                  *)
(***************************************************************************)
EXTENDS Codec

VARIABLES stream, got, base, call, over
vars == <<stream, got, base, call, over>>

\* std, start: the packet readers; cmsg, cstart: the same on a connection, which may read ahead and which decodes the packet
Whats == {"std", "start", "cmsg", "cstart"}
Ahead(what) == what \in {"cmsg", "cstart"}
\* bytes before what the length counts
Skip(what) == IF what \in {"start", "cstart"} THEN 0 ELSE 1
\* the packet at the current position, as far as it has been handed out
Head_(what) == got - base >= Skip(what) + 4
Length(what) == I32(stream, base + Skip(what) + 1)
Possible(what) == Length(what) >= 4
Complete(what) == Head_(what) /\ Possible(what) /\ got - base - Skip(what) >= Length(what)

InitWith(s) == stream = s /\ got = 0 /\ base = 0 /\ call = "" /\ over = FALSE

Call(what) == call = "" /\ call' = what /\ UNCHANGED <<stream, got, base, over>>
\* the reader asks for more and is handed n bytes; end: it is told that nothing follows. It must not ask when it has what it needs:
\* nothing more may ever come
Read(n, end) == /\ call # "" /\ (Head_(call) => Possible(call) /\ ~Complete(call))
                /\ got' = got + n /\ got' <= Len(stream)
                /\ over' = (over \/ end)
                /\ UNCHANGED <<stream, base, call>>
\* a packet is returned
Ok(p) == /\ call # ""
         /\ Complete(call) /\ (~Ahead(call) => got = base + Skip(call) + Length(call))
         /\ p = SubSeq(stream, base + 1, base + Skip(call) + Length(call))
         /\ base' = base + Skip(call) + Length(call) /\ call' = ""
         /\ UNCHANGED <<stream, got, over>>
\* an error: the reader is of no use any more
Unread(what) == what = "cstart" /\ Complete(what)
                /\ Dec("Startup", SubSeq(stream, base + 5, base + Length(what))).st # "ok"
Err == /\ call # ""
       /\ IF Head_(call) THEN Unread(call) \/ ~Possible(call) \/ (over /\ ~Complete(call)) ELSE over
       /\ call' = "failed"
       /\ UNCHANGED <<stream, got, base, over>>
=============================================================================
