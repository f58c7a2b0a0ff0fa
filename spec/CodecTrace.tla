----------------------------- MODULE CodecTrace -----------------------------
(* What the real code does with given bytes and values, judged by Codec. A trace is a list of independent cases:
     dec   Parse* of kind on the body of a frame of type t: r = ok / err / panic, v the fields, enc the bytes of the message
     enc   the bytes of a message with fields v, and the fields they decode to
     msg   one message received from a connection: f its frame, k its kind, g the bytes it is sent with
     param the value of a startup parameter
     flood num SSL requests (or small messages of an established session), got of them answered (relayed)
   alloc: kilobytes allocated meanwhile, in excess of what is in proportion to the input. *)
EXTENDS Codec, TLC, Json, IOUtils

CONSTANTS On
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
G(gs, cond) == (gs \cap On # {}) => cond
Body(f) == SubSeq(f, 6, Len(f))

Parsed(e) ==
  LET d == Dec(e.kind, e.b) IN
  /\ e.r # "panic"
  /\ G({"res"}, e.alloc <= 0)
  /\ G({"codec"}, e.after = e.b)
  /\ IF e.t # TypeOf(e.kind) THEN G({"codec"}, e.r = "err")
     ELSE CASE d.st = "ok"  -> G({"codec"}, e.r = "ok" /\ e.v = d.v /\ e.enc = Frame(e.kind, e.b))
            [] d.st = "err" -> G({"codec"}, e.r = "err")
            \* bytes after the end may be refused or ignored, but never believed
            [] OTHER        -> G({"codec"}, e.r = "ok" => e.v = d.v /\ (e.kind = "Startup" => d.v.ver = SSL /\ d.v.ps = <<>>))
Encoded(e) ==
  /\ e.r # "panic"
  /\ G({"codec"}, e.r = "ok" /\ e.enc = Frame(e.kind, Enc(e.kind, e.v)) /\ e.back = e.v)
Received(e) ==
  LET k == KindOf(e.f[1]) IN
  /\ e.r # "panic"
  /\ G({"res"}, e.alloc <= 0)
  /\ G({"codec"}, /\ e.r = "ok" /\ e.g = e.f
                  /\ e.k \in {k, "Generic"}
                  /\ (k # "Generic" /\ Dec(k, Body(e.f)).st = "ok") => e.k = k /\ e.v = Dec(k, Body(e.f)).v)
\* the first of several parameters of the same name counts; none: empty
Looked(e) ==
  LET s == {i \in DOMAIN e.ps : e.ps[i].n = e.n} IN
  G({"codec"}, e.v = IF s = {} THEN <<>> ELSE e.ps[CHOOSE i \in s : \A j \in s : i <= j].v)

Flooded(e) == G({"res"}, e.got = e.num /\ e.alloc <= 0)

Step(e) == CASE e.e = "dec" -> Parsed(e)
             [] e.e = "enc" -> Encoded(e)
             [] e.e = "msg" -> Received(e)
             [] e.e = "param" -> Looked(e)
             [] e.e = "flood" -> Flooded(e)
             [] OTHER -> FALSE

TInit == t \in 1..Len(Traces) /\ l = 1 /\ TLCSet(t, 1)
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_vars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
