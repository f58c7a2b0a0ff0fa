---------------------------- MODULE ResidueTrace ----------------------------
(* What was counted in the real code must fit what goes on. *)
EXTENDS Residue, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>

TInit == t \in 1..Len(Traces) /\ l = 1 /\ Init /\ TLCSet(t, 1)

Step(e) ==
  CASE e.e = "Push"    -> Push(e.n)
    [] e.e = "Visit"   -> Visit(e.n)
    [] e.e = "Stay"    -> Stay(e.k, e.n)
    [] e.e = "Leave"   -> Leave(e.k, e.n)
    [] e.e = "Sub"     -> Sub(e.k, e.n)
    [] e.e = "Unsub"   -> Unsub(e.k)
    [] e.e = "Get"     -> Get(e.n)
    [] e.e = "Servers" -> Servers(e.n)
    [] e.e = "Close"   -> Close
    [] e.e = "Measure" -> Measure(e.c, e.d, e.l, e.v, e.k, e.s, e.g, e.b)
    [] OTHER -> FALSE    \* Panic, Leak

TNext ==
  /\ l <= Len(Traces[t].ev)
  /\ Step(Traces[t].ev[l]) /\ l' = l + 1
  /\ UNCHANGED t
  /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE

TSpec == TInit /\ [][TNext]_tvars

Accepted ==
  LET bad_ == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad_ : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
