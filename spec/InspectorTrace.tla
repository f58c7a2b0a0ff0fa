--------------------------- MODULE InspectorTrace ---------------------------
EXTENDS Inspector, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>
Set(s) == {s[i] : i \in DOMAIN s}
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ TLCSet(t, 1)
         /\ InitWith([db |-> Traces[t].cat.db, rels |-> Set(Traces[t].cat.rels)])
Step(e) ==
  CASE e.e = "Call" -> Call(e.t, e.op)
    [] e.e = "Ret" -> (CASE e.op = "inspect" -> InspectRet(e.t, e.r)
                         [] e.op = "tab" -> e.n = Cardinality(Set(e.rows)) /\ TabRet(e.t, e.r, Set(e.rows))
                         [] e.op = "db" -> DbRet(e.t, e.r, e.v)
                         [] e.op = "close" -> CloseRet(e.t))
    [] e.e = "Conn" -> Conn(e.c)
    [] e.e = "Ready" -> Ready(e.c)
    [] e.e = "Query" -> Query(e.c, e.k)
    [] e.e = "Row" -> Row(e.c, e.r)
    [] e.e = "Done" -> Done(e.c)
    [] e.e = "Fault" -> Fault(e.c, e.ends)
    [] e.e = "Gone" -> Gone(e.c)
    [] e.e = "Down" -> Down(e.on)
    [] e.e = "Rest" -> Rest(Set(e.open))
    [] OTHER -> FALSE
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
         /\ IF TLCGet(t) < l' THEN TLCSet(t, l') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  LET bad == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
  IN /\ PrintT(<<"CHECKED", Len(Traces)>>)
     /\ \A i \in bad : PrintT(<<"REJECT", Traces[i].id, TLCGet(i)>>)
=============================================================================
