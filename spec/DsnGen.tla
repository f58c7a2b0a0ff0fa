------------------------------- MODULE DsnGen -------------------------------
(* URLs put together from their parts; and the design: whatever the parts, and whatever is escaped, reading the URL gives
   the parameters the parts stand for, and only them. *)
EXTENDS Dsn, TLC, Json

CONSTANTS Hist, Vals_     \* values of the parts
VARIABLES h, n
gvars == <<h, n>>

R(S) == RandomElement(S)
Pick(S) == CHOOSE x \in S : TRUE
Few == {<<97>>, <<47, 64>>}
More == {<<97>>, <<47, 64>>, <<37, 52, 49>>, <<200, 38, 61>>}
None == <<-1>>
HexU(k) == IF k < 10 THEN 48 + k ELSE 55 + k
HexL(k) == IF k < 10 THEN 48 + k ELSE 87 + k
Esc(b, up) == IF up THEN <<37, HexU(b \div 16), HexU(b % 16)>> ELSE <<37, HexL(b \div 16), HexL(b % 16)>>
Safe == Unres
\* which bytes may stand for themselves
Raw(what) == CASE what = "user" -> Unres \cup SubDel
               [] what = "pass" -> Unres \cup SubDel \cup {58}
               [] what = "host" -> Unres \cup SubDel \cup {58}
               [] what = "db" -> Unres \cup SubDel \cup {47, 58, 64}
               [] what = "q" -> (Unres \cup SubDel \cup {47, 58, 63, 64}) \ {38, 59, 61, 43}
               [] OTHER -> Unres
RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(f) THEN <<>> ELSE f[i] \o Flat(f, i + 1)
\* mode: which bytes are escaped: 0 only what must be, 1 everything, 2 everything in lower case
Enc(b, what, mode) == Flat([i \in DOMAIN b |-> IF b[i] \in Raw(what) /\ mode = 0 THEN <<b[i]>> ELSE Esc(b[i], mode # 2)], 1)
EncRandom(b, what) == Flat(TLCEval([i \in DOMAIN b |-> IF b[i] \in Raw(what) /\ R(1..4) > 1 THEN <<b[i]>> ELSE Esc(b[i], R({TRUE, FALSE}))]), 1)

Text(sch, u, p, ho, po, d, q) ==
  sch \o <<58, 47, 47>> \o (IF u = None THEN <<>> ELSE u \o (IF p = None THEN <<>> ELSE <<58>> \o p) \o <<64>>)
      \o (IF ho = None THEN <<>> ELSE ho) \o (IF po = None THEN <<>> ELSE <<58>> \o po) \o (IF d = None THEN <<>> ELSE <<47>> \o d)
      \o (IF q = <<>> THEN <<>> ELSE <<63>> \o Flat([i \in DOMAIN q |-> (IF i = 1 THEN <<>> ELSE <<38>>) \o q[i][1] \o <<61>> \o q[i][2]], 1))

---------------------------------------------------------------------------
(* generation *)
Names == {<<97>>, <<97, 108, 105, 99, 101>>, <<66, 48>>, <<97, 45, 98, 95, 99, 46, 100, 126>>, <<116, 43, 120>>, <<32, 120>>, <<97, 64, 98>>, <<97, 58, 98>>,
          <<47>>, <<47, 97>>, <<97, 47, 98>>, <<37>>, <<37, 52, 49>>, <<97, 63, 98>>, <<97, 35, 98>>, <<97, 38, 98>>, <<97, 61, 98>>, <<200, 169>>, <<0>>, <<97, 10>>,
          <<59>>, <<91, 93>>, <<43>>, <<33, 36, 39, 40, 41, 42, 44>>, <<112, 111, 115, 116, 103, 114, 101, 115>>, <<47, 47, 97>>, <<97, 47>>, <<34, 39>>}
Hosts == {<<104>>, <<104, 49, 46, 101, 120>>, <<49, 48, 46, 48, 46, 48, 46, 49>>, LocalHost, <<97, 44, 98>>, <<72, 79, 83, 84>>, <<104, 95, 49, 126>>, <<195, 169, 46, 120>>}
V6s == {<<58, 58, 49>>, <<58, 58>>, <<102, 101, 56, 48, 58, 58, 49>>, <<49, 58, 50, 58, 51, 58, 52, 58, 53, 58, 54, 58, 55, 58, 56>>, <<50, 48, 48, 49, 58, 100, 98, 56, 58, 58>>,
        <<58, 58, 97, 58, 98>>}
Ports == {<<49>>, <<53, 52, 51, 51>>, <<54, 53, 53, 51, 53>>, <<48, 56, 48>>, <<>>, <<54, 53, 53, 51, 54>>, <<57, 57, 57, 57, 57, 57, 57>>, <<48>>, <<53, 52, 51, 50>>}
Keys == {<<97>>, <<97, 98>>, <<115, 115, 108, 109, 111, 100, 101>>, <<72, 111, 115, 116>>, <<120, 95, 121>>, <<97, 32, 98>>, <<195, 169>>, <<117>>}
Opt(v, w) == IF R(1..w) = 1 THEN None ELSE v
Value(z) == IF R(1..5) = 1 THEN TLCEval([i \in 1..R(0..6) |-> R(1..255)]) ELSE IF R(1..12) = 1 THEN <<>> ELSE R(Names)
Pair_(z) == <<EncRandom(IF R(1..2) = 1 THEN R(Five) ELSE R(Keys), "q"), EncRandom(Value(z), "q")>>
Sch(z) == IF R(1..12) > 1 THEN R(SchemeSet)
          ELSE R({<<109, 121, 115, 113, 108>>, <<>>, <<112, 111, 115, 116, 103, 114, 101>>, <<80, 111, 115, 116, 103, 114, 101, 83>>, <<104, 116, 116, 112>>,
                  PostgresL \o <<113, 108, 108>>, PostgresL \o <<50>>, <<120>> \o PostgresL})
Host_(z) == IF R(1..5) = 1 THEN <<91>> \o R(V6s) \o <<93>> ELSE EncRandom(R(Hosts), "host")
Url(z) == Pick({Text(Sch(z), Opt(EncRandom(Value(z), "user"), 4), Opt(EncRandom(Value(z), "pass"), 3), Opt(Host_(z), 8), Opt(R(Ports), 2),
                     Opt(EncRandom(Value(z), "db"), 4), qs) : qs \in {TLCEval([i \in 1..R({0, 0, 0, 1, 1, 2, 3}) |-> Pair_(i)])}})
\* damage
Mut(u) == CASE R(1..4) = 1 -> SubSeq(u, 1, R(0..Len(u)))
            [] R(1..2) = 1 -> LET Ins(i) == SubSeq(u, 1, i) \o <<R({37, 58, 64, 47, 63, 35, 38, 61, 91, 93, 32, 43, 59, 0, 10, 127, 97, 200, 92, 60})>> \o SubSeq(u, i + 1, Len(u))
                              IN Ins(R(0..Len(u)))
            [] OTHER -> LET Del(i) == SubSeq(u, 1, i - 1) \o SubSeq(u, i + 1, Len(u)) IN IF u = <<>> THEN u ELSE Del(R(1..Len(u)))
GUrl(z) == Pick({IF m = 1 THEN Mut(u) ELSE IF m = 2 THEN Mut(Mut(u)) ELSE u : u \in {Url(z)}, m \in {R(1..8)}})
GInit == Hist /\ n = 0 /\ h = GUrl(0)
GNext == Hist /\ n < 40 /\ n' = n + 1 /\ h' = GUrl(n)
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT(<<"SCRIPT", ToJson([u |-> h])>>)

---------------------------------------------------------------------------
(* the design, over all combinations of parts with values from Vals_ and the three ways to escape *)
VN == Vals_ \cup {<<>>, None}
Os == <<111>>
\* what the parts stand for, directly
Params(u, p, ho, po, d, q) ==
  LET has(k) == \E i \in DOMAIN q : q[i][1] = k
      qv(k) == q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]
      us == IF has(KUser) THEN qv(KUser) ELSE IF u \in {None, <<>>} THEN Os ELSE u
      keys == {KHost, KPort, KUser, KDb} \cup {q[i][1] : i \in DOMAIN q} \cup (IF u # None /\ p # None THEN {KPass} ELSE {})
  IN [k \in keys |-> IF k = KUser THEN us
                     ELSE IF has(k) THEN qv(k)
                     ELSE CASE k = KHost -> IF ho \in {None, <<>>} THEN LocalHost ELSE ho
                            [] k = KPort -> IF po \in {None, <<>>} THEN P5432 ELSE po
                            [] k = KPass -> p
                            [] OTHER -> IF d \in {None, <<>>} THEN us ELSE d]
Queries == {<<>>} \cup {<< <<k, v>> >> : k \in Five \cup {<<120>>}, v \in Vals_}
           \cup {<< <<k, <<98>> >>, <<k2, <<99>> >> >> : k \in {KUser, KDb}, k2 \in {KPass, <<120>>, KHost}}
DInit == /\ ~Hist /\ n = 0 /\ \E u \in VN, d \in VN : h = [u |-> u, d |-> d]
DNext == /\ ~Hist /\ n = 0 /\ n' = 1
         /\ \E p \in VN, ho \in {None, <<>>, <<104>>, <<58, 58, 49>>}, po \in {None, <<>>, <<55>>}, q \in Queries :
              /\ h.u = None => p = None
              /\ h' = [u |-> h.u, p |-> p, ho |-> ho, po |-> po, d |-> h.d, q |-> q]
DSpec == DInit /\ [][DNext]_gvars
E0(x, w, m) == IF x = None THEN None ELSE Enc(x, w, m)
Means == n = 1 => \A m \in 0..2 :
  LET txt == Text(PostgresL, E0(h.u, "user", m), E0(h.p, "pass", m), IF h.ho = <<58, 58, 49>> THEN <<91>> \o h.ho \o <<93>> ELSE h.ho, h.po, E0(h.d, "db", m),
                  [i \in DOMAIN h.q |-> <<Enc(h.q[i][1], "q", m), Enc(h.q[i][2], "q", m)>>])
      s == Read(txt)
      want == Params(h.u, h.p, h.ho, h.po, h.d, h.q)
  IN /\ Class(s) = "ok"
     /\ Fits(s, Os, want)
        \* nothing else fits
     /\ \A k \in DOMAIN want : ~Fits(s, Os, [want EXCEPT ![k] = Append(@, 122)])
     /\ \A k \in DOMAIN want : (k = KPass /\ want[k] = <<>>) \/ ~Fits(s, Os, [j \in DOMAIN want \ {k} |-> want[j]])
     /\ ~Fits(s, Os, [j \in DOMAIN want \cup {<<122>>} |-> IF j = <<122>> THEN <<>> ELSE want[j]])
=============================================================================
