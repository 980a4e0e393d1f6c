---------------------------- MODULE MC_WalletUI ----------------------------
(***************************************************************************)
(* A model of the graphical tool as a program (fields, the generator's     *)
(* root, tabs, selected index, one handler per event) over a toy algebra,  *)
(* as it should be and with the two flaws that it has; and mistaken        *)
(* handlers, whose observations WalletUI must not accept.                  *)
(***************************************************************************)
EXTENDS WalletUI, IOUtils, FiniteSets

Q == 5
TSeedKey == <<7>>
Mix(s, a) == FoldLeft(LAMBDA x, y : (x * 7 + y * 3 + 1) % 97, a, s)
THmac(c, d) == LET h == Mix(c \o d, 11) IN <<1 + (h % 4), (h \div 4) % 2>>
TLeft(I) == <<I[1]>>
TRight(I) == <<I[2]>>
TLeftOK(l) == l[1] < Q
TScalarOK(s) == s[1] \in 1..(Q - 1)
TScalarPlus(a, b) == <<(a[1] + b[1]) % Q>>
TPoint(s) == IF s[1] % Q = 0 THEN <<>> ELSE <<2, s[1] % Q>>
TPointPlus(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE TPoint(<<a[2] + b[2]>>)
TPointOK(p) == Len(p) = 2 /\ p[1] = 2 /\ p[2] \in 1..(Q - 1)
TIdentifier(p) == <<Mix(p, 5) % 3, 0>>
TChecksum(b) == <<Mix(b, 3) % 11>>
THard(i) == i[1] >= 10
TPrv == {<<10>>}
TPub == {<<20>>}
TPairedPub(v) == <<v[1] + 10>>
TDefaultPrv == <<10>>
TDefaultPub == <<20>>
TNone == {}
TNoRoot == Zeros(7)
TRoot == {109, 77}
TBlank(c) == c = 32
NatOf(ds) == FoldLeft(LAMBDA a, d : IF a > 1000 THEN a ELSE 10 * a + d, 0, ds)
TNumber(ds) == LET n == NatOf(ds) IN IF n < 20 THEN <<n>> ELSE <<>>
TSoft(v) == v[1] < 10
THarden(v) == <<v[1] + 10>>
TSoften(v) == <<v[1] - 10>>
TNumerals(v) == IF v[1] < 10 THEN <<v[1]>> ELSE <<v[1] \div 10, v[1] % 10>>
TRootNumber == <<0>>
TNth(i, k) == i
TSize(i, j) == 0
TAnyHard(i, j) == FALSE

\* mnemonics are <<1>>, <<2>> (12 words) and <<3>> (15 words)
TWordsIn(m) == CASE m \in {<<1>>, <<2>>} -> 12 [] m = <<3>> -> 15 [] OTHER -> 0
TSeedFor(m, p) == IF TWordsIn(m) = 0 THEN Fail ELSE <<30 + 2 * m[1] + Len(p)>>
TMasterOf(s) == IF s = <<>> \/ s[1] < 30 THEN Fail ELSE <<10, 0, 0, 0, (s[1] \div 4) % 2, 0, 1 + (s[1] % 4)>>
TTextOf(b) == Wrap(b)
TKeyIn(t) == IF Len(t) = KeySize + SumLen THEN Decode(t) ELSE Fail
TFacts(b) == LET k == Fields(b) IN <<TTextOf(b), TTextOf(Neuter(k)), k.key, PubPoint(k), Identifier(PubPoint(k))>>

Ms == {<<>>, <<1>>, <<3>>, <<9>>}
Ps == {<<>>, <<1>>}
Ss == {<<>>, <<31>>, <<34>>, <<9>>}
Rs == {<<>>, <<9>>, TTextOf(<<10, 0, 0, 0, 1, 0, 3>>), TTextOf(<<10, 1, 1, 4, 0, 0, 2>>), TTextOf(<<20, 0, 0, 0, 1, 2, 3>>)}
Ds == {<<>>, <<109, 47, 49>>, <<109, 47, 32, 49>>, <<77, 47, 49, 39, 47, 53>>, <<109, 47, 49, 47, 49, 47, 49>>, <<120>>}
Acts == {[op |-> "generate", i |-> "", t |-> <<>>, n |-> 0], [op |-> "left", i |-> "", t |-> <<>>, n |-> 0], [op |-> "right", i |-> "", t |-> <<>>, n |-> 0]}
        \cup {[op |-> "edit", i |-> "m", t |-> x, n |-> 0] : x \in Ms} \cup {[op |-> "edit", i |-> "p", t |-> x, n |-> 0] : x \in Ps}
        \cup {[op |-> "edit", i |-> "s", t |-> x, n |-> 0] : x \in Ss} \cup {[op |-> "edit", i |-> "r", t |-> x, n |-> 0] : x \in Rs}
        \cup {[op |-> "edit", i |-> "d", t |-> x, n |-> 0] : x \in Ds}
        \cup {[op |-> "words", i |-> "", t |-> <<>>, n |-> x] : x \in {12, 15}} \cup {[op |-> "tab", i |-> "", t |-> <<>>, n |-> x] : x \in 0..2}

\* ------------------------------------------------------------------ the program: v is what is wrong with it
Flaws == {"keeps tabs", "selects none"}
Mistakes == {"passphrase ignored", "mnemonic stays", "seed stays", "tabs lag", "old root", "no clipping", "generates without passphrase", "first details", "twelve words", "wraps", "invalid path ignored",
             "public tabs", "m alone"}
NoKey == Zeros(7)
\* the tabs are made anew
Tabs(v, z) == LET d == IF IsPath(z.d) THEN Parse(z.d) ELSE RootPath
                  ok == z.root # NoKey /\ ("public tabs" \in v \/ ValidRoot(z.root))
                  T == IF ok THEN Trail(z.root, Tail(d)) ELSE <<>>
                  n == IF "m alone" \in v /\ Len(T) > 1 THEN Len(T) - 1 ELSE Len(T)
                  new == [x \in 1..n |-> [p |-> Canonical(d, x - 1), k |-> T[x]]]
                  tabs == IF "invalid path ignored" \in v /\ ~IsPath(z.d) THEN z.tabs ELSE new
                  low == IF "no clipping" \notin v /\ z.sel >= Len(tabs) THEN Len(tabs) - 1 ELSE z.sel
              IN  [z EXCEPT !.tabs = tabs, !.sel = IF "selects none" \notin v /\ low < 0 THEN 0 ELSE low]
Rooted(v, z, s) == LET b == TMasterOf(s) IN Tabs(v, [z EXCEPT !.s = s, !.root = IF b = Fail THEN NoKey ELSE b, !.r = IF b = Fail THEN <<>> ELSE TTextOf(b)])
Seeded(v, z, m, p) == LET y == [z EXCEPT !.m = m, !.p = p] s == TSeedFor(m, p) IN
    IF "old root" \in v THEN LET q == Tabs(v, y) w == Rooted(v, y, s) IN [w EXCEPT !.tabs = q.tabs, !.sel = q.sel] ELSE Rooted(v, y, s)
Next1(v, z, a) ==
    CASE a.op = "generate" -> LET m == IF z.words = 12 \/ "twelve words" \in v THEN <<2>> ELSE <<3>> IN
                              IF "generates without passphrase" \in v THEN [Seeded(v, z, m, <<>>) EXCEPT !.p = z.p] ELSE Seeded(v, z, m, z.p)
      [] a.op = "words" -> [z EXCEPT !.words = a.n]
      [] a.op = "tab" -> IF a.n < Len(z.tabs) THEN [z EXCEPT !.sel = a.n] ELSE z
      [] a.op = "left" -> IF z.tabs # <<>> /\ z.sel > 0 THEN [z EXCEPT !.sel = @ - 1] ELSE IF z.tabs # <<>> /\ "wraps" \in v THEN [z EXCEPT !.sel = Len(z.tabs) - 1] ELSE z
      [] a.op = "right" -> IF z.tabs # <<>> /\ z.sel < Len(z.tabs) - 1 THEN [z EXCEPT !.sel = @ + 1] ELSE z
      [] OTHER -> IF z[a.i] = a.t THEN z
                  ELSE CASE a.i = "m" -> Seeded(v, z, a.t, z.p)
                         [] a.i = "p" -> IF "passphrase ignored" \in v THEN [z EXCEPT !.p = a.t] ELSE Seeded(v, z, z.m, a.t)
                         [] a.i = "s" -> Rooted(v, IF "mnemonic stays" \in v THEN z ELSE [z EXCEPT !.m = <<>>], a.t)
                         [] a.i = "r" -> LET b == TKeyIn(a.t) y == [z EXCEPT !.m = <<>>, !.s = IF "seed stays" \in v THEN @ ELSE <<>>, !.r = a.t, !.root = IF b = Fail THEN NoKey ELSE b] IN
                                         IF b = Fail /\ "keeps tabs" \in v THEN y ELSE Tabs(v, y)
                         [] a.i = "d" -> LET y == [z EXCEPT !.d = a.t, !.r = IF z.root = NoKey THEN <<>> ELSE @] IN
                                         IF "tabs lag" \in v THEN y
                                         ELSE IF IsPath(a.t) /\ IsPath(z.d) /\ Parse(a.t) = Parse(z.d) THEN [z EXCEPT !.d = a.t] ELSE Tabs(v, y)
Shown(v, z) == IF z.sel < 0 \/ z.sel >= Len(z.tabs) THEN <<>> ELSE LET x == z.tabs[IF "first details" \in v THEN 1 ELSE z.sel + 1] IN <<x.p>> \o TFacts(x.k)
Observe(v, z, a) == a @@ [o |-> "ok", f |-> [x \in FieldNames |-> z[x]], tabs |-> [x \in DOMAIN z.tabs |-> z.tabs[x].p], details |-> Shown(v, z), words |-> z.words]

VARIABLES prog, flaws, class
Init == /\ prog = [m |-> <<>>, p |-> <<>>, s |-> <<>>, r |-> <<>>, d |-> <<>>, root |-> NoKey, tabs |-> <<>>, sel |-> 0, words |-> 12]
        /\ flaws \in {{}, Flaws} /\ class = "ok" /\ UInit(12) /\ WInit
Next == \E a \in Acts : LET z == Next1(flaws, prog, a) e == Observe(flaws, z, a) c == Class(e) IN
            prog' = z /\ class' = c /\ UStep(e, c) /\ UNCHANGED <<flaws, wallet>>
Spec == Init /\ [][Next]_<<prog, flaws, class, ui, wallet>>
Bounded == TLCGet("level") < atoi(IOEnv.LEVEL)
\* the class of the last observation plays no part in what follows
View == <<prog, flaws, ui, class>>

Accepted == (flaws = {} => class = "ok") /\ class # "other"
\* which text stands where there is no root key does not matter
Same(e, g) == [e EXCEPT !.f.r = <<>>] = [g EXCEPT !.f.r = <<>>] /\ (e.f.r = g.f.r \/ (TKeyIn(e.f.r) = Fail /\ TKeyIn(g.f.r) = Fail))
\* whatever a mistaken handler shows that the right one would not, is not accepted
Sharp == flaws = {} => \A a \in Acts : LET g == Observe({}, Next1({}, prog, a), a) IN
            \* (without a mnemonic a passphrase may be ignored; a change may select any tab)
            \A v \in Mistakes : ((v = "passphrase ignored" => prog.m # <<>>) /\ (v = "first details" => ~Changing(g))) => LET e == Observe({v}, Next1({v}, prog, a), a) IN ~Same(e, g) => Class(e) # "ok"
\* the flaws are told apart, and only they are
Told == \A a \in Acts, v \in Flaws : (flaws = {} /\ class = "ok") =>
            LET e == Observe({v}, Next1({v}, prog, a), a) g == Observe({}, Next1({}, prog, a), a) IN e # g => Class(e) = (IF v = "keeps tabs" THEN "stale" ELSE "unselected")
=============================================================================
