------------------------------- MODULE G_Pure -------------------------------
(***************************************************************************)
(* Plans for purity: every operation is called, called again, called after *)
(* its result was overwritten and after its argument was changed and       *)
(* changed back; byte arguments lie inside larger buffers; simulated       *)
(* behaviours mix all operations and all overwriting.                      *)
(***************************************************************************)
EXTENDS CallPool

\* ------------------------------------------------------------------ one operation at a time
\* c: a call, d: its result ("" if it makes no object), a: its argument ("" if that is no object), o: offset of a byte of the argument that may change
Alt(d, n) == IF d = "" THEN "" ELSE <<"k", "b", "l", "v">>[IF d = "k" THEN 1 ELSE IF d = "b" THEN 2 ELSE IF d = "l" THEN 3 ELSE 4] \o S(n)
Study(c, d, a, o, L) ==
    LET x == 1 + RndInt(L \o "x", 255) y == RndInt(L \o "y", 400)
        hit(n) == IF d = "" THEN <<>> ELSE <<Poke(Alt(d, n), y + n, x)>>
        turn == IF a = "" THEN <<>> ELSE <<Poke(a, o, x)>>
    IN  <<To(c, Alt(d, 4)), To(c, Alt(d, 5))>> \o hit(4) \o <<To(c, Alt(d, 6))>> \o hit(5) \o hit(6) \o turn \o <<To(c, Alt(d, 7))>> \o turn \o <<To(c, Alt(d, 4))>> \o hit(4) \o hit(7) \o <<To(c, Alt(d, 4))>>

OffOf(L) == 13 + RndInt(L, 32)                \* a byte of a chain code
KeyPlan == [j \in 1..(10 + 6 * Size) |-> LET b == IF j <= 4 THEN PrvParents[3 * j] ELSE IF j = 5 THEN Zeros(78) ELSE RKey("pk" \o S(j), j % 2 = 0) X == KeyCalls(SoftNums[((7 * j) % Len(SoftNums)) + 1]) IN
    <<Load("k0", IF j % 7 = 0 THEN Unregistered(b) ELSE b)>> \o Cat([m \in DOMAIN X |-> Study(X[m][1], X[m][2], "k0", OffOf("o" \o S(j) \o S(m)), "ks" \o S(j) \o "x" \o S(m))])]
\* keys that are none
IllPlan == [j \in 1..26 |-> LET X == KeyCalls(SoftNums[((5 * j) % Len(SoftNums)) + 1]) L == "il" \o S(j) IN
    <<Load("k0", IllFormed(L, j - 1)), Load("k2", IllFormed(L, j - 1))>>
    \o Cat([m \in DOMAIN X |-> LET i == ((m + j + Seed) % Len(X)) + 1 IN <<To(X[i][1], Alt(X[i][2], 4)), To(X[m][1], Alt(X[m][2], 5)), To(X[i][1], Alt(X[i][2], 6))>>])
    \o <<GSet("g0", "k0"), GRoot("g0"), GDer("g0", Cs("m/0")), GRoot("g0"), GDer("g0", Cs("m")), Get("fields", "k0"), RSet("r0", "k0", Cs("m/0"), U32(0), U32(2)), RGen("r0"), Get("fields", "k0"), RGen("r0"),
          GSet("g1", "k2"), GDer("g1", Cs("m/0")), GRoot("g1"), RSet("r0", "k2", Cs("m/0"), U32(0), U32(2)), RGen("r0"), Get("valid", "k2"), Get("fields", "k2")>>]
\* a buffer b0 and everything that reads one
Buf(b, pre, post) == [op |-> "buf", dst |-> "b0", b |-> Hex(b), pre |-> pre, post |-> post]
BytePlan == Cat([j \in DOMAIN Contents("x") |-> [k \in 1..(2 + Size) |->
    LET L == "b" \o S(j) \o "x" \o S(k) c == Contents(L)[j] post == Pick(L \o "p", Posts) pre == RndInt(L \o "e", 3) IN
    <<Buf(c, pre, post)>> \o Cat([m \in DOMAIN ByteCalls |-> LET X == ByteCalls[m] IN Study([op |-> X[1], src |-> "b0"], X[2], IF c = <<>> THEN "" ELSE "b0", pre + RndInt(L \o S(m), Len(c) + 1), L \o S(m))])
    \o (IF j \in {1, 2} THEN <<>> ELSE <<>>)]])
\* fresh buffers of all shapes
FreshPlan == [j \in 1..Len(Posts) |-> Cat([m \in DOMAIN Contents("y") |-> LET c == Contents("y" \o S(j))[m] IN Cat([x \in DOMAIN ByteCalls |-> <<To([op |-> ByteCalls[x][1], b |-> Hex(c), pre |-> j % 3, post |-> Posts[j]], Alt(ByteCalls[x][2], 4))>>])])]
ExpandPlan == [j \in 1..4 |-> Cat([m \in 1..8 |-> LET p == BaseMul(Pick("ex" \o S(j) \o S(m), Scalars)) e(post, s) == [op |-> "expand", b |-> Hex(p), pre |-> m % 2, post |-> post, spoil |-> s] IN <<e(0, TRUE), e(5, TRUE), e(0, FALSE)>>])
                 \o <<Load("k0", Master0(Scalars[j])), Neut("k0", "k1"), Get("valid", "k1"), Child("k1", "k2", <<0, 0, 0, j>>)>>]
\* texts
TextPlan == [j \in 1..(6 * Size) |-> Cat([m \in DOMAIN TextCalls("") |-> LET L == "t" \o S(j) X == TextCalls(L)[m] IN Study(X[1], X[2], "", 0, L \o S(m))])]
\* generators and ranges
WalletPlan == [j \in 1..(10 * Size) |-> LET L == "w" \o S(j) s == GPath(L) u == GPath(L \o "u") IN
    <<Load("k0", Master0(Pick(L, Scalars))), GSet("g0", "k0"), Poke("k0", 13 + (j % 30), 1), GRoot("g0"), GDer("g0", s), Poke("k0", 13 + (j % 30), 1)>> \o Study(GDer("g0", s), "l", "", 0, L) \o <<GSet("g1", "k0"), GDer("g1", s), GDer("g1", u), GDer("g0", u), GRoot("g0")>>
    \o (LET i == Pick(L \o "i", SoftNums) e == Tail(Plus(i, U32(1 + (j % 5)))) IN
        <<Load("k1", RKey(L, j % 2 = 0)), RSet("r0", "k1", s, i, e), RGen("r0"), Take("r0", "l0"), RGen("r0"), Take("r0", "l1"), Poke("l0", 77 + j, 3), RGen("r0"), Poke("r0", j, 9), Poke("l1", 5 + j, 1), RGen("r0"), Poke("k1", 20, 1), RGen("r0"),
          RSet("r0", "k1", s, i, e), RGen("r0"), Poke("k1", 20, 1), RSet("r1", "k1", s, i, e), RGen("r1"), RSet("r0", "k1", s, i, Tail(Plus(e, U32(2)))), RGen("r0"), RSet("r0", "k1", s, i, i), RGen("r0"), Take("r1", "l2"), RGen("r1"),
          RSet("r0", "k1", Cs("x"), i, e), RGen("r0"), RSet("r0", "k1", s, i, e), RGen("r0")>>)]
\* ranges of every size, base paths that are not in canonical form
LongPlan == [j \in 1..3 |-> LET s == Cs(<<"m / 0", "M/00'", " m/44'/0' ">>[j]) IN
    <<Load("k1", Master0(Scalars[j])), RSet("r0", "k1", s, U32(j), U32(j + <<40, 70, 130>>[j])), RGen("r0"), RGen("r0"), Take("r0", "l0"), Poke("l0", 9, 1), RGen("r0"), GSet("g0", "k1"), GDer("g0", s), GDer("g0", s), RSet("r0", "k1", s, U32(j), U32(j + 2)), RGen("r0")>>]
\* word lists given by the caller, and mnemonics under them
WlTo(n, m, rot, d) == [op |-> "wl", name |-> n, name2 |-> m, each |-> IF m = "" THEN 0 ELSE 3, rot |-> rot, rev |-> FALSE, dst |-> d]
Widx(w) == [op |-> "widx", t |-> Hex(w)]
ListPlan == [j \in 1..(3 * Size) |-> LET L == "wl" \o S(j) s == Sentence(L) IN
    <<[op |-> "dec", t |-> Hex(s)], WlTo("english", "", j, "w0"), [op |-> "enc", b |-> Rnd(L, 16), pre |-> 0, post |-> 4], [op |-> "dec", t |-> Hex(s)], Widx(Eng[j]), WlTo("czech", "made", 0, "w1"), [op |-> "enc", b |-> Rnd(L, 16), pre |-> 0, post |-> 4],
      [op |-> "mvalid", t |-> Hex(s)], WlTo("english", "", 0, "w2"), [op |-> "dec", t |-> Hex(s)], [op |-> "enc", b |-> Rnd(L, 16), pre |-> 1, post |-> 0], [op |-> "wget"], Widx(Eng[7]), WlTo("english", "", j, "w0"), [op |-> "enc", b |-> Rnd(L, 16), pre |-> 0, post |-> 0]>>]

\* lists of all languages, used at every size
Tongues == <<"english", "japanese", "korean", "spanish", "chinese_simplified", "chinese_traditional", "french", "italian", "czech", "portuguese", "made">>
TonguePlan == [j \in DOMAIN Tongues |-> <<WlTo(Tongues[j], "", IF j % 2 = 0 THEN 0 ELSE Seed % 7, "w0")>> \o Cat([m \in 1..5 |-> LET L == "to" \o S(j) \o "x" \o S(m) IN
    <<[op |-> "enc", b |-> Rnd(L, 12 + 4 * m), pre |-> m % 2, post |-> 4 * (m % 3), tdst |-> "t0"]>>
    \o [k \in 1..(6 + (m % 2)) |-> [op |-> <<"dec", "mvalid", "arr", "seedchk", "dec", "seedhex", "dec">>[k], tn |-> "t0"] @@ (IF k \in {4, 6} THEN [u |-> ""] ELSE IF k = 3 THEN [raw |-> m % 4] ELSE <<>>)]])
    \o <<Widx(Cs("x")), [op |-> "wget"]>>]

\* random secrets: each stands alone
Fresh(d, n) == IF n = 0 THEN [op |-> "newseed", dst |-> d] ELSE [op |-> "entropy", n |-> n, dst |-> d]
SecretPlan == [j \in 1..(4 + Size) |-> LET L == "rnd" \o S(j) n == Pick(L, <<0, 128, 160, 192, 224, 256>>) m == Pick(L \o "m", <<0, 128, 160, 192, 224, 256>>) IN
    <<Fresh("b0", n), Fresh("b1", n), Fresh("b2", m), Poke("b1", RndInt(L, 400), 1), Fresh("b3", n), Poke("b0", RndInt(L \o "p", 400), 255), [op |-> IF n = 0 THEN "master" ELSE "enc", src |-> "b0"],
      [op |-> "genmn", n |-> 12], Fresh("b1", n), Fresh("b0", m), Poke("b2", RndInt(L \o "q", 400), 7), [op |-> IF m = 0 THEN "master" ELSE "enc", src |-> "b2"], [op |-> "genmn", n |-> 24], Fresh("b2", m), Poke("b3", RndInt(L \o "r", 400), 7), Fresh("b4", m)>>]

ASSUME EmitAll(0, KeyPlan \o IllPlan \o Pieces(Cat(BytePlan), 200) \o FreshPlan \o ExpandPlan \o TextPlan \o WalletPlan \o LongPlan \o ListPlan \o TonguePlan \o SecretPlan)

\* ------------------------------------------------------------------ mixtures
VARIABLES keys, bufs, sets, hist, run, done
gvars == <<keys, bufs, sets, hist, run, done>>
Lab == "run" \o S(run) \o "step" \o S(Len(hist))
KN == {"k0", "k1", "k2", "k3"}
BN == {"b0", "b1", "b2"}
Do(op, k, b) == hist' = Append(hist, op) /\ keys' = keys \cup k /\ bufs' = bufs \cup b /\ UNCHANGED <<run, done, sets>>
GInit == keys = {} /\ bufs = {} /\ sets = FALSE /\ hist = <<>> /\ run = 0 /\ done = FALSE
GLoad == \E d \in One(KN), p \in One(BOOLEAN), x \in One(1..5) : Do(Load(d, IF x = 1 THEN IllFormed(Lab, RndInt(Lab \o "ill", 26)) ELSE RKey(Lab, p)), {d}, {})
GBuf == \E d \in One(BN), j \in One(1..11), q \in One(DOMAIN Posts), e \in One(0..2) : Do([op |-> "buf", dst |-> d, b |-> Hex(Contents(Lab)[j]), pre |-> e, post |-> Posts[q]], {}, {d})
GKey == keys # {} /\ \E s \in One(keys), d \in One(KN), b \in One(BN), m \in One(1..14), i \in One(DOMAIN SoftNums) : LET X == KeyCalls(SoftNums[i])[m] IN
            Do([src |-> s] @@ To(X[1], IF X[2] = "k" THEN d ELSE IF X[2] = "b" THEN b ELSE ""), IF X[2] = "k" THEN {d} ELSE {}, IF X[2] = "b" THEN {b} ELSE {})
GByte == bufs # {} /\ \E s \in One(bufs), d \in One(KN), b \in One(BN), m \in One(1..6) : LET X == ByteCalls[m] IN
            Do(To([op |-> X[1], src |-> s], IF X[2] = "k" THEN d ELSE IF X[2] = "b" THEN b ELSE ""), {}, {})
TextTable == [z \in 1..9 |-> TextCalls("gt" \o S(z))]
GText == \E m \in One(1..16), d \in One(KN), b \in One(BN), z \in One(1..3) : LET X == TextTable[3 * (run % 3) + z][m] IN
            Do(To(X[1], CASE X[2] = "k" -> d [] X[2] = "b" -> b [] X[2] = "v" -> "v0" [] OTHER -> ""), IF X[2] = "k" THEN {d} ELSE {}, IF X[2] = "b" THEN {b} ELSE {})
GPokeK == keys # {} /\ \E s \in One(keys), off \in One(0..77), x \in One(1..255) : Do(Poke(s, off, x), {}, {})
GPokeB == bufs # {} /\ \E s \in One(bufs), off \in One(0..300), x \in One(1..255) : Do(Poke(s, off, x), {}, {})
GPokeO == \E s \in One({"l0", "l1", "r0", "r1", "v0"}), off \in One(0..500), x \in One(1..255) : Do(Poke(s, off, x), {}, {})
GGen == keys # {} /\ \E s \in One(keys), g \in One({"g0", "g1"}), m \in One(1..4), z \in One(1..3) :
            Do(CASE m = 1 -> GSet(g, s) [] m = 2 -> GRoot(g) [] OTHER -> To(GDer(g, GPath("gp" \o S(run) \o S(z))), IF m = 3 THEN "l0" ELSE "l1"), {}, {})
GRange == keys # {} /\ \E s \in One(keys), r \in One({"r0", "r1"}), m \in One(1..5), i \in One(DOMAIN SoftNums), z \in One(1..3) :
            Do(CASE m = 1 -> RSet(r, s, GPath("gp" \o S(run) \o S(z)), SoftNums[i], Tail(Plus(SoftNums[i], U32(z)))) [] m = 2 -> Take(r, "l0") [] m = 3 -> Take(r, "l1") [] OTHER -> RGen(r), {}, {})
GFresh == \E b \in One(BN), n \in One({0, 128, 160, 192, 224, 256}) : Do(Fresh(b, n), {}, {b})
GAgain == hist # <<>> /\ \E c \in One(DOMAIN hist) : Do(hist[c], {}, {})
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<keys, bufs, sets, hist, done>>
         ELSE IF Len(hist) < Depth
         THEN IF keys = {} THEN GLoad ELSE IF bufs = {} THEN GBuf
              ELSE \E a \in One(1..21) :
                    CASE a = 1 -> GLoad [] a = 2 -> GBuf [] a \in 3..6 -> GKey [] a \in {7, 8, 9} -> GByte [] a \in {10, 11} -> GText [] a \in {12, 13} -> GPokeK
                      [] a = 14 -> GPokeB [] a = 15 -> GPokeO [] a = 16 -> GGen [] a \in {17, 18} -> GRange [] a = 21 -> GFresh [] OTHER -> GAgain
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<keys, bufs, sets, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
