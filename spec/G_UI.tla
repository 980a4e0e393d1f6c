-------------------------------- MODULE G_UI --------------------------------
(***************************************************************************)
(* Plans for the graphical tool: every order of changing three of its      *)
(* inputs, typing character by character, selecting; simulated behaviours  *)
(* are users who do all of it.                                             *)
(***************************************************************************)
EXTENDS KeyPool, PathPool, RealMnemonics

B39 == INSTANCE Mnemonics WITH WordBits <- 11, Ratio <- 32, Octet <- 8, SpaceC <- 32, EntLens <- MEntLens, SumBits <- MSum, IsSpaceC <- MSpace
Eng == LET h == OfficialHex("english") IN [i \in DOMAIN h |-> Unhex(h[i])]

\* ------------------------------------------------------------------ actions
Edit(i, t) == [op |-> "edit", i |-> i, t |-> Hex(t)]
Act(op) == [op |-> op]
Tab(n) == [op |-> "tab", n |-> n]
Choose(n) == [op |-> "words", n |-> n]
Generate == Act("generate")

\* ------------------------------------------------------------------ texts
GoodM(L) == B39!Encode(Eng, Bits(Unhex(Rnd(L \o "e", Pick(L \o "n", <<16, 16, 20, 24, 28, 32>>)))))
AnyM(L) == LET m == GoodM(L) k == RndInt(L \o "k", 14) IN
    CASE k = 0 -> <<>> [] k = 1 -> SubSeq(m, 1, Len(m) - 1) [] k = 2 -> m \o Cs(" zoo") [] k = 3 -> <<32>> \o m \o <<32, 32>> [] k = 4 -> Cs("xyz")
      [] k = 5 -> LET p == RndInt(L \o "p", Len(m)) + 1 IN [m EXCEPT ![p] = IF @ = 32 THEN 120 ELSE IF @ = 97 THEN 98 ELSE 97]
      [] OTHER -> m
AnyP(L) == LET k == RndInt(L \o "k", 6) IN IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<32>> ELSE Utf8(Rnd(L \o "x", 1 + RndInt(L \o "n", 12)))
Upper(s) == [i \in DOMAIN s |-> IF s[i] >= 97 THEN s[i] - 32 ELSE s[i]]
GoodS(L) == Utf8(Rnd(L \o "x", Pick(L \o "n", <<16, 17, 31, 32, 33, 63, 64, 64, 64>>)))
AnyS(L) == LET s == GoodS(L) k == RndInt(L \o "k", 14) IN
    CASE k = 0 -> <<>> [] k = 1 -> SubSeq(s, 1, Len(s) - 1) [] k = 2 -> Upper(s) [] k = 3 -> SubSeq(s, 1, 30) [] k = 4 -> <<32>> \o s [] k = 5 -> s \o Cs("zz")
      [] OTHER -> s
Text(b) == B58Encode(Wrap(b))
AnyR(L) == LET b == RRoot(L) t == Text(b) k == RndInt(L \o "k", 20) IN
    CASE k = 0 -> <<>> [] k = 1 -> SubSeq(t, 1, Len(t) - 1) [] k = 2 -> t \o Cs("1") [] k = 3 -> Text(AsPub(b)) [] k = 4 -> Text([b EXCEPT ![5] = 1]) [] k = 5 -> Text(RKey(L \o "d", TRUE))
      [] k = 6 -> Text(RKey(L \o "e", FALSE)) [] k = 7 -> Text(SubSeq(b, 1, 46) \o N) [] k = 8 -> LET p == RndInt(L \o "p", Len(t)) + 1 IN [t EXCEPT ![p] = IF @ = 65 THEN 66 ELSE 65]
      [] k = 9 -> Cs("xprv") [] k = 10 -> Text([b EXCEPT ![9] = 1])
      [] OTHER -> t
AnyD(L) == LET n == RndInt(L \o "n", 7) s == RPath(L, n, RndInt(L \o "h", n + 2)) k == RndInt(L \o "k", 14) IN
    CASE k = 0 -> Mutate(L \o "m", s)
      [] k = 1 -> FoldLeft(LAMBDA a, c : IF c = 47 THEN a \o <<32, 47>> ELSE Append(a, c), <<>>, s)
      [] k = 2 -> <<77>> \o Tail(s) [] k = 3 -> <<>> [] k = 4 -> Cs("m") [] k = 5 -> s \o <<47>> [] k = 6 -> Cs("x") [] k = 7 -> s \o Cs("'")
      [] k = 8 -> RPath(L \o "l", 14, 5)
      [] OTHER -> s
\* an action that may change the output: 0..4 edits of the fields, 5 a new mnemonic
Alter(i, L) == CASE i = 0 -> Edit(0, AnyM(L)) [] i = 1 -> Edit(1, AnyP(L)) [] i = 2 -> Edit(2, AnyS(L)) [] i = 3 -> Edit(3, AnyR(L)) [] i = 4 -> Edit(4, AnyD(L)) [] OTHER -> Generate
\* one that certainly is valid
Good(i, L) == CASE i = 0 -> Edit(0, GoodM(L)) [] i = 1 -> Edit(1, Utf8(Rnd(L, 5))) [] i = 2 -> Edit(2, GoodS(L)) [] i = 3 -> Edit(3, Text(RRoot(L))) [] i = 4 -> Edit(4, RPath(L, 1 + RndInt(L, 5), RndInt(L \o "h", 4))) [] OTHER -> Generate
Look(L) == LET k == RndInt(L \o "k", 6) IN CASE k = 0 -> Act("left") [] k = 1 -> Act("right") [] OTHER -> Tab(RndInt(L \o "n", 5))

Typed(i, s, k) == [j \in 1..(Len(s) \div k) |-> Edit(i, SubSeq(s, 1, j * k))] \o <<Edit(i, s)>>
Sys ==
    \* all orders of three changes, valid ones
    [j \in 1..216 |-> LET L == "ua" \o S(j) a == (j - 1) \div 36 b == ((j - 1) \div 6) % 6 c == (j - 1) % 6 IN
        <<Act("open"), Good(a, L \o "a"), Good(b, L \o "b"), Look(L \o "x"), Good(c, L \o "c"), Look(L \o "y"), Act("left")>>]
    \* the same with any texts
    \o [j \in 1..(216 * ((Size + 1) \div 2)) |-> LET L == "ub" \o S(j) a == ((j - 1) \div 36) % 6 b == ((j - 1) \div 6) % 6 c == (j - 1) % 6 IN
        <<Good(4, L \o "z"), Alter(a, L \o "a"), Look(L \o "w"), Alter(b, L \o "b"), Alter(c, L \o "c"), Look(L \o "y"), Look(L \o "v")>>]
    \* numbers of words
    \o [j \in 1..5 |-> <<Edit(4, Cs("m/0'")), Choose(9 + 3 * j), Generate, Edit(1, Cs("p")), Generate, Choose(27 - 3 * j), Act("right"), Generate, Generate, Choose(12), Edit(2, GoodS("uc" \o S(j))), Generate>>]
    \* typing
    \o [j \in 1..2 |-> LET L == "ud" \o S(j) IN Typed(4, RPath(L, 3, 2), 1) \o Typed(0, GoodM(L), 9) \o Typed(1, AnyP(L), 3) \o Typed(2, GoodS(L), 11) \o Typed(3, Text(RRoot(L)), 15) \o <<Act("right")>> \o Typed(4, Cs("m/1'/2"), 1)]
    \* every version
    \o [j \in DOMAIN Prvs |-> <<Edit(3, Text(RootAs("ue" \o S(j), Prvs[j]))), Edit(4, Cs("m/1'/2")), Tab(2), Edit(3, Text(RootAs("uf" \o S(j), Prvs[(j % Len(Prvs)) + 1]))), Tab(1)>>]
    \* fewer and more tabs with the last one selected
    \o [j \in 1..6 |-> LET L == "ug" \o S(j) IN <<Good(5 - (j % 6), L), Edit(2, GoodS(L)), Edit(4, Cs("m/1/2/3/4/5")), Tab(5), Edit(4, Cs("m/1/2")), Act("left"), Edit(4, Cs("m/1/2/3/4")), Act("right"), Act("right"), Act("right"), Act("right"), Edit(4, Cs("m")),
                                         Act("right"), Act("left"), Edit(4, Cs("m/9'/1/1")), Tab(3), Edit(4, Cs("q")), Edit(4, Cs("m/9'/1/1"))>>]

\* ------------------------------------------------------------------ unusual clothes
Slot(x) == Cs("m/") \o Dec(ClearH(Unhex(x))) \o Cs("'")
MapSet(X, f(_)) == LET Q == SetToSeq(X) IN [j \in DOMAIN Q |-> f(Q[j])]
Words(s) == B39!Encode(Eng, Bits(s))
OtherLast(m, w) == LET sp == CHOOSE p \in DOMAIN m : m[p] = 32 /\ \A q \in (p + 1)..Len(m) : m[q] # 32 IN SubSeq(m, 1, sp) \o w
Turned(w, x) == B58Encode([w EXCEPT ![79 + (x % 3)] = IF @ < 128 THEN @ + 128 ELSE @ - 128, ![80 + (x % 3)] = IF @ < 128 THEN @ + 128 ELSE @ - 128])
Hist ==
    \* one root key after another that differs in one component, the path stays
    [j \in 1..4 |-> LET L == "uh" \o S(j) b == TwinBase(L, TRUE, FALSE) X == Twins(b) IN
        <<Edit(4, Cs(<<"m/1'/2", "m/0/0/5", "m/84'/0'/0'/0/0", "m/44'/60'/7">>[j])), Edit(3, Text(b)), Tab(j)>> \o
        Cat([m \in DOMAIN X |-> <<Edit(3, Text(X[m]))>> \o (IF m % 3 = j % 3 THEN <<Edit(3, Text(b)), Tab(m % 4)>> ELSE <<>>)])]
    \* the accounts people use, under every version
    \o [j \in DOMAIN Prvs |-> <<Edit(3, Text(RootAs("ui" \o S(j), Prvs[j])))>> \o
          Cat([m \in 1..6 |-> <<Edit(4, Account(PurposeSteps[((j + m) % 6) + 1], IF m < 4 THEN CoinSteps[1] ELSE CoinSteps[((j * m + Seed) % Len(CoinSteps)) + 1], LeafSteps[((m + j) % Len(LeafSteps)) + 1])), Tab(3)>>])
          \o <<Edit(4, Account("84'", "0'", "/0'/0/1")), Tab(5), Edit(3, Text(RootAs("ui" \o S(j), Prvs[(j % Len(Prvs)) + 1])))>>]
    \* contents that begin or end with zeros: seeds, children, passphrases
    \o <<<<Edit(4, Cs("m/1'/1"))>> \o MapSet(ShortMasters, LAMBDA x : Edit(2, Utf8("000000000000000000000000" \o x))),
         <<Edit(2, Utf8(SpecialSeed))>> \o MapSet(ShortScalarHard \cup ShortOtherHard, LAMBDA x : Edit(4, Slot(x))),
         <<Edit(2, Utf8(SpecialSeed)), Edit(4, Cs("m/0")), Tab(1)>> \o MapSet(ShortScalarSoft \cup ShortOtherSoft \cup ShortXSoft \cup ShortYSoft, LAMBDA x : Edit(4, Cs("m/") \o Dec(Unhex(x)))),
         <<Edit(4, Cs("m/44'/0'/0'/0/1")), Edit(0, Words(Zeros(16)))>> \o MapSet(ShortPass, LAMBDA x : Edit(1, Utf8("p" \o x)))>>
    \* blanks in the path
    \o [j \in 1..3 |-> LET s == Cs(<<"m/44'/0'/1", "m/1/2", "m/7'">>[j]) IN <<Good(2, "uj" \o S(j))>> \o Cat([b \in 1..6 |-> LET p == 1 + ((3 * b + j) % Len(s)) IN
          <<Edit(4, SubSeq(s, 1, p) \o BlankTexts[b] \o SubSeq(s, p + 1, Len(s))), Tab(1), Edit(4, BlankTexts[b] \o s), Edit(4, s \o BlankTexts[b])>>])]
    \* paths as long as they get
    \o [j \in 1..6 |-> LET n == <<64, 128, 254, 255, 256, 257>>[j] IN <<Good(3, "uk" \o S(j)), Edit(4, FoldLeft(LAMBDA a, i : a \o <<47, 48 + (i % 10)>>, <<109>>, Ints(n))), Edit(4, Cs("m/1"))>>]
    \* patterns in mnemonics, wrong checksums of every size
    \o [s \in 1..5 |-> LET n == 12 + 4 * s IN Cat([j \in 1..5 |-> LET m == Words([i \in 1..n |-> <<0, 255, 128, 1, 127>>[j]]) IN
          <<Edit(0, m), Edit(0, OtherLast(m, Eng[1 + RndInt("um" \o S(s) \o "x" \o S(j), 2048)])), Edit(1, Cs("x")), Edit(0, OtherLast(m, Eng[1 + RndInt("un" \o S(s) \o "x" \o S(j), 2048)])), Edit(0, m), Edit(1, <<>>)>>])
          \o <<Edit(0, Cat([i \in 1..(3 * s + 9) |-> Cs("abandon ")])), Edit(0, Cat([i \in 1..(3 * s + 9) |-> Cs("zoo ")])), Edit(0, Cat([i \in 1..(3 * s + 9) |-> Cs("bacon ")]))>>]
    \* a mnemonic written differently
    \o [j \in 1..3 |-> LET m == GoodM("uo" \o S(j)) IN <<Edit(0, m), Edit(0, <<32>> \o m), Edit(0, m \o <<32>>), Edit(0, Cat([i \in DOMAIN m |-> IF m[i] = 32 THEN <<32, 32>> ELSE <<m[i]>>])), Edit(0, [m EXCEPT ![1] = @ - 32]),
          Edit(0, Upper(m)), Edit(0, m), Edit(1, m), Edit(1, <<32>>), Edit(1, <<32, 120>>), Edit(1, <<120, 32>>), Edit(1, Cs("x"))>>]
    \* root keys with damaged checksums, and what they were damaged from
    \o [j \in 1..3 |-> LET w == Wrap(RRoot("up" \o S(j))) IN Cat([x \in 1..3 |-> <<Edit(3, B58Encode(w)), Edit(3, Turned(w, x)), Good(4, "uq" \o S(3 * j + x))>>])]
    \* keys of every depth, number and fingerprint where a root is expected
    \o [j \in 1..13 |-> <<Good(4, "ur" \o S(j)), Good(3, "us" \o S(j)), Edit(3, Text(BadRoot("ut" \o S(j), j))), Good(4, "uv" \o S(j)), Good(3, "uw" \o S(j))>>]
ASSUME EmitAll(1000000, Sys)
ASSUME EmitAll(2000000, Hist)

\* ------------------------------------------------------------------ simulated behaviours
VARIABLES hist, run, done
Lab == "w" \o S(run) \o "s" \o S(Len(hist))
Do(c) == hist' = Append(hist, c) /\ UNCHANGED <<run, done>>
UAlter == \E i \in One(0..5) : Do(Alter(i, Lab))
UGood == \E i \in One(0..5) : Do(Good(i, Lab))
ULook == \E x \in One({1}) : Do(Look(Lab))
UWords == \E n \in One({12, 15, 18, 21, 24}) : Do(Choose(n))
UAgain == hist # <<>> /\ \E c \in One(DOMAIN hist) : Do(hist[c])
GInit == hist = <<>> /\ run = 0 /\ done = FALSE
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<hist, done>>
         ELSE IF Len(hist) < Depth THEN \E k \in One(1..10) : (CASE k \in 1..3 -> UAlter [] k \in 4..5 -> UGood [] k \in 6..7 -> ULook [] k = 8 -> UWords [] OTHER -> IF hist = <<>> THEN UGood ELSE UAgain)
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(3000000 + run, hist))
=============================================================================
