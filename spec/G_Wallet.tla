------------------------------ MODULE G_Wallet ------------------------------
(***************************************************************************)
(* Plans for generators and ranges.                                        *)
(***************************************************************************)
EXTENDS KeyPool, PathPool

GSet(g, k) == [op |-> "gset", g |-> g, src |-> k]
GRoot(g) == [op |-> "groot", g |-> g]
GDer(g, s) == [op |-> "gderive", g |-> g, t |-> Hex(s)]
GDerTo(g, s, n) == [op |-> "gderive", g |-> g, t |-> Hex(s), dst |-> n]
RSet(r, k, s, i, j) == [op |-> "rset", r |-> r, src |-> k, t |-> Hex(s), i |-> Hex(i), j |-> Hex(j)]
RGen(r) == [op |-> "rgen", r |-> r]
PokeAt(n, off, x) == [op |-> "poke", dst |-> n, off |-> off, x |-> x]

\* a path text, sometimes not quite
AnyPath(L) == LET n == RndInt(L \o "n", 7) s == RPath(L, n, RndInt(L \o "h", n + 2)) k == RndInt(L \o "k", 12) IN
    CASE k = 0 -> Mutate(L \o "m", s)
      [] k = 1 -> FoldLeft(LAMBDA a, c : IF c = 47 THEN a \o <<32, 47, 9>> ELSE Append(a, c), <<>>, s)
      [] k = 2 -> <<77>> \o Tail(s)
      [] k = 3 -> FoldLeft(LAMBDA a, c : IF c = 47 THEN a \o <<47, 48, 48>> ELSE Append(a, c), <<>>, s)
      [] k = 4 -> <<109>>
      [] OTHER -> s
Fixed == <<"m", "M", "m/0", "m/0'", "m/44'/0'/0'/0/0", "m/44'/0'/0'", "m/44'/0'/0'/0", "m/44'/0'/0'/0/1", "m/49'/0'/0'/0/0", "m/0/0", "m/0'/0'", "m/2147483647'/2147483647", "m/1/2/3/4/5/6/7/8/9",
           "m/2147483648", "m/0/2147483648/4294967295", "m/0'/2147483649/1", "m/00/01", "m/007'/00", "m/", "", "m//", "0/0", "m/0/0'", "m/x", "m/4294967296", "m/2147483648'", "m/-1">>

\* bad roots, good ones before and after
BadRoots ==
    [j \in 1..28 |-> LET b == BadRoot("c10r" \o S(j), j % 14) IN
          <<GDer("g0", Cs("m/0")), GRoot("g0"), Load("k0", RRoot("c10g" \o S(j))), GSet("g0", "k0"), GDer("g0", Cs("m/0'/1")), Load("k1", b), GSet("g0", "k1"), GRoot("g0"),
            GDer("g0", Cs("m")), GDer("g0", Cs("m/0'/1")), GDer("g0", Cs("m/0/1")), GDer("g0", Cs("m/0/x")), GDer("g0", Cs("x")), GRoot("g0"), GSet("g0", "k0"), GDer("g0", Cs("m/0'/1")), GDer("g0", Cs("m/0'"))>>]
C10Sys ==
    \* every fixed path below several roots, twice, then below another root
    [j \in 1..(4 + Size) |-> <<Load("k0", RRoot("c10a" \o S(j))), Load("k1", RRoot("c10b" \o S(j))), GSet("g0", "k0"), GSet("g1", "k1")>>
        \o Cat([m \in DOMAIN Fixed |-> <<GDerTo("g0", Cs(Fixed[m]), "l0"), GDer("g1", Cs(Fixed[m])), PokeAt("l0", 30 * m + j, 1 + ((m * j) % 255)), GDer("g0", Cs(Fixed[m]))>>])
        \o <<GRoot("g0"), GSet("g0", "k1"), GDer("g0", Cs(Fixed[5])), GDer("g1", Cs(Fixed[5])), GSet("g1", "k0"), GDer("g1", Cs(Fixed[5])), GRoot("g1"), GRoot("g0")>>]
    \* every version
    \o [j \in DOMAIN Prvs |-> <<Load("k0", RootAs("c10v" \o S(j), Prvs[j])), GSet("g0", "k0"), GDer("g0", AnyPath("c10vp" \o S(j))), GDer("g0", Cs("m/1'/1")), GRoot("g0")>>]
    \* the accounts people use: purposes, coins, every version
    \o [j \in DOMAIN Prvs |-> <<Load("k0", RootAs("c10u" \o S(j), Prvs[j])), GSet("g0", "k0")>>
          \o Cat([m \in DOMAIN PurposeSteps |-> [c \in 1..2 |-> GDer("g0", Account(PurposeSteps[m], CoinSteps[((2 * m + c + j + Seed) % Len(CoinSteps)) + 1], "/0'/0/0"))]])
          \o [m \in DOMAIN CoinSteps |-> GDer("g0", Account(PurposeSteps[((j + m) % 4) + 1], CoinSteps[m], LeafSteps[((m + Seed) % Len(LeafSteps)) + 1]))]]
    \* special scalars
    \o [j \in DOMAIN Scalars |-> <<Load("k0", Key(RDefaultPrv, 0, Zeros(4), Zeros(4), Codes[1 + (j % Len(Codes))], Prv(Scalars[j]))), GSet("g0", "k0"), GDer("g0", Cs("m/1'/1/2")), GDer("g0", Cs("m/0/2147483647"))>>]
    \o BadRoots
    \* roots that differ in one component, the same path again and again
    \o [j \in 1..(5 + Size) |-> LET b == TwinBase("c10t" \o S(j), TRUE, FALSE) X == Twins(b) s == Cs(Fixed[3 + (j % 9)]) IN
            <<Load("k0", b), GSet("g0", "k0"), GDer("g0", s)>>
            \o Cat([m \in DOMAIN X |-> <<Load("k1", X[m]), GSet("g0", "k1"), GDer("g0", s), GSet("g1", "k0"), GDer("g1", s)>> \o (IF m % 3 = 0 THEN <<GSet("g0", "k0"), GDer("g0", s)>> ELSE <<>>)])]
    \* paths whose texts are nearly the same
    \o [j \in 1..(2 + Size) |-> <<Load("k0", RRoot("c10k" \o S(j))), GSet("g0", "k0")>>
          \o [m \in 1..18 |-> GDer("g0", Cs(<<"m/1/23", "m/12/3", "m/123", "m/1/2/3", "m/1'/23", "m/12'/3", "m/1'/2'/3", "m/1'/2/3", "m/123'", "m/0/0", "m/00/0", "m/0", "m", "M/1/23", "m/2147483649/23", "m/1/2147483671", "m/1'/2'/3'", "m/1/2"
                >>[((m * (2 * j + 1)) % 18) + 1]))]]
    \* lengths around the greatest depth
    \o [j \in 1..8 |-> LET n == <<128, 200, 253, 254, 255, 256, 257, 300>>[j] s == RPath("c10n" \o S(j), n, n \div 3) IN
          <<Load("k0", RRoot("c10d" \o S(j))), GSet("g0", "k0"), GDer("g0", s), GRoot("g0"), GDer("g0", Cs("m/1"))>>]
    \* random paths
    \o [j \in 1..(20 * Size) |-> <<Load("k0", RRoot("c10x" \o S(j))), GSet("g0", "k0")>> \o Cat([m \in 1..10 |-> LET s == AnyPath("c10y" \o S(j) \o "x" \o S(m)) IN <<GDer("g0", s)>> \o (IF m % 3 = 0 THEN <<GDer("g0", s), GRoot("g0")>> ELSE <<>>)])]

\* ranges: starts and lengths; the end may wrap
Starts == <<<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,250>>, <<0,1,0,0>>, <<127,255,255,240>>, <<127,255,255,254>>, <<127,255,255,255>>, <<128,0,0,0>>, <<128,0,0,1>>, <<255,255,255,240>>, <<255,255,255,253>>, <<255,255,255,254>>, <<255,255,255,255>>>>
Counts == <<0, 1, 2, 3, 10, 16, 20>>
EndOf(i, n) == Tail(Plus(i, U32(n)))
RBase(L) == LET k == RndInt(L \o "b", 10) b == RKey(L, TRUE) q == AsPub(b) IN
    CASE k \in 0..3 -> b [] k \in 4..6 -> q
      [] k = 7 -> Unregistered(b) [] k = 8 -> BadRoot(L, RndInt(L \o "bad", 14)) [] k = 9 -> Master0(Pick(L \o "s", Scalars))
Low(b) == [b EXCEPT ![5] = 1 + (@ % 3)]
AnyRange(L, r, k) == LET i == IF RndInt(L \o "w", 3) = 0 THEN Pick(L \o "nn", Nums) ELSE Pick(L \o "st", Starts) n == Pick(L \o "c", Counts) w == RndInt(L \o "e", 8) IN
    RSet(r, k, AnyPath(L \o "p"), i, IF w = 0 THEN Pick(L \o "je", <<<<0,0,0,0>>, i, Tail(Plus(Minus(i, <<0,0,0,1>>), <<0,0,0,0>>)), <<0,0,0,5>>>>) ELSE EndOf(i, n))
C11Sys ==
    \* all starts and counts, privately and publicly, at shallow depth
    Cat([j \in DOMAIN Starts |-> [m \in 1..2 |-> <<Load("k0", LET b == Low(RKey("c11a" \o S(j), TRUE)) IN IF m = 1 THEN b ELSE AsPub(b))>>
        \o Cat([c \in DOMAIN Counts |-> <<RSet("r0", "k0", Cs("m/0"), Starts[j], EndOf(Starts[j], Counts[c])), RGen("r0"),
              RSet("r0", "k0", Cs("m/44'/0'"), EndOf(Starts[j], Counts[c]), Starts[j]), RGen("r0")>>])]])
    \* base paths
    \o [j \in 1..4 |-> <<Load("k0", RKey("c11p" \o S(j), j % 2 = 0))>>
        \o Cat([m \in DOMAIN Fixed |-> <<RSet("r0", "k0", Cs(Fixed[m]), U32(m * j), U32(m * j + 2)), RGen("r0"), RGen("r0")>>])]
    \* the accounts people use
    \o [j \in DOMAIN Prvs |-> LET b == [RKey("c11u" \o S(j), TRUE) EXCEPT ![5] = 0] q == [x \in 1..78 |-> IF x \in 6..13 THEN 0 ELSE IF x \in 1..4 THEN Prvs[j][x] ELSE b[x]] IN
            <<Load("k0", IF j % 3 = 2 THEN AsPub(q) ELSE q)>> \o Cat([m \in 1..6 |-> LET c == CoinSteps[((3 * m + j + Seed) % Len(CoinSteps)) + 1] z == U32(<<0, 0, 1, 5, 19, 2>>[m]) IN
                  <<RSet("r0", "k0", Account(PurposeSteps[((j + m) % 5) + 1], c, LeafSteps[((2 * m + j) % Len(LeafSteps)) + 1]), z, Tail(Plus(z, U32(<<1, 2, 5, 3, 2, 20>>[m])))), RGen("r0")>>])]
    \* bases that differ in one component, paths and intervals that differ in little
    \o [j \in 1..(5 + Size) |-> LET b == TwinBase("c11t" \o S(j), j % 2 = 0, TRUE) X == Twins(b) i == U32(5) e == U32(8) IN
            <<Load("k0", b), RSet("r0", "k0", Cs("m/0"), i, e), RGen("r0")>>
            \o Cat([m \in DOMAIN X |-> <<Load("k1", X[m]), RSet("r0", "k1", Cs("m/0"), i, e), RGen("r0"), RSet("r1", "k0", Cs("m/0"), i, e), RGen("r1")>>])
            \o Cat([m \in 1..8 |-> <<RSet("r0", "k0", Cs(<<"m/1", "m/0", "M/0", "m/00", "m", "m/0/0", "m/0'", "m/ 0">>[m]), IF m % 3 = 0 THEN U32(4) ELSE i, IF m % 4 = 0 THEN U32(7) ELSE e), RGen("r0")>>])]
    \* near the greatest depth
    \o Cat([d \in 1..12 |-> [m \in 1..2 |-> LET b == [RKey("c11d" \o S(d), TRUE) EXCEPT ![5] = <<255, 254, 253, 252, 250, 240, 200, 128, 127, 245, 251, 1>>[d], ![6] = 1] IN
        <<Load("k0", IF m = 1 THEN b ELSE AsPub(b))>> \o Cat([c \in 1..6 |-> LET n == <<1, 2, 3, 5, 6, 15>>[c] IN
            <<RSet("r0", "k0", Cs("m/5"), U32(7), U32(7 + n)), RGen("r0"), RSet("r0", "k0", Cs("m/5"), <<128,0,0,7>>, <<128,0,0,7 + n>>), RGen("r0")>>])]])
    \* long ranges
    \o [j \in 1..4 |-> LET n == <<254, 255, 256, 300>>[j] IN
          <<Load("k0", Master0(Scalars[3 + j])), RSet("r0", "k0", Cs("m"), U32(3), U32(3 + n)), RGen("r0"), RGen("r0"),
            Load("k0", AsPub(Master0(Scalars[4 + j]))), RSet("r1", "k0", Cs("M / 0"), U32(3), U32(3 + n)), RGen("r1"), RGen("r1"), RSet("r1", "k0", Cs("m"), <<127,255,255,250>>, <<128,0,0,10>>), RGen("r1")>>]
    \* failing calls keep the entries; entries are the caller's
    \o [j \in 1..28 |-> <<Load("k0", Low(RKey("c11g" \o S(j), TRUE))), Load("k1", BadRoot("c11r" \o S(j), j % 14)), RSet("r0", "k0", Cs("m/1"), U32(5), U32(9)), RGen("r0"),
          RSet("r0", "k1", Cs("m/1"), U32(5), U32(9)), RGen("r0"), RSet("r0", "k0", Cs("m/x"), U32(5), U32(9)), RGen("r0"), RSet("r0", "k0", Cs("m"), U32(5), U32(5)), RGen("r0"),
          RSet("r0", "k0", Cs("m"), U32(6), U32(5)), RGen("r0"), PokeAt("r0", j, 1), RSet("r0", "k1", Cs("m"), U32(5), U32(6)), RGen("r0"), RSet("r0", "k0", Cs("m"), U32(5), U32(8)), RGen("r0"),
          RSet("r1", "k0", Cs("m"), U32(5), U32(8)), RGen("r1"), PokeAt("r0", 3 * j, 7), RGen("r1"), RGen("r0")>>]
    \o [j \in 1..(25 * Size) |-> <<Load("k0", RBase("c11b" \o S(j))), Load("k1", RBase("c11c" \o S(j)))>>
          \o Cat([m \in 1..6 |-> LET L == "c11x" \o S(j) \o "x" \o S(m) r == "r" \o S(m % 2) IN <<AnyRange(L, r, IF m % 3 = 0 THEN "k1" ELSE "k0"), RGen(r)>> \o (IF m % 2 = 0 THEN <<RGen(r)>> ELSE <<>>)])]

\* C07: paths and ranges with undefined steps
C07Sys == C10Sys \o C11Sys
Third(P) == SelectSeq([j \in DOMAIN P |-> IF Size >= 10 \/ (j + Seed) % 3 = 0 THEN P[j] ELSE <<>>], LAMBDA x : x # <<>>)
ASSUME EmitAll(2000000, CASE Prop = "C10" -> C10Sys [] Prop = "C11" -> C11Sys [] Prop = "C07" -> C07Sys [] Prop = "C25" -> Third(C07Sys) \o BadRoots \o Third(C11Sys))

\* ------------------------------------------------------------------ simulated behaviours: one user, several objects
VARIABLES hist, run, done
Lab == "w" \o S(run) \o "s" \o S(Len(hist))
Gs == {"g0", "g1"}
Rs == {"r0", "r1"}
Ks == {"k0", "k1", "k2", "k3"}
Do(c) == hist' = Append(hist, c) /\ UNCHANGED <<run, done>>
ULoad == \E k \in One(Ks), x \in One(1..6) : Do(Load(k, IF x = 1 THEN BadRoot(Lab, RndInt(Lab \o "bad", 14)) ELSE IF x = 2 THEN RBase(Lab) ELSE RRoot(Lab)))
UChild == \E k \in One(Ks), q \in One(Ks), i \in One(0..2), h \in One({TRUE, FALSE}) : Do(Child(k, q, IF h THEN SetH(U32(i)) ELSE U32(i)))
UNeut == \E k \in One(Ks), q \in One(Ks) : Do(Neut(k, q))
UGSet == \E g \in One(Gs), k \in One(Ks) : Do(GSet(g, k))
UGRoot == \E g \in One(Gs) : Do(GRoot(g))
UDer == \E g \in One(Gs), x \in One(1..4), m \in One(1..12) : Do(GDerTo(g, IF x = 1 THEN AnyPath(Lab) ELSE Cs(Fixed[m]), "l0"))
UPoke == \E n \in One({"l0", "r0", "k0"}), x \in One(1..255) : Do(PokeAt(n, IF n = "k0" THEN 13 + (x % 30) ELSE x, x))
URSet == \E r \in One(Rs), k \in One(Ks) : Do(AnyRange(Lab, r, k))
URGen == \E r \in One(Rs) : Do(RGen(r))
UAgain == hist # <<>> /\ \E c \in One(DOMAIN hist) : Do(hist[c])
GInit == hist = <<>> /\ run = 0 /\ done = FALSE
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<hist, done>>
         ELSE IF Len(hist) < Depth
         THEN IF Len(hist) < 2 THEN ULoad
              ELSE \/ ULoad \/ UChild \/ UNeut \/ UPoke \/ UAgain
                   \/ (Prop # "C11" /\ (UGSet \/ UGRoot \/ UDer)) \/ (Prop # "C11" /\ UDer) \/ (Prop # "C10" /\ (URSet \/ URGen)) \/ (Prop # "C10" /\ URGen)
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(3000000 + run, hist))
=============================================================================
