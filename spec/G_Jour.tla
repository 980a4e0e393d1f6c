------------------------------- MODULE G_Jour -------------------------------
(***************************************************************************)
(* Plans for journeys (C26): a wallet is made, restored by every route and *)
(* watched; several wallets side by side that differ in little; simulated  *)
(* behaviours of users with a few registers of each kind.                  *)
(***************************************************************************)
EXTENDS KeyPool, PathPool, WordLists, Patterns

B39 == INSTANCE Mnemonics WITH WordBits <- 11, Ratio <- 32, Octet <- 8, SpaceC <- 32, EntLens <- MEntLens, SumBits <- MSum, IsSpaceC <- MSpace
Eng == LET h == OfficialHex("english") IN [i \in DOMAIN h |-> Unhex(h[i])]

Names == SetToSeq(OfficialNames)
Keyed(n, rot, rev) == [NoList EXCEPT !.name = n, !.rot = rot, !.rev = rev]
Mixed(n, m, each) == [NoList EXCEPT !.name = n, !.name2 = m, !.each = each]
Lists == [k \in DOMAIN Names |-> Plain(Names[k])] \o <<Plain("made"), Keyed("english", 1, FALSE), Keyed("made", 3, TRUE), Mixed("english", "made", 2), Mixed("korean", "english", 2047)>>
Wl(k) == [op |-> "wl"] @@ k
WlCopy(k, d) == [dst |-> d] @@ Wl(k)
WlInto(k, d) == [dst |-> d, into |-> TRUE] @@ Wl(k)      \* by editing the list d in place
Swap(n, i) == [Plain(n) EXCEPT !.sw = i]
Sizes == <<16, 20, 24, 28, 32>>

Buf(d, b) == [op |-> "buf", dst |-> d, b |-> Hex(b), post |-> 0]
Txt(d, s) == [op |-> "text", tdst |-> d, t |-> Hex(s)]
Enc(b, t) == [op |-> "enc", src |-> b, tdst |-> t]
DecM(t, b) == [op |-> "dec", tn |-> t, dst |-> b]
SeedHex(t, u, d) == [op |-> "seedhex", tn |-> t, u |-> Hex(u), tdst |-> d]
SeedB(op, t, u, d) == [op |-> op, tn |-> t, u |-> Hex(u), dst |-> d]
RootT(t, k) == [op |-> "root", tn |-> t, dst |-> k]
MasterB(b, k) == [op |-> "master", src |-> b, dst |-> k]
GSet(g, k) == [op |-> "gset", g |-> g, src |-> k]
GDer(g, s, d) == [op |-> "gderive", g |-> g, t |-> Hex(s), dst |-> d]
PickK(s, n, k) == [op |-> "pick", src |-> s, n |-> n, dst |-> k]
ToText(op, k, t) == [op |-> op, src |-> k, tdst |-> t]
FromText(t, k) == [op |-> "b58deser", tn |-> t, dst |-> k]
Ser(k, b) == [op |-> "ser", src |-> k, dst |-> b]
FromBuf(b, k) == [op |-> "deser", src |-> b, dst |-> k]
RSet(r, k, s, i, j) == [op |-> "rset", r |-> r, src |-> k, t |-> Hex(s), i |-> Hex(i), j |-> Hex(j)]
RGen(r) == [op |-> "rgen", r |-> r]
Ver(k, v, a) == [op |-> "setver", dst |-> k, v |-> Hex(v), arr |-> a]
Addr(k) == <<Get("addrhex", k), [op |-> "addrp2sh", src |-> k, x |-> 5]>>
AddrX(k, x) == <<Get("addrhex", k), [op |-> "addrp2sh", src |-> k, x |-> x]>>

\* passphrases that NFKD leaves alone; Near are nearly the same as another
Phrases == <<<<>>, Cs("TREZOR"), Cs("TREZOR "), Cs("trezor"), Cs("TREZO"), Cs(" TREZOR"), Cs("a"), Cs("A"), Cs("0"), <<0>>, Cs("mnemonic"), Cs("correct horse battery staple"), <<208, 159, 208, 176>>, <<240, 159, 145, 187>>,
             [i \in 1..116 |-> 97], [i \in 1..128 |-> 97], [i \in 1..120 |-> 98], [i \in 1..121 |-> 98], [i \in 1..128 |-> IF i = 128 THEN 98 ELSE 97], [i \in 1..300 |-> 99], Cs("p"), Cs("pa"), Cs("pas"), Cs("passphrase")>>
Accounts == <<"m/44'/0'/0'", "m/49'/0'/0'", "m/84'/0'/1'", "m/44'/60'/0'", "m/0'", "m", "m/44'/2147483647'/7'", "m/48'/1'/2'/2'">>
Depth1(j) == <<1, 2, 3>>[(j % 3) + 1]
Soft(L) == Pick(L, SoftNums)

\* one wallet: written, restored by every route, its account watched from the public key written down
Wallet1(L, ent, k, u, v, path, other) ==
    LET c == RndInt(L \o "c", 3) i == Soft(L \o "i") a == Cs(path) n == Len(SelectSeq(a, LAMBDA x : x = 47)) IN
    <<Wl(k), Buf("b0", ent), Enc("b0", "t0"), DecM("t0", "b1"), Enc("b1", "t1"), SeedHex("t1", u, "t2"), RootT("t2", "k0"), Ver("k0", v, n % 2 = 0),
      GSet("g0", "k0"), GDer("g0", a, "l0"), PickK("l0", n, "k1"), ToText("b58", "k1", "t3")>>
    \* the account's public key goes elsewhere
    \o <<Neut("k1", "k2"), ToText("string", "k2", "t4"), Wl(other), FromText("t4", "k3"), Child("k3", "k4", U32(c)), Child("k4", "k5", i)>> \o Addr("k5")
    \o <<RSet("r0", "k4", a \o Cs(<<"/0", "/1", "/2">>[c + 1]), i, Tail(Plus(i, U32(IF HBit(Tail(Plus(i, U32(3)))) THEN 1 ELSE 3)))), RGen("r0"), PickK("r0", 0, "k6")>> \o AddrX("k6", RndInt(L \o "x", 256))
    \o <<Neut("k0", "k6"), Neut("k6", "k7"), ToText("b58", "k7", "t5"), FromText("t5", "k7")>>
    \* restored: seeds by the other routes, the account's private key written down
    \o <<Wl(k), SeedB("seed", "t0", u, "b2"), MasterB("b2", "k7"), SeedB("seedchk", "t0", u, "b3"), MasterB("b3", "k6"), Ver("k7", v, TRUE), GSet("g1", "k7"),
         GDer("g1", a \o Cs(<<"/0", "/1", "/2">>[c + 1]) \o <<47>> \o Dec(i), "l1"), PickK("l1", n + 2, "k7")>> \o Addr("k7") \o <<Get("prvhex", "k7"), Get("pubhex", "k7"), Get("pubhex", "k5")>>
    \o <<FromText("t3", "k6"), Child("k6", "k6", U32(c)), Ser("k6", "b1"), FromBuf("b1", "k5"), RSet("r1", "k5", a, i, Tail(Plus(i, U32(1)))), RGen("r1"), PickK("r1", 0, "k5")>> \o Addr("k5")

\* what must fail fails and changes nothing that follows
Failing(L, ent, k, u) ==
    <<Wl(k), Buf("b0", ent), Enc("b0", "t0"), SeedHex("t0", u, "t1"), RootT("t1", "k0"), Child("k0", "k1", <<128, 0, 0, 44>>), Neut("k1", "k2"), Child("k2", "k3", <<128, 0, 0, 0>>), Child("k2", "k3", <<0, 0, 0, 0>>),
      GSet("g0", "k2"), GDer("g0", Cs("m/0"), "l0"), GSet("g0", "k0"), GDer("g0", Cs("m/0/0'"), "l0"), GDer("g0", Cs("m/0'/1"), "l0"), PickK("l0", 2, "k4")>> \o Addr("k4")
    \o <<Wl(Plain("made")), SeedHex("t0", u, "t1"), SeedB("seedchk", "t0", u, "b1"), DecM("t0", "b1"), RootT("t1", "k0"), Wl(k), SeedHex("t0", u, "t1"), RootT("t1", "k0"), ToText("b58", "k0", "t2"),
         [op |-> "tpoke", tn |-> "t2", off |-> RndInt(L \o "o", 111), x |-> 49 + RndInt(L \o "p", 9)], FromText("t2", "k5"), FromText("t0", "k5"), RootT("t0", "k5"), Buf("b2", SubSeq(ent, 1, 15)), Enc("b2", "t3"), Txt("t3", SubSeq(Utf8(Hex(ent)), 1, 30)), RootT("t3", "k5"),
         RSet("r0", "k2", Cs("m/44'"), <<127, 255, 255, 254>>, <<128, 0, 0, 1>>), RGen("r0"), RSet("r0", "k2", Cs("m/44'"), U32(3), U32(5)), RGen("r0"), PickK("r0", 1, "k5")>> \o Addr("k5")
    \o <<GDer("g0", Cs("m/0'/1"), "l1"), PickK("l1", 2, "k6")>> \o Addr("k6")

\* wallets that differ in little, taking turns
Turn(j, u) == <<Enc("b" \o S(j), "t" \o S(j)), SeedHex("t" \o S(j), u, "t4"), RootT("t4", "k" \o S(j)), GSet("g0", "k" \o S(j)), GDer("g0", Cs("m/44'/0'/0'/0/0"), "l0"), PickK("l0", 5, "k4")>> \o Addr("k4")
Near(L, e) == LET n == Len(e) IN
    <<Buf("b0", e), Buf("b1", [e EXCEPT ![n] = (@ + 1) % 256]), Buf("b2", IF n < 32 THEN e \o Zeros(4) ELSE SubSeq(e, 1, 16)), Buf("b3", [e EXCEPT ![1] = (@ + 128) % 256])>>
    \o Cat([m \in 1..10 |-> LET j == <<0, 1, 0, 2, 3, 0, 0, 1, 2, 0>>[m] IN Turn(j, IF m \in {6, 8} THEN Cs("p") ELSE IF m = 10 THEN Cs("pp") ELSE <<>>)])
Spoken(L, e) == <<Buf("b0", e), Enc("b0", "t0")>> \o Cat([m \in 1..14 |-> LET u == Pick(L \o S(m), Phrases) IN
       <<SeedHex("t0", u, "t1"), RootT("t1", "k0"), SeedB("seed", "t0", u, "b1"), MasterB("b1", "k1"), Child("k0", "k2", <<128, 0, 0, 0>>)>> \o Addr("k2")])
Generated(L) == <<[op |-> "genmn", n |-> <<12, 15, 18, 21, 24>>[RndInt(L, 5) + 1], tdst |-> "t0"], DecM("t0", "b0"), Enc("b0", "t1"), SeedHex("t0", <<>>, "t2"), SeedHex("t1", <<>>, "t3"), RootT("t2", "k0"), RootT("t3", "k1"),
                  GSet("g0", "k0"), GSet("g1", "k1"), GDer("g0", Cs("m/84'/0'/0'/0/3"), "l0"), GDer("g1", Cs("m/84'/0'/0'/0/3"), "l1"), PickK("l0", 5, "k2"), PickK("l1", 5, "k3")>> \o Addr("k2") \o Addr("k3")
                  \o <<Neut("k0", "k4"), ToText("b58", "k4", "t4"), FromText("t4", "k5"), PickK("l0", 3, "k6"), Neut("k6", "k6"), ToText("b58", "k6", "t4"), FromText("t4", "k6"), Child("k6", "k6", U32(0)), Child("k6", "k6", U32(3))>> \o Addr("k6")

\* one wallet in several guises: versions, accounts, chains and indexes in turn, by path, range and steps, privately and publicly
GuisePaths == <<"m/44'/0'/0'", "m/84'/0'/0'", "m/44'/0'/1'", "m/44'/1'/0'", "m/44'/0'", "m/0'/0'/0'", "m/49'/0'/0'", "m/44'/0'/2'">>
Guises(L, ent) ==
    LET V == <<RDefaultPrv, Pick(L \o "v1", Prvs), Pick(L \o "v2", Prvs)>> W == <<Pick(L \o "p1", GuisePaths), Pick(L \o "p2", GuisePaths)>> IN
    <<Buf("b0", ent), Enc("b0", "t0"), SeedHex("t0", <<>>, "t1"), RootT("t1", "k0")>>
    \o Cat([m \in 1..8 |-> LET a == Cs(W[((m \div 3) % 2) + 1]) n == Len(SelectSeq(a, LAMBDA x : x = 47)) e == Cs(<<"/0/0", "/0/1", "/1/0">>[(m % 3) + 1]) g == "g" \o S(m % 2) IN
        <<Ver("k0", V[(m % 3) + 1], m % 2 = 0), GSet(g, "k0"), GDer(g, a \o e, "l0"), PickK("l0", n, "k1"), PickK("l0", n + 2, "k2"), ToText("b58", "k2", "t2")>> \o Addr("k2")
        \o (IF m % 2 = 0 THEN <<Neut("k1", "k1")>> ELSE <<>>)
        \o <<Child("k1", "k3", U32(m % 2)), RSet("r0", "k3", a \o Cs("/0"), U32(m % 3), U32(2 + (m % 3))), RGen("r0"), PickK("r0", 0, "k4"), ToText("string", "k4", "t3"), Child("k3", "k5", U32(m % 3)), ToText("b58", "k5", "t2")>> \o Addr("k5")])
Sys == Cat([k \in DOMAIN Lists |-> [m \in 1..(1 + Size) |-> LET L == "j" \o S(k) \o "x" \o S(m) IN
            Wallet1(L, Unhex(Rnd(L \o "e", Sizes[((k + m) % 5) + 1])), Lists[k], Pick(L \o "u", Phrases), Prvs[((k + 5 * m) % Len(Prvs)) + 1], Accounts[((k + 3 * m) % Len(Accounts)) + 1], Pick(L \o "o", Lists))]])
       \o [j \in 1..(6 + 2 * Size) |-> LET L == "jf" \o S(j) IN Failing(L, Unhex(Rnd(L, Sizes[(j % 5) + 1])), IF j % 2 = 0 THEN Plain("english") ELSE Pick(L \o "l", Lists), Pick(L \o "u", Phrases))]
       \o [j \in 1..(4 + 2 * Size) |-> LET L == "jn" \o S(j) IN Near(L, Unhex(Rnd(L, Sizes[(j % 5) + 1])))]
       \o [j \in 1..(4 + 2 * Size) |-> LET L == "js" \o S(j) IN Spoken(L, Unhex(Rnd(L, Sizes[(j % 5) + 1])))]
       \o [j \in 1..(4 + 4 * Size) |-> (IF j % 2 = 0 THEN <<>> ELSE <<Wl(Lists[(j % Len(Lists)) + 1])>>) \o Generated("jg" \o S(j))]
       \o [j \in 1..(5 + 3 * Size) |-> LET L == "ju" \o S(j) IN Guises(L, Unhex(Rnd(L, 16)))]
       \* wallets whose seed or master key starts or ends with zeros
       \o <<LET X == SetToSeq(ShortPass) IN Cat([j \in DOMAIN X |-> <<Buf("b0", Zeros(16)), Enc("b0", "t0"), SeedHex("t0", Cs("p" \o X[j]), "t1"), RootT("t1", "k0"), GSet("g0", "k0"), GDer("g0", Cs("m/44'/0'/0'/0/1"), "l0"), PickK("l0", 5, "k1"), ToText("b58", "k0", "t2"), FromText("t2", "k2"), Child("k2", "k3", U32(j))>> \o Addr("k1")])>>
       \* a wallet whose keys or codes begin with zeros here and there
       \o [h \in 1..2 |-> LET X == SetToSeq(IF h = 1 THEN ShortScalarHard \cup ShortOtherHard ELSE ShortScalarSoft \cup ShortOtherSoft \cup ShortXSoft \cup ShortYSoft) IN
             <<Txt("t0", Utf8(SpecialSeed)), RootT("t0", "k0"), GSet("g0", "k0"), Neut("k0", "k1")>> \o
             Cat([j \in DOMAIN X |-> LET i == Unhex(X[j]) m == Cs("m/") \o Dec(ClearH(i)) \o (IF h = 1 THEN <<39>> ELSE <<>>) IN
                 <<GDer("g0", m \o Cs("/1"), "l0"), PickK("l0", 1, "k2")>> \o Addr("k2") \o <<PickK("l0", 2, "k3")>> \o Addr("k3") \o
                 <<ToText("b58", "k2", "t1"), FromText("t1", "k4"), Get("prvhex", "k4"), Neut("k4", "k4"), Ser("k4", "b0"), FromBuf("b0", "k4"), Child("k4", "k5", U32(1))>> \o Addr("k5") \o
                 <<Child("k4", "k5", IF h = 1 THEN U32(j) ELSE i), Child("k0", "k6", i), Child("k6", "k6", U32(1))>> \o Addr("k6")
                 \o (IF h = 1 THEN <<>> ELSE <<Child("k1", "k6", i), RSet("r0", "k1", Cs("m"), i, Tail(Plus(i, U32(2)))), RGen("r0"), PickK("r0", 0, "k7")>> \o Addr("k7") \o <<Get("pubhex", "k6")>>)])]
       \* far down, and where it ends
       \o [j \in 1..3 |-> LET n == <<127, 200, 253>>[j] m == FoldLeft(LAMBDA a, i : a \o <<47, 48 + (i % 10)>> \o (IF i <= n \div 3 THEN <<39>> ELSE <<>>), <<109>>, Ints(n)) IN
             <<Txt("t0", Utf8(Rnd("jw" \o S(j), 32))), RootT("t0", "k0"), GSet("g0", "k0"), GDer("g0", m, "l0"), PickK("l0", n, "k1")>> \o
             Cat([x \in 1..4 |-> <<ToText("b58", "k1", "t1"), FromText("t1", "k2"), Neut("k2", "k3"), ToText("string", "k3", "t2"), FromText("t2", "k3"), Ser("k2", "b0"), FromBuf("b0", "k4")>> \o Addr("k3") \o
                    <<Child("k3", "k5", U32(x)), Child("k4", "k1", U32(x)), Child("k3", "k6", <<255, 255, 255, 255>>), GDer("g0", m \o Cat([i \in 1..x |-> Cs("/3")]), "l1"), RSet("r0", "k3", m, U32(x), U32(x + 2)), RGen("r0")>> \o Addr("k1")])]
       \* written differently
       \o [j \in 1..3 |-> LET L == "jx" \o S(j) e == Unhex(Rnd(L, Sizes[j + 2])) s == Cs(<<"m/44'/0'/0'/0/7", "m/84'/0'/1", "m/0/2147483647">>[j]) n == <<5, 3, 2>>[j] IN
             <<Buf("b0", e), Enc("b0", "t0"), SeedHex("t0", <<>>, "t1"), RootT("t1", "k0"), GSet("g0", "k0"), GDer("g0", s, "l0"), PickK("l0", n, "k1")>> \o Addr("k1") \o
             Cat([b \in 1..6 |-> LET p == 1 + ((5 * b + j) % Len(s)) IN
               <<GDer("g0", SubSeq(s, 1, p) \o BlankTexts[b] \o SubSeq(s, p + 1, Len(s)), "l1"), PickK("l1", n, "k2"), GDer("g0", BlankTexts[b] \o s \o BlankTexts[b], "l1"), PickK("l1", n, "k3")>> \o Addr("k2") \o Addr("k3")])
             \o <<GDer("g0", [s EXCEPT ![1] = 77], "l1"), PickK("l1", n, "k2")>> \o Addr("k2")]
       \* patterns in the words, checksums of zeros and ones
       \o [z \in 1..5 |-> LET X == PatternEnts(3 * (z + 3)) Y == (IF Len(X) > 8 THEN SubSeq(X, 1, 8) ELSE X) \o WithSum(Sizes[z], 0) \o WithSum(Sizes[z], 255) IN
             Cat([j \in DOMAIN Y |-> <<Buf("b0", Y[j]), Enc("b0", "t0"), DecM("t0", "b1"), Enc("b1", "t1"), SeedHex("t1", <<>>, "t2"), RootT("t2", "k0"), SeedB("seedchk", "t0", Cs("x"), "b2"), MasterB("b2", "k1")>> \o Addr("k0") \o Addr("k1")])]
       \* lists that differ in two words of the sentence, or are edited where they are
       \o [z \in 1..5 |-> LET X == Patterned(3 * (z + 3)) Y == IF Len(X) > 4 THEN SubSeq(X, 1, 4) ELSE X n == <<"english", "japanese", "made", "czech", "spanish">>[z] IN
             <<WlCopy(Plain(n), "w0")>> \o
             Cat([j \in DOMAIN Y |-> LET i == IF Y[j][1] = 2047 THEN 2047 ELSE Y[j][1] + 1 back == IF j % 2 = 0 THEN WlInto(Plain(n), "w0") ELSE Wl(Plain(n)) IN
               <<Buf("b0", BitsToBytes(Entropy11(Y[j]))), Enc("b0", "t0"), DecM("t0", "b1"), IF j % 2 = 0 THEN WlInto(Swap(n, i), "w0") ELSE Wl(Swap(n, i)), DecM("t0", "b1"), SeedHex("t0", <<>>, "t1"), Enc("b0", "t1"), DecM("t1", "b2"), SeedHex("t1", <<>>, "t2"),
                 RootT("t2", "k0"), back, DecM("t1", "b2"), DecM("t0", "b2"), Enc("b0", "t1"), SeedHex("t1", <<>>, "t2"), RootT("t2", "k1")>> \o Addr("k0") \o Addr("k1")])]
       \* blanks around the mnemonic and within: they are part of the seed, and not of the entropy
       \o [z \in 1..5 |-> LET e == Unhex(Rnd("jy" \o S(z), Sizes[z])) m == B39!Encode(Eng, Bits(e)) X == <<m, Append(m, 32), Append(m, 10), <<32>> \o m, m \o <<32, 32>>, Append(m, 9), Cat([i \in DOMAIN m |-> IF m[i] = 32 THEN <<32, 32>> ELSE <<m[i]>>]), m>> IN
             Cat([j \in DOMAIN X |-> <<Txt("t0", X[j]), DecM("t0", "b0"), Enc("b0", "t1"), SeedHex("t0", IF j % 3 = 0 THEN Cs("p ") ELSE <<>>, "t2"), RootT("t2", "k0"), SeedB("seed", "t0", <<>>, "b1"), SeedB("seedchk", "t1", <<>>, "b2"), MasterB("b1", "k1")>> \o Addr("k0") \o Addr("k1")])]
       \* one range after another with one value: its base becomes public, gets another version, the range grows, crosses into the hardened numbers
       \o [j \in 1..4 |-> LET L == "jr" \o S(j) q(r, k, i, x) == <<RSet(r, k, Cs("m/44'"), i, Tail(Plus(i, U32(x)))), RGen(r)>> top == <<127, 255, 255, 254>> IN
             <<Txt("t0", Utf8(Rnd(L, 32))), RootT("t0", "k0"), Child("k0", "k1", <<128, 0, 0, 44>>), Neut("k1", "k2"), [op |-> "copy", src |-> "k1", dst |-> "k3"], Ver("k3", Prvs[(3 * j % Len(Prvs)) + 1], TRUE)>> \o
             Cat([x \in 1..8 |-> LET k == "k" \o S(1 + ((x * j) % 3)) IN q("r0", k, U32(IF x > 5 THEN 1 ELSE 0), 1 + x) \o <<PickK("r0", x, "k4")>> \o Addr("k4") \o
                 (IF x % 2 = 0 THEN q("r0", "k1", top, 1 + x) \o <<PickK("r0", x, "k5")>> \o Addr("k5") \o q("r1", "k2", top, 1) ELSE q("r0", "k2", top, 3) \o q("r1", "k3", SetH(U32(x)), 2) \o <<PickK("r1", 1, "k6")>> \o Addr("k6"))])]
       \* a range that grows while its base changes, and nothing else happens in between
       \o [j \in 1..4 |-> LET L == "jq" \o S(j) IN
             <<Txt("t0", Utf8(Rnd(L, 32))), RootT("t0", "k0"), Child("k0", "k1", <<128, 0, 0, 84>>), Neut("k1", "k2"), [op |-> "copy", src |-> "k1", dst |-> "k3"], Ver("k3", Prvs[(3 * j % Len(Prvs)) + 1], TRUE), Neut("k3", "k4")>> \o
             Cat([x \in 1..7 |-> <<RSet("r0", "k" \o S(<<1, 2, 3, 1, 4, 2, 1>>[IF j % 2 = 0 THEN x ELSE 8 - x]), Cs("m/84'"), U32(0), U32(x)), RGen("r0"), PickK("r0", x, "k5")>> \o Addr("k5") \o <<ToText("b58", "k5", "t1")>>])]
       \* one generator, the root changes in little, the path does not
       \o [j \in 1..4 |-> LET L == "jp" \o S(j) s == Cs(Accounts[j] \o "/0/1") IN
             <<Txt("t0", Utf8(Rnd(L, 32))), RootT("t0", "k0")>> \o
             Cat([x \in 1..6 |-> <<Ver("k0", Prvs[((x * j) % Len(Prvs)) + 1], x % 2 = 0), GSet("g0", "k0"), GDer("g0", s, "l0"), PickK("l0", 5, "k1")>> \o Addr("k1") \o <<ToText("string", "k1", "t1")>>])]
       \* every version's wallet
       \o [j \in DOMAIN Prvs |-> LET L == "jv" \o S(j) IN Wallet1(L, Unhex(Rnd(L, 16)), Plain("english"), <<>>, Prvs[j], Accounts[(j % Len(Accounts)) + 1], Lists[(j % Len(Lists)) + 1])]
ASSUME EmitAll(0, Sys)

\* ------------------------------------------------------------------ simulated behaviours
VARIABLES tk, bk, kk, lk, gk, hist, run, done
jvars == <<tk, bk, kk, lk, gk, hist, run, done>>
Lab == "u" \o S(run) \o "s" \o S(Len(hist))
Ts == {"t0", "t1", "t2", "t3"}
Bs == {"b0", "b1", "b2"}
Ks == {"k0", "k1", "k2", "k3", "k4"}
With(f, x) == {n \in DOMAIN f : f[n] = x}
Do(c) == hist' = Append(hist, c) /\ UNCHANGED <<run, done>>
Keep(x) == UNCHANGED x
A(c, Tx, B, K, Q) == Do(c) /\ tk' = Tx /\ bk' = B /\ kk' = K /\ lk' = Q
\* kinds: texts "", "mn", "seed", "x" (extended key, with its kind "xroot", "xprv", "xpub"); buffers "", "ent", "seed", "sroot", "sprv", "spub"; keys "", "root", "prv", "pub"
UEnt == \E b \in One(Bs), z \in One(1..5), e \in One(0..3) : A(Buf(b, Unhex(Rnd("ent" \o S(e), Sizes[z]))), tk, [bk EXCEPT ![b] = "ent"], kk, lk)
UWl == \E k \in One(1..4) : A(Wl(<<Lists[1 + (run % Len(Lists))], Plain("english"), Lists[1 + ((run * 7) % Len(Lists))], Lists[12]>>[k]), tk, bk, kk, lk)
UEnc == \E b \in One(With(bk, "ent")), t \in One(Ts) : A(Enc(b, t), [tk EXCEPT ![t] = "mn"], bk, kk, lk)
UDec == \E t \in One(With(tk, "mn")), b \in One(Bs) : A(DecM(t, b), tk, [bk EXCEPT ![b] = IF @ = "" THEN "ent" ELSE @], kk, lk)
USeedHex == \E t \in One(With(tk, "mn")), d \in One(Ts), u \in One(1..6) : A(SeedHex(t, Phrases[u], d), [tk EXCEPT ![d] = "seed"], bk, kk, lk)
USeed == \E t \in One(With(tk, "mn")), b \in One(Bs), u \in One(1..6), c \in One({"seed", "seedchk"}) : A(SeedB(c, t, Phrases[u], b), tk, IF c = "seed" THEN [bk EXCEPT ![b] = "seed"] ELSE bk, kk, lk)
UMaster == \E b \in One(With(bk, "seed")), k \in One(Ks) : A(MasterB(b, k), tk, bk, [kk EXCEPT ![k] = "root"], lk)
URoot == \E t \in One(Ts), k \in One(Ks) : A(RootT(t, k), tk, bk, kk, lk)
ULive == {n \in Ks : kk[n] # ""}
UPrv == {n \in Ks : kk[n] \in {"root", "prv"}}
UChild == \E k \in One(ULive), d \in One(Ks), i \in One(0..2), h \in One({TRUE, FALSE}) :
             LET hard == h /\ kk[k] # "pub" IN A(Child(k, d, IF hard THEN SetH(U32(i)) ELSE U32(i)), tk, bk, [kk EXCEPT ![d] = IF kk[k] = "pub" THEN "pub" ELSE "prv"], lk)
UNeut == \E k \in One(ULive), d \in One(Ks) : A(Neut(k, d), tk, bk, [kk EXCEPT ![d] = "pub"], lk)
UText == \E k \in One(ULive), t \in One(Ts), c \in One({"b58", "string"}) : A(ToText(c, k, t), [tk EXCEPT ![t] = "x" \o kk[k]], bk, kk, lk)
UBack == \E t \in One({n \in Ts : tk[n] \in {"xroot", "xprv", "xpub"}}), d \in One(Ks) : A(FromText(t, d), tk, bk, [kk EXCEPT ![d] = CASE tk[t] = "xroot" -> "root" [] tk[t] = "xprv" -> "prv" [] OTHER -> "pub"], lk)
USer == \E k \in One(ULive), b \in One(Bs) : A(Ser(k, b), tk, [bk EXCEPT ![b] = "s" \o kk[k]], kk, lk)
UFrom == \E b \in One({n \in Bs : bk[n] \in {"sroot", "sprv", "spub"}}), d \in One(Ks) : A(FromBuf(b, d), tk, bk, [kk EXCEPT ![d] = CASE bk[b] = "sroot" -> "root" [] bk[b] = "sprv" -> "prv" [] OTHER -> "pub"], lk)
UGSet == \E g \in One({"g0", "g1"}), k \in One(With(kk, "root")) : Do(GSet(g, k)) /\ gk' = gk \cup {g} /\ UNCHANGED <<tk, bk, kk, lk>>
UDer == gk # {} /\ \E g \in One(gk), p \in One(1..12), d \in One({"l0", "l1"}) : A(GDer(g, Cs(<<"m/0'", "m/44'/0'/0'/0/0", "m/44'/0'/0'/0/1", "m/0/1", "m/1'/2", "m", "m/2147483647'/2147483647", "m/0/0'", "m/x", "m/44'/0'/1'/0/0", "M/0", "m / 0' / 1"
                       >>[p]), d), tk, bk, kk, IF p \in {8, 9} THEN lk ELSE [lk EXCEPT ![d] = "prv"])
URSet == \E r \in One({"r0", "r1"}), k \in One(ULive), i \in One(0..3), n \in One(1..3), p \in One(1..3) : Do(RSet(r, k, Cs(<<"m/0", "m", "m/44'/0'">>[p]), U32(i), U32(i + n))) /\ lk' = [lk EXCEPT ![r] = "?" \o (IF kk[k] = "pub" THEN "pub" ELSE "prv")] /\ UNCHANGED <<tk, bk, kk>>
URGen == \E r \in One({n \in {"r0", "r1"} : lk[n] # ""}) : A(RGen(r), tk, bk, kk, [lk EXCEPT ![r] = IF @ \in {"?pub", "pub"} THEN "pub" ELSE "prv"])
UPick == \E s \in One({n \in DOMAIN lk : lk[n] \in {"prv", "pub"}}), d \in One(Ks), n \in One(0..5) : A(PickK(s, n, d), tk, bk, [kk EXCEPT ![d] = lk[s]], lk)
UVer == \E k \in One(UPrv), v \in One(DOMAIN Prvs), a \in One({TRUE, FALSE}) : A(Ver(k, Prvs[v], a), tk, bk, kk, lk)
UAddr == \E k \in One(ULive), x \in One(1..255), c \in One(1..4) : A(<<Get("addrhex", k), [op |-> "addrp2sh", src |-> k, x |-> x], Get("pubhex", k), Get("prvhex", k)>>[c], tk, bk, kk, lk)
UCopy == \E k \in One(ULive), d \in One(Ks) : A([op |-> "copy", src |-> k, dst |-> d], tk, bk, [kk EXCEPT ![d] = kk[k]], lk)

GInit == tk = [n \in Ts |-> ""] /\ bk = [n \in Bs |-> ""] /\ kk = [n \in Ks |-> ""] /\ lk = [n \in {"l0", "l1", "r0", "r1"} |-> ""] /\ gk = {} /\ hist = <<>> /\ run = 0 /\ done = FALSE
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<tk, bk, kk, lk, gk, hist, done>>
         ELSE IF Len(hist) < Depth
         THEN IF With(bk, "ent") = {} THEN UEnt /\ UNCHANGED gk
              ELSE IF With(tk, "mn") = {} THEN UEnc /\ UNCHANGED gk
              ELSE IF ULive = {} THEN (USeed \/ UMaster) /\ UNCHANGED gk
              ELSE \E c \in One(1..30) :
                   CASE c = 1 -> UEnt /\ UNCHANGED gk [] c = 2 -> UWl /\ UNCHANGED gk [] c = 3 -> UEnc /\ UNCHANGED gk [] c = 4 -> UDec /\ UNCHANGED gk
                     [] c = 5 -> USeedHex /\ UNCHANGED gk [] c \in {6, 7} -> USeed /\ UNCHANGED gk [] c = 8 /\ With(bk, "seed") # {} -> UMaster /\ UNCHANGED gk
                     [] c = 9 -> URoot /\ UNCHANGED gk [] c \in 10..12 -> UChild /\ UNCHANGED gk [] c \in {13, 14} -> UNeut /\ UNCHANGED gk [] c = 15 -> UText /\ UNCHANGED gk
                     [] c = 16 /\ (\E n \in Ts : tk[n] \in {"xroot", "xprv", "xpub"}) -> UBack /\ UNCHANGED gk
                     [] c = 17 -> USer /\ UNCHANGED gk [] c = 18 /\ (\E n \in Bs : bk[n] \in {"sroot", "sprv", "spub"}) -> UFrom /\ UNCHANGED gk
                     [] c = 19 /\ With(kk, "root") # {} -> UGSet
                     [] c \in {20, 21} /\ gk # {} -> UDer /\ UNCHANGED gk
                     [] c = 22 -> URSet /\ UNCHANGED gk [] c \in {23, 24} /\ (\E n \in {"r0", "r1"} : lk[n] # "") -> URGen /\ UNCHANGED gk
                     [] c \in {25, 26} /\ (\E n \in DOMAIN lk : lk[n] \in {"prv", "pub"}) -> UPick /\ UNCHANGED gk
                     [] c = 27 /\ UPrv # {} -> UVer /\ UNCHANGED gk [] c = 28 -> UCopy /\ UNCHANGED gk
                     [] OTHER -> UAddr /\ UNCHANGED gk
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<tk, bk, kk, lk, gk, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
