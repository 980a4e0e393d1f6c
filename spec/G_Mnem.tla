------------------------------- MODULE G_Mnem -------------------------------
(***************************************************************************)
(* Plans for mnemonics: boundary entropies, damaged sentences, white space *)
(* and list changes; simulated behaviours are users who change lists,      *)
(* write mnemonics down, damage and read them.                             *)
(* Texts are UTF-8 bytes here.                                             *)
(***************************************************************************)
EXTENDS Plan, Mnemonics, WordLists, Special, Patterns

Names == SetToSeq(OfficialNames)
Basic == ("made" :> Made) @@ [n \in OfficialNames |-> LET h == OfficialHex(n) IN [i \in DOMAIN h |-> Unhex(h[i])]]
Thorough == Size >= 10

\* ------------------------------------------------------------------ lists
Keyed(n, rot, rev) == [NoList EXCEPT !.name = n, !.rot = rot, !.rev = rev]
Mixed(n, m, each, rot) == [Keyed(n, rot, FALSE) EXCEPT !.name2 = m, !.each = each]
Variants == <<Keyed("english", 1, FALSE), Keyed("english", 0, TRUE), Keyed("english", 1024, FALSE), Keyed("japanese", 2047, FALSE), Plain("made"), Keyed("made", 7, TRUE),
              Mixed("english", "czech", 2, 0), Mixed("english", "japanese", 64, 0), Mixed("english", "made", 2, 1), Mixed("made", "korean", 3, 5),
              Mixed("korean", "english", 2047, 0), Mixed("english", "made", 2048, 0), Mixed("spanish", "made", 3, 100)>>
Swapped(n, i) == [Plain(n) EXCEPT !.sw = i]              \* words i and i + 1 exchanged
Lists == [k \in DOMAIN Names |-> Plain(Names[k])] \o SelectSeq(Variants, LAMBDA k : Distinct(ListOf(Basic, k)))
Table == [k \in {Lists[i] : i \in DOMAIN Lists} |-> ListOf(Basic, k)]
Wl(k) == [op |-> "wl"] @@ (IF k.t # "" THEN [t |-> k.t] ELSE k)
WlCopy(k, d) == [dst |-> d] @@ Wl(k)
WlInto(k, d) == [dst |-> d, into |-> TRUE] @@ Wl(k)      \* by editing the list d in place
Eng == Table[English]

\* ------------------------------------------------------------------ calls
EncH(h) == [op |-> "enc", b |-> h]
Enc(b) == EncH(Hex(b))
Dec(t) == [op |-> "dec", t |-> Hex(t)]
Arr(t, raw) == [op |-> "arr", t |-> Hex(t), raw |-> raw]
MValid(t) == [op |-> "mvalid", t |-> Hex(t)]
SeedOp(op, t, u) == [op |-> op, t |-> Hex(t), u |-> Hex(u)]
Idx(w) == [op |-> "widx", t |-> Hex(w)]
Get == [op |-> "wget"]
ReadAll(t) == <<Dec(t), Arr(t, 0), Arr(t, 1), Arr(t, 2), Arr(t, 3)>>
Judge(t) == <<MValid(t)>> \o ReadAll(t) \o <<SeedOp("seedchk", t, <<>>), SeedOp("seedhex", t, <<112>>)>>
Sizes == <<16, 20, 24, 28, 32>>
Mnemonic(l, ent) == Encode(l, Bits(ent))
Both(l, ent) == <<Enc(ent)>> \o ReadAll(Mnemonic(l, ent))
REnt(L, n) == Unhex(Rnd(L, n))

\* ------------------------------------------------------------------ C12
Single(n, k) == [i \in 1..n |-> IF (k \div 8) + 1 = i THEN Pow2[(k % 8) + 1] ELSE 0]
FrontZ(n, z, L) == Zeros(z) \o REnt(L, n - z)
BackZ(n, z, L) == REnt(L, n - z) \o Zeros(z)
BadSizes == [j \in 1..(IF Thorough THEN 100 ELSE 45) |-> j - 1] \o <<64, 65, 96, 128, 256, 512, 1024>>
C12Plan ==
    [s \in 1..5 |-> LET X == PatternEnts(3 * (s + 3)) IN Cat([j \in DOMAIN X |-> Both(Eng, X[j])])] \o
    \* entropies that repeat their bytes
    [s \in 1..5 |-> Cat([x \in 1..256 |-> LET e == [i \in 1..Sizes[s] |-> x - 1] IN <<Enc(e), Dec(Mnemonic(Eng, e))>>])] \o
    [s \in 1..5 |-> Cat([x \in 1..48 |-> LET w == REnt("c12p" \o S(x), <<2, 3, 4, 5, 8, 11>>[(x % 6) + 1]) e == [i \in 1..Sizes[s] |-> w[((i - 1) % Len(w)) + 1]] IN <<Enc(e), Arr(Mnemonic(Eng, e), x % 4)>>])] \o
    [s \in 1..5 |-> LET n == Sizes[s] IN Both(Eng, Zeros(n)) \o Both(Eng, [i \in 1..n |-> 255]) \o Both(Eng, [i \in 1..n |-> 127]) \o Both(Eng, [i \in 1..n |-> 128])]
    \o [s \in 1..5 |-> LET n == Sizes[s] IN Cat([k \in 1..(8 * n) |-> IF Thorough \/ k % 4 = Seed % 4 THEN Both(Eng, Single(n, k - 1)) ELSE <<Enc(Single(n, k - 1))>>])]
    \o [s \in 1..5 |-> LET n == Sizes[s] IN Cat([z \in 1..n |-> Both(Eng, FrontZ(n, z, "f" \o S(n) \o S(z))) \o Both(Eng, BackZ(n, z, "b" \o S(n) \o S(z)))])]
    \o Pieces(Cat([j \in 1..(40 * Size) |-> LET n == Sizes[(j % 5) + 1] IN Both(Eng, REnt("r" \o S(j), n))]), 120)
    \o <<[j \in DOMAIN BadSizes |-> EncH(Rnd("bs", BadSizes[j]))]>>
    \* entropies that differ in little
    \o [j \in 1..(5 + Size) |-> LET n == Sizes[(j % 5) + 1] e == REnt("c12t" \o S(j), n) IN
            Both(Eng, e) \o Both(Eng, [e EXCEPT ![n] = (@ + 1) % 256]) \o Both(Eng, [e EXCEPT ![1] = (@ + 1) % 256]) \o Both(Eng, e) \o Both(Eng, [e EXCEPT ![n \div 2] = (@ + 128) % 256])
            \o (IF n < 32 THEN Both(Eng, e \o Zeros(4)) \o Both(Eng, Zeros(4) \o e) \o Both(Eng, e \o SubSeq(e, 1, 4)) ELSE <<>>) \o (IF n > 16 THEN Both(Eng, SubSeq(e, 1, n - 4)) \o Both(Eng, SubSeq(e, 5, n)) ELSE <<>>)]
    \o [k \in DOMAIN Lists |-> <<Wl(Lists[k])>> \o Cat([j \in 1..(6 + Size) |-> LET n == Sizes[(j % 5) + 1] IN Both(Table[Lists[k]], IF j = 1 THEN Zeros(20) ELSE IF j = 2 THEN [i \in 1..24 |-> 255] ELSE FrontZ(n, j % 3, "l" \o S(k) \o "x" \o S(j)))])]

\* ------------------------------------------------------------------ C13
Join(ws, sep) == FoldLeft(LAMBDA a, w : IF a = <<>> THEN w ELSE a \o sep \o w, <<>>, ws)
U2000 == [j \in 1..11 |-> <<226, 128, 127 + j>>]
WideSpaces == <<<<32>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>, <<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>>, <<226, 129, 159>>, <<227, 128, 128>>, <<32, 32>>, <<13, 10>>, <<9, 227, 128, 128>>>> \o U2000
NotSpaces == <<<<226, 128, 139>>, <<225, 160, 142>>, <<239, 187, 191>>, <<31>>, <<28>>, <<0>>, <<44>>, <<45>>, <<133>>, <<160>>, <<226, 128>>, <<255>>, <<>>>>
\* entropies of unusual lengths in the style of BIP-39, of n words
Styled(l, n, L) == LET bits == 11 * n  sum == bits \div 33  e == SubSeq(Bits(REnt(L, 60)), 1, bits - sum)
                       whole == e \o SubSeq(Bits(SHA256(BitsToBytes(IF Len(e) % 8 = 0 THEN e ELSE e \o Zeros(8 - (Len(e) % 8))))), 1, sum)
                       g == Groups(whole)
                   IN  Join([i \in 1..n |-> l[g[i] + 1]], <<32>>)
RWords(l, n, L) == [i \in 1..n |-> l[RndInt(L \o "w" \o S(i), 2048) + 1]]
Words(l, ent) == LET ix == Indices(Bits(ent)) IN [i \in DOMAIN ix |-> l[ix[i] + 1]]
SwapW(ws, i, j) == [ws EXCEPT ![i] = ws[j], ![j] = ws[i]]
Upper(w) == [i \in DOMAIN w |-> IF w[i] \in 97..122 THEN w[i] - 32 ELSE w[i]]
Foreign(w, L) == CASE RndInt(L, 8) = 0 -> Upper(w) [] RndInt(L, 8) = 1 -> Append(w, 115) [] RndInt(L, 8) = 2 -> SubSeq(w, 1, Len(w) - 1) [] RndInt(L, 8) = 3 -> SubSeq(w, 1, IF Len(w) > 3 THEN 3 ELSE 1)
                   [] RndInt(L, 8) = 4 -> <<48>> [] RndInt(L, 8) = 5 -> <<195, 169>> [] RndInt(L, 8) = 6 -> <<255, 254>> [] OTHER -> Append(w, 0)
Damaged(l, n, L) ==
    LET ent == REnt(L, n)  ws == Words(l, ent)  c == Len(ws)  i == RndInt(L \o "i", c) + 1  j == RndInt(L \o "j", c) + 1
        r == l[RndInt(L \o "r", 2048) + 1]
    IN  <<SwapW(ws, i, j), [ws EXCEPT ![i] = r], [ws EXCEPT ![c] = r], [ws EXCEPT ![1] = r], [ws EXCEPT ![i] = Foreign(ws[i], L \o "f")], [ws EXCEPT ![c] = Foreign(ws[c], L \o "g")],
          [ws EXCEPT ![1] = Foreign(ws[1], L \o "h")], Tail(ws), SubSeq(ws, 1, c - 1), Append(ws, r), <<r>> \o ws, ws \o ws, SubSeq(ws, 1, c - 3), ws \o SubSeq(ws, 1, 3), Reverse(ws)>>
\* words that are nearly words
Q(w, front, back) == front \o w \o back
Weird(w) == <<Q(w, <<39>>, <<>>), Q(w, <<>>, <<39>>), Q(w, <<34>>, <<34>>), Q(w, <<45>>, <<>>), Q(w, <<>>, <<45>>), Q(w, <<>>, <<44>>), Q(w, <<>>, <<46>>), Q(w, <<40>>, <<41>>), Q(w, <<>>, <<0>>), Q(w, <<0>>, <<>>),
               Q(w, <<239, 187, 191>>, <<>>), Q(w, <<>>, <<226, 128, 139>>), Q(w, <<>>, w), Q(w, <<>>, <<115>>), Q(w, <<49, 46>>, <<>>), Q(w, <<35>>, <<>>), Q(w, <<95>>, <<>>), Q(w, <<42>>, <<>>), Q(w, <<>>, <<59>>), Q(w, <<194, 173>>, <<>>),
               SubSeq(w, 1, 1), SubSeq(w, 1, 2), SubSeq(w, 1, 3), IF Len(w) > 4 THEN SubSeq(w, 1, 4) ELSE Append(w, 120), Tail(w), Reverse(w), Upper(w), Upper(SubSeq(w, 1, 1)) \o Tail(w), SubSeq(w, 1, Len(w) - 1) \o <<w[Len(w)] - 1>>,
               Utf8("0"), Utf8("1"), Utf8("-1"), Utf8("2047"), Utf8("2048"), Utf8("0x0"), Utf8("word"), Utf8("null"), Utf8("*"), Utf8("?"), <<239, 189, 129>>, [i \in 1..300 |-> 97]>>
\* entropies of n bytes that have between them every checksum byte with the bits that count
Covering(n) == LET bits == n \div 4
                   cand == [j \in 1..(6 * Pow2[bits + 1]) |-> REnt("cov" \o S(n) \o "x" \o S(j), n)]
                   sum == [j \in DOMAIN cand |-> SHA256(cand[j])[1] \div Pow2[9 - bits]]
               IN  SetToSeq({cand[CHOOSE j \in DOMAIN cand : sum[j] = c] : c \in Range(sum)})
C13Plan ==
    \* sentences of every count
    Pieces(Cat([n \in 1..40 |-> Judge(Join(RWords(Eng, n - 1, "cnt" \o S(n)), <<32>>)) \o Judge(Styled(Eng, n, "sty" \o S(n)))]), 160)
    \* sentences that repeat their words, with the right checksum
    \o [s \in 1..5 |-> LET X == Patterned(3 * (s + 3)) IN Cat([j \in DOMAIN X |-> LET t == Join([i \in DOMAIN X[j] |-> Eng[X[j][i] + 1]], <<32>>) IN IF s > 2 \/ j % 4 = Seed % 4 THEN Judge(t) ELSE <<MValid(t), Arr(t, j % 4), Dec(t)>>])]
    \* all last words
    \o [s \in 1..5 |-> LET ws == Words(Eng, REnt("last" \o S(s), Sizes[s])) IN Cat([i \in 1..2048 |-> LET t == Join([ws EXCEPT ![Len(ws)] = Eng[i]], <<32>>) IN IF Thorough THEN <<MValid(t), Dec(t)>> ELSE IF i % 4 = Seed % 4 THEN <<Dec(t)>> ELSE <<MValid(t)>>])]
    \* sentences with every checksum there is
    \o [s \in 1..5 |-> LET X == Covering(Sizes[s]) IN Cat([e \in DOMAIN X |-> LET t == Mnemonic(Eng, X[e]) IN IF e % 4 = Seed % 4 THEN Judge(t) ELSE <<MValid(t), Arr(t, e % 4)>>])]
    \* words that are nearly words
    \o [k \in 1..3 |-> LET ws == Words(Eng, REnt("weird" \o S(k), Sizes[((k + Seed) % 5) + 1])) i == <<1, Len(ws), RndInt("wi" \o S(k), Len(ws)) + 1>>[k] X == Weird(ws[i]) IN
            Cat([x \in DOMAIN X |-> LET t == Join([ws EXCEPT ![i] = X[x]], <<32>>) IN Judge(t)])]
    \* damage
    \o Pieces(Cat([j \in 1..(10 + 5 * Size) |-> LET D == Damaged(Eng, Sizes[(j % 5) + 1], "dmg" \o S(j)) IN Cat([k \in DOMAIN D |-> Judge(Join(D[k], <<32>>))])]), 240)
    \* white space and what is not white space
    \o Pieces(Cat([j \in DOMAIN WideSpaces |-> LET ws == Words(Eng, REnt("sp" \o S(j), Sizes[(j % 5) + 1])) s == WideSpaces[j] t == Join(ws, <<32>>) IN
            Judge(Join(ws, s)) \o Judge(s \o t) \o Judge(t \o s) \o Judge(s \o Join(SubSeq(ws, 1, 3), <<32>>) \o s \o Join(SubSeq(ws, 4, Len(ws)), <<9>>) \o s)]), 160)
    \o Pieces(Cat([j \in DOMAIN NotSpaces |-> LET ws == Words(Eng, REnt("ns" \o S(j), Sizes[(j % 5) + 1])) s == NotSpaces[j] t == Join(ws, <<32>>) IN
            Judge(Join(ws, s)) \o Judge(s \o t) \o Judge(t \o s) \o Judge(t \o <<32>> \o s) \o Judge(Join(SubSeq(ws, 1, 3), <<32>>) \o s \o Join(SubSeq(ws, 4, Len(ws)), <<32>>))
            \o Judge(Join(Append(SubSeq(ws, 1, Len(ws) - 1), s), <<32>>))]), 160)
    \o <<Judge(<<>>) \o Judge(<<32>>) \o Judge([i \in 1..3000 |-> 32]) \o Judge([i \in 1..3000 |-> 97]) \o Judge(Join([i \in 1..2000 |-> Eng[i]], <<32>>)) \o Judge(Join([i \in 1..268 |-> Eng[i]], <<32>>)) \o Judge(Join([i \in 1..256 |-> Eng[1]], <<32>>))>>
    \* under other lists
    \o [k \in DOMAIN Lists |-> LET l == Table[Lists[k]] IN
            <<Wl(Lists[k])>> \o Cat([j \in 1..3 |-> LET D == Damaged(l, Sizes[((j + k) % 5) + 1], "ld" \o S(k) \o "x" \o S(j)) n == RndInt("pk" \o S(j) \o "y" \o S(k), 15) + 1 IN
                Judge(Mnemonic(l, REnt("lv" \o S(k) \o S(j), Sizes[((j + k) % 5) + 1]))) \o Judge(Join(D[n], <<32>>)) \o Judge(Join(D[(n % 15) + 1], <<227, 128, 128>>))])
            \o Judge(Mnemonic(Eng, REnt("le" \o S(k), 16)))]

\* ------------------------------------------------------------------ C14
Short == <<"616263", "6120622063", "", "7a6f6f20616264", "6162616e646f6e">>
ShortKey(h) == [NoList EXCEPT !.t = h]
ShortPlan == [j \in DOMAIN Short |-> <<Idx(Eng[1]), Get>> \o Cat([k \in 1..4 |-> LET h == Short[((j + k) % 4) + (IF (j + k) % 4 = 2 THEN 2 ELSE 1)] IN IF h = "" THEN <<>> ELSE
                <<Wl(ShortKey(h)), Idx(<<97>>), Idx(<<97, 98, 99>>), Idx(<<98>>), Idx(Eng[1]), Idx(Eng[2048]), Get>>]) \o <<Wl(English), Idx(<<97>>), Idx(Eng[2048]), Idx(Eng[1]), Get>>]
\* 16 random bytes whose first word is number n
EntWith(L, n) == LET r == REnt(L, 16) IN [r EXCEPT ![1] = n \div 8, ![2] = 32 * (n % 8) + (r[2] % 32)]
Lookups(l, L, n) == [i \in 1..n |-> Idx(l[RndInt(L \o S(i), 2048) + 1])]
Use(k, L) == LET l == Table[k] IN
    <<Idx(l[1]), Idx(l[2048]), Idx(l[2]), Idx(l[1025])>> \o Lookups(l, L, 4) \o Lookups(Eng, L \o "e", 2) \o Lookups(Table[Plain("czech")], L \o "c", 1)
    \o <<Enc(REnt(L \o "n", 16)), Enc(REnt(L \o "m", 32))>> \o Judge(Mnemonic(l, REnt(L \o "o", Pick(L \o "os", <<16, 20, 24, 28>>)))) \o Judge(Mnemonic(l, REnt(L \o "o2", 32))) \o <<Dec(Mnemonic(l, REnt(L \o "o3", 32)))>>
    \o <<Idx(l[1]), Idx(l[2]), Idx(l[3]), Idx(l[2048]), Idx(l[2047]), Enc(EntWith(L \o "z", 0)), Enc(EntWith(L \o "y", 2047)), Enc(EntWith(L \o "x", 1))>> \o (IF RndInt(L \o "g", 3) = 0 THEN <<Get>> ELSE <<>>)
C14Plan ==
    \* nothing was set yet: the English list
    <<<<Get>> \o [i \in 1..2048 |-> Idx(Eng[i])] \o <<Idx(<<>>), Idx(<<97>>), Idx(<<90, 111, 111>>)>>>>
    \o <<Use(English, "first")>>
    \o [k \in DOMAIN Lists |-> <<Wl(Lists[k])>> \o [i \in 1..(IF Thorough THEN 2048 ELSE 128) |-> Idx(Table[Lists[k]][IF Thorough THEN i ELSE 16 * i - (Seed % 16)])] \o Use(Lists[k], "u" \o S(k)) \o <<Get>>]
    \* every list after every other
    \o [k \in DOMAIN Lists |-> Cat([m \in DOMAIN Lists |-> IF ~Thorough /\ (k + m + Seed) % 4 # 0 THEN <<>> ELSE
            LET t == Mnemonic(Table[Lists[k]], REnt("k" \o S(k) \o "m" \o S(m), 16)) IN
            <<Wl(Lists[k])>> \o <<MValid(t)>> \o <<WlCopy(Lists[m], "w1")>> \o <<Idx(Table[Lists[k]][1]), Idx(Table[Lists[k]][2]), Idx(Table[Lists[k]][2048]), Idx(Table[Lists[m]][1]), MValid(t), Dec(t), Enc(REnt("q" \o S(k) \o "m" \o S(m), 16)), Get, Wl(Lists[k]), Dec(t)>>])]
    \o ShortPlan
    \* the same list edited in place and set again; lists that differ in two words only
    \o [k \in DOMAIN Lists |-> LET m == Lists[((k + Seed) % Len(Lists)) + 1] t == Mnemonic(Table[Lists[k]], REnt("ip" \o S(k), 16)) u == Mnemonic(Table[m], REnt("iq" \o S(k), 20)) IN
            <<WlCopy(Lists[k], "w1")>> \o Judge(t) \o <<WlInto(m, "w1"), Idx(Table[m][5]), Idx(Table[Lists[k]][5]), Enc(REnt("ir" \o S(k), 16))>> \o Judge(u) \o Judge(t)
            \o <<Wl(English), WlInto(Lists[k], "w1"), Get>> \o Judge(t)]
    \o [k \in 1..(8 + 8 * Size) |-> LET n == Pick("swn" \o S(k), Names) i == Pick("swi" \o S(k), <<1, 2, 3, 7, 8, 1023, 1024, 1025, 2046, 2047>> \o [x \in 1..20 |-> RndInt("swj" \o S(k) \o S(x), 2047) + 1])
                                        a == Table[Plain(n)] x == a[i] y == a[i + 1] s == Swapped(n, i)
                                        e == EntWith("swe" \o S(k), i - 1) IN
            <<WlCopy(Plain(n), "w1"), Idx(x), Idx(y), Enc(e), IF k % 2 = 0 THEN WlInto(s, "w1") ELSE Wl(s), Idx(x), Idx(y), Idx(a[i + (IF i < 2047 THEN 2 ELSE 0)]), Enc(e)>> \o Judge(Mnemonic(a, e)) \o Judge(Mnemonic(ListOf(Basic, s), e)) \o <<WlInto(Plain(n), "w1"), Idx(x), Idx(y), Enc(e)>> \o Judge(Mnemonic(a, e))]

\* ------------------------------------------------------------------ C15
Phrase(L) == LET n == RndInt(L, 9) IN
    CASE n = 0 -> <<>> [] n = 1 -> Utf8("TREZOR") [] n = 2 -> Unhex(Rnd(L, 0)) [] n = 3 -> [i \in 1..(RndInt(L \o "a", 200) + 1) |-> 32 + RndInt(L \o S(i), 95)]
      [] n = 4 -> <<101, 204, 129>> [] n = 5 -> <<227, 129, 139>> \o [i \in 1..10 |-> 97] [] n = 6 -> <<240, 159, 152, 128>> [] n = 7 -> <<32, 9, 10, 0, 32>> [] OTHER -> [i \in 1..RndInt(L \o "b", 40) |-> 32 + RndInt(L \o S(i), 95)]
Stable(b) == (\A c \in Range(CodePoints(b)) : c < 1114112) /\ NFKD(b) = b      \* texts that NFKD changes are in one fixed session
SeedAll(t, u) == IF ~Stable(t) \/ ~Stable(u) THEN <<>> ELSE <<SeedOp("seed", t, u), SeedOp("seedchk", t, u), SeedOp("seedhex", t, u)>>
Flip1(t, i) == [t EXCEPT ![i] = IF @ = 97 THEN 98 ELSE 97]
Filler(n) == [i \in 1..n |-> 97 + (i % 26)]
EdgeLens == <<0, 1, 2, 55, 63, 64, 65, 111, 112, 113, 119, 120, 126, 127, 128, 129, 130, 191, 192, 255, 256, 257, 300, 1000>>
\* texts that NFKD changes, fixed so that what they yield today can be listed
Odd == <<<<0>>, <<0, 0>>, <<97, 0>>, <<0, 97>>, <<97, 10>>, <<97, 32>>, <<97, 9>>, <<32, 97>>, <<10, 97>>, <<127>>, <<27>>, <<239, 191, 189>>, <<239, 187, 191, 97>>, <<226, 128, 139>>, <<194, 173>>,
         <<34, 97, 34>>, <<39>>, <<37, 48>>, <<92, 120>>, <<43>>, <<49, 48>>, <<109, 110, 101, 109, 111, 110, 105, 99>>, <<65>>, <<97>>, <<65, 65>>>>
Composed == <<195, 169>>                                                                  \* e with acute accent as one character
C15Plan ==
    Pieces(Cat([j \in DOMAIN EdgeLens |-> <<SeedOp("seed", Filler(EdgeLens[j]), <<>>), SeedOp("seed", Filler(EdgeLens[j]), Filler(EdgeLens[j])), SeedOp("seed", <<>>, Filler(EdgeLens[j])), SeedOp("seed", <<65>>, Filler(EdgeLens[j]))>>]), 24)
    \o [k \in DOMAIN Lists |-> LET l == Table[Lists[k]] IN <<Wl(Lists[k])>> \o Cat([j \in 1..(3 + Size) |-> SeedAll(Mnemonic(l, REnt("s" \o S(k) \o "x" \o S(j), Sizes[(j % 5) + 1])), Phrase("p" \o S(k) \o "x" \o S(j)))])]
    \o Pieces(Cat([j \in 1..(20 * Size) |-> LET ws == Words(Eng, REnt("e" \o S(j), Sizes[(j % 5) + 1])) IN SeedAll(Join(ws, IF j % 4 = 0 THEN <<9>> ELSE IF j % 4 = 1 THEN <<32, 32>> ELSE <<32>>), Phrase("ph" \o S(j)))]), 30)
    \* texts and passphrases that differ in little
    \o [j \in 1..(3 + Size) |-> LET t == Mnemonic(Eng, REnt("c15t" \o S(j), Sizes[(j % 5) + 1])) n == Len(t) u == Filler(12) IN
            SeedAll(t, u) \o SeedAll(t, SubSeq(u, 1, 11)) \o SeedAll(SubSeq(t, 1, n - 1), <<t[n]>> \o u) \o SeedAll(t \o <<u[1]>>, Tail(u)) \o SeedAll(t, Flip1(u, 12)) \o SeedAll(t, Flip1(u, 1)) \o SeedAll(t, u) \o SeedAll(t, <<>>)
            \o SeedAll(Flip1(t, n), u) \o SeedAll(t \o u, <<>>) \o SeedAll(t, u \o u) \o SeedAll(Mnemonic(Eng, REnt("c15t" \o S(j) \o "b", Sizes[(j % 5) + 1])), u) \o SeedAll(u, t) \o SeedAll(<<>>, t) \o SeedAll(<<>>, <<>>)]
    \* every byte of a passphrase counts
    \o [j \in 1..3 |-> LET t == Mnemonic(Eng, REnt("odd" \o S(j), Sizes[((j + Seed) % 5) + 1])) IN Cat([x \in DOMAIN Odd |-> LET o == Odd[x] IN IF j = 1 THEN <<SeedOp("seed", t, o), SeedOp("seedhex", t, o)>> ELSE IF j = 2 THEN <<SeedOp("seedchk", t, o)>> ELSE <<SeedOp("seed", o, o), SeedOp("seed", Append(t, 32) \o o, <<97>>)>>])]
    \* seeds and masters that start or end with zeros
    \o <<LET X == SetToSeq(ShortPass) IN Cat([j \in DOMAIN X |-> SeedAll(Mnemonic(Eng, Zeros(16)), Utf8("p" \o X[j]))])>>
    \* leading and trailing blanks are part of the text
    \o <<Cat([j \in 1..6 |-> LET t == Mnemonic(Eng, REnt("bl" \o S(j), 16)) IN SeedAll(<<32>> \o t, <<>>) \o SeedAll(t \o <<10>>, <<32>>) \o SeedAll(t, <<32, 97>>) \o SeedAll(t, <<97, 32>>)])>>
    \* invalid mnemonics have no seed except the unchecked one
    \o Pieces(Cat([j \in 1..(4 + 2 * Size) |-> LET D == Damaged(Eng, Sizes[(j % 5) + 1], "c15d" \o S(j)) IN Cat([k \in DOMAIN D |-> SeedAll(Join(D[k], <<32>>), Phrase("dp" \o S(j) \o "x" \o S(k)))])]), 60)
    \o <<<<SeedOp("seed", Composed, <<>>), SeedOp("seed", <<97>>, Composed), SeedOp("seed", <<239, 172, 129>>, <<226, 132, 171>>),
           SeedOp("seedchk", Mnemonic(Eng, Zeros(16)), Composed), SeedOp("seedhex", Mnemonic(Eng, Zeros(16)), Composed),
           SeedOp("seedchk", Join(Words(Eng, Zeros(16)), <<227, 128, 128>>), <<>>)>>>>

\* ------------------------------------------------------------------ C16
Dumps == [k \in DOMAIN Names |-> [op |-> "words", name |-> Names[k]]]
C16Plan == <<Dumps>>
    \o [k \in DOMAIN Names |-> <<Wl(Plain(Names[k]))>> \o Cat([j \in 1..(4 + 2 * Size) |-> Both(Table[Plain(Names[k])], REnt("c16" \o S(k) \o "x" \o S(j), Sizes[(j % 5) + 1]))]) \o <<Get>> \o Lookups(Table[Plain(Names[k])], S(k), 5) \o Dumps]
    \o <<Dumps>>

\* C25: entropies of every size
WrongSizes == <<ZeroTo(100, LAMBDA n : Enc(REnt("c25e" \o S(n), n)))>>

ASSUME EmitAll(0, CASE Prop = "C16" -> C16Plan [] Prop = "C12" -> C12Plan [] Prop = "C13" -> C13Plan [] Prop = "C14" -> C14Plan [] Prop = "C15" -> C15Plan [] Prop = "C25" -> C13Plan \o WrongSizes)

\* ------------------------------------------------------------------ users
VARIABLES act, notes, hist, run, done
gvars == <<act, notes, hist, run, done>>
Common == <<English, Plain("french"), Plain("chinese_simplified"), Plain("chinese_traditional"), Plain("spanish"), Plain("japanese"), Keyed("english", 1, FALSE), Keyed("english", 0, TRUE)>>
GInit == act = English /\ notes = <<>> /\ hist = <<>> /\ run = 0 /\ done = FALSE
More(ops) == hist' = hist \o ops /\ UNCHANGED <<run, done>>
AnyOf(seq) == {RandomElement(DOMAIN seq)}
GSet == \E k \in AnyOf(Lists) : act' = Lists[k] /\ More(<<Wl(Lists[k])>>) /\ UNCHANGED notes
GSet2 == \E k \in AnyOf(Common) : act' = Common[k] /\ More(<<Wl(Common[k])>>) /\ UNCHANGED notes
\* the user keeps a list of their own, edits it and sets it again
GEdit == \E k \in AnyOf(Lists), i \in One(0..2047) : LET s == IF i % 2 = 0 /\ i > 0 THEN [Lists[k] EXCEPT !.sw = i] ELSE Lists[k] IN
            /\ act' = Lists[k] /\ More(<<WlInto(s, "w1"), Idx(Table[Lists[k]][i + 1]), WlInto(Lists[k], "w1")>>) /\ UNCHANGED notes
GNote == \E x \in One(1..100000000), n \in AnyOf(Sizes) : LET e == Unhex(RndHex(x, "note", Sizes[n])) IN notes' = Append(notes, Words(Table[act], e)) /\ More(<<Enc(e)>>) /\ UNCHANGED act
Ops(t) == CASE Prop = "C15" -> SeedAll(t, Phrase(S(RandomElement(1..100000)))) [] Prop = "C12" -> ReadAll(t) [] OTHER -> Judge(t)
GRead == notes # <<>> /\ \E k \in AnyOf(notes) : More(Ops(Join(notes[k], <<32>>))) /\ UNCHANGED <<act, notes>>
GHurt == notes # <<>> /\ \E k \in AnyOf(notes), x \in One(0..11) : LET ws == notes[k] c == Len(ws) i == RandomElement(1..c) j == RandomElement(1..c) IN
            /\ \E v \in One({CASE x = 0 -> SwapW(ws, i, j) [] x = 1 -> [ws EXCEPT ![i] = RandomElement(Range(Table[act]))] [] x = 2 -> Append(ws, ws[i]) [] x = 3 -> SubSeq(ws, 1, c - 1)
                                   [] x = 4 -> Tail(ws) [] x = 5 -> [ws EXCEPT ![c] = RandomElement(Range(Table[act]))] [] x = 6 -> [ws EXCEPT ![i] = <<122, 122>>] [] x = 7 -> [ws EXCEPT ![i] = Upper(ws[i])]
                                   [] x = 8 -> ws \o SubSeq(ws, 1, 3) [] x = 9 -> ws \o notes[1] [] x = 10 -> [ws EXCEPT ![1] = RandomElement(Range(Table[act]))] [] OTHER -> [ws EXCEPT ![i] = RandomElement(Range(Eng))]}) :
                  Len(v) < 60 /\ v # <<>> /\ notes' = Append(notes, v) /\ More(Ops(Join(v, <<32>>)))
            /\ UNCHANGED act
GLook == \E k \in AnyOf(Lists), i \in One(1..2048) : More(<<Idx(Table[Lists[k]][i]), Idx(Table[act][RandomElement(1..2048)])>>) /\ UNCHANGED <<act, notes>>
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<act, notes, hist, done>>
         ELSE IF Len(hist) < Depth THEN GSet \/ GSet2 \/ GEdit \/ GNote \/ GRead \/ GHurt \/ GLook
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<act, notes, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
