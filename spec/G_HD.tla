-------------------------------- MODULE G_HD --------------------------------
(***************************************************************************)
(* Generates plans for the key world: sessions of calls, written to        *)
(* IOEnv.PLAN, one JSON object per line.  Systematic sessions enumerate    *)
(* boundary values; the others are behaviours of the small machine below   *)
(* (TLC -simulate): which slots hold what kind of key, and which calls     *)
(* make sense on them.  IOEnv.PROP selects the emphasis, IOEnv.SEED the    *)
(* random values, IOEnv.SIZE scales.                                       *)
(***************************************************************************)
EXTENDS KeyPool

\* ------------------------------------------------------------------ systematic sessions
SetVer(d, v, arr) == [op |-> "setver", dst |-> d, v |-> Hex(v), arr |-> arr]
Rep(s, n) == FoldLeft(LAMBDA a, x : a \o s, "", [x \in 1..n |-> x])
\* C01: seeds of every length, special contents; hex texts of many shapes
SeedLens == SetToSeq((0..140) \cup {255, 256, 257, 512, 1000, 4096})
C01Plan ==
    [j \in DOMAIN SeedLens |-> LET n == SeedLens[j] r == Rnd("seed" \o S(n), n) IN
        <<[op |-> "master", dst |-> "k0", b |-> r, pre |-> 0, post |-> n % 5],
          [op |-> "master", dst |-> "k1", b |-> Hex(Zeros(n)), pre |-> 3, post |-> 0],
          [op |-> "master", dst |-> "k2", b |-> Hex([i \in 1..n |-> 255]), pre |-> 0, post |-> 0],
          [op |-> "root", dst |-> "k3", t |-> Hex(Utf8(r))],
          [op |-> "root", dst |-> "k4", t |-> Hex([i \in 1..(2 * n) |-> IF Utf8(r)[i] >= 97 THEN Utf8(r)[i] - 32 ELSE Utf8(r)[i]])],
          [op |-> "root", dst |-> "k5", t |-> Hex([i \in 1..(2 * n) |-> IF Utf8(r)[i] >= 97 /\ i % 3 = 0 THEN Utf8(r)[i] - 32 ELSE Utf8(r)[i]])],
          [op |-> "root", dst |-> "k5", t |-> Hex(Utf8(r) \o <<48>>)],
          [op |-> "root", dst |-> "k5", t |-> Hex(Utf8("0x" \o r))],
          [op |-> "root", dst |-> "k5", t |-> Hex(Utf8(" " \o r))],
          [op |-> "root", dst |-> "k5", t |-> Hex(Utf8(r \o "\n"))],
          [op |-> "root", dst |-> "k5", t |-> Hex(Utf8(r \o "g0"))],
          [op |-> "root", dst |-> "k5", t |-> Hex([i \in 1..(2 * n) |-> IF i = 1 + (n % 7) THEN 103 ELSE Utf8(r)[i]])],
          [op |-> "master", dst |-> "k6", b |-> r, pre |-> 0, post |-> 0],
          [op |-> "root", dst |-> "k7", t |-> Hex(Utf8(Hex(Zeros(n))))]>>]
    \o [j \in 1..(20 * Size) |-> [m \in 1..20 |-> LET z == Unhex(Rnd("c01" \o S(j) \o "x" \o S(m), 2)) n == (z[1] % 80) r == Rnd("c01r" \o S(j) \o "x" \o S(m), n) IN
            IF m % 2 = 0 THEN [op |-> "master", dst |-> "k" \o S(m % 8), b |-> r, pre |-> z[2] % 3, post |-> z[2] % 4]
            ELSE [op |-> "root", dst |-> "k" \o S(m % 8), t |-> Hex(Utf8(r))]]]
    \* masters with short numbers
    \o <<LET X == SetToSeq(ShortMasters) IN Cat([j \in DOMAIN X |-> LET b == Rep("00", 12) \o X[j] IN <<[op |-> "master", dst |-> "k0", b |-> b], [op |-> "root", dst |-> "k1", t |-> Hex(Utf8(b))]>>])>>
    \* seeds that differ in little
    \o [j \in 1..(6 + Size) |-> LET n == <<16, 32, 64, 20, 129, 200>>[(j % 6) + 1] b == Unhex(Rnd("c01t" \o S(j), n))
                                    X == <<b, Flip(b, n, 1), b, Flip(b, 1, 1), Flip(b, n \div 2, 128), SubSeq(b, 1, n - 1), Append(b, 0), <<0>> \o b, b \o b, Tail(b), Append(SubSeq(b, 1, n - 1), 0), b>>
                                IN  Cat([m \in DOMAIN X |-> <<[op |-> "master", dst |-> "k0", b |-> Hex(X[m])], [op |-> "root", dst |-> "k1", t |-> Hex(Utf8(Hex(X[m])))]>>])]

\* C02: every boundary number below every systematic parent, and special children of the special master
SpecialChildren(op) == LET X == SetToSeq(ShortScalarHard \cup ShortOtherHard \cup ShortScalarSoft \cup ShortOtherSoft \cup ShortXSoft \cup ShortYSoft)
    IN  <<[op |-> "master", dst |-> "k0", b |-> SpecialSeed]>> \o
        Cat([j \in DOMAIN X |-> <<ChildX("k0", "k1", X[j])>> \o op \o <<Child("k1", "k2", <<0,0,0,5>>), Child("k1", "k2", <<128,0,0,5>>)>>])
C02Plan ==
    [j \in DOMAIN PrvParents |-> <<Load("k0", PrvParents[j])>> \o
        LET X == IF j % 12 = 0 \/ Size > 3 THEN Nums ELSE Chunk(Nums, 4, j) IN Cat([m \in DOMAIN X |-> <<Child("k0", "k1", X[m])>>])]
    \o <<SpecialChildren(<<>>)>>
    \* parents that differ in one component, derived from one after the other
    \o [j \in 1..(6 + 2 * Size) |-> LET b == TwinBase("c02t" \o S(j), TRUE, j % 2 = 0) X == Twins(b) i == Pick("c02i" \o S(j), SoftNums) h == SetH(Pick("c02h" \o S(j), Nums)) IN
            <<Load("k0", b), Child("k0", "k1", i), Child("k0", "k2", h)>>
            \o Cat([m \in DOMAIN X |-> <<Load("k3", X[m]), Child("k3", "k4", i), Child("k3", "k5", h), Child("k3", "k6", SetH(i)), Child("k0", IF m % 2 = 0 THEN "k1" ELSE "k3", IF m % 3 = 0 THEN h ELSE i)>>])]
    \* the same variable, the same number, other contents
    \o [j \in 1..(4 + Size) |-> LET b == TwinBase("c02v" \o S(j), TRUE, j % 2 = 0) X == Twins(b) i == IF j % 3 = 0 THEN SetH(Pick("c02w" \o S(j), Nums)) ELSE Pick("c02w" \o S(j), SoftNums) IN
            <<Load("k0", b), Child("k0", "k1", i)>> \o Cat([m \in DOMAIN X |-> <<Load("k0", X[m]) @@ [re |-> TRUE], Child("k0", "k1", i), Load("k0", b) @@ [re |-> TRUE], Child("k0", "k1", i)>>])
            \o Cat([m \in 1..10 |-> LET o == <<0, 5, 13, 20, 28, 40, 44, 46, 60, 77>>[m] IN (IF o = 0 THEN <<SetVer("k0", Pick("c02z" \o S(j), Prvs), TRUE)>> ELSE <<[op |-> "poke", dst |-> "k0", off |-> o, x |-> 1]>>) \o <<Child("k0", "k1", i)>>])]
    \* a chain through all depths
    \o <<<<Load("k0", Master0(Scalars[7]))>> \o [m \in 1..254 |-> LET i == IF m % 2 = 0 THEN Nums[(m % Len(Nums)) + 1] ELSE U32(m) IN Child("k0", "k0", i) @@ [re |-> m % 3 = 0]]>>

\* C03: public keys reached along every split of a path
Route(label, k, n) ==      \* from private k: neuter after m private steps, for all m in 0..n
    LET i(m) == IF m % 2 = 0 THEN Pick(label \o "a" \o S(m), SoftNums) ELSE LET r == Unhex(Rnd(label \o "b" \o S(m), 4)) IN ClearH(r)
    IN  <<Load("k0", k), [op |-> "copy", src |-> "k0", dst |-> "k1"]>> \o
        Cat([m \in 1..(n + 1) |->
            \* k1 is the private key after m - 1 steps
            <<Neut("k1", "k2")>> \o Cat([x \in 1..(n + 1 - m) |-> <<Child("k2", "k2", i(m - 1 + x))>>])
            \o (IF m <= n THEN <<Child("k2", "k3", <<128,0,0,m>>), Child("k1", "k1", i(m))>> ELSE <<Neut("k2", "k4")>>)])
\* the public counterpart of k read from its serialised form, derived next to the private route
Foreign(label, k) ==
    <<Load("k0", k), Deser(Wrap(AsPub(k)), "k1"), Load("k2", AsPub(k))>> \o
    Cat([m \in 1..4 |-> LET i == Pick(label \o S(m), SoftNums) IN
        <<Child("k0", "k3", i), Neut("k3", "k4"), Child("k1", "k5", i), Child("k2", "k6", i), Child("k1", "k7", SetH(i)),
          Child("k5", "k5", U32(m)), Child("k3", "k3", U32(m)), Neut("k3", "k3"), Child("k6", "k6", U32(m))>>])
C03Plan ==
    [j \in DOMAIN PrvParents |-> IF j % 2 = 0 THEN Foreign("f" \o S(j), PrvParents[j]) ELSE Route("r" \o S(j), PrvParents[j], 1 + (j % 4))]
    \o [j \in 1..(15 * Size) |-> Route("q" \o S(j), RKey("c03" \o S(j), TRUE), 1 + (j % 6))]
    \o <<LET X == SetToSeq(ShortScalarSoft \cup ShortOtherSoft \cup ShortXSoft \cup ShortYSoft) IN
         <<[op |-> "master", dst |-> "k0", b |-> SpecialSeed], Neut("k0", "k1")>> \o
         Cat([j \in DOMAIN X |-> <<ChildX("k0", "k2", X[j]), Neut("k2", "k3"), ChildX("k1", "k4", X[j]), Child("k4", "k5", <<0,0,0,9>>), Child("k2", "k6", <<0,0,0,9>>), Neut("k6", "k7")>>])>>
    \* keys that differ in one component
    \o [j \in 1..(5 + Size) |-> LET b == TwinBase("c03t" \o S(j), FALSE, j % 2 = 0) X == Twins(b) p == TwinBase("c03t" \o S(j), TRUE, j % 2 = 0) Y == Twins(p) i == Pick("c03i" \o S(j), SoftNums) IN
            <<Load("k0", b), Load("k1", p), Child("k0", "k2", i), Child("k1", "k3", i), Neut("k3", "k4")>>
            \o Cat([m \in DOMAIN X |-> <<Load("k3", X[m]), Child("k3", "k4", i), Child("k3", "k4", SetH(i)), Child("k0", "k2", i), Load("k5", Y[m]), Neut("k5", "k6"), Child("k6", "k6", i), Child("k5", "k5", i), Neut("k5", "k5")>>])]
    \* hardened children of public keys, every boundary
    \o [j \in 1..8 |-> <<Load("k0", RKey("c03h" \o S(j), FALSE))>> \o Cat([m \in DOMAIN Nums |-> IF HBit(Nums[m]) THEN <<Child("k0", "k1", Nums[m])>> ELSE <<>>])]

Look == <<Get("isprv", "k0"), Get("prvhex", "k0"), Get("pubhex", "k0"), Neut("k0", "k1"), Get("isprv", "k1"), Get("prvhex", "k1"), Get("pubhex", "k1"), Neut("k1", "k2"), Get("isprv", "k2"), Get("pubhex", "k2")>>
C04Plan ==
    [j \in DOMAIN PrvParents |-> <<Load("k0", PrvParents[j])>> \o Look \o <<Load("k0", Unregistered(PrvParents[j]))>> \o Look]
    \o [j \in 1..(20 * Size) |-> <<Load("k0", RKey("c04" \o S(j), j % 2 = 0))>> \o Look]
    \o [j \in 1..(5 + Size) |-> LET b == TwinBase("c04t" \o S(j), j % 3 # 0, j % 2 = 0) X == Twins(b) IN
            <<Load("k3", b)>> \o Cat([m \in DOMAIN X |-> <<Load("k0", X[m])>> \o Look \o <<[op |-> "copy", src |-> "k3", dst |-> "k0"]>> \o Look])]
    \o [j \in DOMAIN Pubs |-> <<Load("k0", Pubs[j] \o SubSeq(RKey("c04p" \o S(j), FALSE), 5, 78))>> \o Look]
    \o [d \in 1..16 |-> Cat([m \in 1..16 |-> LET b == RKey("c04d" \o S(m), TRUE) IN
            <<Load("k0", [b EXCEPT ![5] = 16 * (d - 1) + m - 1, ![6] = 1])>> \o <<Neut("k0", "k1"), Get("pubhex", "k0")>>])]

Whole == <<Get("fields", "k0"), [op |-> "ser", src |-> "k0", dst |-> "b0"], Get("b58", "k0"), Get("string", "k0"),
           [op |-> "deser", src |-> "b0", dst |-> "k1"], [op |-> "b58round", src |-> "k0", dst |-> "k2"], Get("valid", "k0")>>
Checked == LET X == SetToSeq(ShortCheck) IN [j \in DOMAIN X |-> Key(RDefaultPrv, 0, Zeros(4), Zeros(4), Zeros(32), Prv(Num32(X[j])))]
C05Plan ==
    [j \in DOMAIN PrvParents |-> <<Load("k0", PrvParents[j])>> \o Whole \o <<Load("k0", AsPub(PrvParents[j]))>> \o Whole
        \o <<SetVer("k0", Prvs[(j % Len(Prvs)) + 1], TRUE), Get("fields", "k0"), SetVer("k0", OddVersions[(j % Len(OddVersions)) + 1], FALSE), Get("fields", "k0")>> \o Whole]
    \o [j \in 1..(20 * Size) |-> <<Load("k0", RKey("c05" \o S(j), j % 2 = 0))>> \o Whole \o <<SetVer("k0", Unhex(Rnd("c05v" \o S(j), 4)), j % 3 = 0)>> \o Whole]
    \o [j \in 1..(5 + Size) |-> LET b == TwinBase("c05t" \o S(j), j % 3 # 0, j % 2 = 0) X == Twins(b) IN
            <<Load("k3", b)>> \o Cat([m \in DOMAIN X |-> <<Load("k0", X[m])>> \o Whole \o (IF m % 4 = 0 THEN <<[op |-> "copy", src |-> "k3", dst |-> "k0"]>> \o Whole ELSE <<>>)])]
    \* leading zero bytes become leading ones
    \o [j \in 1..8 |-> LET b == RKey("c05z" \o S(j), j % 2 = 0) z == j % 5 IN
          <<Load("k0", [i \in 1..78 |-> IF i <= z THEN 0 ELSE b[i]])>> \o Whole]
    \* no key at all, and keys that have one byte only
    \o <<Whole \o <<Load("k0", RKey("c05e", TRUE))>> \o Whole \o <<Load("k0", Zeros(78))>> \o Whole \o <<Neut("k0", "k1"), SetVer("k0", RDefaultPrv, TRUE)>> \o Whole,
         Cat([j \in 1..78 |-> <<Load("k0", [Zeros(78) EXCEPT ![j] = 1 + (j % 255)]), Get("b58", "k0"), Get("fields", "k0")>>]) \o <<Load("k0", Zeros(78))>> \o Whole>>
    \* checksums that start or end with zeros
    \o <<Cat([j \in DOMAIN Checked |-> <<Load("k0", Checked[j])>> \o Whole])>>
    \* every depth
    \o [d \in 1..16 |-> Cat([m \in 1..16 |-> LET b == RKey("c05d" \o S(m), m % 2 = 0) IN
            <<Load("k0", [b EXCEPT ![5] = 16 * (d - 1) + m - 1, ![6] = IF d = 1 /\ m = 1 THEN 0 ELSE 1])>> \o Whole])]

\* C06: inputs of every length, every corrupted byte or character, illegal content under a correct checksum
Bads(L) ==
    LET p == RKey(L \o "p", TRUE) q == RKey(L \o "q", FALSE) f == Unhex("01020304") IN
    << [i \in 1..78 |-> IF i >= 47 THEN 0 ELSE p[i]],                                   \* scalar 0
       SubSeq(p, 1, 46) \o N, SubSeq(p, 1, 46) \o Tail(Plus(N, Num32(1))), SubSeq(p, 1, 46) \o [i \in 1..32 |-> 255],
       SubSeq(p, 1, 46) \o Minus(N, Num32(1)), SubSeq(p, 1, 46) \o Num32(1),            \* legal ones
       [p EXCEPT ![46] = 1], [p EXCEPT ![46] = 4], [p EXCEPT ![46] = 5], [p EXCEPT ![46] = 128], [p EXCEPT ![46] = 255],
       [q EXCEPT ![46] = 4], [q EXCEPT ![46] = 6], [q EXCEPT ![46] = 7], [q EXCEPT ![46] = 5 - @],
       SubSeq(q, 1, 46) \o Zeros(32), SubSeq(q, 1, 46) \o Num32(5), SubSeq(q, 1, 46) \o Num32(1), SubSeq(q, 1, 46) \o [i \in 1..32 |-> 255],
       SubSeq(q, 1, 46) \o Unhex(Rnd(L \o "x1", 32)), SubSeq(q, 1, 46) \o Unhex(Rnd(L \o "x2", 32)), SubSeq(q, 1, 46) \o Unhex(Rnd(L \o "x3", 32)),
       RPair[SubSeq(p, 1, 4)] \o SubSeq(p, 5, 78), RDefaultPrv \o SubSeq(q, 5, 78),    \* wrong kind of version
       Pick(L \o "w", Pubs) \o SubSeq(p, 5, 78), Pick(L \o "y", Prvs) \o SubSeq(q, 5, 78),
       OddVersions[1] \o SubSeq(p, 5, 78), OddVersions[2] \o SubSeq(q, 5, 78), OddVersions[5] \o SubSeq(q, 5, 78),
       Key(SubSeq(p, 1, 4), 0, f, Zeros(4), Codes[4], SubSeq(p, 46, 78)), Key(SubSeq(p, 1, 4), 0, Zeros(4), f, Codes[4], SubSeq(p, 46, 78)),
       Key(SubSeq(q, 1, 4), 0, <<0,0,0,1>>, Zeros(4), Codes[4], SubSeq(q, 46, 78)), Key(SubSeq(q, 1, 4), 0, Zeros(4), <<128,0,0,0>>, Codes[4], SubSeq(q, 46, 78)),
       Key(SubSeq(p, 1, 4), 0, Zeros(4), Zeros(4), Codes[4], SubSeq(p, 46, 78)), Key(SubSeq(q, 1, 4), 0, Zeros(4), Zeros(4), Codes[1], SubSeq(q, 46, 78)),
       Key(SubSeq(p, 1, 4), 255, f, f, Codes[4], SubSeq(p, 46, 78)), Key(SubSeq(q, 1, 4), 1, Zeros(4), Zeros(4), Codes[4], SubSeq(q, 46, 78)),
       Zeros(78), [i \in 1..78 |-> 255]>>
\* x coordinates not below the field prime
PrimeP == Unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
HighX(L) == LET q == RKey(L, FALSE) IN [j \in 0..12 |-> SubSeq(q, 1, 46) \o Tail(Plus(PrimeP, Num32(j)))]
Text(b) == B58Encode(Wrap(b))
C06Plan ==
    [j \in 1..(3 + 3 * Size) |-> Cat([m \in DOMAIN Bads("c06" \o S(j)) |-> LET b == Bads("c06" \o S(j))[m] IN <<Deser(Wrap(b), "k0"), B58De(Text(b), "k1"), Load("k2", b), Get("valid", "k2")>>])]
    \o <<Cat([m \in 1..13 |-> LET b == HighX("c06hx")[m - 1] IN <<Deser(Wrap(b), "k0"), B58De(Text(b), "k1")>>])>>
    \* lengths: prefixes, extensions, zeros, and the right checksum at the end of too long or too short contents
    \o [j \in 1..4 |-> LET w == Wrap(RKey("c06l" \o S(j), j % 2 = 0)) IN
          ZeroTo(200, LAMBDA m : Deser(IF m <= 82 THEN SubSeq(w, 1, m) ELSE w \o [i \in 1..(m - 82) |-> (i * j) % 256], "k0"))]
    \o <<ZeroTo(120, LAMBDA m : LET c == Unhex(Rnd("c06c" \o S(m), m)) IN Deser(Wrap(c), "k0")),
         ZeroTo(120, LAMBDA m : LET c == IF m <= 78 THEN SubSeq(RKey("c06t", TRUE), 1, m) ELSE RKey("c06t", TRUE) \o Zeros(m - 78) IN B58De(B58Encode(Wrap(c)), "k0")),
         ZeroTo(120, LAMBDA m : Deser(Zeros(m), "k0")),
         ZeroTo(40, LAMBDA m : LET w == Wrap(RKey("c06m", m % 2 = 0)) IN Deser(SubSeq(w, 83 - (2 * m), 82), "k0"))>>
    \o <<Cat([j \in DOMAIN Checked |-> LET w == Wrap(Checked[j]) IN <<Deser(w, "k0"), B58De(B58Encode(w), "k1"), Deser([w EXCEPT ![79] = (@ + 1) % 256], "k0"), Deser([w EXCEPT ![82] = (@ + 1) % 256], "k0"), Deser(SubSeq(w, 1, 78), "k0"), Deser(SubSeq(w, 1, 81), "k0"), Deser(Append(w, 0), "k0")>>])>>
    \* a legal key, then the same point in other clothes, and back
    \o [j \in 1..(4 + Size) |-> LET q == TwinBase("c06o" \o S(j), FALSE, j % 2 = 0) p == TwinBase("c06o" \o S(j), TRUE, j % 2 = 0)
                                    X == <<[q EXCEPT ![46] = 4], [q EXCEPT ![46] = 5 - @], [q EXCEPT ![46] = 1], [q EXCEPT ![46] = 0], [q EXCEPT ![46] = @ + 4], [q EXCEPT ![46] = 255], SubSeq(p, 1, 4) \o SubSeq(q, 5, 78),
                                           [p EXCEPT ![46] = 1], [p EXCEPT ![46] = 2], [p EXCEPT ![46] = 4], [p EXCEPT ![46] = 255], SubSeq(q, 1, 4) \o SubSeq(p, 5, 78),
                                           SubSeq(q, 1, 4) \o <<0, 0, 0, 0, 1>> \o SubSeq(q, 10, 78), SubSeq(p, 1, 4) \o <<0, 0, 0, 0, 1>> \o SubSeq(p, 10, 78), SubSeq(q, 1, 4) \o Zeros(8) \o <<1>> \o SubSeq(q, 14, 78),
                                           SubSeq(p, 1, 46) \o N, SubSeq(p, 1, 46) \o Zeros(32), SubSeq(q, 1, 46) \o Zeros(32), SubSeq(q, 1, 46) \o Num32(5)>> IN
            Cat([m \in DOMAIN X |-> <<Deser(Wrap(q), "k0"), Deser(Wrap(X[m]), "k1"), B58De(Text(p), "k0"), B58De(Text(X[m]), "k1"), Deser(Wrap(p), "k0"), Deser(Wrap(X[m]), "k1"), Load("k2", X[m]), Get("valid", "k2")>>])]
    \* what was read before does not matter: keys that differ in one component, right and wrong checksums
    \o [j \in 1..(4 + Size) |-> LET b == TwinBase("c06t" \o S(j), j % 2 = 0, j % 3 # 0) X == Twins(b) s == Double256(b) IN
            <<Deser(Wrap(b), "k0"), B58De(Text(b), "k1")>>
            \o Cat([m \in DOMAIN X |-> <<Deser(X[m] \o s, "k0"), B58De(B58Encode(X[m] \o s), "k1"), Deser(Wrap(X[m]), "k0"), B58De(Text(X[m]), "k1"), Deser(X[m] \o s, "k0"), Deser(b \o Double256(X[m]), "k0"), Deser(b \o s, "k0")>>])]
    \* checksums wrong in several bytes at once
    \o [j \in 1..4 |-> LET w == Wrap(RKey("c06s" \o S(j), j % 2 = 0)) x == 1 + ((37 * j) % 255) IN
            Cat([m \in 1..14 |-> LET Z == <<<<79, 80>>, <<79, 81>>, <<79, 82>>, <<80, 81>>, <<80, 82>>, <<81, 82>>, <<79, 80, 81>>, <<80, 81, 82>>, <<79, 81, 82>>, <<79, 80, 82>>, <<79, 80, 81, 82>>, <<79>>, <<1, 82>>, <<78, 79>>>>[m] IN
                <<Deser(FoldLeft(LAMBDA a, i : Flip(a, i, x), w, Z), "k0"), Deser(FoldLeft(LAMBDA a, i : [a EXCEPT ![i] = (@ + 128) % 256], w, Z), "k0"),
                  Deser(SubSeq(w, 1, 78) \o <<w[80], w[79], w[82], w[81]>>, "k0"), Deser(SubSeq(w, 1, 78) \o <<w[82], w[81], w[80], w[79]>>, "k0"), B58De(B58Encode(FoldLeft(LAMBDA a, i : Flip(a, i, m), w, Z)), "k0")>>])]
    \* every byte corrupted, in one or several bits, then every checksum byte
    \o [j \in 1..4 |-> LET w == Wrap(RKey("c06b" \o S(j), j % 2 = 0)) IN
          Cat([m \in 1..82 |-> Cat([x \in 1..3 |-> LET y == <<1, 128, 1 + ((m * j) % 255)>>[x] IN <<Deser([w EXCEPT ![m] = (@ + y) % 256], "k0")>>])])]
    \* texts: every character replaced, removed, doubled, neighbours swapped, foreign characters, surrounding blanks
    \o [j \in 1..4 |-> LET t == Text(RKey("c06x" \o S(j), j % 2 = 0)) n == Len(t) IN
          Cat([m \in 1..n |-> <<B58De([t EXCEPT ![m] = B58Alphabet[((B58Digit[@] + 1 + ((m * j) % 56)) % 58) + 1]], "k0"),
                                B58De(SubSeq(t, 1, m - 1) \o SubSeq(t, m + 1, n), "k0"),
                                B58De(SubSeq(t, 1, m) \o SubSeq(t, m, n), "k0"),
                                B58De(IF m < n THEN [t EXCEPT ![m] = t[m + 1], ![m + 1] = t[m]] ELSE t, "k0"),
                                B58De([t EXCEPT ![m] = <<48, 73, 79, 108, 32, 10, 195, 255, 0, 43, 47>>[(m % 11) + 1]], "k0"),
                                B58De(SubSeq(t, 1, m - 1) \o <<32>> \o SubSeq(t, m, n), "k0")>>])
          \o <<B58De(t, "k0"), B58De(<<49>> \o t, "k0"), B58De(<<49, 49, 49>> \o t, "k0"), B58De(t \o <<49>>, "k0"), B58De(<<32>> \o t, "k0"), B58De(t \o <<10>>, "k0"), B58De(t \o t, "k0"),
               B58De(<<>>, "k0"), B58De(<<49>>, "k0"), B58De([i \in 1..82 |-> 49], "k0"), B58De([i \in 1..111 |-> 49], "k0"), B58De([i \in 1..112 |-> 122], "k0"), B58De(<<0>>, "k0")>>]

\* C07: hardened children of public keys, depth 255, unregistered versions or versions of the other kind
C07Plan ==
    [j \in DOMAIN PrvParents |-> LET b == PrvParents[j] q == AsPub(b) X == Chunk(Nums, 8, j) IN
        Cat([m \in DOMAIN X |->
           <<Load("k0", [b EXCEPT ![5] = 255, ![6] = 1]), Child("k0", "k1", X[m]), Load("k0", [q EXCEPT ![5] = 255, ![6] = 1]), Child("k0", "k1", X[m]),
             Load("k0", [b EXCEPT ![5] = 254, ![6] = 1]), Child("k0", "k1", X[m]), Child("k1", "k2", X[m]), Neut("k1", "k3"), Child("k3", "k4", ClearH(X[m])),
             Load("k0", q), Child("k0", "k1", SetH(X[m])), Child("k0", "k1", ClearH(X[m])), Child("k1", "k1", SetH(X[m])),
             Load("k0", Unregistered(b)), Child("k0", "k1", X[m]), Load("k0", Unregistered(q)), Child("k0", "k1", ClearH(X[m])),
             Load("k0", SubSeq(q, 1, 4) \o SubSeq(b, 5, 78)), Child("k0", "k1", X[m]), Load("k0", SubSeq(b, 1, 4) \o SubSeq(q, 5, 78)), Child("k0", "k1", ClearH(X[m])),
             Load("k0", SubSeq(q, 1, 4) \o SubSeq(b, 5, 78)), Child("k0", "k1", SetH(X[m]))>>])]
    \o [j \in DOMAIN Prvs |-> LET b == RKey("c07v" \o S(j), TRUE) q == AsPub(b) IN
        Cat([m \in 1..Len(Prvs) |-> <<Load("k0", Pubs[m] \o SubSeq(b, 5, 78)), Child("k0", "k1", Nums[((7 * m + j) % Len(Nums)) + 1]),
                                      Load("k0", Prvs[m] \o SubSeq(q, 5, 78)), Child("k0", "k1", ClearH(Nums[((5 * m + j) % Len(Nums)) + 1])),
                                      Load("k0", Prvs[m] \o SubSeq(b, 5, 78)), Child("k0", "k1", Nums[((3 * m + j) % Len(Nums)) + 1]),
                                      Load("k0", [Prvs[m] EXCEPT ![4] = (@ + j) % 256] \o SubSeq(b, 5, 78)), Child("k0", "k1", Nums[((3 * m + j) % Len(Nums)) + 1]),
                                      Load("k0", [Pubs[m] EXCEPT ![1 + (j % 4)] = (@ + 1 + j) % 256] \o SubSeq(q, 5, 78)), Child("k0", "k1", ClearH(Nums[((3 * m + j) % Len(Nums)) + 1]))>>])]
    \* a derivation that works, then one from nearly the same key that must not
    \o [j \in 1..(6 + Size) |-> LET b == TwinBase("c07t" \o S(j), j % 2 = 0, TRUE) i == Pick("c07i" \o S(j), SoftNums) n == SubSeq(b, 5, 78)
                                    X == <<[b EXCEPT ![5] = 255], OddVersions[(j % 6) + 1] \o n, IF j % 2 = 0 THEN Pubs[(j % 13) + 1] \o n ELSE Prvs[(j % 13) + 1] \o n>> IN
            Cat([m \in DOMAIN X |-> <<Load("k0", b), Child("k0", "k1", i), Load("k0", X[m]), Child("k0", "k1", i), Child("k0", "k1", SetH(i)), Load("k0", b), Child("k0", "k1", SetH(i)), Load("k2", X[m]), Child("k2", "k1", SetH(i)), Load("k2", AsPub(RKey("c07u" \o S(j), TRUE))), Child("k2", "k1", SetH(i))>>])]
    \* walking down through every depth and beyond, privately and publicly
    \o [j \in 1..3 |-> <<Load("k0", IF j = 3 THEN AsPub(Master0(Scalars[9])) ELSE Master0(Scalars[8 + j]))>> \o
          [m \in 1..260 |-> Child("k0", "k0", IF j = 1 /\ m % 2 = 0 THEN SetH(U32(m)) ELSE U32(m * j)) @@ [re |-> m % 2 = 0]]]

\* C25: what must be rejected, what must not be derived, seeds, scalars
BadScalars == <<N, Tail(Plus(N, Num32(1))), Minus(N, Num32(1)), <<255>> \o Zeros(31), Tail(Plus(N, Num32(65536)))>>
ScalarOp(b) == [op |-> "validprv", b |-> Hex(b)]
C25Plan == SelectSeq([j \in DOMAIN C06Plan |-> IF Size >= 10 \/ (j + Seed) % 3 = 0 THEN C06Plan[j] ELSE <<>>], LAMBDA s : s # <<>>)
    \o SelectSeq([j \in DOMAIN C07Plan |-> IF Size >= 10 \/ (j + Seed) % 3 = 0 \/ j > Len(C07Plan) - 4 THEN C07Plan[j] ELSE <<>>], LAMBDA s : s # <<>>)
    \o [j \in DOMAIN SeedLens |-> LET n == SeedLens[j] r == Utf8(Rnd("c25s" \o S(j), n)) ro(t) == [op |-> "root", dst |-> "k3", t |-> Hex(t)] IN
            <<ro(r), ro(Append(r, 48)), ro(<<32>> \o r), ro(r \o Utf8("g0")), ro(r \o Utf8("zz")), ro([i \in DOMAIN r |-> IF i = 1 + (n % 7) THEN 103 ELSE r[i]])>>]
    \o <<<<[op |-> "ser", src |-> "k0", dst |-> "b0"], Load("k1", RKey("c25k", TRUE)), [op |-> "ser", src |-> "k1", dst |-> "b0"], Load("k1", Zeros(78)), [op |-> "ser", src |-> "k1", dst |-> "b0"],
           Load("k1", [Zeros(78) EXCEPT ![78] = 1]), [op |-> "ser", src |-> "k1", dst |-> "b0"], Load("k1", [Zeros(78) EXCEPT ![1] = 1]), [op |-> "ser", src |-> "k1", dst |-> "b1"]>>,
         <<ScalarOp(Zeros(32)), ScalarOp([Zeros(32) EXCEPT ![32] = 1]), ScalarOp([i \in 1..32 |-> 255])>> \o [j \in DOMAIN Scalars |-> ScalarOp(Scalars[j])] \o [j \in DOMAIN BadScalars |-> ScalarOp(BadScalars[j])]>>

Plan == CASE Prop = "C01" -> C01Plan [] Prop = "C02" -> C02Plan [] Prop = "C03" -> C03Plan [] Prop = "C04" -> C04Plan
          [] Prop = "C05" -> C05Plan [] Prop = "C06" -> C06Plan [] Prop = "C07" -> C07Plan [] Prop = "C25" -> C25Plan [] OTHER -> <<>>
ASSUME EmitAll(0, Plan)

\* ------------------------------------------------------------------ simulated sessions
VARIABLES kind,      \* slot -> "none", "prv" or "pub"
          hist,      \* the calls so far
          run,       \* number of this behaviour
          done       \* it is complete
gvars == <<kind, hist, run, done>>
Names == {"k0", "k1", "k2", "k3", "k4", "k5"}
Live == {n \in Names : kind[n] # "none"}
Lab == "run" \o S(run) \o "step" \o S(Len(hist))

Do(call, d, k) == /\ hist' = Append(hist, call)
                  /\ kind' = IF d = "" THEN kind ELSE [kind EXCEPT ![d] = k]
                  /\ run' = run
Re(call) == call @@ [re |-> RandomElement({TRUE, FALSE})]

GLoad == \E d \in One(Names), p \in One({TRUE, FALSE}) : Do(Re(Load(d, RKey(Lab, p))), d, IF p THEN "prv" ELSE "pub")
GMaster == \E d \in One(Names), n \in One({16, 32, 64, 5}), x \in One(0..3) :
              Do([op |-> "master", dst |-> d, b |-> Rnd("m" \o S(x), n)], d, "prv")
GChild == \E s \in One(Live), d \in One(Names), i \in One(DOMAIN Nums) : Do(Re(Child(s, d, Nums[i])), d, kind[s])
GChildNear == \E s \in One(Live), d \in One(Names), i \in One(0..2), h \in One({TRUE, FALSE}) :
              Do(Re(Child(s, d, IF h THEN SetH(U32(i)) ELSE U32(i))), d, kind[s])
GNeuter == \E s \in One(Live), d \in One(Names) : Do(Re(Neut(s, d)), d, "pub")
GCopy == \E s \in One(Live), d \in One(Names) : Do(Re([op |-> "copy", src |-> s, dst |-> d]), d, kind[s])
\* change one byte of a key so that it stays legal: depth .. chain code, low scalar bytes, the sign of a point
GPoke == \E n \in One(Live), off \in One(4..44), x \in One(1..255), a \in One(1..4) :
              IF a = 4 THEN (IF kind[n] = "pub" THEN Do([op |-> "poke", dst |-> n, off |-> 45, x |-> 1], "", "")
                             ELSE Do([op |-> "poke", dst |-> n, off |-> 60 + (off % 18), x |-> x], "", ""))
              ELSE Do([op |-> "poke", dst |-> n, off |-> off, x |-> x], "", "")
GVer == \E n \in One(Live), v \in One(1..13), a \in One({TRUE, FALSE}) : Do(SetVer(n, IF kind[n] = "prv" THEN Prvs[v] ELSE Pubs[v], a), "", "")
GLook == \E n \in One(Live), a \in One(DOMAIN Accessors) : Do(Get(Accessors[a], n), "", "")
GSer == \E n \in One(Live), b \in One({"b0", "b1"}) : Do([op |-> "ser", src |-> n, dst |-> b], "", "")
GRound == \E s \in One(Live), d \in One(Names) : Do(Re([op |-> "b58round", src |-> s, dst |-> d]), d, kind[s])
\* do again what was done before
GAgain == hist # <<>> /\ \E c \in One(DOMAIN hist) : LET e == hist[c] IN
              Do(e, IF "dst" \in DOMAIN e /\ e.op # "ser" THEN e.dst ELSE "", IF "dst" \in DOMAIN e /\ e.op # "ser" THEN (IF e.op \in {"neuter"} THEN "pub" ELSE IF kind[e.dst] = "none" THEN "prv" ELSE kind[e.dst]) ELSE "")

GInit == kind = [n \in Names |-> "none"] /\ hist = <<>> /\ run = 0 /\ done = FALSE
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<kind, hist, done>>
         ELSE IF Len(hist) < Depth
         THEN /\ IF Live = {} THEN GLoad \/ GMaster
                 ELSE GLoad \/ GMaster \/ GChild \/ GChildNear \/ GNeuter \/ GCopy \/ GPoke \/ GVer \/ GLook \/ GSer \/ GRound \/ GAgain
              /\ done' = done
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<kind, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
