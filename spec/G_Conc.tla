------------------------------- MODULE G_Conc -------------------------------
(***************************************************************************)
(* Plans for concurrency: goroutines make the same call on a shared        *)
(* object, the same call on different objects, or mixtures of all calls,   *)
(* and change their own results while the others go on.                    *)
(***************************************************************************)
EXTENDS CallPool

Threads == 8
\* ------------------------------------------------------------------ what is shared
KeyNames == <<"k0", "k1", "k2", "k3">>
BufNames == <<"b0", "b1", "b2", "b3", "b4">>
Shared(L) == <<Load("k0", Master0(Pick(L \o "m", Scalars))), Load("k1", RKey(L \o "1", TRUE)), Load("k2", RKey(L \o "2", FALSE)), Load("k3", Pick(L \o "3", <<RKey(L \o "4", TRUE), Zeros(78), Unregistered(RKey(L \o "4", TRUE)), RKey(L \o "5", FALSE)>>)),
               GSet("g0", "k0"), GSet("g1", "k1"), GSet("g2", "k2")>>
             \o [j \in DOMAIN BufNames |-> [op |-> "buf", dst |-> BufNames[j], b |-> Hex(Contents(L)[<<1, 2, 3, 6, 4>>[j]]), pre |-> j % 3, post |-> Posts[j * 2]]]
Listed(L) == IF RndInt(L \o "wl", 4) = 0 THEN <<[op |-> "wl", name |-> Pick(L \o "wn", <<"spanish", "japanese", "made", "czech", "english">>), name2 |-> "", each |-> 0, rot |-> 0, rev |-> FALSE]>> ELSE <<>>

\* ------------------------------------------------------------------ units of work
\* unit u with argument label A, on shared objects chosen by O, making objects whose names end in Z
NKey == 14
NByte == 6
NText == 16
NOther == 14
Units == NKey + NByte + NText + NOther
Name(d, Z) == IF d = "" THEN "" ELSE d \o Z
Unit(u, A, O, Z) ==
    IF u <= NKey THEN LET X == KeyCall(Pick(A, SoftNums), u) IN <<To([src |-> Pick(O, KeyNames)] @@ X[1], Name(X[2], Z))>>
    ELSE IF u <= NKey + NByte THEN LET X == ByteCall(u - NKey) IN <<To([op |-> X[1], src |-> Pick(O, IF X[1] = "enc" THEN <<"b2", "b4">> ELSE BufNames)], Name(X[2], Z))>>
    ELSE IF u <= NKey + NByte + NText THEN LET X == TextCall(A, u - NKey - NByte) IN <<To(X[1], Name(X[2], Z))>>
    ELSE CASE u - (Units - NOther) = 1 -> <<GRoot(Pick(O, <<"g0", "g1">>))>>
           [] u - (Units - NOther) = 2 -> <<To(GDer(Pick(O, <<"g0", "g1">>), GPath(A)), "l" \o Z)>>
           [] u - (Units - NOther) = 3 -> <<To(GDer("g2", GPath(A)), "l" \o Z)>>
           [] u - (Units - NOther) = 4 -> LET i == Pick(A, SoftNums) IN <<RSet("r" \o Z, Pick(O, KeyNames), RPath(A, RndInt(A \o "n", 4), RndInt(A \o "h", 2)), i, Tail(Plus(i, U32(1 + RndInt(A \o "j", 6))))), RGen("r" \o Z), RGen("r" \o Z)>>
           [] u - (Units - NOther) = 5 -> <<Child(Pick(O, KeyNames), "k" \o Z, Pick(A, SoftNums)), Neut("k" \o Z, "k" \o Z \o "n"), Child("k" \o Z \o "n", "k" \o Z \o "c", Pick(A \o "2", SoftNums)), Get("addrhex", "k" \o Z \o "c") @@ [t |-> ""], Get("b58", "k" \o Z \o "n")>>
           [] u - (Units - NOther) = 6 -> <<[op |-> "expand", b |-> Hex(BaseMul(Pick(A, Scalars))), pre |-> 1, post |-> 2, spoil |-> TRUE]>>
           [] u - (Units - NOther) = 7 -> <<[op |-> "entropy", n |-> 128 + 32 * RndInt(A, 5)]>>
           [] u - (Units - NOther) = 8 -> <<[op |-> "newseed"]>>
           [] u - (Units - NOther) = 9 -> <<[op |-> "genmn", n |-> 12 + 3 * RndInt(A, 5)]>>
           [] u - (Units - NOther) = 10 -> <<[op |-> "widx", t |-> Hex(Pick(A, Eng))], [op |-> "widx", t |-> Hex(Cs("nowhere"))]>>
           [] u - (Units - NOther) = 11 -> <<[op |-> "coinmeth", type |-> Hex(Pick(A, Nums)), pc |-> Hex(Pick(A \o "p", Nums)), sym |-> "425443", name |-> "426974636f696e"]>>
           [] u - (Units - NOther) = 12 -> <<[op |-> "vermeth", t |-> Hex(RPath(A, 2, 2)), prv |-> Hex(Pick(A, Prvs)), pub |-> Hex(Pick(A, Pubs))]>>
           \* own results are changed by their owner
           [] u - (Units - NOther) = 13 -> <<[op |-> "master", b |-> Rnd(A, 16 + RndInt(A \o "n", 49)), pre |-> 0, post |-> 9, dst |-> "k" \o Z], Poke("k" \o Z, RndInt(A \o "o", 78), 1 + RndInt(A \o "x", 255)), Get("fields", "k" \o Z)>>
           [] OTHER -> <<[op |-> "ser", src |-> Pick(O, KeyNames), dst |-> "b" \o Z], Poke("b" \o Z, RndInt(A \o "o", 82), 1 + RndInt(A \o "x", 255)), [op |-> "addchecksum", src |-> "b" \o Z, dst |-> "b" \o Z \o "s"]>>
Slow(u) == u \in {NKey + NByte + 11, NKey + NByte + 12, NKey + NByte + 13}      \* PBKDF2

\* ------------------------------------------------------------------ sessions
Zn(n, j) == "t" \o S(n) \o "x" \o S(j)
By(n, rep, ops) == [i \in DOMAIN ops |-> [w |-> n, rep |-> rep] @@ ops[i]]
Join == <<[op |-> "join"]>>
Together(F(_), rep) == Cat([n \in 1..Threads |-> By(n, rep, F(n))]) \o Join
\* all do the same, on the same
Same(u, k) == LET L == "same" \o S(u) \o "x" \o S(k) IN Shared(L) \o Listed(L) \o Together(LAMBDA n : Cat([j \in 1..(IF Slow(u) THEN 1 ELSE 4) |-> Unit(u, L \o S(j), L \o S(j), Zn(n, j))]), IF Slow(u) THEN 0 ELSE Size)
\* all do the same, on something else
Other(u, k) == LET L == "oth" \o S(u) \o "x" \o S(k) IN Shared(L) \o Listed(L) \o Together(LAMBDA n : Cat([j \in 1..(IF Slow(u) THEN 1 ELSE 4) |-> Unit(u, L \o S(n) \o S(j), L \o S(n + j), Zn(n, j))]), IF Slow(u) THEN 0 ELSE Size)
\* many do the same, on the same: what is scarce runs out
Crowd(u, k) == LET L == "wide" \o S(u) \o "x" \o S(k) IN Shared(L) \o Together(LAMBDA n : LET X == Cat([j \in 1..2 |-> Unit(u, L \o S(j), L \o S(n + j), Zn(n, j))]) IN [i \in DOMAIN X |-> [fan |-> 15] @@ X[i]], IF Slow(u) THEN 0 ELSE 3)
\* they do this and that, in two rounds
Mixed(k) == LET L == "mix" \o S(k)
                f(r) == Together(LAMBDA n : Cat([j \in 1..10 |-> LET A == L \o S(r) \o "t" \o S(n) \o "x" \o S(j) IN Unit(RndInt(A \o "u", Units) + 1, IF RndInt(A \o "s", 2) = 0 THEN L \o S(j) ELSE A, A, Zn(n, j))]), 1)
            IN  Shared(L) \o Listed(L) \o f(1) \o f(2)
\* two operations against each other
Pair(k) == LET L == "pair" \o S(k) u == RndInt(L \o "u", Units) + 1 v == RndInt(L \o "v", Units) + 1
           IN  Shared(L) \o Together(LAMBDA n : Cat([j \in 1..(IF Slow(u) \/ Slow(v) THEN 2 ELSE 5) |-> Unit(IF n % 2 = 0 THEN u ELSE v, L \o S(n) \o S(j), L, Zn(n, j))]), IF Slow(u) \/ Slow(v) THEN 0 ELSE Size)

ASSUME EmitAll(0, Cat([k \in 1..Size |-> Cat([u \in 1..Units |-> <<Same(u, k), Other(u, k)>> \o (IF k % 3 = 1 THEN <<Crowd(u, k)>> ELSE <<>>)])]) \o [k \in 1..(30 * Size) |-> Mixed(k)] \o [k \in 1..(40 * Size) |-> Pair(k)])

VARIABLE done
GInit == done = FALSE
GNext == ~done /\ done' = TRUE
Emitted == TRUE
=============================================================================
