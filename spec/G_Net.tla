------------------------------- MODULE G_Net -------------------------------
(***************************************************************************)
(* Plans for the default network: choices of all kinds, and between them   *)
(* masters, children and neutered keys, the same ones again and new ones.  *)
(***************************************************************************)
EXTENDS KeyPool

Default(v, u, how) == [op |-> "setdefault", v |-> Hex(v), u |-> Hex(u), how |-> how]
Hows == <<"row", "own", "fields">>
Master1(d, b) == [op |-> "master", dst |-> d, b |-> b, pre |-> 0, post |-> 0]
Root1(d, b) == [op |-> "root", dst |-> d, t |-> Hex(Utf8(b))]
\* pairs: registered, mixed, unregistered on one side or both
Networks == [j \in DOMAIN Prvs |-> <<Prvs[j], RPair[Prvs[j]]>>]
            \o [j \in DOMAIN OddVersions |-> <<OddVersions[j], OddVersions[(j % Len(OddVersions)) + 1]>>]
            \o <<<<Prvs[1], RPair[Prvs[2]]>>, <<Prvs[3], OddVersions[5]>>, <<OddVersions[2], Pubs[4]>>, <<RDefaultPrv, Pubs[1]>>, <<Prvs[2], RDefaultPub>>, <<Zeros(4), Zeros(4)>>>>
Net(j) == Networks[((j - 1) % Len(Networks)) + 1]
\* a random pair that is not registered
Rnd4(j) == LET z == Unhex(Rnd("n9" \o S(j), 7)) IN <<<<IF z[1] = 4 \/ z[1] = 2 \/ z[1] = 1 THEN 9 ELSE z[1]>> \o SubSeq(z, 2, 4), <<IF z[1] % 2 = 0 THEN 7 ELSE 200>> \o SubSeq(z, 5, 7)>>
Mine == <<RDefaultPrv, RDefaultPub>>
Ask(b, i) == <<Master1("k0", b), Child("k0", "k1", i), Neut("k0", "k2"), Neut("k1", "k3"), Root1("k4", b), Neut("k4", "k5"), Child("k5", "k6", U32(1))>>
\* looked at, written down and read back
Show(k, d) == <<Get("fields", k), Get("isprv", k), Get("prvhex", k), Get("pubhex", k), Get("string", k), Get("valid", k), [op |-> "b58round", src |-> k, dst |-> d]>>
\* keys made before a choice, asked after it
Old == <<Neut("k7", "k1"), Get("pubhex", "k7"), Child("k7", "k2", U32(3)), Neut("k7", "k3")>>
Systematic ==
    \* each network once, the same seed before, under and after it
    [j \in DOMAIN Networks |-> LET x == Net(j) b == Rnd("n1" \o S(j), <<16, 32, 64, 20>>[(j % 4) + 1]) i == Pick("n1i" \o S(j), Nums) IN
        Ask(b, i) \o <<Default(x[1], x[2], Hows[(j % 3) + 1])>> \o Ask(b, i) \o Ask(Rnd("n1o" \o S(j), 32), i) \o <<Default(Mine[1], Mine[2], Hows[((j + 1) % 3) + 1])>> \o Ask(b, i)]
    \* one seed, one key of an unregistered version, network after network
    \o [g \in 1..4 |-> LET b == Rnd("n2" \o S(g), 32) p == Unregistered(RKey("n2k" \o S(g), TRUE)) IN
        <<Load("k7", p)>> \o Old \o Cat([j \in DOMAIN Networks |-> LET x == Net(j * (2 * g + 1)) IN
            <<Default(x[1], x[2], Hows[((j + g) % 3) + 1])>> \o Old \o <<Master1("k0", b), Root1("k4", b), Neut("k0", "k5")>>])]
    \* keys of registered versions do not care
    \o [j \in DOMAIN Prvs |-> LET x == Net(3 * j + Len(Prvs) + 1) y == Net(5 * j) p == Prvs[j] \o SubSeq(RKey("n3k" \o S(j), TRUE), 5, 78) IN
        <<Load("k7", p)>> \o Old \o <<Default(x[1], x[2], "own")>> \o Old \o <<Default(y[1], y[2], "row")>> \o Old \o <<Neut("k1", "k7")>> \o Old
        \o <<Default(x[1], x[2], "fields")>> \o Old]
    \* twins: an unregistered version and what has everything else in common with it
    \o [j \in 1..(6 + Size) |-> LET x == Net(7 * j) b == TwinBase("n4" \o S(j), TRUE, j % 2 = 0) u == Unregistered(b) X == Twins(b) IN
        <<Load("k7", b)>> \o Old \o <<Load("k7", u)>> \o Old \o <<Default(x[1], x[2], "own"), Load("k7", b)>> \o Old \o <<Load("k7", u)>> \o Old
        \o Cat([m \in 1..(Len(X) - 2) |-> <<Load("k7", Unregistered(X[m + 2])), Neut("k7", "k1"), Load("k7", u), Neut("k7", "k1")>>])]
    \* one half of the pair changes; the test network changes
    \o [j \in 1..(8 + Size) |-> LET x == Net(3 * j) y == Net(3 * j + 1) b == Rnd("n5" \o S(j), 16 + j) p == Unregistered(RKey("n5k" \o S(j), TRUE)) IN
        <<Load("k7", p), Default(x[1], x[2], "test")>> \o Ask(b, U32(j)) \o Old \o <<Default(x[1], y[2], "own")>> \o Ask(b, U32(j)) \o Old \o <<Default(x[1], x[2], "fields")>> \o Ask(b, U32(j)) \o Old
        \o <<Default(y[1], x[2], "own"), Default(x[1], y[2], "test")>> \o Ask(b, U32(j)) \o Old]
    \* neutered before and after, without anything between
    \o [j \in 1..(8 + Size) |-> LET x == Net(4 * j + 1) y == Net(2 * j + 9) p == Unregistered(RKey("n6k" \o S(j), TRUE)) IN
        <<Load("k7", p), Neut("k7", "k1"), Default(x[1], x[2], "own"), Neut("k7", "k1"), Default(y[1], y[2], "own"), Neut("k7", "k2"), Default(x[1], x[2], "own"), Neut("k7", "k2"),
          Default(Mine[1], Mine[2], "row"), Neut("k7", "k3"), Neut("k1", "k4"), Neut("k2", "k4"), Neut("k3", "k4")>>]
    \* seeds of all lengths and with rare masters under networks of all sorts
    \o Pieces(Cat([j \in 1..(IF Size >= 10 THEN 300 ELSE 100) |-> LET n == IF j < 85 THEN j + 8 ELSE 13 * j - 1000 x == Net(j + 5) b == Rnd("n7" \o S(j), n) IN
            <<Default(x[1], x[2], Hows[(j % 3) + 1]), Master1("k0", b), Root1("k1", b), Neut("k0", "k2"), Default(Rnd4(j)[1], Rnd4(j)[2], "own"), Root1("k1", b), Master1("k0", b), Neut("k1", "k2")>> \o (IF j % 8 = 0 THEN Show("k1", "k3") \o Show("k2", "k3") ELSE <<>>)]), 160)
    \o <<LET X == SetToSeq(ShortMasters) IN Cat([j \in DOMAIN X |-> LET x == Net(2 * j + 7) b == Hex(Zeros(12)) \o X[j] IN
            <<Default(x[1], x[2], "own"), Master1("k0", b), Root1("k1", b), Neut("k0", "k2"), Neut("k1", "k3")>> \o Show("k1", "k4")])>>
    \* keys of every shape
    \o Pieces(Cat([j \in DOMAIN PrvParents |-> LET x == Net(j + 3) p == IF j % 3 = 0 THEN Rnd4(j)[1] \o SubSeq(PrvParents[j], 5, 78) ELSE Unregistered(PrvParents[j]) IN
            <<Load("k0", p), Default(x[1], x[2], Hows[(j % 3) + 1]), Neut("k0", "k1")>> \o Show("k0", "k2") \o Show("k1", "k2") \o <<Neut("k2", "k3"), Load("k4", PrvParents[j]), Neut("k4", "k5"), Child("k4", "k6", Nums[(j % Len(Nums)) + 1])>>]), 230)
    \* what is read is what was written, whatever network it is of
    \o [j \in DOMAIN Networks |-> LET x == Networks[j] b == Rnd("n8" \o S(j), 32) c == Key(x[1], 0, Zeros(4), Zeros(4), Unhex(Rnd("n8c" \o S(j), 32)), Prv(Unhex(Rnd("n8k" \o S(j), 32)))) q == Key(IF x[2] \in RPrv THEN RDefaultPub ELSE x[2], 3, Fps[1], Nums[5], Codes[4], BaseMul(Num32(j))) IN
            <<Load("k6", c), Load("k7", q)>> \o Show("k6", "k1") \o Show("k7", "k2") \o <<Default(x[1], x[2], Hows[(j % 3) + 1])>> \o Show("k6", "k1") \o Show("k7", "k2") \o <<Deser(Wrap(c), "k3"), Deser(Wrap(q), "k4"), Master1("k0", b)>> \o Show("k0", "k5")
            \o <<Default(Net(j + 1)[1], Net(j + 1)[2], "own")>> \o Show("k0", "k5") \o Show("k6", "k5") \o Show("k7", "k5") \o <<Deser(Wrap(c), "k3"), Deser(Wrap(q), "k4")>>]
ASSUME EmitAll(0, Systematic)

\* ------------------------------------------------------------------ simulated sessions
VARIABLES live, hist, run, done
KNames == {"k0", "k1", "k2", "k3", "k4", "k5"}
Lab == "run" \o S(run) \o "step" \o S(Len(hist))
Do(ops, d) == hist' = hist \o ops /\ live' = (live \cup d) /\ UNCHANGED <<run, done>>
GInit == live = {} /\ hist = <<>> /\ run = 0 /\ done = FALSE
GDefault == \E j \in One(DOMAIN Networks), h \in One({"row", "own", "fields", "test"}) : Do(<<Default(Networks[j][1], Networks[j][2], h)>>, {})
GLoad == \E d \in One(KNames), p \in One({TRUE, FALSE}), o \in One(BOOLEAN) : LET b == RKey(Lab, p) IN Do(<<Load(d, IF o /\ p THEN Unregistered(b) ELSE b)>>, {d})
GMaster == \E d \in One(KNames), x \in One(0..2), r \in One(BOOLEAN) : LET b == Rnd("m" \o S(x), 16 + 8 * x) IN Do(<<IF r THEN Master1(d, b) ELSE Root1(d, b)>>, {d})
GChild == \E s \in One(live), d \in One(KNames), i \in One(DOMAIN Nums) : Do(<<Child(s, d, Nums[i])>>, {})
GNeuter == \E s \in One(live), d \in One(KNames) : Do(<<Neut(s, d)>>, {d})
GVer == \E s \in One(live), v \in One(DOMAIN OddVersions) : Do(<<[op |-> "setver", dst |-> s, v |-> Hex(OddVersions[v]), arr |-> v % 2 = 0]>>, {})
GShow == \E s \in One(live), d \in One(KNames), a \in One(1..7) : Do(<<Show(s, d)[a]>>, {})
GAgain == hist # <<>> /\ \E c \in One(DOMAIN hist) : Do(<<hist[c]>>, {})
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<live, hist, done>>
         ELSE IF Len(hist) < Depth THEN IF live = {} THEN GLoad ELSE GDefault \/ GLoad \/ GMaster \/ GChild \/ GNeuter \/ GVer \/ GShow \/ GAgain
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<live, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
