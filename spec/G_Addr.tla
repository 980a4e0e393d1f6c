------------------------------- MODULE G_Addr -------------------------------
(***************************************************************************)
(* Plans for addresses: keys of every shape and their counterparts, points *)
(* with short coordinates, all prefixes, the hash helpers on data of every *)
(* length; simulated behaviours derive, neuter, rewrite and address keys.  *)
(***************************************************************************)
EXTENDS KeyPool

\* the path of a key path does not matter
Texts == <<"6d", "", "6d2f3434272f30272f30272f302f30", "78">>
Acc(s, L) == [op |-> "addrhex", src |-> s, t |-> Pick(L, Texts)]
Pre(s, x, L) == [op |-> "addrp2sh", src |-> s, x |-> x, t |-> Pick(L, Texts)]
PrefixBytes == <<0, 1, 5, 111, 127, 128, 196, 254, 255>>
\* addresses of the key in k0 and of its counterpart
See(s, L) == IF Prop = "C18" THEN <<Acc(s, L)>> ELSE <<Pre(s, Pick(L \o "x", PrefixBytes), L), Pre(s, 0, L), Pre(s, RndInt(L \o "y", 256), L)>>
Pair(L) == See("k0", L) \o <<Neut("k0", "k1")>> \o See("k1", L \o "p")
Helper(op, b, pre, post) == [op |-> op, b |-> Hex(b), pre |-> pre, post |-> post]
Helpers(b, j) == <<Helper("hash160", b, j % 2, j % 7), Helper("checksum", b, j % 3, j % 5), Helper("addchecksum", b, j % 2, IF j % 2 = 0 THEN 9 ELSE 0)>>
Lens == [j \in 1..(IF Size >= 10 THEN 300 ELSE 140) |-> j - 1] \o <<255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100001>>
Expand(p) == [op |-> "expand", b |-> Hex(p), pre |-> 1, post |-> 3]
SpecialSoft == SetToSeq(ShortScalarSoft \cup ShortOtherSoft \cup ShortXSoft \cup ShortYSoft \cup ShortScalarHard \cup ShortOtherHard)
SpecialScalars == SetToSeq(ShortHash \cup EndingPoint)
KeysPlan ==
    <<Cat([j \in DOMAIN SpecialScalars |-> <<Load("k0", Master0(Num32(SpecialScalars[j])))>> \o Pair("sc" \o S(j)) \o <<Load("k0", Master0(Minus(N, Num32(SpecialScalars[j]))))>> \o Pair("sn" \o S(j))])>> \o
    Pieces(Cat([j \in DOMAIN PrvParents |-> LET b == PrvParents[j] IN
            <<Load("k0", b)>> \o Pair("p" \o S(j)) \o <<Load("k0", Unregistered(b))>> \o See("k0", "u" \o S(j)) \o <<Load("k2", AsPub(b))>> \o See("k2", "q" \o S(j))
            \o <<Load("k3", Unregistered(AsPub(b)))>> \o See("k3", "v" \o S(j))]), 120)
    \o <<<<[op |-> "master", dst |-> "k4", b |-> SpecialSeed], Neut("k4", "k5")>> \o
         Cat([j \in DOMAIN SpecialSoft |-> LET h == Unhex(SpecialSoft[j]) IN <<ChildX("k4", "k0", SpecialSoft[j])>> \o Pair("sp" \o S(j)) \o (IF HBit(h) THEN <<>> ELSE <<ChildX("k5", "k2", SpecialSoft[j])>> \o See("k2", "sq" \o S(j)))])>>
    \o [j \in 1..(4 + Size) |-> LET b == TwinBase("at" \o S(j), j % 2 = 0, j % 3 = 0) X == Twins(b) IN
            <<Load("k0", b)>> \o See("k0", "ats" \o S(j)) \o Cat([m \in DOMAIN X |-> <<Load("k2", X[m])>> \o See("k2", "att" \o S(j)) \o (IF m % 3 = 0 THEN See("k0", "ats" \o S(j)) ELSE <<>>)])]
    \o Pieces(Cat([j \in 1..(60 * Size) |-> <<Load("k0", RKey("r" \o S(j), j % 3 # 0))>> \o Pair("rr" \o S(j))]), 120)
C18Plan == KeysPlan
    \o <<Cat([j \in DOMAIN Scalars |-> <<Expand(BaseMul(Scalars[j]))>>]), Cat([j \in 1..(40 * Size) |-> <<Expand(BaseMul(Unhex(Rnd("e" \o S(j), 32))))>>])>>
    \* every small multiple of the generator, and its negative: coordinates and parities of all sorts
    \o Pieces(Cat([n \in 1..(IF Size >= 10 THEN 1500 ELSE 200) |-> <<Load("k0", Master0(Num32(n))), Acc("k0", "n" \o S(n)), Load("k0", Master0(Minus(N, Num32(n)))), Acc("k0", "m" \o S(n)), Neut("k0", "k1"), Acc("k1", "o" \o S(n))>>]), 240)
C19Plan == KeysPlan
    \o [k \in 1..4 |-> <<Load("k0", RKey("all" \o S(k), k % 2 = 0))>> \o [x \in 1..256 |-> Pre("k0", x - 1, "a" \o S(x))]]
    \o Pieces(Cat([j \in DOMAIN Lens |-> Helpers(Unhex(Rnd("h" \o S(j), Lens[j])), j) \o (IF j % 5 = 0 THEN Helpers(Zeros(Lens[j]), j) ELSE <<>>)]), 150)
    \* data in one buffer, with room behind it, taken again and again
    \o [k \in 1..3 |-> <<[op |-> "buf", dst |-> "b0", b |-> Rnd("bf" \o S(k), 21), pre |-> 0, post |-> 16]>>
            \o Cat([j \in 1..6 |-> <<[op |-> <<"checksum", "addchecksum", "hash160">>[((j + k) % 3) + 1], src |-> "b0", dst |-> "b1"], [op |-> "addchecksum", src |-> "b1", dst |-> "b2"], [op |-> "checksum", src |-> "b2"], [op |-> "poke", dst |-> "b0", off |-> j, x |-> 3]>>])]

ASSUME EmitAll(0, IF Prop = "C18" THEN C18Plan ELSE C19Plan)

\* ------------------------------------------------------------------ simulated sessions
VARIABLES live, hist, run, done
gvars == <<live, hist, run, done>>
KNames == {"k0", "k1", "k2", "k3", "k4", "k5"}
Lab == "run" \o S(run) \o "step" \o S(Len(hist))
Do(ops, d) == hist' = hist \o ops /\ live' = (live \cup d) /\ UNCHANGED <<run, done>>
GInit == live = {} /\ hist = <<>> /\ run = 0 /\ done = FALSE
GLoad == \E d \in One(KNames), p \in One(BOOLEAN) : Do(<<Load(d, RKey(Lab, p))>>, {d})
GChild == \E s \in One(live), d \in One(KNames), i \in One(DOMAIN Nums) : Do(<<Child(s, d, Nums[i])>> \o See(d, Lab), {})
GNeuter == \E s \in One(live), d \in One(KNames) : Do(<<Neut(s, d)>> \o See(d, Lab) \o See(s, Lab \o "s"), {d})
GSee == \E s \in One(live) : Do(See(s, Lab), {})
GVer == \E s \in One(live), v \in One(1..13), p \in One(BOOLEAN) : Do(<<[op |-> "setver", dst |-> s, v |-> Hex(IF p THEN Prvs[v] ELSE Pubs[v]), arr |-> p]>> \o See(s, Lab), {})
GPoke == \E s \in One(live), off \in One(4..77), x \in One(1..255) : Do(<<[op |-> "poke", dst |-> s, off |-> off, x |-> IF off = 45 THEN 1 ELSE x]>> \o See(s, Lab), {})
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<live, hist, done>>
         ELSE IF Len(hist) < Depth THEN IF live = {} THEN GLoad ELSE GLoad \/ GChild \/ GNeuter \/ GSee \/ GVer \/ GPoke
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<live, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
