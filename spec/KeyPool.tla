------------------------------ MODULE KeyPool ------------------------------
(***************************************************************************)
(* Keys and calls on keys for plans.                                       *)
(***************************************************************************)
EXTENDS Plan, Real, Special

Num32(n) == Zeros(28) \o U32(n)
ScalarSet == {Num32(n) : n \in {1, 2, 3, 255, 256} \cup ShortX \cup ShortY \cup {x \in ShortHash : x > 30000} \cup {8480, 10916}}
             \cup {Minus(N, Num32(n)) : n \in {1, 2, 3, 122, 153}}
             \cup {<<127>> \o [i \in 1..31 |-> 255], <<128>> \o Zeros(31), Zeros(31) \o <<128>>, <<1>> \o Zeros(31),
                   <<255>> \o Zeros(30) \o <<1>>, <<2>> \o Unhex(Rnd("sc2", 31)), <<3>> \o Unhex(Rnd("sc3", 31)), Zeros(16) \o Unhex(Rnd("sc16", 16))}
Scalars == SetToSeq(ScalarSet)
Codes == <<Zeros(32), [i \in 1..32 |-> 255], Zeros(31) \o <<1>>, Unhex(Rnd("code1", 32)), Unhex(Rnd("code2", 32)), <<0, 0>> \o Unhex(Rnd("code3", 30))>>
Prvs == SetToSeq(RPrv)
Pubs == SetToSeq(RPub)
OddVersions == <<<<0,0,0,0>>, <<255,255,255,255>>, <<4,136,173,229>>, <<4,136,178,31>>, <<18,52,86,120>>, <<128,0,0,0>>>>
Fps == <<<<0,0,0,1>>, <<255,255,255,255>>, <<128,0,0,0>>, <<0,18,52,86>>, <<52,66,25,62>>>>
Depths == <<1, 2, 3, 4, 5, 127, 128, 129, 200, 253, 254>>

Key(ver, depth, fp, num, code, keyf) == ver \o <<depth>> \o fp \o num \o code \o keyf
Prv(s) == <<0>> \o s
\* a random legal key; the label determines it
RKey(L, prv) ==
    LET z == Unhex(Rnd(L, 8))
        d == IF z[1] % 3 = 0 THEN 0 ELSE Pick(L \o "d", Depths)
        s == IF z[2] % 3 = 0 THEN Pick(L \o "s", Scalars) ELSE Unhex(Rnd(L \o "r", 32))
        c == IF z[3] % 3 = 0 THEN Pick(L \o "c", Codes) ELSE Unhex(Rnd(L \o "cr", 32))
        f == IF d = 0 THEN Zeros(4) ELSE IF z[4] % 3 = 0 THEN Pick(L \o "f", Fps) ELSE Unhex(Rnd(L \o "fr", 4))
        i == IF d = 0 THEN Zeros(4) ELSE Pick(L \o "i", Nums)
    IN  IF prv THEN Key(Pick(L \o "v", Prvs), d, f, i, c, Prv(s)) ELSE Key(Pick(L \o "v", Pubs), d, f, i, c, BaseMul(s))

Master0(s) == Key(RDefaultPrv, 0, Zeros(4), Zeros(4), Codes[4], Prv(s))

\* systematic parents: every special scalar, chain code, depth, version, fingerprint and number at least once
PrvParents ==
    [j \in DOMAIN Scalars |-> Key(Prvs[(j % Len(Prvs)) + 1], Depths[(j % Len(Depths)) + 1], Fps[(j % Len(Fps)) + 1], Nums[(j % Len(Nums)) + 1], Codes[(j % Len(Codes)) + 1], Prv(Scalars[j]))]
    \o [j \in DOMAIN Prvs |-> Key(Prvs[j], 0, Zeros(4), Zeros(4), Unhex(Rnd("pv" \o S(j), 32)), Prv(Unhex(Rnd("pk" \o S(j), 32))))]
    \o [j \in DOMAIN Codes |-> Key(RDefaultPrv, 1, Fps[1], Nums[2], Codes[j], Prv(Scalars[1]))]
    \o [j \in 1..(4 * Size) |-> RKey("parent" \o S(j), TRUE)]
Public(b) == SubSeq(b, 1, 45) \o BaseMul(SubSeq(b, 47, 78))
AsPub(b) == LET p == Public(b) IN RPair[SubSeq(b, 1, 4)] \o SubSeq(p, 5, 78)
Unregistered(b) == OddVersions[(b[78] % Len(OddVersions)) + 1] \o SubSeq(b, 5, 78)

\* keys that differ from b in one component, or one byte of one
Flip(b, i, x) == [b EXCEPT ![i] = (@ + x) % 256]
Twins(b) == LET V == IF b[46] = 0 THEN Prvs ELSE Pubs v == SelectSeq(V, LAMBDA w : w # SubSeq(b, 1, 4)) IN
    <<v[1] \o SubSeq(b, 5, 78), v[(b[45] % Len(v)) + 1] \o SubSeq(b, 5, 78), [b EXCEPT ![5] = IF @ = 7 THEN 8 ELSE 7], Flip(b, 6, 1), Flip(b, 9, 255), Flip(b, 10, 128), Flip(b, 13, 1),
      Flip(b, 14, 1), Flip(b, 45, 255), Flip(b, 29, 7)>>
    \o (IF b[46] = 0 THEN <<Flip(b, 78, 1), Flip(b, 62, 3), Flip(b, 47, IF b[47] = 0 THEN 1 ELSE 255)>>
        ELSE <<[b EXCEPT ![46] = 5 - @], SubSeq(b, 1, 45) \o BaseMul(Num32(77)), SubSeq(b, 1, 45) \o BaseMul(Unhex(Rnd("twin" \o Hex(SubSeq(b, 14, 17)), 32)))>>)
\* bases for them, of depth 1 to 6 when d, else of depth 0
TwinBase(L, prv, d) == LET b == RKey(L, TRUE) p == IF d THEN [b EXCEPT ![5] = 1 + (b[14] % 6)] ELSE Key(SubSeq(b, 1, 4), 0, Zeros(4), Zeros(4), SubSeq(b, 14, 45), SubSeq(b, 46, 78))
                       IN  IF prv THEN p ELSE AsPub(p)

RootAs(L, v) == Key(v, 0, Zeros(4), Zeros(4), Unhex(Rnd(L \o "c", 32)), Prv(IF RndInt(L \o "z", 3) = 0 THEN Pick(L \o "s", Scalars) ELSE Unhex(Rnd(L \o "k", 32))))
RRoot(L) == RootAs(L, Pick(L \o "v", Prvs))
\* keys that no generator should derive from
BadRoot(L, k) == LET p == RRoot(L) f == Unhex("01020304") IN
    CASE k = 0 -> Zeros(78)
      [] k = 1 -> [p EXCEPT ![5] = 1]
      [] k = 2 -> AsPub(p)
      [] k = 3 -> RPair[SubSeq(p, 1, 4)] \o SubSeq(p, 5, 78)
      [] k = 4 -> OddVersions[5] \o SubSeq(p, 5, 78)
      [] k = 5 -> SubSeq(p, 1, 46) \o N
      [] k = 6 -> SubSeq(p, 1, 46) \o Zeros(32)
      [] k = 7 -> SubSeq(p, 1, 5) \o f \o SubSeq(p, 10, 78)
      [] k = 8 -> SubSeq(p, 1, 9) \o f \o SubSeq(p, 14, 78)
      [] k = 9 -> [p EXCEPT ![5] = 255]
      [] k = 10 -> OddVersions[1] \o SubSeq(p, 5, 78)
      [] k = 11 -> RKey(L \o "x", TRUE)
      [] k = 12 -> RKey(L \o "y", FALSE)
      [] k = 13 -> [p EXCEPT ![46] = 1]
\* keys that are none, or not quite
IllFormed(L, k) == LET p == RRoot(L) q == AsPub(RKey(L, TRUE)) x == SubSeq(q, 47, 78) IN
    CASE k <= 13 -> BadRoot(L, k)
      [] k = 14 -> SubSeq(q, 1, 46) \o Zeros(31) \o <<5>>                        \* no point has this x
      [] k = 15 -> [q EXCEPT ![46] = 4]
      [] k = 16 -> [q EXCEPT ![46] = 0] 
      [] k = 17 -> Pick(L \o "w", Prvs) \o SubSeq(q, 5, 78)
      [] k = 18 -> [q EXCEPT ![5] = 0]
      [] k = 19 -> SubSeq(p, 1, 46) \o [i \in 1..32 |-> 255]
      [] k = 20 -> [p EXCEPT ![13] = 1]
      [] k = 21 -> SubSeq(q, 1, 46) \o [i \in 1..32 |-> 255]
      [] k = 22 -> SubSeq(q, 1, 45) \o Zeros(33)
      [] k = 23 -> [RKey(L \o "d", TRUE) EXCEPT ![5] = 255]
      [] k = 24 -> [q EXCEPT ![5] = 255]
      [] k = 25 -> OddVersions[1 + (q[78] % Len(OddVersions))] \o SubSeq(q, 5, 78)

\* ------------------------------------------------------------------ calls
Load(d, b) == [op |-> "load", dst |-> d, b |-> Hex(b)]
Child(s, d, i) == [op |-> "child", src |-> s, dst |-> d, i |-> Hex(i)]
ChildX(s, d, i) == [op |-> "child", src |-> s, dst |-> d, i |-> i]
Neut(s, d) == [op |-> "neuter", src |-> s, dst |-> d]
Get(op, s) == [op |-> op, src |-> s]
Accessors == <<"isprv", "prvhex", "pubhex", "fields", "valid", "b58", "string">>
Deser(b, d) == [op |-> "deser", b |-> Hex(b), dst |-> d, pre |-> Len(b) % 3, post |-> 9 * (Len(b) % 2)]
B58De(t, d) == [op |-> "b58deser", t |-> Hex(t), dst |-> d]
Wrap(b) == b \o Double256(b)

=============================================================================
