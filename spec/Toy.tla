-------------------------------- MODULE Toy --------------------------------
(***************************************************************************)
(* A toy algebra for module HD, small enough to explore: integers modulo   *)
(* 5, one-byte fields, two registered pairs of versions.                   *)
(***************************************************************************)
EXTENDS Bytes

Q == 5
TSeedKey == <<7>>
\* an arbitrary but fixed mixing function; its left half is sometimes too big (5) and sometimes 0
Mix(s, a) == FoldLeft(LAMBDA x, y : (x * 7 + y * 3 + 1) % 97, a, s)
THmac(c, d) == LET h == Mix(c \o d, 11) IN <<h % 6, (h \div 6) % 2>>
TLeft(I) == <<I[1]>>
TRight(I) == <<I[2]>>
TLeftOK(l) == l[1] < Q
TScalarOK(s) == s[1] \in 1..(Q - 1)
TScalarPlus(a, b) == <<(a[1] + b[1]) % Q>>
TPoint(s) == IF s[1] % Q = 0 THEN <<>> ELSE <<2, s[1] % Q>>
TPointPlus(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE TPoint(<<a[2] + b[2]>>)
TPointOK(p) == Len(p) = 2 /\ p[1] = 2 /\ p[2] \in 1..(Q - 1)
TIdentifier(p) == <<Mix(p, 5) % 3, 0>>
TChecksum(b) == <<Mix(b, 3) % 11>>
TPrv == {<<10>>, <<11>>}
TPub == {<<20>>, <<21>>}
TPairedPub(v) == <<v[1] + 10>>
TDefaultPrv == <<10>>
TDefaultPub == <<20>>

\* child numbers in paths: below 20, hardened from 10
TRoot == {109, 77}
TBlank(c) == c = 32
NatOf(ds) == FoldLeft(LAMBDA a, d : IF a > 1000 THEN a ELSE 10 * a + d, 0, ds)
TNumber(ds) == LET n == NatOf(ds) IN IF n < 20 THEN <<n>> ELSE <<>>
TSoft(v) == v[1] < 10
THarden(v) == <<v[1] + 10>>
TSoften(v) == <<v[1] - 10>>
TNumerals(v) == IF v[1] < 10 THEN <<v[1]>> ELSE <<v[1] \div 10, v[1] % 10>>
TRootNumber == <<0>>
TNth(i, k) == <<i[1] + k>>
TSize(i, j) == IF j[1] <= i[1] THEN 0 ELSE j[1] - i[1]
TAnyHard(i, j) == i[1] < j[1] /\ j[1] > 10
THard(i) == i[1] >= 10
=============================================================================
