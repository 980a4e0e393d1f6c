------------------------------ MODULE MC_Addr ------------------------------
(***************************************************************************)
(* Addresses in the toy world of MC_HD.  A toy point k spreads to two      *)
(* coordinates of two digits, 3k and 5k modulo 7 in base 3, so that        *)
(* coordinates start with zeros now and then.                              *)
(***************************************************************************)
EXTENDS MC_HD

Digits(v) == <<v \div 3, v % 3>>
TSpread(p) == Digits((3 * p[2]) % 7) \o Digits((5 * p[2]) % 7)
TAccount(s) == s
THex(s) == s
TText(s) == B58Encode(s)
A == INSTANCE Addresses WITH Spread <- TSpread, AccountHash <- TAccount, HexText <- THex, Text58 <- TText

Pts == {TPoint(<<v>>) : v \in 1..(Q - 1)}
Strip(s) == LET n == Leading(s, 0) IN SubSeq(s, n + 1, Len(s))
ShortSpread(p) == Strip(Digits((3 * p[2]) % 7)) \o Strip(Digits((5 * p[2]) % 7))
\* widths matter: what a library without padding hashes differs, for some points, from the spread point
ASSUME \E p \in Pts : ShortSpread(p) # TSpread(p)
ASSUME \A p, q \in Pts : p # q => TSpread(p) # TSpread(q)
\* Base58 keeps leading zero bytes
Some == {0, 1, 57, 58, 255}
Small == UNION {[1..n -> Some] : n \in 0..4}
ASSUME \A s \in Small : B58Decode(B58Encode(s)) = s /\ Leading(B58Encode(s), 49) = Leading(s, 0)

LiveKeys == {Fields(slot[n]) : n \in Live}
\* a key and its public counterpart have the same addresses; different points have different account addresses
Counterparts == \A k \in LiveKeys : Sound(k) => LET p == Fields(Neuter(k)) IN
                    A!AccountAddr(p) = A!AccountAddr(k) /\ \A x \in {0, 1, 5, 255} : A!PrefixedAddr(p, x) = A!PrefixedAddr(k, x)
Distinct == \A j, k \in LiveKeys : Sound(j) /\ Sound(k) /\ PubPoint(j) # PubPoint(k) => A!AccountAddr(j) # A!AccountAddr(k)
\* versions, depths, numbers and chain codes do not matter
OnlyThePoint == \A j, k \in LiveKeys : Sound(j) /\ Sound(k) /\ PubPoint(j) = PubPoint(k) => A!AccountAddr(j) = A!AccountAddr(k) /\ A!PrefixedAddr(j, 5) = A!PrefixedAddr(k, 5)
\* the prefix can be read back
ReadPrefix == \A k \in LiveKeys : Sound(k) => \A x \in {0, 1, 255} : B58Decode(A!PrefixedAddr(k, x))[1] = x
=============================================================================
