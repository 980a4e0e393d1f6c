------------------------------ MODULE CallPool ------------------------------
(***************************************************************************)
(* Calls of every kind for plans: c, and what it makes (d): a key (k),     *)
(* bytes (b), a list of keys (l), a list of numbers (v), or nothing.       *)
(***************************************************************************)
EXTENDS KeyPool, PathPool, RealMnemonics

CONSTANTS WordBits, Ratio, Octet, SpaceC, EntLens, SumBits(_, _), IsSpaceC(_)
M == INSTANCE Mnemonics

Poke(n, off, x) == [op |-> "poke", dst |-> n, off |-> off, x |-> x]
Eng == LET h == OfficialHex("english") IN [i \in DOMAIN h |-> Unhex(h[i])]
Sentence(L) == M!Encode(Eng, Bits(Unhex(Rnd(L, Pick(L \o "n", <<16, 20, 24, 28, 32>>)))))
Posts == <<0, 1, 3, 4, 5, 8, 16, 40, 64, 200>>

To(c, d) == IF d = "" THEN c ELSE [dst |-> d] @@ c
KeyCall(i, u) == CASE u = 1 -> <<[op |-> "child", src |-> "k0", i |-> Hex(i)], "k">>
      [] u = 2 -> <<[op |-> "child", src |-> "k0", i |-> Hex(SetH(i))], "k">>
      [] u = 3 -> <<[op |-> "neuter", src |-> "k0"], "k">>
      [] u = 4 -> <<[op |-> "ser", src |-> "k0"], "b">>
      [] u = 5 -> <<Get("b58", "k0"), "">>
      [] u = 6 -> <<Get("string", "k0"), "">>
      [] u = 7 -> <<[op |-> "b58round", src |-> "k0"], "k">>
      [] u = 8 -> <<Get("fields", "k0"), "">>
      [] u = 9 -> <<Get("valid", "k0"), "">>
      [] u = 10 -> <<Get("prvhex", "k0"), "">>
      [] u = 11 -> <<Get("pubhex", "k0"), "">>
      [] u = 12 -> <<Get("isprv", "k0"), "">>
      [] u = 13 -> <<[op |-> "addrhex", src |-> "k0", t |-> "6d"], "">>
      [] u = 14 -> <<[op |-> "addrp2sh", src |-> "k0", t |-> "", x |-> 5], "">>
KeyCalls(i) == [u \in 1..14 |-> KeyCall(i, u)]
ByteCall(u) == CASE u = 1 -> <<"master", "k">>
      [] u = 2 -> <<"deser", "k">>
      [] u = 3 -> <<"hash160", "b">>
      [] u = 4 -> <<"checksum", "b">>
      [] u = 5 -> <<"addchecksum", "b">>
      [] u = 6 -> <<"enc", "">>
ByteCalls == [u \in 1..6 |-> ByteCall(u)]
Contents(L) == <<Wrap(RKey(L, TRUE)), Wrap(RKey(L \o "q", FALSE)), Unhex(Rnd(L, 16)), Unhex(Rnd(L, 32)), Zeros(20), Unhex(Rnd(L, 64)), <<>>, Unhex(Rnd(L, 28)), RKey(L \o "r", TRUE), Unhex(Rnd(L, 55)), Unhex(Rnd(L, 200))>>
TextCall(L, u) == LET s == Sentence(L) p == RPath(L, 1 + RndInt(L, 6), RndInt(L \o "h", 4)) IN CASE u = 1 -> <<[op |-> "root", t |-> Hex(Utf8(Rnd(L, 16 + RndInt(L \o "l", 49))))], "k">>
      [] u = 2 -> <<[op |-> "b58deser", t |-> Hex(B58Encode(Wrap(RKey(L, TRUE))))], "k">>
      [] u = 3 -> <<[op |-> "b58deser", t |-> Hex(B58Encode(Wrap(RKey(L, FALSE))))], "k">>
      [] u = 4 -> <<[op |-> "path", t |-> Hex(p)], "v">>
      [] u = 5 -> <<[op |-> "path", t |-> Hex(Mutate(L, p))], "">>
      [] u = 6 -> <<[op |-> "valat", t |-> Hex(p), n |-> 1], "">>
      [] u = 7 -> <<[op |-> "repl", t |-> Hex(p), n |-> 1, v |-> "80000007"], "">>
      [] u = 8 -> <<[op |-> "dec", t |-> Hex(s)], "b">>
      [] u = 9 -> <<[op |-> "arr", t |-> Hex(s), raw |-> RndInt(L \o "raw", 4)], "b">>
      [] u = 10 -> <<[op |-> "mvalid", t |-> Hex(s)], "">>
      [] u = 11 -> <<[op |-> "seed", t |-> Hex(s), u |-> Rnd(L, 3)], "b">>
      [] u = 12 -> <<[op |-> "seedchk", t |-> Hex(s), u |-> ""], "b">>
      [] u = 13 -> <<[op |-> "seedhex", t |-> Hex(s), u |-> "61"], "">>
      [] u = 14 -> <<[op |-> "dec", t |-> Hex(Tail(s))], "">>
      [] u = 15 -> <<[op |-> "validprv", b |-> Rnd(L, 32)], "">>
      [] u = 16 -> <<[op |-> "vermeth", t |-> Hex(Cs("m/44'/60'")), prv |-> "0488ade4", pub |-> "0488b21e"], "">>
TextCalls(L) == [u \in 1..16 |-> TextCall(L, u)]
GSet(g, k) == [op |-> "gset", g |-> g, src |-> k]
GRoot(g) == [op |-> "groot", g |-> g]
GDer(g, s) == [op |-> "gderive", g |-> g, t |-> Hex(s)]
RSet(r, k, s, i, j) == [op |-> "rset", r |-> r, src |-> k, t |-> Hex(s), i |-> Hex(i), j |-> Hex(j)]
RGen(r) == [op |-> "rgen", r |-> r]
Take(r, n) == [op |-> "rtake", r |-> r, dst |-> n]
GPath(L) == IF RndInt(L \o "g", 5) = 0 THEN Mutate(L, RPath(L, 3, 1)) ELSE RPath(L, RndInt(L, 6), RndInt(L \o "h", 4))
=============================================================================
