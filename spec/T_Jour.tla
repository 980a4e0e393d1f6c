------------------------------- MODULE T_Jour -------------------------------
(***************************************************************************)
(* Validates recorded journeys (C26) against Journey under the real        *)
(* algebra.                                                                *)
(***************************************************************************)
EXTENDS Journey, Real, RealPaths, WordLists

BIP39 == INSTANCE Mnemonics WITH WordBits <- 11, Ratio <- 32, Octet <- 8, SpaceC <- 32, EntLens <- MEntLens, SumBits <- MSum, IsSpaceC <- MSpace

Sessions == ndJsonDeserialize(IOEnv.TRACE)
RClaims == {}
RGens == {"g0", "g1"}
RRanges == {"r0", "r1"}
RTexts == {"t0", "t1", "t2", "t3", "t4", "t5"}
RBufs == {"b0", "b1", "b2", "b3"}
RKeys == {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}
RLists == {"l0", "l1", "r0", "r1"}
RNth(i, k) == Tail(Plus(i, U32(k)))
RSize(i, j) == IF ~Less(i, j) THEN 0 ELSE LET d == Minus(j, i) IN IF d[1] > 0 THEN 16777216 ELSE Val32(d)
RAnyHard(i, j) == Less(i, j) /\ (HBit(i) \/ Less(<<128, 0, 0, 0>>, j))
RAccount(s) == SubSeq(KECCAK256(s), 13, 32)
RHexText(b) == Utf8(Hex(b))
RText58(b) == B58Encode(b)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RUnhexText(s) == IF Len(s) % 2 = 1 \/ \E j \in 1..Len(s) : HexVal(s[j]) = 99 THEN <<>>
                 ELSE [j \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * j - 1]) + HexVal(s[2 * j])]
RBack58(t) == B58Decode(t)

Keys == {English} \cup {ListKey(j) : j \in UNION {{Sessions[k].ev[i] : i \in {x \in DOMAIN Sessions[k].ev : Sessions[k].ev[x].op = "wl"}} : k \in DOMAIN Sessions}}
Basic == ("made" :> Made) @@ OfficialWords
Table == [k \in Keys |-> ListOf(Basic, k)]
Index == [k \in Keys |-> Positions(Table[k])]
Octets(cps) == FlattenSeq([i \in DOMAIN cps |-> LET c == cps[i] IN
                  IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
                  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>])
RWrite(k, ent) == IF 8 * Len(ent) \notin MEntLens THEN <<>> ELSE Octets(BIP39!Encode(Table[k], Bits(ent)))
RRead(k, t) == LET c == CodePoints(t) IN IF BIP39!Valid(Index[k], c) THEN BitsToBytes(BIP39!Entropy(Index[k], c)) ELSE <<>>
RStretch(t, u) == SeedOf(t, u)

VARIABLES t, l
vars == <<t, l>>

Has(j, f) == f \in DOMAIN j
Bin(j, f) == IF Has(j, f) THEN Unhex(j[f]) ELSE <<-1>>
List(j) == IF Has(j, "l") THEN [x \in 1..Len(j.l) |-> [p |-> Unhex(j.l[x].p), k |-> Unhex(j.l[x].k)]] ELSE <<>>
Now(j) == IF j.g \in DOMAIN j.d THEN Unhex(j.d[j.g]) ELSE root[j.g]
Base(j) == [op |-> j.op, o |-> j.o] @@ [f \in DOMAIN j \cap {"src", "dst", "tn", "tdst", "g", "r", "x", "n", "off"} |-> j[f]]
NoR(j) == [f \in DOMAIN j \ {"r"} |-> j[f]]
Event(j) ==
    CASE j.op = "wl" -> [op |-> "wl", o |-> j.o, list |-> ListKey(j)]
      [] j.op = "text" -> [r |-> Unhex(j.t)] @@ Base(j)
      [] j.op = "buf" -> [r |-> Unhex(j.b)] @@ Base(j)
      [] j.op = "load" -> [r |-> Unhex(j.b)] @@ Base(j)
      [] j.op \in {"seed", "seedchk", "seedhex"} -> [u |-> Unhex(j.u), r |-> Bin(j, "r")] @@ Base(j)
      [] j.op = "child" -> [i |-> Unhex(j.i), r |-> Bin(j, "key")] @@ Base(j)
      [] j.op = "setver" -> [ver |-> Unhex(j.v), r |-> Bin(j, "key")] @@ Base(j)
      [] j.op = "pick" -> [r |-> IF j.dst \in DOMAIN j.d THEN Unhex(j.d[j.dst]) ELSE key[j.dst]] @@ Base(j)
      [] j.op \in MakesKey -> [r |-> Bin(j, "key")] @@ Base(j)
      [] j.op \in MakesText \cup MakesBuf -> [r |-> Bin(j, "r")] @@ Base(j)
      [] j.op = "tpoke" -> Base(j)
      [] j.op = "genmn" -> [r |-> Bin(j, "r"), words |-> Len(BIP39!Tokens(CodePoints(Bin(j, "r"))))] @@ Base(j)
      [] j.op = "gset" -> [now |-> Now(j)] @@ Base(j)
      [] j.op = "gderive" -> [t |-> Unhex(j.t), now |-> Now(j), l |-> List(j)] @@ Base(j)
      [] j.op = "rset" -> [i |-> Unhex(j.i), j |-> Unhex(j.j), t |-> Unhex(j.t)] @@ Base(j)
      [] j.op = "rgen" -> [l |-> List(j), same |-> Has(j, "same") /\ j.same] @@ Base(j)

View == <<t, l>>
Init == t \in DOMAIN Sessions /\ l = 1 /\ JInit
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ LET e == Event(ev[l]) IN
             /\ IF C26(e) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
             /\ JStep(e)
        /\ l' = l + 1
        /\ t' = t
=============================================================================
