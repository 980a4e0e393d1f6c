----------------------------- MODULE MC_Journey -----------------------------
(***************************************************************************)
(* Journey over the toy algebras of keys and mnemonics.  A user with a few *)
(* registers and two word lists; a ghost remembers, for every register,    *)
(* where its content comes from, however it got there.  The content must   *)
(* be what that origin denotes.                                            *)
(***************************************************************************)
EXTENDS Journey, Toy, IOUtils, FiniteSets

TClaims == {}
TGens == {"g0"}
TRanges == {"r0"}
TNoRoot == Zeros(7)
TTexts == {"t0", "t1", "t2"}             \* a mnemonic, a seed, an extended key
TBufs == {"b0", "b1", "b2"}              \* an entropy, a seed, an extended key
TKeys == {"k0", "k1"}                    \* a root, any key
TLists == {"l0", "r0"}

\* words of three bits
TSum(ent, n) == LET v == BitsVal(ent) IN SubSeq(NumBits((v * v + 5 * v + 3) % 16, 4), 1, n)
TSpace(c) == c = 32
TEntLens == {4}
WA == <<<<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>>>
WB == [i \in 1..8 |-> IF i % 2 = 0 THEN WA[(i % 8) + 1] ELSE <<97 + i, 97>>]
Words == <<WA, WB>>
B == INSTANCE Mnemonics WITH WordBits <- 3, Ratio <- 2, Octet <- 4, SpaceC <- 32, EntLens <- TEntLens, SumBits <- TSum, IsSpaceC <- TSpace
At == [k \in 1..2 |-> B!IndexOf(Words[k])]
TMnemonic(k, ent) == IF Len(ent) # 4 THEN <<>> ELSE B!Encode(Words[k], ent)
TEntropy(k, t) == IF B!Valid(At[k], t) THEN B!Entropy(At[k], t) ELSE <<>>
TStretch(t, u) == <<Mix(t \o <<7>> \o u, 1), Mix(u \o t, 2)>>
THexText(b) == [x \in 1..Len(b) |-> b[x] + 1000]
TUnhexText(t) == IF \E x \in 1..Len(t) : t[x] \notin 1000..1999 THEN <<>> ELSE [x \in 1..Len(t) |-> t[x] - 1000]
TText58(b) == [x \in 1..Len(b) |-> b[x] + 2000]
TBack58(t) == IF \E x \in 1..Len(t) : t[x] < 2000 THEN <<>> ELSE [x \in 1..Len(t) |-> t[x] - 2000]
Two(v) == <<v \div 3, v % 3>>
TSpread(p) == Two((3 * p[2]) % 7) \o Two((5 * p[2]) % 7)
TAccount(s) == s

Ents == {<<0, 1, 1, 0>>, <<1, 0, 0, 1>>}
Spoken == {<<>>, <<5>>}
Routes == {<<109, 47, 49, 39, 47, 50>>, <<109, 47, 51>>, <<109, 47, 49, 39, 47>>}      \* m/1'/2, m/3, and no path

VARIABLES where                          \* register -> origin of its content
all == <<act, txt, buf, key, lst, root, range, where>>
Unknown == [kind |-> "none"]
Known(n) == where[n].kind # "none"

\* ------------------------------------------------------------------ the calls and their ideal outcomes
Out(e) == LET w == Result(e) IN IF w = Fail /\ e.op \in Fallible THEN [o |-> "err", r |-> <<-1>>] @@ e ELSE [o |-> "ok", r |-> w] @@ e
Is(n, k) == where[n].kind = k
Entries(L, P) == [x \in 1..Len(L) |-> [k |-> L[x], p |-> P[x]]]
GDerive(s) == LET b == root["g0"] v == Parse(s) T == IF v = NoPath THEN Fail ELSE Trail(b, Tail(v)) IN
    [op |-> "gderive", g |-> "g0", t |-> s, now |-> b, dst |-> "l0"] @@
    (IF ~ValidRoot(b) \/ v = NoPath \/ T = Fail THEN [o |-> "err", l |-> <<>>] ELSE [o |-> "ok", l |-> [x \in 1..Len(v) |-> [p |-> Canonical(v, x - 1), k |-> T[x]]]])
\* entries one below the other
RGen == LET r == range["r0"] n == IF Size(r.i, r.j) > 3 THEN 0 ELSE Size(r.i, r.j)
            L == [x \in 1..n |-> [p |-> FoldLeft(LAMBDA a, y : a \o RenderOne(Nth(r.i, y - 1)), Strip(r.t), Ints(x)), k |-> Walk(r.key, [y \in 1..x |-> Nth(r.i, y - 1)])]] IN
    [op |-> "rgen", r |-> "r0"] @@
    (IF n = 0 \/ ~RangeValid(r) \/ RangeUndefined(r) \/ (\E x \in 1..Len(L) : L[x].k = Fail) THEN [o |-> "err", l |-> <<>>, same |-> TRUE]
     ELSE [o |-> "ok", l |-> L, same |-> FALSE])
Chance(r) == RangeValid(r) /\ RangeDefined(r) /\ RGen.o = "err"
Legs == {[op |-> "enc", src |-> "b0", tdst |-> "t0"]}
   \cup {[op |-> "genmn", n |-> 2, tdst |-> "t0"]}
   \cup {[op |-> "dec", tn |-> n, dst |-> "b0"] : n \in {"t0", "t1"}}
   \cup {[op |-> "seedhex", tn |-> "t0", u |-> u, tdst |-> "t1"] : u \in Spoken}
   \cup {[op |-> c, tn |-> "t0", u |-> u, dst |-> "b1"] : u \in Spoken, c \in {"seed", "seedchk"}}
   \cup {[op |-> "root", tn |-> n, dst |-> "k0"] : n \in {"t1", "t0"}}
   \cup {[op |-> "master", src |-> "b1", dst |-> "k0"]}
   \cup {[op |-> "copy", src |-> "k0", dst |-> "k1"]}
   \cup {[op |-> "child", src |-> n, dst |-> "k1", i |-> i] : n \in {"k0", "k1"}, i \in {<<2>>, <<11>>}}
   \cup {[op |-> "neuter", src |-> n, dst |-> "k1"] : n \in {"k0", "k1"}}
   \cup {[op |-> "setver", dst |-> "k0", ver |-> <<11>>]}
   \cup {[op |-> "pick", src |-> s, dst |-> "k1", n |-> n] : s \in {"l0", "r0"}, n \in {1, 2}}
   \cup {[op |-> "ser", src |-> "k1", dst |-> "b2"], [op |-> "b58", src |-> "k1", tdst |-> "t2"]}
   \cup {[op |-> "deser", src |-> "b2", dst |-> "k1"], [op |-> "b58deser", tn |-> "t2", dst |-> "k1"]}
   \cup {[op |-> "gset", g |-> "g0", src |-> n] : n \in {"k0", "k1"}}
   \cup {[op |-> "gderive", g |-> "g0", t |-> s, dst |-> "l0"] : s \in Routes}
   \cup {[op |-> "rset", r |-> "r0", src |-> "k1", i |-> <<2>>, j |-> j, t |-> <<109, 47, 49>>] : j \in {<<4>>, <<2>>}}
   \cup {[op |-> "rgen", r |-> "r0"]}
   \cup {[op |-> c, src |-> "k1", x |-> 5] : c \in {"addrhex", "addrp2sh", "prvhex", "pubhex"}}
   \cup {[op |-> "wl", list |-> k] : k \in 1..2}
Full(e) == CASE e.op \in Simple -> Out(e) [] e.op = "gderive" -> GDerive(e.t) [] e.op = "rgen" -> RGen
             [] e.op = "genmn" -> [words |-> 2, o |-> "ok", r |-> MnemonicOf(act, <<1, 1, 0, 0>>)] @@ e
             [] e.op = "gset" -> [o |-> "ok", now |-> key[e.src]] @@ e
             [] OTHER -> [o |-> "ok"] @@ e
\* journeys do not use what is empty, except on purpose
Sense(e) ==
    CASE e.op \in {"dec", "seedhex", "seed", "seedchk"} -> txt[e.tn] # <<>>
      [] e.op = "root" -> txt[e.tn] # <<>>
      [] e.op = "b58deser" -> txt[e.tn] # <<>>
      [] e.op \in {"master", "deser"} -> buf[e.src] # <<>>
      [] e.op \in {"copy", "child", "neuter", "ser", "b58", "addrhex", "addrp2sh", "prvhex", "pubhex", "gset", "rset"} -> key[e.src] # Blank
      [] e.op = "setver" -> key[e.dst] # Blank
      [] e.op = "pick" -> lst[e.src] # <<>>
      [] e.op = "rgen" -> Known("q0")
      [] e.op = "gderive" -> Known("g0")
      [] OTHER -> TRUE

\* ------------------------------------------------------------------ origins
Mn(k, x) == [kind |-> "mn", list |-> k, ent |-> x]
Sd(q, u) == [kind |-> "seed", list |-> q.list, ent |-> q.ent, u |-> u]
Rt(q) == [kind |-> "key", list |-> q.list, ent |-> q.ent, u |-> q.u, path |-> <<>>, ver |-> DefaultPrv, prv |-> TRUE]
At2(q, n) == IF Len(q.steps) = 0 THEN Unknown ELSE q.steps[(n % Len(q.steps)) + 1]
Further(q, i) == [q EXCEPT !.path = Append(@, i)]
Trace(q, is) == [x \in 1..(Len(is) + 1) |-> [q EXCEPT !.path = @ \o SubSeq(is, 1, x - 1)]]
Grow(e) ==
    IF e.o # "ok" THEN where ELSE
    CASE e.op = "enc" -> [where EXCEPT !["t0"] = Mn(act, where["b0"].ent)]
      [] e.op = "genmn" -> [where EXCEPT !["t0"] = Mn(act, <<1, 1, 0, 0>>)]
      [] e.op = "dec" -> [where EXCEPT !["b0"] = [kind |-> "ent", ent |-> IF where[e.tn].list = act THEN where[e.tn].ent ELSE e.r]]
      [] e.op = "seedhex" -> [where EXCEPT !["t1"] = Sd(where["t0"], e.u)]
      [] e.op \in {"seed", "seedchk"} -> [where EXCEPT !["b1"] = Sd(where["t0"], e.u)]
      [] e.op = "root" -> [where EXCEPT !["k0"] = Rt(where[e.tn])]
      [] e.op = "master" -> [where EXCEPT !["k0"] = Rt(where["b1"])]
      [] e.op = "copy" -> [where EXCEPT !["k1"] = where[e.src]]
      [] e.op = "child" -> [where EXCEPT !["k1"] = Further(where[e.src], e.i)]
      [] e.op = "neuter" -> [where EXCEPT !["k1"] = [where[e.src] EXCEPT !.prv = FALSE]]
      [] e.op = "setver" -> [where EXCEPT !["k0"].ver = <<11>>]
      [] e.op = "pick" -> [where EXCEPT !["k1"] = At2(where[e.src], e.n)]
      [] e.op \in {"ser"} -> [where EXCEPT !["b2"] = where["k1"]]
      [] e.op = "b58" -> [where EXCEPT !["t2"] = where["k1"]]
      [] e.op = "deser" -> [where EXCEPT !["k1"] = where["b2"]]
      [] e.op = "b58deser" -> [where EXCEPT !["k1"] = where["t2"]]
      [] e.op = "gset" -> [where EXCEPT !["g0"] = where[e.src]]
      [] e.op = "gderive" -> [where EXCEPT !["l0"] = [kind |-> "list", steps |-> Trace(where["g0"], Tail(Parse(e.t)))]]
      [] e.op = "rset" -> [where EXCEPT !["q0"] = [where["k1"] EXCEPT !.kind = "range"] @@ [num |-> e.i, end |-> e.j]]
      [] e.op = "rgen" -> [where EXCEPT !["r0"] = [kind |-> "list", steps |-> Tail(Trace([f \in DOMAIN where["q0"] \ {"num", "end"} |-> IF f = "kind" THEN "key" ELSE where["q0"][f]],
                                                                                        [x \in 1..Size(where["q0"].num, where["q0"].end) |-> Nth(where["q0"].num, x - 1)]))]]
      [] OTHER -> where

\* ------------------------------------------------------------------ what an origin denotes
RootOf(q) == LET m == Master(Stretch(MnemonicOf(q.list, q.ent), q.u)) IN q.ver \o Tail(m)
Private(q) == Walk(RootOf(q), q.path)
Denotes(q) == IF q.prv THEN Private(q) ELSE Neuter(Fields(Private(q)))
Holding(n, b) == Known(n) => CASE where[n].kind = "mn" -> b = MnemonicOf(where[n].list, where[n].ent)
                                [] where[n].kind = "ent" -> b = where[n].ent
                                [] where[n].kind = "seed" -> LET s == Stretch(MnemonicOf(where[n].list, where[n].ent), where[n].u) IN b = s \/ b = HexText(s)
                                [] where[n].kind = "key" -> LET k == Denotes(where[n]) IN b = k \/ b = Wrap(k) \/ b = Text58(Wrap(k))
Means == /\ \A n \in TextNames : Holding(n, txt[n])
         /\ \A n \in BufNames : Holding(n, buf[n])
         /\ \A n \in KeyNames : Holding(n, key[n])
         /\ Known("g0") => root["g0"] = Denotes(where["g0"])
         /\ \A n \in ListNames : Known(n) => lst[n] = [x \in 1..Len(where[n].steps) |-> Denotes(where[n].steps[x])]
\* written and read again: nothing is lost, under any list that was active
Restored == Is("t0", "mn") => EntropyIn(where["t0"].list, txt["t0"]) = where["t0"].ent
\* who watches sees the addresses of who holds the keys, and no keys
Watched == \A n \in KeyNames : Is(n, "key") =>
              LET k == Kf(n) p == Fields(Private(where[n])) IN
              /\ AccountAddr(k) = AccountAddr(p) /\ PrefixedAddr(k, 5) = PrefixedAddr(p, 5)
              /\ k.prv = where[n].prv
\* an ideal library meets the obligation, any other result of a call does not
Obedient == \A x \in Legs : Sense(x) => LET e == Full(x) IN (e.op = "rgen" => ~Chance(range["r0"])) => C26(e)
Sharp == \A z \in Legs : Sense(z) => LET e == Full(z) IN
            /\ e.op \in Simple /\ Judged(e) => (~C26([e EXCEPT !.r = Append(@, 1)]) \/ e.o = "err") /\ ~C26([e EXCEPT !.o = IF @ = "ok" THEN "err" ELSE "ok"])
            /\ e.op = "gderive" /\ e.o = "ok" => ~C26([e EXCEPT !.l[Len(e.l)].k = [@ EXCEPT ![5] = (@ + 1) % 2]]) /\ ~C26([e EXCEPT !.now = Blank])
            /\ e.op = "rgen" /\ e.o = "ok" => ~C26([e EXCEPT !.l[Len(e.l)].k = [@ EXCEPT ![5] = (@ + 1) % 2]])
\* a library that still went by the other list, passphrase or root would be noticed, unless they agree
Noticed == \A z \in Legs : Sense(z) /\ z.op \in {"enc", "seed", "seedchk", "master"} => LET e == Full(z) IN e.o = "ok" =>
            /\ e.op = "enc" => LET w == MnemonicOf(3 - act, buf[e.src]) IN w = e.r \/ ~C26([e EXCEPT !.r = w])
            /\ e.op \in {"seed", "seedchk"} => \A u \in Spoken : LET w == Stretch(txt[e.tn], u) IN w = e.r \/ ~C26([e EXCEPT !.r = w])
            /\ e.op = "master" => \A x \in 0..3 : LET w == Master(<<x>>) IN w = e.r \/ ~C26([e EXCEPT !.r = w])

\* ------------------------------------------------------------------ behaviours
Registers == {"t0", "t1", "t2", "b0", "b1", "b2", "k0", "k1", "g0", "l0", "r0", "q0"}
\* a new user, or one whose wallet exists
Init == \/ /\ JInitPlain
           /\ \E x \in Ents : /\ buf = [n \in BufNames |-> IF n = "b0" THEN x ELSE <<>>]
                              /\ where = [n \in Registers |-> IF n = "b0" THEN [kind |-> "ent", ent |-> x] ELSE Unknown]
        \/ \E x \in Ents, u \in Spoken :
              LET t == MnemonicOf(1, x) m == Master(Stretch(t, u)) q == Rt(Sd(Mn(1, x), u)) IN
              /\ m # Fail
              /\ act = 1 /\ txt = [n \in TextNames |-> IF n = "t0" THEN t ELSE <<>>] /\ buf = [n \in BufNames |-> <<>>]
              /\ key = [n \in KeyNames |-> m] /\ lst = [n \in ListNames |-> <<>>] /\ root = [g \in GenNames |-> m] /\ range = [r \in RangeNames |-> NoRange]
              /\ where = [n \in Registers |-> IF n = "t0" THEN Mn(1, x) ELSE IF n \in {"k0", "k1", "g0"} THEN q ELSE Unknown]
Next == \E z \in Legs : Sense(z) /\ LET e == Full(z) IN JStep(e) /\ where' = Grow(e)
Spec == Init /\ [][Next]_all
Bounded == TLCGet("level") < atoi(IOEnv.LEVEL)
=============================================================================
