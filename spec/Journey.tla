------------------------------ MODULE Journey ------------------------------
(***************************************************************************)
(* A wallet's life from end to end (C26): entropy, mnemonic, seed, root,   *)
(* accounts, extended keys written down and read back, watch-only          *)
(* derivation, ranges, addresses, with word lists changing in between.     *)
(*                                                                         *)
(* Unlike in the other modules nothing that was observed becomes part of   *)
(* the state (but what the specification leaves open): the content of      *)
(* every register is computed from the inputs alone, and each call must    *)
(* yield what the registers imply.                                         *)
(***************************************************************************)
EXTENDS Wallet, Addresses

CONSTANTS TextNames, BufNames, KeyNames, ListNames,
          FirstList,
          MnemonicOf(_, _),          \* the mnemonic of an entropy under a list; Fail if there is none
          EntropyIn(_, _),           \* the entropy of a mnemonic under a list; Fail
          Stretch(_, _),        \* the seed of a text and a passphrase
          UnhexText(_),         \* bytes of hex digits; Fail
          Back58(_),            \* bytes of a Base58 text
          MinSeed,              \* shortest hex seed, in bytes
          Blank                 \* content of a key register at first

VARIABLES act,                  \* the active word list
          txt, buf, key,        \* registers
          lst                   \* lists of keys: those of paths and those of ranges (named like the range)
journey == <<act, txt, buf, key, lst, root, range>>

\* ------------------------------------------------------------------ what a call must yield
Kf(n) == Fields(key[n])
Readable(t) == EntropyIn(act, txt[t]) # Fail
Pickable(e) == lst[e.src] # <<>>
MakesText == {"enc", "seedhex", "b58", "string", "addrhex", "addrp2sh", "prvhex", "pubhex"}
MakesBuf  == {"dec", "seed", "seedchk", "ser"}
MakesKey  == {"root", "master", "child", "neuter", "setver", "copy", "deser", "b58deser", "pick"}
UsesKey   == {"child", "neuter", "ser", "b58", "string", "addrhex", "addrp2sh", "prvhex", "pubhex"}
Result(e) ==
    CASE e.op = "enc" -> MnemonicOf(act, buf[e.src])
      [] e.op = "dec" -> EntropyIn(act, txt[e.tn])
      [] e.op = "seed" -> Stretch(txt[e.tn], e.u)
      [] e.op = "seedchk" -> IF Readable(e.tn) THEN Stretch(txt[e.tn], e.u) ELSE Fail
      [] e.op = "seedhex" -> IF Readable(e.tn) THEN HexText(Stretch(txt[e.tn], e.u)) ELSE Fail
      [] e.op = "root" -> LET s == UnhexText(txt[e.tn]) IN IF s = Fail \/ Len(s) < MinSeed THEN Fail ELSE Master(s)
      [] e.op = "master" -> Master(buf[e.src])
      [] e.op = "child" -> ChildOf(Kf(e.src), e.i)
      [] e.op = "neuter" -> Neuter(Kf(e.src))
      [] e.op = "setver" -> e.ver \o Slice(key[e.dst], VerLen, KeySize - VerLen)
      [] e.op = "copy" -> key[e.src]
      [] e.op = "pick" -> LET s == lst[e.src] IN IF s = <<>> THEN key[e.dst] ELSE s[(e.n % Len(s)) + 1]
      [] e.op = "ser" -> Wrap(key[e.src])
      [] e.op \in {"b58", "string"} -> Text58(Wrap(key[e.src]))
      [] e.op = "deser" -> Decode(buf[e.src])
      [] e.op = "b58deser" -> Decode(Back58(txt[e.tn]))
      [] e.op = "addrhex" -> AccountAddr(Kf(e.src))
      [] e.op = "addrp2sh" -> PrefixedAddr(Kf(e.src), e.x)
      [] e.op = "prvhex" -> IF Kf(e.src).prv THEN HexText(Scalar(Kf(e.src))) ELSE <<>>
      [] e.op = "pubhex" -> HexText(PubPoint(Kf(e.src)))
\* calls on keys that are none, or public ones of unknown version, are not judged
Judged(e) == /\ e.op \in UsesKey => Legal(Kf(e.src))
             /\ e.op \in {"neuter"} => Registered(Kf(e.src))
Fallible == {"enc", "dec", "seedchk", "seedhex", "root", "master", "child", "deser", "b58deser"}
\* the keys of a list of entries, as they must be
Trailed(e) == LET v == Parse(e.t) IN IF v = NoPath \/ ~ValidRoot(root[e.g]) THEN Fail ELSE Trail(root[e.g], Tail(v))
Ranged(r, L) == [x \in DOMAIN L |-> LET a == AddedTo(r.t, L[x].p) IN IF a = NoPath THEN L[x].k ELSE LET w == Walk(r.key, a) IN IF w = Fail THEN L[x].k ELSE w]

\* ------------------------------------------------------------------ the obligation
Simple == MakesText \cup MakesBuf \cup MakesKey
Reached(e) == LET w == Result(e) IN
    IF w = Fail /\ e.op \in Fallible THEN e.o = "err" ELSE e.o = "ok" /\ e.r = w
C26(e) ==
    CASE e.op \in Simple -> Judged(e) => Reached(e)
      [] e.op = "gset" -> e.o = "ok" /\ e.now = key[e.src]
      [] e.op = "gderive" -> C10Derive(e)
      [] e.op = "rgen" -> C11(e)
      [] e.op = "genmn" -> e.o = "ok" /\ LET s == EntropyIn(act, e.r) IN s # Fail /\ MnemonicOf(act, s) = e.r /\ e.n = e.words
      [] OTHER -> e.o = "ok"

\* ------------------------------------------------------------------ transitions
Holds(e) == IF Judged(e) THEN Result(e) ELSE e.r
JStep(e) ==
    /\ act' = IF e.op = "wl" THEN e.list ELSE act
    /\ txt' = IF e.op = "text" THEN [txt EXCEPT ![e.tdst] = e.r]
              ELSE IF e.op = "tpoke" /\ txt[e.tn] # <<>> THEN [txt EXCEPT ![e.tn][(e.off % Len(txt[e.tn])) + 1] = e.x]
              ELSE IF e.op = "genmn" /\ "tdst" \in DOMAIN e THEN [txt EXCEPT ![e.tdst] = e.r]
              ELSE IF e.op \in MakesText /\ "tdst" \in DOMAIN e /\ (Holds(e) # Fail \/ e.op = "prvhex") THEN [txt EXCEPT ![e.tdst] = Holds(e)]
              ELSE txt
    /\ buf' = IF e.op = "buf" THEN [buf EXCEPT ![e.dst] = e.r]
              ELSE IF e.op \in MakesBuf /\ Holds(e) # Fail THEN [buf EXCEPT ![e.dst] = Holds(e)] ELSE buf
    /\ key' = IF e.op = "load" THEN [key EXCEPT ![e.dst] = e.r]
              ELSE IF e.op \in MakesKey /\ Holds(e) # Fail THEN [key EXCEPT ![e.dst] = Holds(e)] ELSE key
    /\ lst' = CASE e.op = "gderive" /\ Trailed(e) # Fail -> [lst EXCEPT ![e.dst] = Trailed(e)]
                [] e.op = "rgen" /\ e.o = "ok" -> [lst EXCEPT ![e.r] = Ranged(range[e.r], e.l)]
                [] OTHER -> lst
    /\ root' = IF e.op = "gset" THEN [root EXCEPT ![e.g] = key[e.src]] ELSE root
    /\ range' = IF e.op = "rset" THEN [range EXCEPT ![e.r] = [i |-> e.i, j |-> e.j, t |-> e.t, key |-> key[e.src], list |-> <<>>]] ELSE range
JInitPlain == /\ WInit
              /\ act = FirstList
              /\ txt = [n \in TextNames |-> <<>>]
              /\ key = [n \in KeyNames |-> Blank]
              /\ lst = [n \in ListNames |-> <<>>]
JInit == JInitPlain /\ buf = [n \in BufNames |-> <<>>]
=============================================================================
