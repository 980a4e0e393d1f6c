----------------------------- MODULE Mnemonics -----------------------------
(***************************************************************************)
(* BIP-39 mnemonics over an abstract algebra: entropies and check sums are *)
(* bit sequences, a word list is a sequence of 2^WordBits distinct words,  *)
(* a word is a sequence of characters, a text a sequence of characters.    *)
(* The obligations of C12, C13, C14 and C15 speak about one call each,     *)
(* under the word list that was set last.                                  *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

CONSTANTS WordBits,            \* bits per word
          Ratio,               \* entropy bits per bit of check sum
          EntLens,             \* permitted numbers of entropy bits
          Octet,               \* bits per byte
          SumBits(_, _),       \* the first n bits of the hash of an entropy
          IsSpaceC(_),         \* does a character separate words?
          SpaceC               \* the separator written
          
SumLen(n) == n \div Ratio
WordsFor(n) == (n + SumLen(n)) \div WordBits
Counts == {WordsFor(n) : n \in EntLens}
EntLenOf(count) == CHOOSE n \in EntLens : WordsFor(n) = count

\* ------------------------------------------------------------------ writing
Groups(bits) == [i \in 1..(Len(bits) \div WordBits) |-> BitsVal(SubSeq(bits, WordBits * (i - 1) + 1, WordBits * i))]
Indices(ent) == Groups(ent \o SumBits(ent, SumLen(Len(ent))))
Sentence(words) == FoldLeft(LAMBDA a, w : IF a = <<>> THEN w ELSE a \o <<SpaceC>> \o w, <<>>, words)
Encode(list, ent) == LET ix == Indices(ent) IN Sentence([i \in DOMAIN ix |-> list[ix[i] + 1]])

\* ------------------------------------------------------------------ reading
Tokens(text) == LET r == FoldLeft(LAMBDA a, c : IF IsSpaceC(c) THEN IF a[2] = <<>> THEN a ELSE <<Append(a[1], a[2]), <<>>>>
                                                ELSE <<a[1], Append(a[2], c)>>, <<<<>>, <<>>>>, text)
                IN  IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])
\* at is the index of a list: word -> position counted from 0
IndexOf(list) == [w \in Range(list) |-> (CHOOSE i \in DOMAIN list : list[i] = w) - 1]
BitsOf(at, ws) == [i \in 1..(WordBits * Len(ws)) |-> LET k == (i - 1) \div WordBits IN
                        (at[ws[k + 1]] \div Pow2[WordBits - ((i - 1) % WordBits)]) % 2]
EntOf(at, ws) == SubSeq(BitsOf(at, ws), 1, EntLenOf(Len(ws)))
\* what is wrong with a text: its word count, a word, its check sum, nothing
Faults(at, text) ==
    LET ws == Tokens(text)
        count == Len(ws) \notin Counts
        word  == \E i \in DOMAIN ws : ws[i] \notin DOMAIN at
    IN  IF count \/ word THEN (IF count THEN {"count"} ELSE {}) \cup (IF word THEN {"word"} ELSE {})
        ELSE LET e == EntOf(at, ws) IN IF SumBits(e, SumLen(Len(e))) = SubSeq(BitsOf(at, ws), Len(e) + 1, Len(ws) * WordBits) THEN {} ELSE {"sum"}
Valid(at, text) == Faults(at, text) = {}
Entropy(at, text) == EntOf(at, Tokens(text))                                       \* of a valid text

\* entropy and check sum as one big-endian number of fixed length, in bytes
Joint(ent) == LET b == ent \o SumBits(ent, SumLen(Len(ent)))
                  n == (Len(b) + Octet - 1) \div Octet
              IN  [i \in 1..(n * Octet) |-> LET k == i - (n * Octet - Len(b)) IN IF k < 1 THEN 0 ELSE b[k]]

\* ------------------------------------------------------------------ obligations
\* Every event has o (ok, err, ...); byte results are given as bit sequences, texts as character sequences.
\* C12: enc has ent and r; dec and arr have t, raw and r
C12(list, at, e) ==
    CASE e.op = "enc" -> IF Len(e.ent) \in EntLens THEN e.o = "ok" /\ e.r = Encode(list, e.ent) ELSE e.o = "err"
      [] e.op = "dec" -> Valid(at, e.t) => e.o = "ok" /\ e.r = Entropy(at, e.t)
      [] e.op = "arr" -> Valid(at, e.t) => e.o = "ok" /\ e.r = (IF e.raw THEN Entropy(at, e.t) ELSE Joint(Entropy(at, e.t)))
      [] OTHER -> TRUE
\* C13: every validator; mvalid has v; the others have o, and e when o is err
ErrorFits(e, faults) == /\ e.e = "count" => "count" \in faults
                        /\ e.e = "sum" => "sum" \in faults
                        /\ e.e = "other" => "word" \in faults
C13(list, at, e) ==
    CASE e.op = "mvalid" -> e.o = "ok" /\ e.v = Valid(at, e.t)
      [] e.op \in {"dec", "arr", "seedchk", "seedhex"} ->
            LET f == Faults(at, e.t) IN IF f = {} THEN e.o = "ok" ELSE e.o = "err" /\ ErrorFits(e, f)
      [] OTHER -> TRUE
\* C14: everything that depends on the active list does depend on this one
C14(list, at, e) ==
    CASE e.op = "widx" -> e.o = "ok" /\ e.found = (e.t \in DOMAIN at) /\ (e.found => e.v = at[e.t])
      [] e.op = "wget" -> e.o = "ok" /\ e.r = list
      [] OTHER -> C12(list, at, e) /\ C13(list, at, e)
=============================================================================
