--------------------------- MODULE MC_Mnemonics ---------------------------
(***************************************************************************)
(* Toy mnemonics: words of three bits, one bit of check sum per two bits   *)
(* of entropy, sentences of two, three and four words, overlapping lists   *)
(* and a user who changes lists, writes down mnemonics and reads them      *)
(* back.  The implementation modelled keeps, as the code does, the list    *)
(* and a map that it builds when the list is set.                          *)
(***************************************************************************)
EXTENDS Mnemonics, IOUtils, TLC

Level == atoi(IOEnv.LEVEL)
TSum(ent, n) == LET v == BitsVal(ent) IN SubSeq(NumBits((v * v + 5 * v + 3) % 16, 4), 1, n)
TSpace(c) == c \in {32, 9}
TEntLens == {4, 6, 8}

\* lists of eight words over letters: rotations, a reversal, a list sharing only some words, words containing others
A == <<<<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>>>
B == [i \in 1..8 |-> A[(i % 8) + 1]]
C == [i \in 1..8 |-> IF i % 2 = 0 THEN A[i] ELSE <<97 + i, 97>>]
D == [i \in 1..8 |-> IF i < 4 THEN A[9 - i] ELSE <<97, 97>> \o A[i]]
Lists == <<A, B, C, D>>
At == [k \in 1..4 |-> IndexOf(Lists[k])]
Bin(n, v) == NumBits(v, n)
Ents(n) == {Bin(n, v) : v \in 0..(Pow2[n + 1] - 1)}
AllEnts == UNION {Ents(n) : n \in TEntLens}

VARIABLES active,              \* the list set last
          wlist, wmap,         \* the implementation's copy and map
          notes                \* mnemonics written down: entropy, text and list
vars == <<active, wlist, wmap, notes>>
Init == active = 1 /\ wlist = A /\ wmap = At[1] /\ notes = {}
Set == \E k \in 1..4 : active' = k /\ wlist' = Lists[k] /\ wmap' = At[k] /\ UNCHANGED notes
Write == /\ Cardinality(notes) < Level
         /\ \E v \in {0, 5, 9, 15} : notes' = notes \cup {<<Bin(4, v), Encode(wlist, Bin(4, v)), active>>}
         /\ UNCHANGED <<active, wlist, wmap>>
Next == Set \/ Write
Spec == Init /\ [][Next]_vars

\* what the implementation answers
Outcome(f) == IF f = {} THEN [o |-> "ok", e |-> ""] ELSE [o |-> "err", e |-> IF "count" \in f THEN "count" ELSE IF "word" \in f THEN "other" ELSE "sum"]
Dec(t) == Outcome(Faults(wmap, t)) @@ [op |-> "dec", t |-> t, r |-> IF Valid(wmap, t) THEN Entropy(wmap, t) ELSE <<>>]
Enc(x) == [op |-> "enc", ent |-> x, r |-> Encode(wlist, x), o |-> "ok"]
Idx(w) == [op |-> "widx", t |-> w, o |-> "ok", found |-> w \in DOMAIN wmap, v |-> IF w \in DOMAIN wmap THEN wmap[w] ELSE 0]

\* the implementation meets the obligations, whatever the history
Meets == /\ \A n \in notes : C14(Lists[active], At[active], Dec(n[2]))
         /\ \A v \in 0..15 : C14(Lists[active], At[active], Enc(Bin(4, v)))
         /\ \A k \in 1..4, i \in 1..8 : C14(Lists[active], At[active], Idx(Lists[k][i]))
\* mnemonics decode again under their list
Again == \A n \in notes : n[3] = active => Dec(n[2]).o = "ok" /\ Dec(n[2]).r = n[1]
\* an implementation that still used another list would be noticed
Noticed == \A k \in 1..4 : k # active =>
              \/ \E v \in 0..15 : ~C14(Lists[active], At[active], [Enc(Bin(4, v)) EXCEPT !.r = Encode(Lists[k], Bin(4, v))])
Stale == \A k \in 1..4 : k # active => \E i \in 1..8 : LET w == Lists[k][i] IN
              ~C14(Lists[active], At[active], [op |-> "widx", t |-> w, o |-> "ok", found |-> TRUE, v |-> At[k][w]])

\* ------------------------------------------------------------------ facts about the encoding
TwoWords(list) == {list[i] \o <<32>> \o list[j] : i, j \in DOMAIN list}
ASSUME Lossless == \A k \in 1..4, x \in AllEnts : Valid(At[k], Encode(Lists[k], x)) /\ Entropy(At[k], Encode(Lists[k], x)) = x
ASSUME OneToOne == \A k \in 1..4 : LET good == {t \in TwoWords(Lists[k]) : Valid(At[k], t)} IN
                        Cardinality(good) = 16 /\ \A t \in good : Encode(Lists[k], Entropy(At[k], t)) = t
ASSUME Wrong == \A k \in 1..4 : \A t \in TwoWords(Lists[k]) : Valid(At[k], t) \/ Faults(At[k], t) = {"sum"}
ASSUME Spacing == \A x \in Ents(4) : LET t == Encode(A, x) IN
                    \A u \in {<<32>> \o t, t \o <<9, 9>>, FoldLeft(LAMBDA a, c : a \o (IF c = 32 THEN <<9, 32>> ELSE <<c>>), <<>>, t)} :
                        Tokens(u) = Tokens(t) /\ Valid(At[1], u)
ASSUME Counted == Counts = {2, 3, 4} /\ \A n \in 0..6 : n \notin Counts => LET t == Sentence([i \in 1..n |-> A[1]]) IN "count" \in Faults(At[1], t)
ASSUME JointLength == \A x \in AllEnts : Len(Joint(x)) = (IF Len(x) = 4 THEN 8 ELSE 12) /\ BitsVal(Joint(x)) = BitsVal(x) * Pow2[SumLen(Len(x)) + 1] + BitsVal(TSum(x, SumLen(Len(x))))
ASSUME Lengths == \A n \in {0, 2, 5, 7, 10} : C12(A, At[1], [op |-> "enc", ent |-> Zeros(n), o |-> "err", r |-> <<>>]) /\ ~C12(A, At[1], [op |-> "enc", ent |-> Zeros(n), o |-> "ok", r |-> <<>>])
=============================================================================
