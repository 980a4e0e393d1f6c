------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Arithmetic on big-endian byte sequences (TLC's integers have 32 bits),  *)
(* bit strings, decimal numerals and Base58.  Pure TLA+.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
Slice(s, off, n) == SubSeq(s, off + 1, off + n)          \* n elements starting at 0-based offset
LeftPad(s, n) == IF Len(s) >= n THEN s ELSE Zeros(n - Len(s)) \o s
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
Ints(n) == [i \in 1..n |-> i]

\* lexicographic (that is, numeric) order of byte sequences of equal length: <<decided, less>>
Less(a, b) == LET D == {i \in 1..Len(a) : a[i] # b[i]}
              IN  D # {} /\ LET d == CHOOSE i \in D : \A j \in D : i <= j IN a[d] < b[d]

\* a + b, one byte longer than the operands
Plus(a, b) == LET n == Len(a)
                  r == FoldLeft(LAMBDA acc, k : LET s == a[n + 1 - k] + b[n + 1 - k] + acc[1]
                                                IN  <<s \div 256, <<s % 256>> \o acc[2]>>, <<0, <<>>>>, Ints(n))
              IN  <<r[1]>> \o r[2]
\* a - b modulo 256^Len
Minus(a, b) == LET n == Len(a)
               IN  FoldLeft(LAMBDA acc, k : LET s == a[n + 1 - k] - b[n + 1 - k] - acc[1]
                                            IN  <<IF s < 0 THEN 1 ELSE 0, <<s % 256>> \o acc[2]>>, <<0, <<>>>>, Ints(n))[2]
\* (a + b) mod n where a + b < 2n
ModSum(a, b, n) == LET s == Plus(a, b) m == <<0>> \o n
                   IN  Tail(IF Less(s, m) THEN s ELSE Minus(s, m))

\* 32-bit numbers as four bytes
U32(v) == <<v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>     \* 0 <= v < 2^31
Val32(b) == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]                            \* b[1] < 128
HBit(b) == b[1] >= 128
ClearH(b) == [b EXCEPT ![1] = @ % 128]
SetH(b) == [b EXCEPT ![1] = (@ % 128) + 128]
Succ32(b) == Tail(Plus(b, <<0, 0, 0, 1>>))
Max32 == <<255, 255, 255, 255>>

\* decimal numeral (sequence of digits 0..9) as bytes of the given width; <<>> if it does not fit
TimesPlus(a, m, c) == LET n == Len(a)
                          r == FoldLeft(LAMBDA acc, k : LET s == a[n + 1 - k] * m + acc[1]
                                                        IN  <<s \div 256, <<s % 256>> \o acc[2]>>, <<c, <<>>>>, Ints(n))
                      IN  IF r[1] = 0 THEN r[2] ELSE <<>>
DecimalToBytes(ds, width) == FoldLeft(LAMBDA acc, d : IF acc = <<>> THEN acc ELSE TimesPlus(acc, 10, d), Zeros(width), ds)

\* bytes as decimal digits without leading zeros
DivMod(a, m) == FoldLeft(LAMBDA acc, x : LET s == acc[2] * 256 + x IN <<Append(acc[1], s \div m), s % m>>, <<<<>>, 0>>, a)
RECURSIVE ToDecR(_, _)
ToDecR(a, acc) == IF AllZero(a) THEN acc ELSE LET q == DivMod(a, 10) IN ToDecR(q[1], <<q[2]>> \o acc)
BytesToDecimal(a) == IF AllZero(a) THEN <<0>> ELSE ToDecR(a, <<>>)

\* bit strings, most significant bit first
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>                     \* Pow2[k + 1] is 2^k
BitOf(s, i) == (s[((i - 1) \div 8) + 1] \div Pow2[8 - ((i - 1) % 8)]) % 2              \* i counts from 1
Bits(s) == [i \in 1..(8 * Len(s)) |-> BitOf(s, i)]
BitsVal(b) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, b)                              \* at most 30 bits
NumBits(v, k) == [i \in 1..k |-> (v \div Pow2[k - i + 1]) % 2]
BitsToBytes(b) == [i \in 1..(Len(b) \div 8) |-> BitsVal(SubSeq(b, 8 * i - 7, 8 * i))]   \* 8 | Len(b)

\* Base58 with Bitcoin's alphabet, over ASCII codes.  Numbers are kept as little-endian limbs of 58^3.
B58Alphabet == <<49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,
                 97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
Limb == 195112
LimbStep(x, m, c) == LET r == FoldLeft(LAMBDA acc, e : LET s == e * m + acc[1] IN <<s \div Limb, Append(acc[2], s % Limb)>>, <<c, <<>>>>, x)
                     IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
Leading(s, v) == LET D == {i \in 1..Len(s) : s[i] # v}                                  \* how many leading v
                 IN  IF D = {} THEN Len(s) ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1
B58Encode(s) ==
    LET z     == Leading(s, 0)
        l     == FoldLeft(LAMBDA acc, x : LimbStep(acc, 256, x), <<>>, s)
        n     == Len(l)
        digit == [i \in 1..(3 * n) |-> LET x == l[n - ((i - 1) \div 3)] k == (i - 1) % 3
                                       IN IF k = 0 THEN x \div 3364 ELSE IF k = 1 THEN (x \div 58) % 58 ELSE x % 58]
        lead  == Leading(digit, 0)
    IN  [i \in 1..(z + 3 * n - lead) |-> IF i <= z THEN 49 ELSE B58Alphabet[digit[i - z + lead] + 1]]

\* bytes of a Base58 text; <<-1>> if a character is outside the alphabet
B58Digit == [c \in {B58Alphabet[i] : i \in 1..58} |-> (CHOOSE i \in 1..58 : B58Alphabet[i] = c) - 1]
ByteStep(x, m, c) == LET r == FoldLeft(LAMBDA acc, e : LET s == e * m + acc[1] IN <<s \div 256, Append(acc[2], s % 256)>>, <<c, <<>>>>, x)
                     IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])                \* little-endian bytes
B58Decode(t) ==
    IF \E i \in 1..Len(t) : t[i] \notin DOMAIN B58Digit THEN <<-1>>
    ELSE Zeros(Leading(t, 49)) \o Reverse(FoldLeft(LAMBDA acc, c : ByteStep(acc, 58, B58Digit[c]), <<>>, t))
=============================================================================
