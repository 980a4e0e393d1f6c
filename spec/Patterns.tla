------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* Entropies whose sentences have a pattern (for plans).                   *)
(***************************************************************************)
EXTENDS Plan, RealMnemonics

\* sentences that repeat their words: the entropies for which the last word fits
Entropy11(ix) == SubSeq(Cat([i \in DOMAIN ix |-> NumBits(ix[i], 11)]), 1, (32 * Len(ix)) \div 3)
Fits(ix) == LET e == BitsToBytes(Entropy11(ix)) c == Len(ix) \div 3 IN SHA256(e)[1] \div Pow2[9 - c] = ix[Len(ix)] % Pow2[c + 1]
Repeats(n) == [k \in 1..2048 |-> [i \in 1..n |-> k - 1]]
Rising(n) == [k \in 1..2048 |-> [i \in 1..n |-> (k + i - 2) % 2048]]
Turns(n, d) == [k \in 1..2048 |-> [i \in 1..n |-> IF i % 2 = 1 THEN k - 1 ELSE (d * (k + 6)) % 2048]]
Patterned(n) == LET X == SelectSeq(Repeats(n), Fits) Y == SelectSeq(Rising(n), Fits) Z == SelectSeq(Turns(n, 3), Fits) c(s) == IF Len(s) > 16 THEN SubSeq(s, 1, 16) ELSE s IN X \o c(Y) \o c(Z)
PatternEnts(n) == LET X == Patterned(n) IN [j \in DOMAIN X |-> BitsToBytes(Entropy11(X[j]))]
\* entropies of n bytes whose checksum byte is x
WithSum(n, x) == LET X == SelectSeq([k \in 1..1500 |-> Unhex(Rnd("ws" \o S(n) \o "x" \o S(k), n))], LAMBDA e : SHA256(e)[1] = x) IN IF Len(X) > 3 THEN SubSeq(X, 1, 3) ELSE X
=============================================================================
