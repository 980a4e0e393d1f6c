----------------------------- MODULE WordLists -----------------------------
(***************************************************************************)
(* The word lists plans activate: official and synthetic lists, mixed,     *)
(* reversed and rotated, or a few words.  A list is named by a record.     *)
(***************************************************************************)
EXTENDS RealMnemonics, TLC

NoList == [name |-> "", name2 |-> "", each |-> 0, rot |-> 0, rev |-> FALSE, sw |-> 0, t |-> ""]
Plain(n) == [NoList EXCEPT !.name = n]
English == Plain("english")
ListKey(j) == [f \in DOMAIN NoList |-> IF f \in DOMAIN j THEN j[f] ELSE NoList[f]]

Made == [i \in 1..2048 |-> <<119>> \o LET d == i - 1 IN
            IF d < 10 THEN <<48 + d>> ELSE IF d < 100 THEN <<48 + (d \div 10), 48 + (d % 10)>>
            ELSE IF d < 1000 THEN <<48 + (d \div 100), 48 + ((d \div 10) % 10), 48 + (d % 10)>>
            ELSE <<48 + (d \div 1000), 48 + ((d \div 100) % 10), 48 + ((d \div 10) % 10), 48 + (d % 10)>>]
SplitAt(text, c) == LET r == FoldLeft(LAMBDA a, x : IF x = c THEN <<Append(a[1], a[2]), <<>>>> ELSE <<a[1], Append(a[2], x)>>, <<<<>>, <<>>>>, text)
                    IN  Append(r[1], r[2])
\* the list a key names, given the basic lists as a function of their name
ListOf(Basic, k) ==
    IF k.name = "" THEN SplitAt(CodePoints(Unhex(k.t)), 32)
    ELSE LET l == Basic[k.name]
             at(i) == LET j == (i - 1 + k.rot) % 2048 IN IF k.rev THEN 2047 - j ELSE j
             w(i) == LET j == at(i) IN IF k.each > 0 /\ j % k.each = 0 THEN Basic[k.name2][j + 1] ELSE l[j + 1]
         IN  [i \in 1..2048 |-> IF k.sw > 0 /\ i = k.sw THEN w(i + 1) ELSE IF k.sw > 0 /\ i = k.sw + 1 THEN w(i - 1) ELSE w(i)]
Distinct(l) == Cardinality({l[i] : i \in DOMAIN l}) = Len(l)
=============================================================================
