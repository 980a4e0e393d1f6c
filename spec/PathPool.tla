------------------------------ MODULE PathPool ------------------------------
(***************************************************************************)
(* Path texts for plans.                                                   *)
(***************************************************************************)
EXTENDS Plan, RealPaths

Cs(s) == Utf8(s)                                          \* character codes of a TLA+ string
Dec(b) == LET d == BytesToDecimal(b) IN [i \in DOMAIN d |-> d[i] + 48]
\* numerals, as text
Wide(k) == [i \in 1..10 |-> IF k \div 8 = 10 - i THEN Pow2[(k % 8) + 1] ELSE 0]     \* 2^k in ten bytes
Small(n) == LeftPad(<<n>>, 10)
Sum(a, b) == Tail(Plus(a, b))
Bigs == Cat([k \in 1..48 |-> LET w == Wide(k + 29) IN <<Minus(w, Small(1)), w, Sum(w, Small(1)), Sum(w, Small(44))>>])
        \o Cat([j \in 1..6 |-> LET w == Sum(Wide(32), Wide(31 + j)) IN <<w, Sum(w, Small(j)), Minus(w, Small(j)), Sum(w, Wide(31)), Sum(Sum(w, Wide(31)), Small(j))>>])
NumTexts == [j \in DOMAIN Nums |-> Dec(Nums[j])] \o [j \in DOMAIN Bigs |-> Dec(Bigs[j])]
            \o [j \in 1..60 |-> [i \in 1..j |-> 57]] \o [j \in 1..60 |-> <<49>> \o [i \in 1..j |-> 48]]
            \o [j \in 1..40 |-> [i \in 1..j |-> 48]]
            \o Cat([z \in 1..12 |-> [j \in 1..10 |-> [i \in 1..(3 * z) |-> 48] \o Dec(Pick("lz" \o S(z) \o "x" \o S(j), Nums))]])
            \o [j \in 1..(20 * Size) |-> Dec(Unhex(Rnd("num" \o S(j), 1 + (j % 9))))]
OddNumerals == <<Cs("+1"), Cs("-1"), Cs("-0"), Cs("0x1"), Cs("1e1"), Cs("1_0"), Cs("1.0"), Cs("1,0"), Cs("1''"), Cs("'"), Cs("1'1"), <<>>, Cs("h"), Cs("1h"), Cs("1H"), Cs("'1"),
                 Cs("a"), Cs("0b1"), Cs("0o7"), Cs("*"), Cs("m"), Cs("44'm"), <<217, 163>>, <<239, 188, 145>>, <<49, 226, 128, 153>>, <<49, 0>>, <<0>>, <<49, 255>>, <<49, 194>>, Cs("1`"), Cs("1\""),
                 <<224, 165, 167>>, <<49, 39, 39>>, Cs("\\1"), Cs("1#"), <<37, 51, 49>>>>
T(a) == Cs(a)
Contexts(X) == <<T("m/") \o X, T("m/") \o X \o T("'"), T("m/0'/") \o X \o T("'"), T("m/0'/") \o X, T("m/0/") \o X, T("m/") \o X \o T("/0'"), T("m/44'/0'/") \o X \o T("'/0/1"),
                 T("M/") \o X \o T("/") \o X, T("m/") \o X \o T("'/") \o X \o T("'"), T("m/1/2/3/4/5/") \o X, T("m") \o X, X \o T("/0")>>
BlankTexts == <<<<32>>, <<9>>, <<10>>, <<13>>, <<12>>, <<11>>, <<194, 160>>, <<194, 133>>, <<227, 128, 128>>, <<226, 128, 131>>, <<226, 128, 168>>, <<13, 10>>, <<32, 32, 32>>, <<226, 128, 139>>, <<0>>, <<239, 187, 191>>, <<28>>>>
Blanked(s) == Cat([p \in 1..(Len(s) + 1) |-> [b \in DOMAIN BlankTexts |-> SubSeq(s, 1, p - 1) \o BlankTexts[b] \o SubSeq(s, p, Len(s))]])

\* a path of n components, h of them with apostrophe
RPath(L, n, h) == FoldLeft(LAMBDA a, j : a \o <<47>> \o
                     (IF j <= h THEN Dec(ClearH(Pick(L \o "h" \o S(j), Nums))) \o <<39>> ELSE Dec(Pick(L \o "s" \o S(j), IF j % 5 = 0 THEN Nums ELSE SoftNums))), <<109>>, Ints(n))
Mutate(L, s) == IF s = <<>> THEN s ELSE LET p == RndInt(L \o "p", Len(s)) + 1 c == Pick(L \o "c", Cs("mM/'0123456789 ''//x")) k == RndInt(L \o "k", 4) IN
    CASE k = 0 -> SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
      [] k = 1 -> SubSeq(s, 1, p) \o <<c>> \o SubSeq(s, p + 1, Len(s))
      [] k = 2 -> [s EXCEPT ![p] = c]
      [] k = 3 -> SubSeq(s, 1, p) \o SubSeq(s, p, Len(s))
\* the accounts people use
PurposeSteps == <<"44'", "49'", "84'", "86'", "45'", "48'", "0'", "1'", "32'", "47'", "85'", "83696968'">>
CoinSteps == <<"0'", "1'", "2'", "3'", "5'", "17'", "60'", "29223'", "133'", "144'", "501'", "0", "1">>
LeafSteps == <<"/0'/0/0", "/1'/1/1", "/0'/1/5", "", "/0'", "/0'/2'/0/0", "/2147483647'/0/2147483647", "/0'/0", "/0/0/0">>
Account(u, c, f) == Cs("m/") \o Cs(u) \o Cs("/") \o Cs(c) \o Cs(f)
=============================================================================
