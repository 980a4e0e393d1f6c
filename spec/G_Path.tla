------------------------------- MODULE G_Path -------------------------------
(***************************************************************************)
(* Plans for path texts: all short texts over a small alphabet, boundary   *)
(* numbers in every position, odd characters and blanks, long paths,       *)
(* mutated paths; simulated behaviours type and edit a text.               *)
(***************************************************************************)
EXTENDS PathPool

Path(s) == [op |-> "path", t |-> Hex(s)]
ValAt(s, n) == [op |-> "valat", t |-> Hex(s), n |-> n]
Repl(s, n, v) == [op |-> "repl", t |-> Hex(s), n |-> n, v |-> Hex(v)]

\* the i-th text of n characters over alphabet A
Power(b, n) == FoldLeft(LAMBDA a, x : a * b, 1, Ints(n))
Nth(A, n, i) == [j \in 1..n |-> A[((i \div Power(Len(A), j - 1)) % Len(A)) + 1]]
AllTexts(A, n, F(_)) == [i \in 1..Power(Len(A), n) |-> F(Nth(A, n, i - 1))]

A8 == Cs("mM/01' x")
A5 == Cs("/'0 2")
Full == IF Size >= 10 THEN 6 ELSE 4
Short == [k \in 1..Full |-> AllTexts(A8, k, LAMBDA s : Path(s))]
Deeper == [k \in 1..(IF Size >= 10 THEN 8 ELSE 6) |-> AllTexts(A5, k, LAMBDA s : Path(Cs("m") \o s))]

Lens == <<1, 2, 3, 10, 100, 254, 255, 256, 257, 300, 511, 512, 600>>
C08Plan ==
    Cat([k \in DOMAIN Short |-> Pieces(Short[k], 400)]) \o Cat([k \in DOMAIN Deeper |-> Pieces(Deeper[k], 400)])
    \o <<<<Path(<<>>)>>>>
    \o Pieces(Cat([j \in DOMAIN NumTexts |-> LET C == Contexts(NumTexts[j]) IN [c \in DOMAIN C |-> Path(C[c])]]), 300)
    \o Pieces(Cat([j \in DOMAIN OddNumerals |-> LET C == Contexts(OddNumerals[j]) IN [c \in DOMAIN C |-> Path(C[c])]]), 300)
    \o <<[m \in 1..24 |-> Path(Cs(<<"m/1/23", "m/12/3", "m/123", "m/1/2/3", "m/1'/23", "m/12'/3", "m/1'/2'/3", "m/1'/2/3", "m/123'", "m/1'23", "m1/23", "m/1/23/", "M/1/23", "m/1/2'3", "m/01/23", "m/1/23'", "m/1'/23'", "m/2147483649/23",
            "m/ 1/23", "m/1 /23", "m/1/ 23", "m/1/2 3", " m/1/23", "m/1/23 ">>[((7 * m) % 24) + 1]))]>>
    \o [j \in 1..6 |-> LET B == Blanked(RPath("bl" \o S(j), j, j \div 2)) IN [c \in DOMAIN B |-> Path(B[c])]]
    \o [j \in DOMAIN Lens |-> <<Path(RPath("long" \o S(j), Lens[j], 0)), Path(RPath("long" \o S(j), Lens[j], Lens[j])), Path(RPath("long" \o S(j), Lens[j], Lens[j] \div 2)),
                                Path(Mutate("lm" \o S(j), RPath("long" \o S(j), Lens[j], Lens[j] \div 2)))>>]
    \o Pieces([j \in 1..(300 * Size) |-> LET s == RPath("r" \o S(j), RndInt("rn" \o S(j), 8), RndInt("rh" \o S(j), 6)) IN
            Path(CASE j % 4 = 0 -> s [] j % 4 = 1 -> Mutate("m" \o S(j), s) [] j % 4 = 2 -> Mutate("mm" \o S(j), Mutate("m" \o S(j), s)) [] j % 4 = 3 -> Mutate("m" \o S(j), s \o s))], 200)

\* values for replacements
Values == <<<<0,0,0,0>>, <<0,0,0,1>>, <<127,255,255,255>>, <<128,0,0,0>>, <<128,0,0,1>>, <<255,255,255,255>>>>
\* all that C09 speaks about, on one path text of n components
Probe(L, s, n) ==
    ZeroTo(n + 3, LAMBDA k : ValAt(s, k)) \o <<ValAt(s, 127), ValAt(s, 128), ValAt(s, 254), ValAt(s, 255)>>
    \o Cat(ZeroTo(n + 2, LAMBDA k : [v \in 1..Len(Values) |-> Repl(s, k, Values[v])] \o <<Repl(s, k, Unhex(Rnd(L \o S(k), 4))), Repl(s, k, Pick(L \o "n" \o S(k), Nums))>>))
    \o <<Repl(s, 255, Values[1]), Repl(s, 128, Values[4])>>
Padded(s) == FoldLeft(LAMBDA a, c : IF c = 47 THEN a \o <<32, 47, 9>> ELSE Append(a, c), <<>>, s)
C09Plan ==
    [j \in 1..(30 + 10 * Size) |-> LET n == RndInt("c9n" \o S(j), 9) s == RPath("c9" \o S(j), n, RndInt("c9h" \o S(j), n + 2)) IN
        Probe("c9p" \o S(j), IF j % 7 = 0 THEN Padded(s) ELSE IF j % 5 = 0 THEN <<77>> \o Tail(s) ELSE s, n)]
    \o [j \in 1..12 |-> Cat([k \in 1..4 |-> LET s == T(<<"m", "m/0", "m/0'", "m/44'/0'/0'/0/0", "m/1/2/3", "m/5'/5'", "m/0/4294967295", "m/2147483648/2147483648", "M/0'/1", " m / 3 / 4 ", "m/007/0'", "m/007'/08/9">>[j])
                                              IN Probe("c9f" \o S(j) \o S(k), s, 5)])]
    \o Pieces(Cat([j \in 1..7 |-> LET n == Lens[j + 5] s == RPath("c9l" \o S(j), n, n \div j) IN
                Cat([k \in 1..12 |-> LET d == <<0, 1, 2, 100, 127, 128, 129, 200, 253, 254, 255, 77>>[k] IN
                    <<ValAt(s, d), Repl(s, d, Values[1 + (k % 6)]), Repl(s, d, Values[1 + ((k + 3) % 6)])>>])]), 40)
    \* invalid paths
    \o <<Cat([j \in DOMAIN OddNumerals |-> <<ValAt(T("m/") \o OddNumerals[j], 1), Repl(T("m/0/") \o OddNumerals[j], 1, Values[2])>>])>>

ASSUME EmitAll(0, CASE Prop = "C08" -> C08Plan [] Prop = "C09" -> C09Plan [] Prop = "C25" -> C08Plan \o C09Plan)

\* ------------------------------------------------------------------ typing
VARIABLES text, hist, run, done
gvars == <<text, hist, run, done>>
Keys == Cs("m/'0123456789 ")
Shown(s) == (IF Prop = "C09" THEN <<>> ELSE <<Path(s)>>) \o
            IF Prop = "C08" THEN <<>> ELSE LET n == RandomElement(0..6) IN <<ValAt(s, n), Repl(s, n, RandomElement({Values[i] : i \in DOMAIN Values}))>>
Type(s) == text' = s /\ hist' = hist \o Shown(s) /\ UNCHANGED <<run, done>>
GInit == text = <<109>> /\ hist = <<>> /\ run = 0 /\ done = FALSE
AtEnd == \E c \in One(DOMAIN Keys) : Type(Append(text, Keys[c]))
Likely == Type(LET z == text[Len(text)] IN Append(text, IF z = 47 THEN 48 + RandomElement(0..9) ELSE IF z = 39 THEN 47 ELSE RandomElement({39, 47, 48, 50})))
Likely2 == Likely
Comp == \E v \in One({Nums[i] : i \in DOMAIN Nums}), q \in One({<<39>>, <<>>}) : Type(text \o <<47>> \o Dec(IF q = <<39>> THEN ClearH(v) ELSE v) \o q)
Comp2 == \E v \in One({Nums[i] : i \in DOMAIN Nums}) : Type(text \o <<47>> \o Dec(v))
Back == Len(text) > 1 /\ Type(SubSeq(text, 1, Len(text) - 1))
Inside == \E c \in One(DOMAIN Keys), p \in One(1..Len(text)) : Type(SubSeq(text, 1, p) \o <<Keys[c]>> \o SubSeq(text, p + 1, Len(text)))
Cut == \E p \in One(1..Len(text)) : Len(text) > 1 /\ Type(SubSeq(text, 1, p - 1) \o SubSeq(text, p + 1, Len(text)))
Again == Type(text)
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<text, hist, done>>
         ELSE IF Len(hist) < Depth
         THEN IF text = <<>> THEN Type(<<109>>) ELSE AtEnd \/ Likely \/ Likely2 \/ Comp \/ Comp2 \/ Back \/ Inside \/ Cut \/ Again
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<text, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
