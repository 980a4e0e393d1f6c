------------------------------- MODULE G_Reg -------------------------------
(***************************************************************************)
(* Plans for the constant tables: dumps before and after keys, paths and   *)
(* mnemonics were used; rows of many shapes; simulated behaviours build    *)
(* rows component by component.                                            *)
(***************************************************************************)
EXTENDS PathPool, RealRegistry

Thorough == Size >= 10
Bys == <<"path", "prv", "pub", "purpose", "purposefull", "coin">>
Versions == <<[op |-> "versions"]>> \o [i \in 1..6 |-> [op |-> "veridx", by |-> Bys[i]]]
Coins == <<[op |-> "coins"], [op |-> "coinidx", by |-> "type"], [op |-> "coinidx", by |-> "pc"], [op |-> "coinidx", by |-> "name"]>>
Rowwise == Prop \notin {"C21", "C28"}         \* C20 and C25 speak of versions
Tables == IF Rowwise THEN Versions ELSE Coins

\* ------------------------------------------------------------------ C20
Meth(text, L) == [op |-> "vermeth", t |-> Hex(text), prv |-> Rnd(L \o "v", 4), pub |-> Rnd(L \o "w", 4)]
Two(a, b) == Cs("m/") \o a \o Cs("'/") \o b \o Cs("'")
Shapes(n) == <<Two(n, n), Two(n, Cs("0")), Two(Cs("44"), n), Cs("m/") \o n \o Cs("/") \o n, Cs("m/") \o n \o Cs("'/") \o n, Cs("m/") \o n \o Cs("'"), Two(n, n) \o Cs("/0"), Two(n, n) \o Cs("/0'"), Cs("M") \o Tail(Two(n, n)),
               Cs(" ") \o Two(n, n), Two(n, n) \o Cs(" "), Two(n, n) \o Cs("/"), Cs("/") \o Two(n, n), Two(n \o Cs(" "), n), Two(n, Cs(" ") \o n)>>
Odd == [i \in DOMAIN OddNumerals |-> OddNumerals[i]]
RowPaths == SetToSeq({Utf8(r.path) : r \in VersionRows})
C20Plan ==
    Pieces(Cat([j \in DOMAIN NumTexts |-> LET P == Shapes(NumTexts[j]) IN [i \in DOMAIN P |-> Meth(P[i], S(j) \o "x" \o S(i))]]), 300)
    \o Pieces(Cat([j \in DOMAIN Odd |-> LET P == Shapes(Odd[j]) IN [i \in DOMAIN P |-> Meth(P[i], S(j) \o "y" \o S(i))]]), 300)
    \o <<[j \in DOMAIN RowPaths |-> Meth(RowPaths[j], "row" \o S(j))] \o [j \in DOMAIN RowPaths |-> Meth(Mutate("rm" \o S(j), RowPaths[j]), "rowm" \o S(j))]>>
    \o <<Cat([j \in DOMAIN RowPaths |-> LET p == RowPaths[j] n == Len(p) X == <<Cs("M") \o Tail(p), Cs("m/0") \o SubSeq(p, 3, n), <<32>> \o p, p \o <<10>>, Cs("M ") \o Tail(p), p \o Cs("/0"), p \o Cs("/0'"), p \o Cs("/"), SubSeq(p, 1, n - 1), SubSeq(p, 1, n - 3), Tail(p), p \o Cs("'"),
                                   SubSeq(p, 1, n - 1) \o Cs("0'"), SelectSeq(p, LAMBDA c : c # 39), Cs("m/") \o p, SubSeq(p, 1, 2), [p EXCEPT ![4] = IF @ = 57 THEN 48 ELSE @ + 1], p>>
                 IN [i \in DOMAIN X |-> Meth(X[i], "rv" \o S(j) \o "x" \o S(i))]])>>
    \o Pieces([j \in 1..(100 * Size) |-> Meth(Two(Dec(Pick("p" \o S(j), Nums)), Dec(Pick("q" \o S(j), Nums))), "two" \o S(j))], 200)
    \o Pieces([j \in 1..(100 * Size) |-> Meth(RPath("rp" \o S(j), RndInt("n" \o S(j), 5), RndInt("h" \o S(j), 5)), "rp" \o S(j))], 200)

\* ------------------------------------------------------------------ C21
CoinOp(type, pc, sym, name) == [op |-> "coinmeth", type |-> Hex(type), pc |-> Hex(pc), sym |-> Hex(sym), name |-> Hex(name)]
Blanks == <<<<>>, <<32>>, <<9, 10>>, <<194, 160>>, <<227, 128, 128>>, <<32, 32, 32>>>>
Visible == <<<<66>>, <<32, 66, 32>>, <<226, 128, 139>>, <<48>>, <<0>>, <<255>>>>
Labels == Blanks \o Visible
\* texts that mean something to somebody
Marked == Labels \o <<Cs("%d"), Cs("%s%x"), Cs("100%"), Cs("\""), Cs("a\"b"), Cs("\\"), Cs("{}"), Cs("a - b"), Cs(" (Type 0)"), Cs("<b>&amp;"), Cs("null"), Cs("0"), <<226, 130, 191>>, <<240, 159, 144, 182>>, <<226, 128, 168>>, Cs("a\nb"), Cs("|"), [i \in 1..300 |-> 97 + (i % 26)]>>
C21Plan ==
    Pieces(Cat([j \in DOMAIN Nums |-> LET v == Nums[j] IN
            <<CoinOp(ClearH(v), SetH(v), <<66>>, <<67>>), CoinOp(v, SetH(v), <<>>, <<67>>), CoinOp(ClearH(v), ClearH(v), <<66>>, <<>>), CoinOp(SetH(v), ClearH(v), <<66>>, <<67>>), CoinOp(SetH(v), SetH(v), <<66>>, <<67>>),
              CoinOp(ClearH(v), SetH(Pick("c" \o S(j), Nums)), <<66>>, <<67>>), CoinOp(ClearH(Succ32(v)), SetH(v), <<66>>, <<67>>), CoinOp(ClearH(v), Succ32(SetH(v)), <<66>>, <<67>>)>>]), 200)
    \o <<Cat([i \in DOMAIN Labels |-> [k \in DOMAIN Labels |-> CoinOp(<<0, 0, 0, 5>>, <<128, 0, 0, 5>>, Labels[i], Labels[k])]])>>
    \o (IF Prop = "C28" THEN Pieces(Cat([j \in DOMAIN Nums |-> [k \in DOMAIN Marked |-> LET i == 3 * j + k IN
            CoinOp(Nums[j], Nums[((7 * i) % Len(Nums)) + 1], Marked[(i % Len(Marked)) + 1], Marked[((i \div Len(Marked) + k) % Len(Marked)) + 1])]]), 300)
            \o Pieces([j \in 1..(60 * Size) |-> CoinOp(Unhex(Rnd("ct" \o S(j), 4)), Unhex(Rnd("cp" \o S(j), 4)), Pick("cs" \o S(j), Marked), Utf8(Rnd("cn" \o S(j), 1 + (j % 40))))], 300) ELSE <<>>)
    \o Pieces([j \in DOMAIN CoinTable |-> CoinOp(Unhex(CoinTable[j].type), Unhex(CoinTable[j].pc), Unhex(CoinTable[j].sym), Unhex(CoinTable[j].name))], 400)

\* the tables after use: keys of all versions are neutered and derived, lists changed
Keys == Cat([i \in DOMAIN Slip132 |-> <<[op |-> "master", b |-> Rnd("use" \o S(i), 32), dst |-> "k0"], [op |-> "setver", dst |-> "k0", v |-> Slip132[i].prv],
                [op |-> "neuter", src |-> "k0", dst |-> "k1"], [op |-> "isprv", src |-> "k1"], [op |-> "child", src |-> "k0", i |-> "80000000", dst |-> "k2"], [op |-> "child", src |-> "k1", i |-> "00000001", dst |-> "k3"],
                [op |-> "valid", src |-> "k1"], [op |-> "b58round", src |-> "k1", dst |-> "k4"]>>])
Used == Keys \o <<[op |-> "path", t |-> Hex(Cs("m/44'/0'/0"))], [op |-> "gset", g |-> "g0", src |-> "k0"], [op |-> "gderive", g |-> "g0", t |-> Hex(Cs("m/84'/57'/1"))]>>

ASSUME EmitAll(0, <<Tables>> \o (IF Rowwise THEN C20Plan ELSE C21Plan) \o <<Used \o Tables>>)

\* ------------------------------------------------------------------ rows built step by step
VARIABLES text, hist, run, done
gvars == <<text, hist, run, done>>
GInit == text = Cs("m") /\ hist = <<>> /\ run = 0 /\ done = FALSE
Show(s) == text' = s /\ hist' = Append(hist, IF Rowwise THEN [op |-> "vermeth", t |-> Hex(s), prv |-> Hex(Nums[RandomElement(DOMAIN Nums)]), pub |-> Hex(Nums[RandomElement(DOMAIN Nums)])]
                  ELSE CoinOp(Nums[RandomElement(DOMAIN Nums)], Nums[RandomElement(DOMAIN Nums)], Labels[RandomElement(DOMAIN Labels)], Labels[RandomElement(DOMAIN Labels)])) /\ UNCHANGED <<run, done>>
Comp == \E v \in One({Nums[i] : i \in DOMAIN Nums}) : Show(text \o <<47>> \o Dec(ClearH(v)) \o <<39>>)
Comp2 == \E v \in One({Nums[i] : i \in DOMAIN Nums}) : Show(text \o <<47>> \o Dec(v))
Digit == Show(Append(text, 48 + RandomElement(0..9)))
Tick == Show(Append(text, 39))
Slash == Show(Append(text, 47))
Back == Len(text) > 1 /\ Show(SubSeq(text, 1, Len(text) - 1))
Cut == \E p \in One(DOMAIN text) : Len(text) > 1 /\ Show(SubSeq(text, 1, p - 1) \o SubSeq(text, p + 1, Len(text)))
Again == Len(text) > 12 /\ Show(Cs("m"))
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<text, hist, done>>
         ELSE IF Len(hist) < Depth THEN Comp \/ Comp2 \/ Digit \/ Tick \/ Slash \/ Back \/ Cut \/ Again
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<text, hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
