------------------------------- MODULE G_Rand -------------------------------
(***************************************************************************)
(* Plans for random secrets: every size, every point at which the source   *)
(* can fail or run dry, short and empty reads, recovery; simulated         *)
(* behaviours mix all of that.                                             *)
(***************************************************************************)
EXTENDS Plan, Mnemonics, WordLists

Thorough == Size >= 10
Ent(n) == [op |-> "entropy", n |-> n]
NewSeed == [op |-> "newseed"]
Gen(n) == [op |-> "genmn", n |-> n]
Source(L, limit, chunk, eof, after, zero) == [op |-> "source", b |-> Rnd(L, 8), limit |-> limit, chunk |-> chunk, eof |-> eof, after |-> after, zero |-> zero, once |-> FALSE]
Good(L) == Source(L, -1, 0, FALSE, FALSE, 0)
WlOp(n) == [op |-> "wl", name |-> n, name2 |-> "", each |-> 0, rot |-> 0, rev |-> FALSE]

Calls == <<Ent(128), Ent(160), Ent(192), Ent(224), Ent(256), NewSeed, Gen(12), Gen(15), Gen(18), Gen(21), Gen(24)>>
Bytes(c) == IF c.op = "newseed" THEN 256 ELSE IF c.op = "entropy" THEN c.n \div 8 ELSE (c.n \div 3) * 4
Chunks == <<0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 255>>

\* the source fails after limit bytes; a call, the same call again, recovery with another source
Faulty(c, limit, L) ==
    LET ch == Pick(L \o "c", Chunks) eof == RndInt(L \o "e", 2) = 0 after == RndInt(L \o "a", 2) = 0 z == Pick(L \o "z", <<0, 0, 2, 3, 5>>)
    IN  <<Source(L, limit, ch, eof, after, z), c, c, Source(L \o "r", -1, ch, FALSE, FALSE, z), c>>
\* all limits of a call, alone and after another one
Limits(c) == LET n == Bytes(c) all == [k \in 1..(n + 2) |-> k - 1] IN IF Thorough \/ n < 64 THEN all ELSE SelectSeq(all, LAMBDA k : k < 3 \/ k > n - 3 \/ k % 16 = Seed % 16)
FaultPlan == Pieces(Cat([i \in DOMAIN Calls |-> LET c == Calls[i] ls == Limits(c) IN Cat([k \in DOMAIN ls |-> Faulty(c, ls[k], "f" \o S(i) \o "x" \o S(k))])]), 100)
    \o Pieces(Cat([i \in DOMAIN Calls |-> LET c == Calls[i] d == Calls[((i + Seed) % 11) + 1] n == Bytes(d) IN
            Cat([k \in 1..5 |-> LET L == "g" \o S(i) \o "x" \o S(k) IN
                 <<Source(L, n + <<0, 1, Bytes(c) \div 2, Bytes(c) - 1, Bytes(c)>>[k], Pick(L, Chunks), k % 2 = 0, RndInt(L, 2) = 0, 0), d, c, d, Good(L \o "r"), c, d, c>>])]), 100)
\* the source fails once, after limit bytes, and is fine afterwards
Hiccup(c, limit, L) ==
    LET ch == Pick(L \o "c", Chunks) eof == RndInt(L \o "e", 2) = 0 after == RndInt(L \o "a", 3) = 0
    IN  <<[Source(L, limit, ch, eof, after, 0) EXCEPT !.once = TRUE], c, c, c>>
HiccupPlan == Pieces(Cat([i \in DOMAIN Calls |-> LET c == Calls[i] ls == Limits(c) IN Cat([k \in DOMAIN ls |-> Hiccup(c, ls[k], "o" \o S(i) \o "x" \o S(k))])]), 100)
\* a healthy source, whole or in pieces: calls one after the other
HealthyPlan == [i \in DOMAIN Chunks |-> <<Source("h" \o S(i), -1, Chunks[i], FALSE, FALSE, IF i % 3 = 0 THEN 2 ELSE 0)>>
                  \o Cat([k \in 1..(2 + Size) |-> [q \in DOMAIN Calls |-> Calls[((q * (k + i)) % 11) + 1]]])]
\* sizes
SizesPlan == <<<<Good("sz")>> \o [k \in 1..(IF Thorough THEN 1200 ELSE 400) |-> Ent(k - 70)] \o <<Ent(512), Ent(1024), Ent(4096), Ent(-128), Ent(-256), Ent(65536 + 128), Ent(2147483647), Ent(-2147483647), Ent(16777344)>>,
               <<Good("sn")>> \o [k \in 1..256 |-> Gen(k - 1)],
               [k \in 1..64 |-> Ent(4 * k)] \o [k \in 1..40 |-> Gen(k - 1)]>>
\* the operating system's source
SystemPlan == <<Cat([k \in 1..(3 * Size) |-> Calls]), Cat([k \in 1..Size |-> Calls]) \o [k \in 1..30 |-> Ent(128)] \o <<Good("sys"), Ent(128), NewSeed>>>>
Names == SetToSeq(OfficialNames)
ListsPlan == [k \in DOMAIN Names |-> <<Good("li" \o S(k)), WlOp(Names[k]), Gen(12), Gen(15), Gen(18), Gen(21), Gen(24), Ent(128), WlOp(Names[(k % Len(Names)) + 1]), Gen(12), Gen(24)>>]

ASSUME EmitAll(0, HealthyPlan \o FaultPlan \o HiccupPlan \o SizesPlan \o SystemPlan \o ListsPlan)

\* ------------------------------------------------------------------ mixtures
VARIABLES hist, run, done
gvars == <<hist, run, done>>
GInit == hist = <<>> /\ run = 0 /\ done = FALSE
More(op) == hist' = Append(hist, op) /\ UNCHANGED <<run, done>>

GSource == More([op |-> "source", b |-> Rnd("m" \o S(run) \o "x" \o S(Len(hist)), 8), limit |-> RandomElement({-1, 0, 1, 16, 33, 100, 300, 600} \cup 2..64), chunk |-> Chunks[RandomElement(DOMAIN Chunks)],
                 eof |-> RandomElement(BOOLEAN), after |-> RandomElement(BOOLEAN), zero |-> RandomElement({0, 2, 7}), once |-> RandomElement(BOOLEAN)])
GCall == \E i \in One(DOMAIN Calls) : More(Calls[i])
GBad == \E n \in One({0, 8, 64, 127, 129, 136, 255, 288, 320, -128}) : More(Ent(n))
GBad2 == \E n \in One({0, 3, 9, 11, 13, 27, 140, 255}) : More(Gen(n))
GList == \E k \in One(OfficialNames) : More(WlOp(k))
GNext == IF run = 0 THEN run' = RandomElement(1..1000000) /\ UNCHANGED <<hist, done>>
         ELSE IF Len(hist) < Depth THEN GSource \/ (\E x \in 1..5 : GCall) \/ GBad \/ GBad2 \/ GList
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<hist, run>>
Emitted == done => Emit(IOEnv.PLAN, Session(1000000 + run, hist))
=============================================================================
