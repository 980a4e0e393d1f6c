------------------------------ MODULE MC_Wallet ------------------------------
(***************************************************************************)
(* Wallet over the toy algebra of MC_HD (integers modulo 5, depth at most  *)
(* 2), one generator and one range, a pool of keys and path texts.         *)
(***************************************************************************)
EXTENDS Wallet, Toy, IOUtils, FiniteSets

TClaims == {"C07", "C10", "C11"}
TGens == {"g0"}
TRanges == {"r0"}
TNoRoot == Zeros(7)

Pool == <<<<10, 0, 0, 0, 1, 0, 3>>, <<11, 0, 0, 0, 0, 0, 1>>, <<20, 0, 0, 0, 1, 2, 3>>, <<10, 1, 1, 4, 0, 0, 2>>, <<30, 0, 0, 0, 1, 0, 2>>, <<10, 2, 1, 3, 1, 0, 2>>, <<21, 1, 2, 12, 0, 2, 4>>, <<10, 0, 0, 0, 1, 0, 0>>>>
Texts == {<<109>>, <<77, 47, 48, 49>>, <<109, 47, 49, 39>>, <<109, 47, 49, 39, 32, 47, 53>>, <<109, 47, 49, 47, 49, 50>>, <<109, 47, 49, 47, 49, 47, 49>>, <<109, 47>>, <<>>, <<109, 47, 49, 57>>}
Numbers == {<<0>>, <<1>>, <<9>>, <<10>>, <<11>>}

\* a reference implementation
Entries(t, v, T) == [x \in 1..Len(v) |-> [p |-> Canonical(v, x - 1), k |-> T[x]]]
GDerive(g, t) == LET b == root[g] v == Parse(t) T == IF v = NoPath THEN Fail ELSE Trail(b, Tail(v)) IN
    [op |-> "gderive", g |-> g, t |-> t, now |-> b] @@
    (IF ~ValidRoot(b) \/ v = NoPath \/ T = Fail THEN [o |-> "err", l |-> <<>>] ELSE [o |-> "ok", l |-> Entries(t, v, T)])
\* both arrangements of a range
Side(r) == LET n == Size(r.i, r.j) IN [x \in 1..n |-> [p |-> Strip(r.t) \o RenderOne(Nth(r.i, x - 1)), k |-> ChildOf(Fields(r.key), Nth(r.i, x - 1))]]
Below(r) == LET n == Size(r.i, r.j) IN [x \in 1..n |-> [p |-> FoldLeft(LAMBDA a, y : a \o RenderOne(Nth(r.i, y - 1)), Strip(r.t), Ints(x)),
                                                       k |-> Walk(r.key, [y \in 1..x |-> Nth(r.i, y - 1)])]]
RGen(n, chained) == LET r == range[n] L == IF chained THEN Below(r) ELSE Side(r) IN
    [op |-> "rgen", r |-> n] @@
    (IF ~RangeValid(r) \/ RangeUndefined(r) \/ Size(r.i, r.j) > 3 \/ (\E x \in 1..Len(L) : L[x].k = Fail) THEN [o |-> "err", l |-> r.list, same |-> TRUE]
     ELSE [o |-> "ok", l |-> L, same |-> L = r.list])
GSet(g, b) == [op |-> "gset", g |-> g, key |-> b, now |-> b, o |-> "ok"]
RSet(n, i, j, t, b) == [op |-> "rset", r |-> n, i |-> i, j |-> j, t |-> t, key |-> b, o |-> "ok"]
Events == {GDerive(g, t) : g \in GenNames, t \in Texts} \cup {RGen(n, c) : n \in RangeNames, c \in {TRUE, FALSE}}
\* (a toy range is rejected by the reference when a step below its base is undefined by chance; the obligation speaks of RangeDefined)
Chance(n, c) == LET r == range[n] L == IF c THEN Below(r) ELSE Side(r) IN RangeValid(r) /\ RangeDefined(r) /\ (Size(r.i, r.j) > 3 \/ \E x \in 1..Len(L) : L[x].k = Fail)

\* every configuration of the objects; then calls, with the generator's root set anew at any time
\* (a generator and a range do not affect each other: one of the two starts out fixed)
Init == \/ /\ root \in [GenNames -> {Pool[x] : x \in DOMAIN Pool}]
           /\ range = [r \in RangeNames |-> NoRange]
        \/ /\ root = [g \in GenNames |-> NoRoot]
           /\ range \in [RangeNames -> [i : Numbers, j : Numbers, t : Texts, key : {Pool[x] : x \in DOMAIN Pool}, list : {<<>>}]]
Next == \/ \E g \in GenNames, t \in Texts : WStep(GDerive(g, t))
        \/ \E g \in GenNames, x \in DOMAIN Pool : WStep(GSet(g, Pool[x]))
        \/ \E n \in RangeNames, c \in {TRUE, FALSE} : WStep(RGen(n, c))
        \/ \E n \in RangeNames, j \in Numbers : WStep(RSet(n, range[n].i, j, range[n].t, range[n].key))
Spec == Init /\ [][Next]_wallet
Bounded == TLCGet("level") < atoi(IOEnv.LEVEL)

Obedient == /\ \A e \in Events : (e.op = "rgen" => ~Chance(e.r, TRUE) /\ ~Chance(e.r, FALSE)) => WAllowed(e)
\* losing, adding, swapping or changing an entry, or succeeding on some entries only, is noticed
Wrong(e) == {[e EXCEPT !.l = SubSeq(@, 1, n)] : n \in 0..(Len(e.l) - 1)}
            \cup {[e EXCEPT !.l = Append(@, @[1])]}
            \cup {[e EXCEPT !.l[n].k = [@ EXCEPT ![b] = (@ + 1) % 256]] : n \in 1..Len(e.l), b \in 1..KeySize}
            \cup {[e EXCEPT !.l[n].p = Append(@, 49)] : n \in 1..Len(e.l)}
            \cup {[e EXCEPT !.l[n].p = SubSeq(@, 1, Len(@) - 1)] : n \in 1..Len(e.l)}
            \cup (IF e.op = "gderive" THEN {[e EXCEPT !.now = Tail(@) \o <<9>>]} ELSE {})
Sharp == \A e \in Events : (e.op \in {"gderive", "rgen"} /\ e.o = "ok") => \A w \in Wrong(e) : ~WAllowed(w)
\* whatever fails has a cause; whatever has one fails, except that a range side by side goes as deep as one step
Blameless == \A e \in Events : CASE e.op = "gderive" -> (e.o = "err" <=> DeriveCauses(e) # {})
                                 [] e.op = "rgen" -> /\ ~RangeValid(range[e.r]) \/ RangeUndefined(range[e.r]) => RangeCauses(e) # {}
                                                     /\ RangeValid(range[e.r]) /\ RangeDefined(range[e.r]) => RangeCauses(e) = {}
                                                     /\ RangeCauses(e) # {} => ~(RangeValid(range[e.r]) /\ RangeDefined(range[e.r]))
Quiet == \A e \in Events : (e.op \in {"gderive", "rgen"} /\ e.o = "err") =>
            /\ ~WAllowed([e EXCEPT !.o = "ok"]) \/ (e.op = "rgen" /\ (Chance(e.r, TRUE) \/ Chance(e.r, FALSE)) )
                 \/ (e.op = "rgen" /\ RangeValid(range[e.r]) /\ ~RangeUndefined(range[e.r]))
            /\ e.op = "rgen" => ~WAllowed([e EXCEPT !.same = FALSE])
            /\ e.op = "gderive" => ~WAllowed([e EXCEPT !.l = <<[p |-> <<109>>, k |-> root[e.g]]>>])
=============================================================================
