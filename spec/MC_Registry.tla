---------------------------- MODULE MC_Registry ----------------------------
(***************************************************************************)
(* The library builds its indices row by row, in an arbitrary order.  All  *)
(* orders of some rows that collide under various keys are explored; the   *)
(* full tables are checked for what the index properties rest on.          *)
(***************************************************************************)
EXTENDS RealRegistry, TLC

\* ------------------------------------------------------------------ the official tables
ASSUME Cardinality(VersionRows) = 29 /\ Len(Slip132) = 29
ASSUME Paired(VersionRows)
ASSUME \A r \in VersionRows : PlainlySpelt(PathOf(r)) /\ \A q \in {"purpose", "coin", "purposefull", "coinfull"} : ~Fits(PathOf(r), q, <<"err">>)
ASSUME Len(CoinTable) = 1136 /\ Cardinality(CoinRows) = 1136
ASSUME Cardinality({r.pc : r \in CoinRows}) = 1136 /\ Cardinality({r.type : r \in CoinRows}) = 1136
ASSUME \A r \in CoinRows : CoinValidHex(r)
\* no two coins print alike; in general the text tells the type, and the tabular form everything
PlainCoin(r) == [type |-> Unhex(r.type), pc |-> Unhex(r.pc), sym |-> Unhex(r.sym), name |-> Unhex(r.name)]
ASSUME Cardinality({CoinText(PlainCoin(r)) : r \in CoinRows}) = 1136 /\ Cardinality({CoinTable1(PlainCoin(r)) : r \in CoinRows}) = 1136
SmallTexts == {<<>>, <<97>>, <<32>>, <<97, 32, 45, 32, 97>>, <<32, 45, 32>>, Utf8(" (Type 1)"), Utf8("a (Type 10)")}
SmallCoins == [type : {Zeros(4), <<0, 0, 0, 1>>, <<0, 0, 0, 10>>, <<128, 0, 0, 1>>}, pc : {Zeros(4), <<128, 0, 0, 10>>, <<0, 0, 1, 0>>}, sym : SmallTexts, name : SmallTexts]
ASSUME \A r, s \in SmallCoins : CoinText(r) = CoinText(s) => r.type = s.type
ASSUME \A r, s \in SmallCoins : CoinTable1(r) = CoinTable1(s) => r = s

\* ------------------------------------------------------------------ building
Toy == {r \in VersionRows : r.prv \in {"04358394", "02aa7a99"} /\ r.coin \in {"Bitcoin", "Bitcoin Testnet", "Groestlcoin Testnet", "Nexa Testnet", "Syscoin"}}          \* shared versions, paths, purposes, coins
CoinToy == {[type |-> n, pc |-> n + 10, name |-> IF n < 3 THEN "Same" ELSE IF n = 3 THEN "Other" ELSE "Last"] : n \in 1..4}
VARIABLES todo, list, idx, coins, names
vars == <<todo, list, idx, coins, names>>
Put(f, k, r) == (k :> Append(IF k \in DOMAIN f THEN f[k] ELSE <<>>, r)) @@ f
Init == todo = Toy /\ list = <<>> /\ idx = [b \in {"prv", "pub", "path", "purpose", "coin"} |-> <<>>] /\ coins = CoinToy /\ names = <<>>
Add == \E r \in todo :
    /\ todo' = todo \ {r}
    /\ list' = Append(list, r)
    /\ idx' = [prv |-> Put(idx.prv, r.prv, r), pub |-> Put(idx.pub, r.pub, r), path |-> Put(idx.path, r.path, r),
               purpose |-> Put(idx.purpose, PurposeOf(r), r), coin |-> Put(idx.coin, CoinOf(r), r)]
    /\ UNCHANGED <<coins, names>>
AddCoin == todo = {} /\ \E r \in coins : coins' = coins \ {r} /\ names' = (r.name :> r) @@ names /\ UNCHANGED <<todo, list, idx>>
Spec == Init /\ [][Add \/ AddCoin]_vars

Seq2(S) == SetToSeq(S)
Ent(f) == LET K == Seq2(DOMAIN f) IN [i \in DOMAIN K |-> [k |-> K[i], rows |-> f[K[i]]]]
Ent1(f) == LET K == Seq2(DOMAIN f) IN [i \in DOMAIN K |-> [k |-> K[i], row |-> f[K[i]]]]
Have == Toy \ todo
Built == /\ SameRows(list, Have)
         /\ SameIndex(Ent(idx.prv), Have, PrvOf) /\ SameIndex(Ent(idx.pub), Have, PubOf)
         /\ SameIndex(Ent(idx.purpose), Have, PurposeOf) /\ SameIndex(Ent(idx.coin), Have, CoinOf)
NamesFound == SameChoice(Ent1(names), CoinToy \ coins, LAMBDA r : r.name)
\* a lost, doubled or misfiled row is noticed
Drop(E) == [i \in 1..(Len(E) - 1) |-> E[i]]
Double(E) == [E EXCEPT ![1].rows = Append(@, @[1])]
Misfile(E) == [E EXCEPT ![1].rows = E[2].rows]
Noticed == Have # {} => LET E == Ent(idx.coin) IN
    /\ ~SameIndex(Drop(E), Have, CoinOf) /\ ~SameIndex(Double(E), Have, CoinOf)
    /\ Len(E) > 1 => ~SameIndex(Misfile(E), Have, CoinOf)
    /\ ~SameRows(Append(list, list[1]), Have) /\ ~SameRows(Tail(list), Have)
=============================================================================
