------------------------------- MODULE T_Reg -------------------------------
(***************************************************************************)
(* Validates what the library's tables contain and answer (C20, C21),      *)
(* at the start of a session and after other operations.                   *)
(***************************************************************************)
EXTENDS RealRegistry, Failures

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES t, l
vars == <<t, l>>

Row(x) == [x.row EXCEPT !.enc = Range(@)]
Rows(s) == [i \in DOMAIN s |-> Row(s[i])]
RegisteredPaths == {r.path : r \in VersionRows}
PathsText == {Utf8(p) : p \in RegisteredPaths}
Ans(a) == IF Len(a) = 2 /\ a[1] = "ok" THEN <<"ok", Unhex(a[2])>> ELSE <<"err">>
Meth(text, prv, pub, m) ==
    /\ C20Row(text, [purpose |-> Ans(m.purpose), coin |-> Ans(m.coin), purposefull |-> Ans(m.purposefull), coinfull |-> Ans(m.coinfull),
                     prv |-> prv, prvb |-> m.prvb, pub |-> pub, pubb |-> m.pubb])
    /\ PlainlySpelt(text) => m.valid
    /\ ~TwoHard(Parse(text)) => ~m.valid
    /\ PlainlySpelt(text) => m.reg = (text \in PathsText)
    /\ ~TwoHard(Parse(text)) => ~m.reg
RowMeth(x) == Meth(Utf8(x.row.path), x.row.prv, x.row.pub, x.meth)

Entries(s, K(_)) == [i \in DOMAIN s |-> [k |-> s[i].k, rows |-> Rows(s[i].rows)]]
VerIdx(j) ==
    LET E == Entries(j.l, LAMBDA k : k) IN
    CASE j.by = "path" -> SameIndex(E, VersionRows, LAMBDA r : Hex(Utf8(r.path)))
      [] j.by = "prv" -> SameIndex(E, VersionRows, PrvOf)
      [] j.by = "pub" -> SameIndex(E, VersionRows, PubOf)
      [] j.by = "purpose" -> SameIndex(E, VersionRows, PurposeOf)
      [] j.by = "purposefull" -> SameIndex(E, VersionRows, PurposeFullOf)
      [] j.by = "coin" -> SameIndex(E, VersionRows, CoinOf)
C20(j) == CASE j.op = "versions" -> SameRows(Rows(j.l), VersionRows) /\ \A i \in DOMAIN j.l : RowMeth(j.l[i])
            [] j.op = "veridx" -> VerIdx(j) /\ \A i \in DOMAIN j.l : \A k \in DOMAIN j.l[i].rows : RowMeth(j.l[i].rows[k])
            [] j.op = "vermeth" -> j.o = "ok" /\ Meth(Unhex(j.t), j.prv, j.pub, j)
            [] OTHER -> TRUE

Coin(r) == [type |-> r.type, pc |-> r.pc, sym |-> r.sym, name |-> r.name]
C21(j) == CASE j.op = "coins" -> SameRows([i \in DOMAIN j.l |-> Coin(j.l[i])], CoinRows) /\ \A i \in DOMAIN j.l : j.l[i].valid = CoinValidHex(Coin(j.l[i]))
            [] j.op = "coinidx" -> (\A i \in DOMAIN j.l : j.l[i].row.valid = CoinValidHex(Coin(j.l[i].row))) /\ LET E == [i \in DOMAIN j.l |-> [k |-> j.l[i].k, row |-> Coin(j.l[i].row)]] IN
                    (CASE j.by = "type" -> SameChoice(E, CoinRows, LAMBDA r : r.type)
                       [] j.by = "pc" -> SameChoice(E, CoinRows, LAMBDA r : r.pc)
                       [] j.by = "name" -> SameChoice(E, CoinRows, LAMBDA r : r.name))
            [] j.op = "coinmeth" -> j.o = "ok" /\ j.v = CoinValidHex(Coin(j))
            [] OTHER -> TRUE
Plain(r) == [type |-> Unhex(r.type), pc |-> Unhex(r.pc), sym |-> Unhex(r.sym), name |-> Unhex(r.name)]
C28(j) == j.op = "coinmeth" => j.o = "ok" /\ C28Row(Plain(j), [str |-> Unhex(j.str), md |-> Unhex(j.md), good |-> j.good, keys |-> Range(j.keys), back |-> Plain(j.back)])
C25(j) == j.op = "vermeth" /\ ~TwoHard(Parse(Unhex(j.t))) =>
    \A q \in {"purpose", "coin", "purposefull", "coinfull"} : j[q][1] = "err" => Blames(Range(Tail(j[q])), {"row"})
Accepted(j) == CASE Prop = "C20" -> C20(j) [] Prop = "C21" -> C21(j) [] Prop = "C25" -> C25(j) [] Prop = "C28" -> C28(j)

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in 1..Len(Sessions) /\ l = 1
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ IF Accepted(ev[l]) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
        /\ l' = l + 1
        /\ t' = t
=============================================================================
