----------------------------- MODULE Registry -----------------------------
(***************************************************************************)
(* The constant tables of the library: SLIP-0132 version numbers (C20),    *)
(* SLIP-0044 coins (C21) and what the library must answer about them.      *)
(* Rows are records; an index over rows is a set of <<key, rows>>.         *)
(***************************************************************************)
EXTENDS Bytes, Paths, Slip132, FiniteSets

\* ------------------------------------------------------------------ tables
\* obs, a sequence, holds exactly the rows of the set ref, each once
SameRows(obs, ref) == Len(obs) = Cardinality(ref) /\ Range(obs) = ref

\* An index built by appending each row under its key.  (A coin index keeps one row per key.)
IndexBy(rows, Key(_)) == {<<k, {r \in rows : Key(r) = k}>> : k \in {Key(r) : r \in rows}}
\* entries, a sequence of [k, rows], is the index of rows by Key
SameIndex(entries, rows, Key(_)) ==
    /\ Cardinality({entries[i].k : i \in DOMAIN entries}) = Len(entries)
    /\ {<<entries[i].k, Range(entries[i].rows)>> : i \in DOMAIN entries} = IndexBy(rows, Key)
    /\ \A i \in DOMAIN entries : Len(entries[i].rows) = Cardinality(Range(entries[i].rows))
\* every key finds one row of its own
SameChoice(entries, rows, Key(_)) ==
    /\ Len(entries) = Cardinality({Key(r) : r \in rows})
    /\ \A i \in DOMAIN entries : entries[i].row \in rows /\ Key(entries[i].row) = entries[i].k
    /\ {entries[i].k : i \in DOMAIN entries} = {Key(r) : r \in rows}

\* ------------------------------------------------------------------ SLIP-0132
VersionRows == {[Slip132[i] EXCEPT !.enc = Range(@)] : i \in DOMAIN Slip132}
\* private and public versions pair up
Paired(rows) == /\ \A r, s \in rows : r.prv = s.prv <=> r.pub = s.pub
                /\ \A r, s \in rows : r.prv # s.pub
\* the two numbers of a two-level path
Levels(v) == v # NoPath /\ Len(v) = 3
TwoHard(v) == Levels(v) /\ ~Soft(v[2]) /\ ~Soft(v[3])
\* Answers about a row with this path text (e.q of purpose, coin, purposefull, coinfull: <<"ok", value>> or <<"err">>):
\* the numbers of a valid hardened path in its plain spelling, an error for every other path;
\* unusual spellings (M for m, blanks, leading zeros, hardened numbers without apostrophe) may be refused.
PlainlySpelt(text) == LET v == Parse(text) IN TwoHard(v) /\ text = Render(109, v)
Number1(v, q) == IF q \in {"purpose", "purposefull"} THEN v[2] ELSE v[3]
Shown(x, q) == IF q \in {"purpose", "coin"} THEN Soften(x) ELSE x
Fits(text, q, a) == LET v == Parse(text) IN
    IF ~TwoHard(v) THEN a = <<"err">>
    ELSE a = <<"ok", Shown(Number1(v, q), q)>> \/ (a = <<"err">> /\ ~PlainlySpelt(text))
C20Row(text, e) == /\ \A q \in {"purpose", "coin", "purposefull", "coinfull"} : Fits(text, q, e[q])
                   /\ e.prvb = e.prv /\ e.pubb = e.pub

\* ------------------------------------------------------------------ SLIP-0044
\* type and path component are four-byte numbers
CoinValid(r, Blank(_)) == /\ ~(Blank(r.sym) /\ Blank(r.name))
                          /\ ~HBit(r.type) /\ HBit(r.pc) /\ ClearH(r.pc) = r.type
=============================================================================
