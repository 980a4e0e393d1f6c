------------------------------- MODULE T_Mnem -------------------------------
(***************************************************************************)
(* Validates recorded sessions of mnemonic operations (C12 to C16).  The   *)
(* state is the word list set last.                                        *)
(***************************************************************************)
EXTENDS Mnemonics, Failures, WordLists

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Keys == {English} \cup {ListKey(j) : j \in UNION {{Sessions[k].ev[i] : i \in {x \in DOMAIN Sessions[k].ev : Sessions[k].ev[x].op = "wl"}} : k \in DOMAIN Sessions}}
Basic == ("made" :> Made) @@ OfficialWords
Table == [k \in Keys |-> ListOf(Basic, k)]
Index == [k \in Keys |-> Positions(Table[k])]

VARIABLES t, l, act
vars == <<t, l, act>>

Has(j, f) == f \in DOMAIN j
Text(s) == CodePoints(Unhex(s))
BitsIn(j) == IF Has(j, "r") THEN Bits(Unhex(j.r)) ELSE <<-1>>
ErrKind(j) == IF ~Has(j, "e") THEN "" ELSE IF j.e = "ErrInvalidMnemonic" THEN "count" ELSE IF j.e = "ErrChecksumIncorrect" THEN "sum" ELSE "other"
Event(j) ==
    CASE j.op = "enc" -> [op |-> "enc", ent |-> Bits(Unhex(j.b)), o |-> j.o, r |-> IF Has(j, "r") THEN Text(j.r) ELSE <<-1>>]
      [] j.op \in {"dec", "arr"} -> [op |-> j.op, t |-> Text(j.t), o |-> j.o, e |-> ErrKind(j), r |-> BitsIn(j), raw |-> j.op = "arr" /\ j.raw \in {2, 3}]
      [] j.op \in {"seedchk", "seedhex"} -> [op |-> j.op, t |-> Text(j.t), o |-> j.o, e |-> ErrKind(j)]
      [] j.op = "mvalid" -> [op |-> "mvalid", t |-> Text(j.t), o |-> j.o, v |-> Has(j, "v") /\ j.v]
      [] j.op = "widx" -> [op |-> "widx", t |-> Text(j.t), o |-> j.o, found |-> Has(j, "found") /\ j.found, v |-> IF Has(j, "v") THEN j.v ELSE -1]
      [] j.op = "wget" -> [op |-> "wget", o |-> j.o, r |-> IF Has(j, "r") THEN SplitAt(Text(j.r), 32) ELSE <<>>]
      [] OTHER -> [op |-> j.op, o |-> j.o]

\* C15
IsText(b) == \A i \in DOMAIN b : b[i] < 128 \/ \A c \in Range(CodePoints(b)) : c < 1114112
HexText(b) == Utf8(Hex(b))
C15(at, j) ==
    IF j.op \notin {"seed", "seedchk", "seedhex"} \/ ~IsText(Unhex(j.t)) \/ ~IsText(Unhex(j.u)) THEN TRUE
    ELSE LET good == j.op = "seed" \/ Valid(at, Text(j.t))
             s == SeedOf(Unhex(j.t), Unhex(j.u))
         IN  IF good THEN j.o = "ok" /\ Unhex(j.r) = (IF j.op = "seedhex" THEN HexText(s) ELSE s)
             ELSE j.o = "err" /\ j.r = ""

C25(at, j) == j.op \in {"enc", "dec", "arr", "seedchk", "seedhex"} /\ j.o = "err" =>
    Blames(Range(j.es), IF j.op = "enc" THEN IF 8 * Len(Unhex(j.b)) \in EntLens THEN {} ELSE {"entropy"} ELSE Faults(at, Text(j.t)))
Accepted(j, k) ==
    IF j.op = "wl" THEN j.o = "ok"
    ELSE CASE Prop = "C12" -> C12(Table[k], Index[k], Event(j))
           [] Prop = "C13" -> C13(Table[k], Index[k], Event(j))
           [] Prop = "C14" -> C14(Table[k], Index[k], Event(j))
           [] Prop = "C16" -> IF j.op = "words" THEN j.l = OfficialHex(j.name) ELSE C12(Table[k], Index[k], Event(j))
           [] Prop = "C15" -> C15(Index[k], j)
           [] Prop = "C25" -> C25(Index[k], j)

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in 1..Len(Sessions) /\ l = 1 /\ act = English
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ IF Accepted(ev[l], act) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
        /\ act' = IF ev[l].op = "wl" THEN ListKey(ev[l]) ELSE act
        /\ l' = l + 1
        /\ t' = t
=============================================================================
