-------------------------------- MODULE T_UI --------------------------------
(***************************************************************************)
(* Validates recorded sessions with the graphical tool (C24).              *)
(***************************************************************************)
EXTENDS WalletUI, Real, RealPaths, Json, IOUtils

M == INSTANCE RealMnemonics
B39 == INSTANCE Mnemonics WITH WordBits <- 11, Ratio <- 32, Octet <- 8, SpaceC <- 32, EntLens <- M!MEntLens, SumBits <- M!MSum, IsSpaceC <- M!MSpace
AtEnglish == Positions(M!OfficialWords["english"])

Sessions == ndJsonDeserialize(IOEnv.TRACE)
UNone == {}
UNth(i, k) == i
USize(i, j) == 0
UAnyHard(i, j) == FALSE
HexOf(b) == Utf8(Hex(b))
USeedFor(m, p) == IF B39!Valid(AtEnglish, CodePoints(m)) THEN HexOf(M!SeedOf(m, p)) ELSE Fail
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
UMasterOf(s) == IF Len(s) % 2 = 1 \/ Len(s) < 32 \/ (\E i \in DOMAIN s : Digit(s[i]) = -1) THEN Fail
                ELSE Master([i \in 1..(Len(s) \div 2) |-> 16 * Digit(s[2 * i - 1]) + Digit(s[2 * i])])
UTextOf(b) == B58Encode(Wrap(b))
UKeyIn(t) == LET b == B58Decode(t) IN IF Len(b) = KeySize + SumLen THEN Decode(b) ELSE Fail
UWordsIn(m) == IF B39!Valid(AtEnglish, CodePoints(m)) THEN Len(B39!Tokens(CodePoints(m))) ELSE 0
UFacts(b) == LET k == Fields(b) q == Neuter(k) IN
             <<UTextOf(b), UTextOf(q), HexOf(Scalar(k)), HexOf(PubPoint(k)), HexOf(SubSeq(KECCAK256(Uncompress(PubPoint(k))), 13, 32))>>

VARIABLES t, l
Texts(s) == [x \in DOMAIN s |-> Unhex(s[x])]
Order == <<"m", "p", "s", "r", "d">>
Event(j) == IF j.o # "ok" THEN [op |-> j.op, o |-> j.o]
            ELSE [op |-> j.op, o |-> "ok", f |-> [x \in FieldNames |-> LET k == CHOOSE i \in 1..5 : Order[i] = x IN Unhex(j.f[k])],
                  tabs |-> Texts(j.tabs), details |-> Texts(j.details), words |-> j.words,
                  i |-> IF j.op = "edit" THEN Order[j.i + 1] ELSE "", t |-> IF j.op = "edit" THEN Unhex(j.t) ELSE <<>>, n |-> IF j.op \in {"tab", "words"} THEN j.n ELSE 0]

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in 1..Len(Sessions) /\ l = 1 /\ UInit(12) /\ WInit
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ LET e == Event(ev[l]) c == Class(e) IN
             /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l, c>>)
             /\ IF e.o = "ok" THEN UStep(e, c) ELSE UNCHANGED ui
        /\ l' = l + 1
        /\ UNCHANGED <<t, wallet>>
=============================================================================
