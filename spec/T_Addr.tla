------------------------------- MODULE T_Addr -------------------------------
(***************************************************************************)
(* Validates recorded sessions that compute addresses (C18, C19).          *)
(***************************************************************************)
EXTENDS Addresses, Real, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
RAccount(s) == SubSeq(KECCAK256(s), 13, 32)
RHexText(b) == Utf8(Hex(b))
RText58(b) == B58Encode(b)

VARIABLES t, l, slot
vars == <<t, l, slot>>
Names == {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}
Has(j, f) == f \in DOMAIN j
Bytes1(j, f) == IF Has(j, f) THEN Unhex(j[f]) ELSE <<-1>>
Event(j) ==
    CASE j.op = "expand" -> [op |-> "expand", o |-> j.o, in |-> Bytes1(j, "in"), r |-> IF Has(j, "x") THEN Unhex(j.x) \o Unhex(j.y) ELSE <<-1>>]
      [] j.op \in {"hash160", "checksum", "addchecksum"} -> [op |-> j.op, o |-> j.o, in |-> Bytes1(j, "in"), r |-> Bytes1(j, "r")]
      [] j.op = "addrp2sh" -> [op |-> j.op, o |-> j.o, r |-> Bytes1(j, "r"), x |-> j.x]
      [] j.op = "addrhex" -> [op |-> j.op, o |-> j.o, r |-> Bytes1(j, "r")]
      [] OTHER -> [op |-> j.op, o |-> j.o]
KeyOf(j) == IF Has(j, "src") /\ j.src \in Names THEN Fields(slot[j.src]) ELSE Fields(REmpty)
Accepted(j) == IF Prop = "C18" THEN C18(KeyOf(j), Event(j)) ELSE C19(KeyOf(j), Event(j))

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in DOMAIN Sessions /\ l = 1 /\ slot = [n \in Names |-> REmpty]
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ IF Accepted(ev[l]) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
        /\ slot' = [n \in Names |-> IF n \in DOMAIN ev[l].d THEN Unhex(ev[l].d[n]) ELSE slot[n]]
        /\ l' = l + 1
        /\ t' = t
=============================================================================
