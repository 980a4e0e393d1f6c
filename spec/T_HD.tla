-------------------------------- MODULE T_HD --------------------------------
(***************************************************************************)
(* Validates recorded sessions (IOEnv.TRACE) against HDWorld under the     *)
(* real algebra, enforcing the obligation of IOEnv.PROP.  Sessions are     *)
(* independent: the initial state picks one.                               *)
(***************************************************************************)
EXTENDS HDWorld, Failures, Real, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
RClaims == {IOEnv.PROP}
RSlots == {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}
RB58(b) == B58Encode(b)

VARIABLES t, l
vars == <<slot, kin, pubs, t, l>>

\* hex text -> seed bytes; <<-1>> when malformed
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
FromHexText(s) == IF Len(s) % 2 = 1 \/ \E j \in 1..Len(s) : HexVal(s[j]) = 99 THEN <<-1>>
                  ELSE [j \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * j - 1]) + HexVal(s[2 * j])]
Has(j, f) == f \in DOMAIN j
Out(j) == j.o
KeyOf(j) == IF Has(j, "key") THEN Unhex(j.key) ELSE REmpty

\* the HDWorld event of a trace line
Base(j) == [op |-> j.op, o |-> j.o, key |-> KeyOf(j),
            d |-> [n \in DOMAIN j.d \cap RSlots |-> Unhex(j.d[n])]]
          @@ (IF Has(j, "dst") /\ j.dst \in RSlots THEN [dst |-> j.dst] ELSE <<>>)
          @@ (IF Has(j, "src") /\ j.src \in RSlots THEN [src |-> j.src] ELSE <<>>)
Extra(j) ==
    CASE j.op = "master" -> [seed |-> Unhex(j.b)]
      [] j.op = "child" -> [i |-> Unhex(j.i)]
      [] j.op = "setver" -> [ver |-> Unhex(j.v)]
      [] j.op = "deser" -> [in |-> IF Has(j, "in") THEN Unhex(j.in) ELSE <<>>, kept |-> Has(j, "kept") /\ j.kept]
      [] j.op = "b58deser" -> [in |-> B58Decode(Unhex(j.t)), kept |-> TRUE]
      [] j.op = "isprv" \/ j.op = "valid" -> [v |-> Has(j, "v") /\ j.v]
      [] j.op = "prvhex" \/ j.op = "pubhex" -> [r |-> IF Has(j, "r") THEN FromHexText(Unhex(j.r)) ELSE <<-1>>]
      [] j.op \in {"ser", "b58", "string", "b58round"} -> [r |-> IF Has(j, "r") THEN Unhex(j.r) ELSE <<-1>>]
      [] j.op = "fields" -> IF Has(j, "ver")
            THEN [ver |-> Unhex(j.ver), depth |-> Unhex(j.depth)[1], fp |-> Unhex(j.fp), num |-> Unhex(j.num),
                  code |-> Unhex(j.cc), keyf |-> Unhex(j.kb), tail |-> Unhex(j.pk)]
            ELSE [ver |-> <<-1>>, depth |-> 0, fp |-> <<>>, num |-> <<>>, code |-> <<>>, keyf |-> <<>>, tail |-> <<>>]
      [] OTHER -> <<>>
Event(j) == Extra(j) @@ Base(j)

\* the hex-seed entry point (C01); the seed must have 16 bytes
RootOk(j) == LET s == FromHexText(Unhex(j.t)) IN
                IF s = <<-1>> \/ Len(s) < 16 THEN j.o = "err"
                ELSE j.o = "ok" /\ Has(j, "key") /\ Unhex(j.key) = Master(s)
\* C25
Why(j, e) ==
    CASE j.op = "child" -> LET k == K(e.src) IN IF Sound(k) THEN ChildCauses(k, e.i) ELSE {}
      [] j.op \in {"deser", "b58deser"} -> DecodeCauses(e.in)
      [] j.op = "ser" -> IF slot[j.src] = EmptyKey THEN {"empty"} ELSE {}
      [] j.op = "validprv" -> IF ScalarOK(Unhex(j.b)) THEN {} ELSE {"private"}
      [] j.op = "root" -> LET s == FromHexText(Unhex(j.t)) IN
            (IF s = <<-1>> THEN {"hex"} ELSE {}) \cup (IF Len(Unhex(j.t)) < 32 THEN {"seed"} ELSE {})
      [] OTHER -> {}
C25(j, e) == j.o = "err" => Blames(Range(j.es), Why(j, e))
Accepted(j, e) == IF "C25" \in Claims THEN C25(j, e) ELSE IF j.op = "root" THEN ("C01" \in Claims => RootOk(j)) ELSE Allowed(e)

View == <<t, l>>                       \* a recorded session has one behaviour
Init == /\ t \in 1..Len(Sessions)
        /\ l = 1
        /\ WorldInit
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ LET j == ev[l] e == Event(j) IN
             /\ IF Accepted(j, e) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
             /\ Step(e)
        /\ l' = l + 1
        /\ t' = t
=============================================================================
