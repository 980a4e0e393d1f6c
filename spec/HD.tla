-------------------------------- MODULE HD --------------------------------
(***************************************************************************)
(* Hierarchical deterministic keys (BIP-32): what keys are and what every  *)
(* operation on them must yield.                                           *)
(*                                                                         *)
(* The algebra (hash, group, version table, field widths) is a parameter.  *)
(* MC_HD instantiates it with a toy algebra small enough to explore every  *)
(* state; Real instantiates it with SHA-2, secp256k1 and SLIP-0132 so that *)
(* the same text judges executions of the implementation.                  *)
(*                                                                         *)
(* An extended key is a byte sequence (version, depth, parent fingerprint, *)
(* child number, chain code, key); Fields reads it as a record.            *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS
    SeedKey,                  \* HMAC key for master keys
    Hmac(_, _),               \* keyed hash, split by Left and Right
    Left(_), Right(_),
    LeftOK(_),                \* does a left half count as a number below the group order?
    ScalarOK(_),              \* is a key field a scalar in 1..n-1?
    ScalarPlus(_, _),         \* addition modulo n
    Point(_),                 \* scalar times generator, compressed; <<>> is infinity
    PointPlus(_, _),
    PointOK(_),               \* is it a compressed point of the curve?
    Identifier(_),            \* hash of a compressed point; the fingerprint is its prefix
    Checksum(_),
    IsHard(_),                \* is a child number hardened?
    PrvVersions, PubVersions, \* registered versions
    PairedPub(_),             \* public version of a registered private one
    DefaultPrv, DefaultPub,
    MaxDepth,                 \* largest depth a key can have
    SumLen,                   \* width of a checksum
    VerLen, NumLen, CodeLen, KeyLen     \* widths; fingerprints are as long as child numbers, key fields 1 + KeyLen

KeySize == VerLen + 1 + 2 * NumLen + CodeLen + 1 + KeyLen

Fields(b) ==
    LET keyf == Slice(b, VerLen + 1 + 2 * NumLen + CodeLen, 1 + KeyLen)
    IN  [ver   |-> Slice(b, 0, VerLen),
         depth |-> b[VerLen + 1],
         fp    |-> Slice(b, VerLen + 1, NumLen),
         num   |-> Slice(b, VerLen + 1 + NumLen, NumLen),
         code  |-> Slice(b, VerLen + 1 + 2 * NumLen, CodeLen),
         prv   |-> keyf[1] = 0,
         key   |-> keyf]
Encode(k) == k.ver \o <<k.depth>> \o k.fp \o k.num \o k.code \o k.key

Scalar(k) == Tail(k.key)                                    \* of a private key
PubPoint(k) == IF k.prv THEN Point(Scalar(k)) ELSE k.key
Parts(code, data) == Hmac(code, data)

\* What BIP-32 allows a key to contain
Sound(k) == IF k.prv THEN ScalarOK(Scalar(k)) ELSE PointOK(k.key)
KindOK(k) == IF k.prv THEN k.ver \notin PubVersions ELSE k.ver \notin PrvVersions
RootOK(k) == k.depth = 0 => AllZero(k.fp) /\ AllZero(k.num)
Legal(k) == Sound(k) /\ KindOK(k) /\ RootOK(k)
Registered(k) == k.ver \in (IF k.prv THEN PrvVersions ELSE PubVersions)

\* Operations yield a key (as bytes) or Fail
Fail == <<>>

Master(seed) ==
    LET I == Hmac(SeedKey, seed)
    IN  IF ~ScalarOK(Left(I)) THEN Fail
        ELSE Encode([ver |-> DefaultPrv, depth |-> 0, fp |-> Zeros(NumLen), num |-> Zeros(NumLen),
                     code |-> Right(I), prv |-> TRUE, key |-> <<0>> \o Left(I)])

\* Is a child defined at all?
Defined(k, i) == /\ k.depth < MaxDepth
                 /\ Registered(k)
                 /\ ~k.prv => ~IsHard(i)

ChildOf(k, i) ==
    IF ~Defined(k, i) THEN Fail
    ELSE LET pub == PubPoint(k)
             I   == Hmac(k.code, (IF IsHard(i) THEN k.key ELSE pub) \o i)
             new == IF k.prv THEN <<0>> \o ScalarPlus(Left(I), Scalar(k))
                             ELSE PointPlus(Point(Left(I)), k.key)
         IN  IF ~LeftOK(Left(I)) \/ (k.prv /\ AllZero(new)) \/ (~k.prv /\ new = <<>>) THEN Fail
             ELSE Encode([ver |-> k.ver, depth |-> k.depth + 1, fp |-> Slice(Identifier(pub), 0, NumLen), num |-> i,
                          code |-> Right(I), prv |-> k.prv, key |-> new])

Neuter(k) ==
    IF k.prv THEN Encode([k EXCEPT !.ver = IF @ \in PrvVersions THEN PairedPub(@) ELSE DefaultPub,
                                   !.prv = FALSE, !.key = Point(Scalar(k))])
             ELSE Encode(k)

Wrap(b) == b \o Checksum(b)                                 \* the serialised form
Unwrap(t) == Slice(t, 0, KeySize)
Accepts(t) == /\ Len(t) = KeySize + SumLen
              /\ Slice(t, KeySize, SumLen) = Checksum(Unwrap(t))
              /\ Legal(Fields(Unwrap(t)))
Decode(t) == IF Accepts(t) THEN Unwrap(t) ELSE Fail

\* ------------------------------------------------------------------ why operations fail
\* what is wrong with the content of a key, with a serialised form, with a derivation (from a sound key)
KeyCauses(k) == (IF Sound(k) THEN {} ELSE IF k.prv THEN {"private"} ELSE {"public"})
                \cup (IF KindOK(k) THEN {} ELSE {"version"}) \cup (IF RootOK(k) THEN {} ELSE {"master"})
DecodeCauses(t) == IF Len(t) # KeySize + SumLen THEN {"size"}
                   ELSE KeyCauses(Fields(Unwrap(t))) \cup (IF Slice(t, KeySize, SumLen) = Checksum(Unwrap(t)) THEN {} ELSE {"checksum"})
StepCauses(k, hard, n) == (IF Registered(k) THEN {} ELSE {"version"}) \cup (IF k.depth + n <= MaxDepth THEN {} ELSE {"depth"})
                          \cup (IF ~k.prv /\ hard THEN {"hard"} ELSE {})
ChildCauses(k, i) == LET s == StepCauses(k, IsHard(i), 1) IN
                     IF s = {} /\ ChildOf(k, i) = Fail THEN {IF k.prv THEN "private" ELSE "public"} ELSE s

\* derivation along a sequence of child numbers
Walk(b, path) == FoldLeft(LAMBDA k, i : IF k = Fail THEN Fail ELSE ChildOf(Fields(k), i), b, path)
=============================================================================
