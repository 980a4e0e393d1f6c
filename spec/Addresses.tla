----------------------------- MODULE Addresses -----------------------------
(***************************************************************************)
(* Addresses of extended keys (C18, C19): functions of the public point    *)
(* alone, so that a private key and its public counterpart share them.     *)
(***************************************************************************)
EXTENDS HD

CONSTANTS Spread(_),            \* both coordinates of a compressed point at full width
          AccountHash(_),       \* of the spread point
          HexText(_),           \* lower-case hex digits
          Text58(_)             \* Base58 text

AccountAddr(k) == HexText(AccountHash(Spread(PubPoint(k))))
Payload(k, prefix) == <<prefix>> \o Identifier(PubPoint(k))
PrefixedAddr(k, prefix) == LET p == Payload(k, prefix) IN Text58(p \o Checksum(p))

\* Obligations of a call e on a key k (or on data e.in)
C18(k, e) == CASE e.op = "addrhex" -> Legal(k) => e.o = "ok" /\ e.r = AccountAddr(k)
               [] e.op = "expand" -> PointOK(e.in) => e.o = "ok" /\ e.r = Spread(e.in)
               [] OTHER -> TRUE
C19(k, e) == CASE e.op = "addrp2sh" -> Legal(k) => e.o = "ok" /\ e.r = PrefixedAddr(k, e.x)
               [] e.op = "hash160" -> e.o = "ok" /\ e.r = Identifier(e.in)
               [] e.op = "checksum" -> e.o = "ok" /\ e.r = Checksum(e.in)
               [] e.op = "addchecksum" -> e.o = "ok" /\ e.r = e.in \o Checksum(e.in)
               [] OTHER -> TRUE
=============================================================================
