-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* The real algebra for module HD: HMAC-SHA512, secp256k1, SLIP-0132.      *)
(***************************************************************************)
EXTENDS Bytes, Prims, Slip132

N == Unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
RSeedKey == Utf8("Bitcoin seed")
RLeft(I) == SubSeq(I, 1, 32)
RRight(I) == SubSeq(I, 33, 64)
RLeftOK(l) == Less(l, N)
RScalarOK(s) == ~AllZero(s) /\ Less(s, N)
RScalarPlus(a, b) == ModSum(a, b, N)
HASH160(d) == RIPEMD160(SHA256(d))
Double256(d) == SubSeq(SHA256(SHA256(d)), 1, 4)
RPrv == {Unhex(Slip132[j].prv) : j \in DOMAIN Slip132}
RPub == {Unhex(Slip132[j].pub) : j \in DOMAIN Slip132}
RPair == [v \in RPrv |-> CHOOSE p \in RPub : \E j \in DOMAIN Slip132 : Unhex(Slip132[j].prv) = v /\ Unhex(Slip132[j].pub) = p]
RPairedPub(v) == RPair[v]
RDefaultPrv == Unhex("0488ade4")
RDefaultPub == Unhex("0488b21e")
REmpty == Zeros(78)
=============================================================================
