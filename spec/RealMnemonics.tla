--------------------------- MODULE RealMnemonics ---------------------------
(***************************************************************************)
(* BIP-39's parameters: 2048 words, 128 to 256 bits of entropy, SHA-256,   *)
(* Unicode white space; seeds; the ten official lists (data/).             *)
(***************************************************************************)
EXTENDS Bytes, Prims, Json, IOUtils

MEntLens == {128, 160, 192, 224, 256}
MSum(ent, n) == SubSeq(Bits(SHA256(BitsToBytes(ent))), 1, n)
MSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ c \in 8192..8202

MnemonicWord == <<109, 110, 101, 109, 111, 110, 105, 99>>
SeedOf(text, phrase) == PBKDF2(NFKD(text), MnemonicWord \o NFKD(phrase), 2048, 64)

Official == ndJsonDeserialize(IOEnv.DATA \o "/wordlists.ndjson")
OfficialNames == {Official[k].name : k \in DOMAIN Official}
OfficialHex(name) == LET k == CHOOSE i \in DOMAIN Official : Official[i].name = name IN Official[k].words
OfficialWords == [n \in OfficialNames |-> LET h == OfficialHex(n) IN [i \in DOMAIN h |-> CodePoints(Unhex(h[i]))]]
=============================================================================
