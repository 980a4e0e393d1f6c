------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* Primitives the specification takes as given: hash functions, the group  *)
(* secp256k1 and text encodings, all over sequences of bytes (0..255).     *)
(* TLC realises them by java/Prims.java (standard library plus textbook    *)
(* RIPEMD-160, Keccak and curve arithmetic), independent of the code under *)
(* test.  Everything else in this directory is plain TLA+.                 *)
(***************************************************************************)
LOCAL Opaque == CHOOSE x : x \notin {}

SHA256(data) == Opaque
HMACSHA512(key, data) == Opaque
PBKDF2(password, salt, iterations, length) == Opaque      \* PRF is HMAC-SHA512
RIPEMD160(data) == Opaque
KECCAK256(data) == Opaque

BaseMul(scalar) == Opaque        \* scalar*G compressed to 33 bytes, <<>> for infinity
PointAdd(p, q) == Opaque         \* sum of compressed points, <<>> for infinity
OnCurve(p) == Opaque             \* is p a compressed point of the curve?
Uncompress(p) == Opaque          \* 32-byte x followed by 32-byte y

Unhex(string) == Opaque          \* bytes of a hex string
Hex(bytes) == Opaque             \* lower-case hex string of bytes
Utf8(string) == Opaque           \* UTF-8 bytes of a TLA+ string
CodePoints(bytes) == Opaque      \* Unicode code points of UTF-8 bytes
NFKD(bytes) == Opaque            \* NFKD normalisation, UTF-8 to UTF-8
Crc(bytes) == Opaque             \* CRC-32 as 4 bytes
Positions(s) == Opaque          \* element -> position counted from 0, for a sequence of distinct elements
RndHex(seed, label, n) == Opaque \* n reproducible random bytes as a hex string
Emit(file, line) == Opaque       \* appends a line to a file; TRUE
=============================================================================
