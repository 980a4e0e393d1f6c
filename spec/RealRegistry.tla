--------------------------- MODULE RealRegistry ---------------------------
(***************************************************************************)
(* The official tables (data/, Slip132.tla) in the form Registry uses.     *)
(***************************************************************************)
EXTENDS Registry, RealPaths, RealMnemonics

CoinTable == ndJsonDeserialize(IOEnv.DATA \o "/slip44.ndjson")
CoinRows == {CoinTable[i] : i \in DOMAIN CoinTable}               \* type, pc, sym, name in hex
BlankText(h) == \A c \in Range(CodePoints(Unhex(h))) : MSpace(c)
CoinValidHex(r) == CoinValid([type |-> Unhex(r.type), pc |-> Unhex(r.pc), sym |-> r.sym, name |-> r.name], BlankText)

PathOf(r) == Utf8(r.path)
PurposeOf(r) == Hex(ClearH(Parse(PathOf(r))[2]))
PurposeFullOf(r) == Hex(Parse(PathOf(r))[2])
CoinOf(r) == Hex(ClearH(Parse(PathOf(r))[3]))
PrvOf(r) == r.prv
PubOf(r) == r.pub
\* C28: how a coin is shown, as text, in a table, and as JSON.  Texts are bytes.
Ascii(d) == [i \in DOMAIN d |-> d[i] + 48]
HexDigits(b) == LET d == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]
                    s == [i \in DOMAIN d |-> IF d[i] < 10 THEN d[i] + 48 ELSE d[i] + 87]
                    z == {i \in DOMAIN d : d[i] # 0}
                IN  IF z = {} THEN <<48>> ELSE SubSeq(s, CHOOSE i \in z : \A k \in z : i <= k, Len(s))
CoinText(r) == (IF r.sym = <<>> THEN r.name ELSE r.sym \o Utf8(" - ") \o r.name) \o Utf8(" (Type ") \o Ascii(BytesToDecimal(r.type)) \o Utf8(")")
CoinTable1(r) == Utf8("{Type: ") \o Ascii(BytesToDecimal(r.type)) \o Utf8(", PathComponent: 0x") \o HexDigits(r.pc)
                 \o Utf8(", Symbol: \"") \o r.sym \o Utf8("\", Name: \"") \o r.name \o Utf8("\"}")
CoinMembers(r) == {m \in {"type", "pathComponent", "symbol", "name"} :
                     CASE m = "type" -> ~AllZero(r.type) [] m = "pathComponent" -> ~AllZero(r.pc) [] m = "symbol" -> r.sym # <<>> [] m = "name" -> r.name # <<>>}
\* is it UTF-8 (up to overlong forms)?
Utf8Text(s) == 0 = FoldLeft(LAMBDA n, b : IF n < 0 THEN n ELSE IF n > 0 THEN (IF b \in 128..191 THEN n - 1 ELSE -1)
                              ELSE IF b < 128 THEN 0 ELSE IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..244 THEN 3 ELSE -1, 0, s)
\* o: what was printed (str, md), the members of the JSON form (keys, good) and what was read back
C28Row(r, o) == /\ o.str = CoinText(r) /\ o.md = CoinTable1(r)
                /\ o.good /\ o.keys = CoinMembers(r)
                /\ (Utf8Text(r.sym) /\ Utf8Text(r.name)) => o.back = r
=============================================================================
