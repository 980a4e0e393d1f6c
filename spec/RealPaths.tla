----------------------------- MODULE RealPaths -----------------------------
(***************************************************************************)
(* The real numbers and characters for module Paths.  Numbers are four     *)
(* bytes.  Some characters are blank beyond doubt; whether others (vertical*)
(* tab, no-break space, ideographic space, ...) count as whitespace is     *)
(* left open: a path containing them may be rejected or read without them. *)
(***************************************************************************)
EXTENDS Bytes, Prims

RRootC == {109, 77}
RBlank(c) == c \in {9, 10, 12, 13, 32}
OpenBlank(c) == c \in {11, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288, 65279, 6158} \cup (28..31) \cup (8192..8205)
\* leading zeros do not matter; a numeral of more than ten digits exceeds 32 bits
RNumber(ds) == LET z == Leading(ds, 0) d == SubSeq(ds, z + 1, Len(ds)) IN IF Len(d) > 10 THEN <<>> ELSE DecimalToBytes(d, 4)
RSoft(v) == ~HBit(v)
RNumerals(v) == BytesToDecimal(v)
RRootNumber == <<0, 0, 0, 0>>
=============================================================================
