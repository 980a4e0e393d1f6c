------------------------------ MODULE Special ------------------------------
(***************************************************************************)
(* Inputs on which fixed-width encodings matter, found by search           *)
(* (tools/special): scalars whose point has leading zero bytes in a        *)
(* coordinate, and children of the master key of seed 000102..0f whose     *)
(* scalar, chain code, HMAC left half or coordinates start with zeros;     *)
(* scalars whose point's hashes or address checksums (prefix 0), and       *)
(* whose master key's checksum (zero chain code, Bitcoin version), start    *)
(* or end with zeros; 16-byte seeds and passphrases p<n> (of the           *)
(* mnemonic of 16 zero bytes) whose seed or master key does.               *)
(***************************************************************************)
ShortX == {153, 246, 886, 1158, 44629, 58165, 63439, 68831}
ShortY == {122, 130, 533, 544, 41192, 394851, 396508}
SpecialSeed == "000102030405060708090a0b0c0d0e0f"
ShortScalarHard == {"80000118", "8000017e", "800031d3", "8002a6e7", "80323a4e", "805aaf37"}
ShortOtherHard == {"80000407", "800036c5", "80008de0", "80b55e99", "8000009c", "8000b857", "80030513", "8018a464"}
ShortScalarSoft == {"00000079", "00000091", "00012f03", "0001b712"}
ShortOtherSoft == {"0000009e", "000001f7", "000043c2", "0000ee81", "00000047", "00000217", "0000cdaf"}
ShortXSoft == {"000000a1", "00000189", "0001a470", "00027831"}
ShortYSoft == {"0000016f", "00000192", "000387ce", "000424fc"}
ShortHash == {59, 182, 256, 300, 321, 466, 30033, 40724, 42104, 66874, 85572, 98624, 105508, 120454, 202760, 303988, 1063415, 5862703}
EndingPoint == {30, 151, 8480, 10916, 462811, 1788644}
ShortCheck == {13, 17, 67, 9916, 13801, 48497, 71076}
ShortMasters == {"0000002c", "00000047", "0000008d", "000000ad", "000000b0", "0000c141", "0000d2a9", "0000fb09", "000157b1", "00019b7d", "0002a27d", "00035409", "0015d394", "00c556bd", "0165e3e5", "017762cf", "0185cddb", "01a046fc", "01e223a7"}
ShortPass == {"23", "77", "103", "224", "963", "15346", "20737", "34688", "63520", "75495", "79901", "80090", "81619", "98382"}
=============================================================================
