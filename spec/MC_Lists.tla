------------------------------ MODULE MC_Lists ------------------------------
(***************************************************************************)
(* The frozen word lists have the properties C16 speaks of and the         *)
(* published CRC-32 of the official files; the languages switched through  *)
(* one by one decode what was written in them.                             *)
(***************************************************************************)
EXTENDS Mnemonics, WordLists

ASSUME Len(Official) = 10
ASSUME \A n \in OfficialNames : LET h == OfficialHex(n) w == [i \in DOMAIN h |-> Unhex(h[i])] IN
    /\ Len(h) = 2048 /\ Cardinality(Range(h)) = 2048
    /\ \A i \in DOMAIN w : w[i] # <<>> /\ NFKD(w[i]) = w[i] /\ \A c \in Range(CodePoints(w[i])) : c < 1114112 /\ ~MSpace(c)
    /\ LET k == CHOOSE i \in DOMAIN Official : Official[i].name = n IN Hex(Crc(FlattenSeq([i \in DOMAIN w |-> w[i] \o <<10>>]))) = Official[k].crc

At == [n \in OfficialNames |-> Positions(OfficialWords[n])]
Ents == {Zeros(16), [i \in 1..16 |-> 255], [i \in 1..32 |-> (i * 37) % 256], Zeros(24), [i \in 1..20 |-> 7 * i], [i \in 1..28 |-> 255 - i]}
VARIABLES lang, note
Init == lang = "english" /\ note = <<>>
Switch == \E n \in OfficialNames : lang' = n /\ note' = <<>>
Write == note = <<>> /\ \E e \in Ents : note' = Bits(e) /\ UNCHANGED lang
Spec == Init /\ [][Switch \/ Write]_<<lang, note>>
ReadsBack == note # <<>> => LET t == Encode(OfficialWords[lang], note) IN Valid(At[lang], t) /\ Entropy(At[lang], t) = note
=============================================================================
