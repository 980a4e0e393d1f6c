------------------------------- MODULE T_Rand -------------------------------
(***************************************************************************)
(* Validates recorded sessions that make random secrets (C17).  Where the  *)
(* driver installed its own random source, the specification knows its     *)
(* stream: block k of it is SHA-256(seed, k).  Where the operating         *)
(* system's source is in use, secrets must have the right size and share   *)
(* no eight bytes with each other or within themselves.                    *)
(***************************************************************************)
EXTENDS Mnemonics, Failures, WordLists, Secrets

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Evs(k) == Sessions[k].ev
Keys == {English} \cup {ListKey(j) : j \in UNION {{Evs(k)[i] : i \in {x \in DOMAIN Evs(k) : Evs(k)[x].op = "wl"}} : k \in DOMAIN Sessions}}
Basic == ("made" :> Made) @@ OfficialWords
Table == [k \in Keys |-> ListOf(Basic, k)]
Index == [k \in Keys |-> Positions(Table[k])]

\* the streams, as far as the sessions used them
Block(b, k) == SHA256(Unhex(b) \o U32(k))
Reach(k) == LET P == {Evs(k)[i].pos : i \in {x \in DOMAIN Evs(k) : "pos" \in DOMAIN Evs(k)[x]}} IN IF P = {} THEN 0 ELSE CHOOSE p \in P : \A q \in P : q <= p
StreamOf(b, n) == FlattenSeq([k \in 1..((n \div 32) + 1) |-> Block(b, k - 1)])
Streams == [k \in DOMAIN Sessions |-> LET B == {Evs(k)[i].b : i \in {x \in DOMAIN Evs(k) : Evs(k)[x].op = "source"}} IN [b \in B |-> StreamOf(b, Reach(k))]]

VARIABLES t, l, act, src, used, fails, seen
vars == <<t, l, act, src, used, fails, seen>>

\* the secret a call is to make, in bytes; -1 if it must refuse
Want(j) == CASE j.op = "newseed" -> 256
             [] j.op = "entropy" -> IF j.n \in EntLens THEN j.n \div 8 ELSE -1
             [] j.op = "genmn" -> IF j.n \in Counts THEN EntLenOf(j.n) \div 8 ELSE -1
\* the secret a call returned
Result(j, list, at) ==
    IF "r" \notin DOMAIN j THEN <<>>
    ELSE IF j.op # "genmn" THEN Unhex(j.r)
    ELSE LET text == CodePoints(Unhex(j.r)) IN
         IF j.o # "ok" \/ ~Valid(at, text) \/ text # Encode(list, Entropy(at, text)) THEN Unhex(j.r) ELSE BitsToBytes(Entropy(at, text))
Report(j, r) == [o |-> j.o, len |-> Len(r), failed |-> "failed" \in DOMAIN j /\ j.failed > fails, upto |-> IF "cut" \in DOMAIN j THEN j.cut ELSE IF "pos" \in DOMAIN j THEN j.pos ELSE 0]
Found(r, s) == LET z == Streams[t][src] IN r # <<>> /\ z[s + 1] = r[1] /\ z[s + 2] = r[2] /\ SubSeq(z, s + 1, s + Len(r)) = r
\* C25
Why(j, e) == (IF Want(j) # -1 THEN {} ELSE IF j.op = "entropy" THEN {"entropy"} ELSE {"words"}) \cup (IF e.failed THEN {"source"} ELSE {})
C25(j, e) == j.o = "err" => Blames(Range(j.es), Why(j, e))
\* the system's source
Windows(r) == {SubSeq(r, 4 * k + 1, 4 * k + 8) : k \in 0..((Len(r) - 8) \div 4)}
Healthy(n, e, r) == IF n = -1 THEN e.o = "err" /\ e.len = 0 ELSE e.o = "ok" /\ e.len = n /\ Cardinality(Windows(r)) = ((n - 8) \div 4) + 1 /\ Windows(r) \cap seen = {}

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in DOMAIN Sessions /\ l = 1 /\ act = English /\ src = "" /\ used = {} /\ fails = 0 /\ seen = {}
Next == /\ l <= Len(Evs(t))
        /\ LET j == Evs(t)[l] IN
           CASE j.op = "wl" -> act' = ListKey(j) /\ UNCHANGED <<src, used, fails, seen>>
             [] j.op = "source" -> src' = j.b /\ used' = {} /\ fails' = 0 /\ UNCHANGED <<act, seen>>
             [] j.op \in {"entropy", "newseed", "genmn"} ->
                LET n == Want(j)
                    r == Result(j, Table[act], Index[act])
                    e == Report(j, r)
                    At(s) == Found(r, s)
                    m == IF j.o = "ok" /\ n # Len(r) THEN -1 ELSE n         \* a result of another size is found nowhere
                IN  /\ IF (IF IOEnv.PROP = "C25" THEN C25(j, e) ELSE IF src = "" THEN Healthy(n, e, r) ELSE C17(used, n, e, At)) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
                    /\ used' = IF src = "" THEN used ELSE NextUsed(used, m, e, At)
                    /\ seen' = IF src # "" \/ j.o # "ok" THEN seen ELSE seen \cup Windows(r)
                    /\ fails' = IF "failed" \in DOMAIN j THEN j.failed ELSE fails
                    /\ UNCHANGED <<act, src>>
             [] OTHER -> UNCHANGED <<act, src, used, fails, seen>>
        /\ l' = l + 1
        /\ t' = t
=============================================================================
