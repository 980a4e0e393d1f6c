------------------------------ MODULE T_Wallet ------------------------------
(***************************************************************************)
(* Validates recorded sessions with generators and ranges (C10, C11, and   *)
(* C07 for paths and ranges) against Wallet under the real algebra.        *)
(***************************************************************************)
EXTENDS Wallet, Failures, Real, RealPaths, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
RClaims == {IOEnv.PROP}
RGens == {"g0", "g1", "g2"}
RRanges == {"r0", "r1", "r2"}
KeyNames == {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}
RNth(i, k) == Tail(Plus(i, U32(k)))
\* the difference, as far as it matters
RSize(i, j) == IF ~Less(i, j) THEN 0 ELSE LET d == Minus(j, i) IN IF d[1] > 0 THEN 16777216 ELSE Val32(d)
RAnyHard(i, j) == Less(i, j) /\ (HBit(i) \/ Less(<<128, 0, 0, 0>>, j))

VARIABLES slot, t, l
vars == <<slot, root, range, t, l>>

Has(j, f) == f \in DOMAIN j
List(j) == IF Has(j, "l") THEN [x \in 1..Len(j.l) |-> [p |-> Unhex(j.l[x].p), k |-> Unhex(j.l[x].k)]] ELSE <<>>
Now(j) == IF j.g \in DOMAIN j.d THEN Unhex(j.d[j.g]) ELSE root[j.g]
Event(j) ==
    CASE j.op = "gset" -> [op |-> "gset", g |-> j.g, key |-> slot[j.src], now |-> Now(j), o |-> j.o]
      [] j.op = "groot" -> [op |-> "groot", g |-> j.g, key |-> IF Has(j, "key") THEN Unhex(j.key) ELSE <<>>, o |-> j.o]
      [] j.op = "gderive" -> [op |-> "gderive", g |-> j.g, t |-> Unhex(j.t), now |-> Now(j), o |-> j.o, l |-> List(j)]
      [] j.op = "rset" -> [op |-> "rset", r |-> j.r, i |-> Unhex(j.i), j |-> Unhex(j.j), t |-> Unhex(j.t), key |-> slot[j.src], o |-> j.o]
      [] j.op = "rgen" -> [op |-> "rgen", r |-> j.r, o |-> j.o, l |-> List(j), same |-> Has(j, "same") /\ j.same]
      [] OTHER -> [op |-> "other"]

C25(j, e) == e.op \in {"gderive", "rgen"} /\ j.o = "err" => Blames(Range(j.es), IF e.op = "gderive" THEN DeriveCauses(e) ELSE RangeCauses(e))
View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in 1..Len(Sessions) /\ l = 1 /\ slot = [n \in KeyNames |-> REmpty] /\ WInit
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ LET j == ev[l] e == Event(j) IN
             /\ IF WAllowed(e) /\ ("C25" \in WClaims => C25(j, e)) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
             /\ WStep(e)
             /\ slot' = [n \in DOMAIN j.d \cap KeyNames |-> Unhex(j.d[n])] @@ slot
        /\ l' = l + 1
        /\ t' = t
=============================================================================
