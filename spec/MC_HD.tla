------------------------------- MODULE MC_HD -------------------------------
(***************************************************************************)
(* HDWorld over a toy algebra: the group of integers modulo 5, one-byte    *)
(* fields, two registered version pairs, depth at most 2.  TLC explores    *)
(* every world that calls on two slots can produce.                        *)
(***************************************************************************)
EXTENDS HDWorld, Toy, FiniteSets, IOUtils

TIsHard(i) == i[1] >= 128
TB58(b) == <<0>> \o b

Seeds == {<<2>>, <<5>>}
Nums == {<<0>>, <<128>>}
Versions == {<<11>>, <<20>>, <<30>>}
TClaims == {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}
TSlots == {"a", "b"}
TEmpty == Zeros(7)

\* the prescribed event of each call
Res(e, b) == IF b = Fail THEN [o |-> "err", key |-> TEmpty, d |-> <<>>] @@ e
             ELSE [o |-> "ok", key |-> b, d |-> (e.dst :> b)] @@ e
Value(e, v) == [o |-> "ok", v |-> v, d |-> <<>>] @@ e
Bytes1(e, v) == [o |-> "ok", r |-> v, d |-> <<>>] @@ e
Live == {n \in Slots : slot[n] # EmptyKey}
Events ==
    LET k(n) == Fields(slot[n])
    IN  {Res([op |-> "master", dst |-> d, seed |-> s], Master(s)) : d \in Slots, s \in Seeds}
   \cup {Res([op |-> "child", dst |-> d, src |-> n, i |-> i], ChildOf(k(n), i)) : d \in Slots, n \in Live, i \in Nums}
   \cup {Res([op |-> "neuter", dst |-> d, src |-> n], Neuter(k(n))) : d \in Slots, n \in Live}
   \cup {Res([op |-> "setver", dst |-> n, ver |-> v], v \o Tail(slot[n])) : n \in Live, v \in Versions}
   \cup {Res([op |-> "b58round", dst |-> d, src |-> n, r |-> TB58(Wrap(slot[n]))], Decode(Wrap(slot[n]))) : d \in Slots, n \in Live}
   \cup {Value([op |-> "isprv", src |-> n], k(n).prv) : n \in Live}
   \cup {Bytes1([op |-> "prvhex", src |-> n], IF k(n).prv THEN Scalar(k(n)) ELSE <<>>) : n \in Live}
   \cup {Bytes1([op |-> "pubhex", src |-> n], PubPoint(k(n))) : n \in Live}
   \cup {Value([op |-> "valid", src |-> n], Legal(k(n))) : n \in Live}

Init == WorldInit
Next == \E e \in Events : Step(e)
Spec == Init /\ [][Next]_wvars
Bounded == Cardinality(DOMAIN pubs) <= 3 /\ TLCGet("level") < atoi(IOEnv.LEVEL)

\* ------------------------------------------------------------------ what the design guarantees
\* the prescribed behaviour meets every obligation
Obedient == \A e \in Events : Allowed(e)
\* an event that differs in any way from the prescribed one is refused: the obligations determine the outcome
\* (of a public derivation once another route to the same key is known, as C03 only demands agreement)
Wrong(e) == {[e EXCEPT !.key = [@ EXCEPT ![j] = (@ + 1) % 256]] : j \in 1..KeySize} \cup {[e EXCEPT !.o = "err"]}
Sharp == \A e \in Events : ("key" \in DOMAIN e /\ e.o = "ok" /\ ("src" \in DOMAIN e => Legal(K(e.src)) /\ Registered(K(e.src)))
                                /\ (e.op = "child" /\ ~K(e.src).prv => OriginOf(e) \in DOMAIN pubs))
                            => \A w \in Wrong(e) : ~Allowed(w)
\* all routes commute: what is known about an origin is the neutered result of walking from it
Commute == \A q \in DOMAIN pubs :
              LET w == Walk(q.root, q.path)
              IN  w # Fail /\ pubs[q] = Neuter(Fields(w))
DepthCounts == \A n \in Live : LET r == Fields(kin[n].root) IN Fields(slot[n]).depth = r.depth + Len(kin[n].path)
ClosedUnderOps == \A n \in Live : Sound(Fields(slot[n])) /\ RootOK(Fields(slot[n]))
RoundTrip == \A n \in Live : LET b == slot[n] IN
                /\ Legal(Fields(b)) => Decode(Wrap(b)) = b
                /\ Encode(Fields(b)) = b
                /\ ~Legal(Fields(b)) => Decode(Wrap(b)) = Fail
                /\ \A j \in 1..8 : Decode([Wrap(b) EXCEPT ![j] = @ + 1]) \notin {b}
\* whatever fails has a cause, and nothing else has
Forms(b) == {Wrap(b), Tail(Wrap(b)), <<>>, Wrap(b) \o <<0>>} \cup {[Wrap(b) EXCEPT ![j] = @ + 1] : j \in 1..8} \cup {Wrap([b EXCEPT ![j] = (@ + x) % 256]) : j \in 1..7, x \in {1, 2, 5}}
Blameless == \A n \in Live : LET k == Fields(slot[n]) IN
                /\ \A i \in Nums : Sound(k) => (ChildOf(k, i) = Fail <=> ChildCauses(k, i) # {})
                /\ \A t \in Forms(slot[n]) : Decode(t) = Fail <=> DecodeCauses(t) # {}
NoLeak == \A n \in Live : ~Fields(slot[n]).prv => PubPoint(Fields(slot[n])) = Fields(slot[n]).key
=============================================================================
