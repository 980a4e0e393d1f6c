------------------------------- MODULE MC_Net -------------------------------
(***************************************************************************)
(* Network over the toy algebra: every order in which networks are chosen, *)
(* keys made, neutered and derived.  A ghost says which version each key   *)
(* has to carry, from the history alone.                                   *)
(***************************************************************************)
EXTENDS Network, Toy, FiniteSets, IOUtils

TIsHard(i) == i[1] >= 128
TB58(b) == <<0>> \o b
Seeds == {<<2>>, <<5>>}
Numbers == {<<0>>, <<128>>}
Networks == {<<<<10>>, <<20>>>>, <<<<11>>, <<21>>>>, <<<<30>>, <<31>>>>, <<<<11>>, <<20>>>>}
TClaims == {}
TSlots == {"a", "b"}
TEmpty == Zeros(7)

VARIABLE due                  \* slot -> the version its key has to carry
vars == <<slot, kin, pubs, net, due>>

Res(e, b) == IF b = Fail THEN [o |-> "err", key |-> TEmpty, d |-> <<>>] @@ e
             ELSE [o |-> "ok", key |-> b, d |-> (e.dst :> b)] @@ e
Live == {n \in Slots : slot[n] # EmptyKey}
k(n) == Fields(slot[n])
Chosen == {[op |-> "default", o |-> "ok", d |-> <<>>, prv |-> x[1], pub |-> x[2], main |-> m] : x \in Networks, m \in BOOLEAN}
Calls == {Res([op |-> "master", dst |-> d, seed |-> s], NMaster(s)) : d \in Slots, s \in Seeds}
    \cup {Res([op |-> "child", dst |-> d, src |-> n, i |-> i], ChildOf(k(n), i)) : d \in Slots, n \in Live, i \in Numbers}
    \cup {Res([op |-> "neuter", dst |-> d, src |-> n], NNeuter(k(n))) : d \in Slots, n \in Live}
Owed(e) == CASE e.op = "master" -> net.prv
             [] e.op = "child" -> due[e.src]
             [] e.op = "neuter" -> IF ~k(e.src).prv THEN due[e.src] ELSE IF due[e.src] \in PrvVersions THEN PairedPub(due[e.src]) ELSE net.pub
Init == NInit /\ due = [n \in Slots |-> <<0>>]
Next == \E e \in Chosen \cup Calls : NStep(e) /\ due' = IF Makes(e) THEN [due EXCEPT ![e.dst] = Owed(e)] ELSE due
Spec == Init /\ [][Next]_vars
Small == <<slot, net, due>>
Bounded == TLCGet("level") < atoi(IOEnv.LEVEL)

\* what exists carries what it was given, whatever was chosen since
Faithful == \A n \in Live : k(n).ver = due[n]
Obedient == \A e \in Calls \cup Chosen : C27(e)
\* with the library's own default these are the calls of HD
Own == net = [prv |-> DefaultPrv, pub |-> DefaultPub] =>
          (\A s \in Seeds : NMaster(s) = Master(s)) /\ (\A n \in Live : NNeuter(k(n)) = Neuter(k(n)))
\* designs that look elsewhere for the network are refused: the one of the beginning, another one, one that touches what is registered or derived
Other(v) == {x \in {y[1] : y \in Networks} \cup {y[2] : y \in Networks} : x # v}
Sharp == \A e \in Calls : (e.o = "ok" /\ ("src" \in DOMAIN e => Legal(k(e.src)) /\ (k(e.src).prv \/ Registered(k(e.src))) /\ (e.op = "child" => Registered(k(e.src))))) =>
            /\ \A v \in Other(Fields(e.key).ver) : ~C27([e EXCEPT !.key = As(@, v)])
            /\ \A j \in 1..KeySize : ~C27([e EXCEPT !.key = [@ EXCEPT ![j] = (@ + 1) % 256]])
            /\ ~C27([e EXCEPT !.o = "err"])
=============================================================================
