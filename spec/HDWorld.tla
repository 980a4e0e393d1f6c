------------------------------ MODULE HDWorld ------------------------------
(***************************************************************************)
(* A caller's world of key objects ("slots"), and for each property the    *)
(* obligation that one call must meet.  An event e records a call: its     *)
(* operation, arguments (slots are names), outcome o ("ok", "err" or       *)
(* something worse) and results.  Step(e) is the transition.               *)
(*                                                                         *)
(* In the design model (MC_HD) outcomes are those HD prescribes and the    *)
(* invariants are checked; in trace validation (T_HD) events come from     *)
(* the implementation.  Claims says which obligations are enforced: all in *)
(* the design, one in a check, so that a defect trips its own property's   *)
(* check only.  Whatever was observed is adopted as the next state.        *)
(***************************************************************************)
EXTENDS HD, TLC

CONSTANTS Claims, Slots, EmptyKey

VARIABLES slot,         \* name -> key bytes
          kin,          \* name -> where the key comes from: [root |-> public bytes, path |-> sequence of child numbers]
          pubs          \* what is known about public keys: origin -> key bytes

wvars == <<slot, kin, pubs>>

\* ------------------------------------------------------------------ origins (C03)
\* A key that was not derived here is its own root; a private key and its public counterpart are the same root.
Origin(b) == [root |-> IF Sound(Fields(b)) /\ Fields(b).prv THEN Neuter(Fields(b)) ELSE b, path |-> <<>>]
Down(q, i) == [root |-> q.root, path |-> Append(q.path, i)]

\* ------------------------------------------------------------------ obligations
K(n) == Fields(slot[n])
Ok(e, b) == e.o = "ok" /\ e.key = b                        \* succeeded with exactly this key
Refused(e) == e.o = "err" /\ AllZero(e.key)                \* an error, and no key material
Gives(e, b) == IF b = Fail THEN e.o = "err" ELSE Ok(e, b)

\* C01: the master key of a seed
C01(e) == e.op = "master" => Gives(e, Master(e.seed))

\* C02: private derivation
C02(e) == e.op = "child" => LET k == K(e.src) IN (k.prv /\ Legal(k) /\ Defined(k, e.i)) => Gives(e, ChildOf(k, e.i))

\* C03: every route to the same public key gives the same bytes, and hardened children of public keys are refused
OriginOf(e) == IF e.op = "child" THEN Down(kin[e.src], e.i) ELSE kin[e.src]
Agrees(e) == LET q == OriginOf(e) IN q \in DOMAIN pubs => e.key = pubs[q]
C03(e) == e.op \in {"child", "neuter"} =>
              LET k == K(e.src)
              IN  /\ (e.op = "child" /\ ~k.prv /\ IsHard(e.i)) => Refused(e)
                  /\ (Legal(k) /\ Registered(k) /\ (e.op = "child" => ChildOf(k, e.i) # Fail)) =>
                        /\ e.o = "ok"
                        /\ ~(Fields(e.key).prv) => Agrees(e)
                        /\ (e.op = "child" => Fields(e.key).prv = k.prv)
                        /\ (e.op = "neuter" => ~Fields(e.key).prv)

\* C04: neutering, privacy and the hex accessors (e.v is what the accessor returned)
C04(e) == /\ e.op = "neuter" => LET k == K(e.src) IN
                 (Legal(k) /\ (k.prv \/ Registered(k))) => Ok(e, Neuter(k)) /\ ~Fields(e.key).prv
          /\ e.op = "isprv"  => LET k == K(e.src) IN Legal(k) => e.o = "ok" /\ e.v = k.prv
          /\ e.op = "prvhex" => LET k == K(e.src) IN Legal(k) => e.o = "ok" /\ e.r = (IF k.prv THEN Scalar(k) ELSE <<>>)
          /\ e.op = "pubhex" => LET k == K(e.src) IN Legal(k) => e.o = "ok" /\ e.r = PubPoint(k)

\* C05: serialised forms, accessors, versions (B58 is the text form of bytes)
CONSTANT B58(_)
C05(e) == /\ e.op = "ser" => (Legal(K(e.src)) => e.o = "ok" /\ e.r = Wrap(slot[e.src]))
          /\ e.op \in {"ser", "b58round"} /\ slot[e.src] = EmptyKey => e.o = "err"
          /\ e.op \in {"b58", "string"} /\ slot[e.src] = EmptyKey => e.o = "ok" /\ e.r = <<>>
          /\ e.op \in {"b58", "string"} => (Legal(K(e.src)) => e.o = "ok" /\ e.r = B58(Wrap(slot[e.src])))
          /\ e.op = "b58round" => (Legal(K(e.src)) => Ok(e, slot[e.src]) /\ e.r = B58(Wrap(slot[e.src])))
          /\ e.op \in {"deser", "b58deser"} => (Accepts(e.in) => Ok(e, Unwrap(e.in)))
          /\ e.op = "valid" => (Legal(K(e.src)) => e.o = "ok" /\ e.v)
          /\ e.op = "fields" =>
                LET k == K(e.src) IN
                  /\ e.o = "ok" /\ e.ver = k.ver /\ e.depth = k.depth /\ e.fp = k.fp /\ e.num = k.num /\ e.code = k.code
                  /\ e.keyf = k.key /\ e.tail = Tail(k.key)
          /\ e.op = "setver" => e.o = "ok" /\ e.key = e.ver \o Slice(slot[e.dst], VerLen, KeySize - VerLen)

\* C06: what is not the serialised form of a legal key is rejected (an accepted input must be acceptable)
C06(e) == /\ e.op \in {"deser", "b58deser"} =>
                 /\ e.o \in {"ok", "err"}
                 /\ e.o = "ok" <=> Accepts(e.in)
                 /\ e.kept                                  \* the caller's buffer was not written to
          /\ e.op = "valid" => e.o = "ok" /\ (e.v <=> Legal(K(e.src)))

\* C07: undefined derivations fail, and depth counts derivations
C07(e) == e.op = "child" =>
              LET k == K(e.src)
              IN  Sound(k) => /\ ~Defined(k, e.i) => Refused(e)
                              /\ e.o = "ok" => Fields(e.key).depth = k.depth + 1 /\ k.depth < MaxDepth

Obeys(p, e) == CASE p = "C01" -> C01(e) [] p = "C02" -> C02(e) [] p = "C03" -> C03(e) [] p = "C04" -> C04(e)
                 [] p = "C05" -> C05(e) [] p = "C06" -> C06(e) [] p = "C07" -> C07(e) [] OTHER -> TRUE
Allowed(e) == \A p \in Claims : Obeys(p, e)

\* ------------------------------------------------------------------ transitions
\* e.d maps the slots that changed to their new content
Makes(e) == "dst" \in DOMAIN e /\ e.o = "ok" /\ "key" \in DOMAIN e

NewKin(e) == CASE e.op = "child"  -> IF IsHard(e.i) THEN Origin(e.key) ELSE Down(kin[e.src], e.i)   \* public derivation starts over below
               [] e.op \in {"neuter", "copy"} -> kin[e.src]
               [] OTHER -> Origin(e.key)
Learn(e) == IF Makes(e) /\ e.op \in {"child", "neuter"} /\ ~Fields(e.key).prv
            THEN LET q == OriginOf(e) IN IF q \in DOMAIN pubs THEN pubs ELSE pubs @@ (q :> e.key)
            ELSE pubs

Step(e) == /\ slot' = e.d @@ slot
           /\ kin' = IF DOMAIN e.d = {} /\ ~Makes(e) THEN kin
                     ELSE [n \in Slots |-> IF Makes(e) /\ n = e.dst THEN NewKin(e)
                                          ELSE IF n \in DOMAIN e.d THEN Origin(e.d[n]) ELSE kin[n]]
           /\ pubs' = Learn(e)

WorldInit == /\ slot = [n \in Slots |-> EmptyKey]
             /\ kin = [n \in Slots |-> Origin(EmptyKey)]
             /\ pubs = <<>>
=============================================================================
