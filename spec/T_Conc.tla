------------------------------- MODULE T_Conc -------------------------------
(***************************************************************************)
(* Validates recorded concurrent sessions against Concurrency (C22).       *)
(* The record has, with every call of a goroutine, what the same call      *)
(* yielded in another process that made the calls one after another (ref). *)
(***************************************************************************)
EXTENDS Concurrency, Sequences, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l,
          secrets    \* random results so far
vars == <<t, l, secrets>>

Has(j, f) == f \in DOMAIN j
Fld(j, f) == IF Has(j, f) THEN j[f] ELSE ""
Random == {"entropy", "newseed", "genmn"}
Results == {"o", "e", "key", "r", "v", "ver", "depth", "fp", "num", "cc", "kb", "pk", "vals", "valid", "str", "fmt", "l", "x", "y", "purpose", "coin", "purposefull", "coinfull", "prvb", "pubb", "reg", "kept", "found"}
Part(j, F) == LET D == F \cap Results IN ToString([f \in D |-> Fld(j, f)])
Res(j) == Part(j, DOMAIN j)
Shape(j) == <<j.o, Fld(j, "e"), IF j.op = "genmn" THEN 0 ELSE Len(Fld(j, "r"))>>
\* the caller itself changes what it got, or puts something else there
Owned(ev, k) == ev[k].o # "ok" \/ Fld(ev[k], "dst") = "" \/ \E i \in DOMAIN ev : i # k /\ Fld(ev[i], "dst") = ev[k].dst
Call(ev, k) == LET j == ev[k] IN
    [o |-> j.o, res |-> IF j.op \in Random THEN Shape(j) ELSE Res(j), alone |-> IF j.op \in Random THEN Shape(j.ref) ELSE Res(j.ref),
     later |-> IF j.op \in Random \/ ~Has(j, "alts") THEN {} ELSE {Res(j.alts[i]) : i \in {i \in DOMAIN j.alts : Res(j.alts[i]) # Part(j, DOMAIN j.alts[i])}}, own |-> Owned(ev, k), at |-> Fld(j, "at"), end |-> Fld(j, "end")]
Join(j) == [changed |-> DOMAIN j.d, races |-> IF j.race = "" THEN 0 ELSE 1]
New(j) == j.op \in Random /\ j.o = "ok" => j.r \notin secrets /\ j.r # j.ref.r

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in DOMAIN Sessions /\ l = 1 /\ secrets = {}
Next == /\ l <= Len(Sessions[t].ev)
        /\ LET ev == Sessions[t].ev j == ev[l] IN
           /\ IF CASE Has(j, "w") -> Has(j, "ref") /\ C22Call(Call(ev, l)) /\ New(j)
                   [] j.op = "join" -> C22Join(Join(j))
                   [] OTHER -> j.o \in {"ok", "err"}
              THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
           /\ secrets' = IF j.op \in Random THEN secrets \cup {Fld(j, "r")} ELSE secrets
        /\ l' = l + 1
        /\ t' = t
=============================================================================
