------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* The default network: a pair of versions the program may replace at any  *)
(* time.  New master keys carry its private version; its public version    *)
(* stands in when a private key of an unregistered version is neutered.    *)
(* Nothing else depends on it, and keys that exist stay as they are (C27). *)
(***************************************************************************)
EXTENDS HDWorld

VARIABLE net                  \* [prv |-> version, pub |-> version]
nvars == <<slot, kin, pubs, net>>

As(b, v) == IF b = Fail THEN Fail ELSE v \o Slice(b, VerLen, KeySize - VerLen)
NMaster(seed) == As(Master(seed), net.prv)
NNeuter(k) == IF k.prv /\ k.ver \notin PrvVersions THEN As(Neuter(k), net.pub) ELSE Neuter(k)

C27(e) == CASE e.op = "default" -> e.o = "ok"
            [] e.op = "master"  -> Gives(e, NMaster(e.seed))
            [] e.op = "neuter"  -> LET k == K(e.src) IN (Legal(k) /\ (k.prv \/ Registered(k))) => Ok(e, NNeuter(k))
            [] e.op = "child"   -> LET k == K(e.src) IN (Legal(k) /\ Registered(k)) => Gives(e, ChildOf(k, e.i))
            [] OTHER -> C04(e) /\ C05(e)                 \* looking at keys, writing them down, reading them

\* only the choice of a main network counts
NStep(e) == /\ Step(e)
            /\ net' = IF e.op = "default" /\ e.main THEN [prv |-> e.prv, pub |-> e.pub] ELSE net
NInit == WorldInit /\ net = [prv |-> DefaultPrv, pub |-> DefaultPub]
=============================================================================
