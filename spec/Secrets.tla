------------------------------ MODULE Secrets ------------------------------
(***************************************************************************)
(* Random secrets (C17).  The random source is a stream: position p was    *)
(* handed out when the source stands beyond p.  A secret must consist of   *)
(* consecutive positions that were handed out and belong to no earlier     *)
(* secret; an error is due exactly when the source let the call down, so   *)
(* nothing handed out after a failure belongs to the secret of that call.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* used: set of <<start, length>> of earlier secrets
Fresh(used, s, n) == \A u \in used : s + n <= u[1] \/ u[1] + u[2] <= s
\* where could a secret of n elements have come from?  At(s) says that the stream has the secret at s.
Places(used, n, upto, At(_)) == {s \in 0..(upto - n) : Fresh(used, s, n) /\ At(s)}

\* One call that wants n elements (n = -1: a size that must be refused).  e has o; len, the length of the result (0: none);
\* failed: the source failed during the call; upto: how far it stood when it first failed during the call, else afterwards.
C17(used, n, e, At(_)) ==
    IF n = -1 THEN e.o = "err" /\ e.len = 0
    ELSE IF e.o = "ok" THEN e.len = n /\ Places(used, n, e.upto, At) # {}
    ELSE e.o = "err" /\ e.len = 0 /\ e.failed
NextUsed(used, n, e, At(_)) ==
    IF n # -1 /\ e.o = "ok" /\ Places(used, n, e.upto, At) # {}
    THEN used \cup {<<CHOOSE s \in Places(used, n, e.upto, At) : \A z \in Places(used, n, e.upto, At) : s <= z, n>>} ELSE used
=============================================================================
