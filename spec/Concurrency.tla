---------------------------- MODULE Concurrency ----------------------------
(***************************************************************************)
(* Concurrent use gives the sequential results (C22).                      *)
(* Goroutines call operations that only read what they share.  A call e has*)
(*   o      how it ended: ok, err, or something that must not happen       *)
(*   res    its result, as recorded when it returned                       *)
(*   alone  the result of the same call in an execution without others     *)
(*   later  the results of repetitions that differed from res              *)
(*   at,end the content of the result when the call returned, and when all *)
(*          calls had returned; equal unless the caller changed it since   *)
(* A join e has the shared objects that changed and the data races seen.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

C22Call(e) == /\ e.o \in {"ok", "err"}
              /\ e.res = e.alone
              /\ e.later = {}
              /\ e.own \/ e.at = e.end
C22Join(e) == e.changed = {} /\ e.races = 0
=============================================================================
