------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Operations leave their inputs alone and results stand alone (C23).      *)
(* The world is a set of named objects the caller owns.  One call e has    *)
(*   targets   objects it may change: its result's, or what it sets        *)
(*   changed   objects whose content did change                            *)
(*   key, res  the operation with the content of its arguments; its result *)
(*   kept      did the bytes around and in a byte argument stay?           *)
(* memo holds the results seen so far as <<key, res>>.                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

C23(memo, e) == /\ e.kept
                /\ e.changed \subseteq e.targets
                /\ \A m \in memo : m[1] = e.key => m[2] = e.res
Remember(memo, e) == IF \E m \in memo : m[1] = e.key THEN memo ELSE memo \cup {<<e.key, e.res>>}
=============================================================================
