----------------------------- MODULE MC_Secrets -----------------------------
(***************************************************************************)
(* A source that hands out its stream in pieces of any size, pauses, fails *)
(* or runs dry at any moment, with or without a last piece, and recovers;  *)
(* a library that collects a secret piece by piece.                        *)
(* Variants of the library with the usual mistakes must be noticed.        *)
(***************************************************************************)
EXTENDS Secrets, IOUtils, TLC

End == atoi(IOEnv.LEVEL)                     \* how much the source ever hands out
Wants == {2, 3}
Mistakes == {"none", "short", "ignore", "keep", "again", "retry"}

Calls == 3                                   \* calls of the library

VARIABLES pos,                               \* of the source
          made,                              \* secrets made so far: sequences of positions
          used,                              \* as the specification counts them
          call,                              \* the call under way: wanted, got so far, failed, where it first failed, position at the start; or <<>>
          last,                              \* the last finished call
          calls,                             \* begun so far
          mistake                            \* the library's
vars == <<pos, made, used, call, last, calls, mistake>>
Init == pos = 0 /\ made = <<>> /\ used = {} /\ call = <<>> /\ last = <<>> /\ calls = 0 /\ mistake \in Mistakes

Begin == call = <<>> /\ calls < Calls /\ calls' = calls + 1 /\ \E n \in Wants : call' = [want |-> n, got |-> <<>>, failed |-> FALSE, cut |-> 0, from |-> pos] /\ last' = <<>> /\ UNCHANGED <<pos, made, used, mistake>>
Positions(a, b) == [i \in 1..(b - a) |-> a + i - 1]
Finish(o, res, c, p) ==
    LET At(s) == res = Positions(s, s + Len(res))
        e == [o |-> o, len |-> Len(res), failed |-> c.failed, upto |-> IF c.failed THEN c.cut ELSE p]
    IN  /\ call' = <<>>
        /\ made' = IF o = "ok" THEN Append(made, res) ELSE made
        /\ last' = [e |-> e, ok |-> C17(used, c.want, e, At), want |-> c.want]
        /\ used' = NextUsed(used, c.want, e, At)
        /\ pos' = p
\* the source hands out k elements, and may fail after them
Piece == call # <<>> /\ \E k \in 0..(call.want - Len(call.got)), bad \in BOOLEAN :
    /\ pos + k <= End /\ (k = 0 => bad)
    /\ LET p == pos + k
           c == [call EXCEPT !.got = @ \o Positions(pos, p), !.failed = @ \/ bad, !.cut = IF call.failed THEN @ ELSE p]
           full == Len(c.got) = c.want
           zeros(n) == [i \in 1..n |-> -1]
       IN  CASE mistake = "short" /\ ~bad -> Finish("ok", c.got, c, p)                                       \* one read is taken for all
             [] mistake = "ignore" /\ bad -> Finish("ok", c.got \o zeros(c.want - Len(c.got)), c, p)           \* the error is ignored
             [] mistake = "keep" /\ bad /\ ~full /\ c.got # <<>> -> Finish("err", c.got, c, p)                \* the fragment is returned
             [] mistake = "again" /\ full /\ made # <<>> /\ Len(made[1]) = c.want -> Finish("ok", made[1], c, p)  \* an old secret is returned
             [] mistake = "retry" /\ bad /\ ~full -> call' = c /\ pos' = p /\ UNCHANGED <<made, used, last>>      \* another attempt after a failure
             [] full -> Finish("ok", c.got, c, p)
             [] ~full /\ bad -> Finish("err", <<>>, c, p)
             [] OTHER -> call' = c /\ pos' = p /\ UNCHANGED <<made, used, last>>
    /\ UNCHANGED <<mistake, calls>>
Spec == Init /\ [][Begin \/ Piece]_vars

\* the right library always meets the obligation; made secrets never overlap
Right == mistake = "none" => /\ last # <<>> => last.ok
                             /\ \A i, j \in DOMAIN made : i # j => \A a \in 1..Len(made[i]), b \in 1..Len(made[j]) : made[i][a] # made[j][b]
\* no mistake that shows is missed: a wrong result is one that is incomplete, not fresh, or comes with an error
Wrong(r) == \/ r.e.o = "ok" /\ r.e.len # r.want
            \/ r.e.o = "err" /\ r.e.len # 0
Shows == last # <<>> /\ Wrong(last) => ~last.ok
Retried == last # <<>> /\ last.e.o = "ok" /\ last.e.failed /\ last.e.upto < pos => ~last.ok
\* ignored failures and repeated secrets
Old == \A i, j \in DOMAIN made : i < j /\ j = Len(made) /\ last # <<>> /\ last.e.o = "ok" /\ made[i] = made[j] => ~last.ok
Holes == last # <<>> /\ last.e.o = "ok" /\ made # <<>> /\ (\E a \in DOMAIN made[Len(made)] : made[Len(made)][a] = -1) => ~last.ok
=============================================================================
