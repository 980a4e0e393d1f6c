----------------------------- MODULE MC_Purity -----------------------------
(***************************************************************************)
(* Objects are references to cells of a heap, as in the implementation; a  *)
(* library computes with them, rightly or with one of the usual mistakes   *)
(* of sharing cells.  ideal is the world of values the caller is promised: *)
(* every call yields what the same call with the same values yielded       *)
(* first.  The obligation C23 holds of the right library, and whenever a   *)
(* wrong one makes the real world differ from the ideal one, a call has    *)
(* been rejected.                                                          *)
(***************************************************************************)
EXTENDS Purity, TLC, IOUtils, Sequences

Names == {"a", "b", "c"}
Values == 0..2
Cells == 1..7
Ops == {"inc", "same"}
F(op, v) == IF op = "inc" THEN (v + 1) % 3 ELSE v
Mistakes == {"none", "alias", "inplace", "cache", "scratch", "drift"}

VARIABLES heap, obj,          \* cell -> value; name -> cell, 0 if there is no such object
          cache,              \* the library's own cells: op and value -> cell or 0
          calls,              \* of the library
          memo, ideal, flagged, mistake
vars == <<heap, obj, cache, calls, memo, ideal, flagged, mistake>>
Keys == Ops \X Values
Init == /\ heap = [c \in Cells |-> 0] /\ obj = [n \in Names |-> 0] /\ cache = [k \in Keys |-> 0] /\ calls = 0
        /\ memo = {} /\ ideal = [n \in Names |-> -1] /\ flagged = FALSE /\ mistake \in Mistakes

Live == {n \in Names : obj[n] # 0}
Free == Cells \ ({obj[n] : n \in Names} \cup {cache[k] : k \in Keys})
Next1 == CHOOSE c \in Free : \A d \in Free : c <= d
Val(h, o, n) == IF o[n] = 0 THEN -1 ELSE h[o[n]]
Event(h, o, targets, key, res) == [targets |-> targets, changed |-> {n \in Names : Val(h, o, n) # Val(heap, obj, n)}, key |-> key, res |-> res, kept |-> TRUE]
Judge(e) == flagged' = (flagged \/ ~C23(memo, e)) /\ memo' = Remember(memo, e)

New == \E n \in Names, v \in Values : /\ heap' = [heap EXCEPT ![Next1] = v] /\ obj' = [obj EXCEPT ![n] = Next1] /\ ideal' = [ideal EXCEPT ![n] = v]
        /\ UNCHANGED <<cache, calls, memo, flagged, mistake>>
\* the caller changes its own object
Poke == \E n \in Live : LET h == [heap EXCEPT ![obj[n]] = (@ + 1) % 3] IN
        /\ heap' = h /\ obj' = obj /\ ideal' = [ideal EXCEPT ![n] = (@ + 1) % 3]
        /\ Judge(Event(h, obj, {n}, <<"poke", 0, calls>>, 0)) /\ UNCHANGED <<cache, calls, mistake>>
Scratch == <<"inc", 0>>       \* where the scratch cell is remembered
Call == \E s \in Live, d \in Names, op \in Ops :
    LET v == heap[obj[s]]
        r == IF mistake = "drift" /\ calls >= 1 THEN (F(op, v) + 1) % 3 ELSE F(op, v)
        k == <<op, v>>
        \* where the result is, and the heap
        at == CASE mistake = "alias" /\ op = "same" -> obj[s]
                [] mistake = "cache" -> IF cache[k] # 0 THEN cache[k] ELSE Next1
                [] mistake = "scratch" -> IF cache[Scratch] # 0 THEN cache[Scratch] ELSE Next1
                [] OTHER -> Next1
        h0 == IF mistake = "inplace" /\ op = "inc" THEN [heap EXCEPT ![obj[s]] = r] ELSE heap
        h == IF mistake = "cache" /\ cache[k] # 0 THEN h0 ELSE [h0 EXCEPT ![at] = r]
        o == [obj EXCEPT ![d] = at]
        res == h[at]
        arg == <<op, ideal[s], 0>>
        known == {m \in memo : m[1] = arg}
    IN  /\ heap' = h /\ obj' = o
        /\ cache' = CASE mistake = "cache" -> [cache EXCEPT ![k] = at] [] mistake = "scratch" -> [cache EXCEPT ![Scratch] = at] [] OTHER -> cache
        /\ calls' = IF calls < 3 THEN calls + 1 ELSE calls
        /\ ideal' = [ideal EXCEPT ![d] = IF known = {} THEN res ELSE (CHOOSE m \in known : TRUE)[2]]
        /\ Judge(Event(h, o, {d}, <<op, v, 0>>, res))
        /\ UNCHANGED mistake
Next == ~flagged /\ (New \/ Poke \/ Call)
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") < atoi(IOEnv.LEVEL)

Quiet == mistake = "none" => ~flagged
Faithful == ~flagged => \A n \in Names : Val(heap, obj, n) = ideal[n]
=============================================================================
