------------------------------ MODULE MC_Paths ------------------------------
(***************************************************************************)
(* Every text over a toy alphabet up to a length, typed one character at a *)
(* time, with numbers below 20 of which those from 10 on are hardened.     *)
(***************************************************************************)
EXTENDS Paths, IOUtils, TLC

Alphabet == {109, 47, 39, 48, 49, 57, 32}                \* m / ' 0 1 9 blank
TRoot == {109, 77}
TBlank(c) == c = 32
NatOf(ds) == FoldLeft(LAMBDA a, d : IF a > 1000 THEN a ELSE 10 * a + d, 0, ds)
TNumber(ds) == LET n == NatOf(ds) IN IF n < 20 THEN <<n>> ELSE <<>>
TSoft(v) == v[1] < 10
THarden(v) == <<v[1] + 10>>
TSoften(v) == <<v[1] - 10>>
TNumerals(v) == IF v[1] < 10 THEN <<v[1]>> ELSE <<v[1] \div 10, v[1] % 10>>
TRootNumber == <<0>>

VARIABLES text, st
Init == text = <<>> /\ st = AStart
Next == \E c \in Alphabet : Len(text) < atoi(IOEnv.LEVEL) /\ text' = Append(text, c) /\ st' = Read(st, c)
Spec == Init /\ [][Next]_<<text, st>>

v == Parse(text)
\* the automaton accepts the grammar's language and computes its numbers
Agree == Says(st) = v
\* plain numbers at or above the hardened base are written without apostrophe and still mean hardened numbers
Sorted == v # NoPath => \A k \in 2..Len(v) : v[k][1] \in 0..19
\* the canonical text of the numbers is a path with these numbers, unless hardened numbers follow plain ones
Orderly(w) == \A k \in 2..(Len(w) - 1) : ~(Soft(w[k]) /\ ~Soft(w[k + 1]))
RoundTrip == v # NoPath /\ Orderly(v) => Parse(Render(109, v)) = v
\* whatever is not a path has a cause, and nothing else has
Blameless == PathCauses(text) = {} <=> v # NoPath
BlankFree == Parse(Strip(text)) = v
\* replacing by rendering meets the obligation; refusing what must be replaced, or disturbing another component, does not
Ws == {<<0>>, <<9>>, <<10>>, <<19>>}
Base(n, w) == [op |-> "repl", t |-> text, n |-> n, w |-> w]
Ref(n, w) == LET z == [v EXCEPT ![n + 1] = w] IN
    IF n \in 1..Depth(v) /\ Orderly(z) THEN [o |-> "ok", r |-> Render(109, z)] @@ Base(n, w)
    ELSE [o |-> "err", r |-> text] @@ Base(n, w)
\* (texts such as m/10/9' do not occur: hardened numbers written plain can precede only plain ones)
Replacing == v # NoPath => \A n \in 0..(Depth(v) + 1), w \in Ws :
    /\ Orderly(v) => C09Replace(Ref(n, w))
    /\ MustReplace(text, v, n, w) => ~C09Replace([o |-> "err", r |-> text] @@ Base(n, w))
    /\ ~C09Replace([o |-> "err", r |-> text \o <<48>>] @@ Base(n, w))
    /\ n > Depth(v) => ~C09Replace([o |-> "ok", r |-> text] @@ Base(n, w))
    /\ n \in 1..Depth(v) /\ v[n + 1] # w => ~C09Replace([o |-> "ok", r |-> text] @@ Base(n, w))
=============================================================================
