------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Derivation paths: which texts are paths, what their components are, how *)
(* a component is replaced.  Two definitions of the language are given: a  *)
(* grammar (Parse) and an automaton that reads one character at a time     *)
(* (Read).  MC_Paths shows that they agree; the grammar judges executions. *)
(* Texts are sequences of character codes.  The numbers (32 bits or toy)   *)
(* are a parameter.                                                        *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS
    Root,                    \* codes that may stand for the root: m, M
    SlashC, TickC, DigitBase,  \* codes of / ' 0
    IsBlank(_),              \* codes that do not count
    Number(_),               \* digits (0..9) -> number, or <<>> when there is no such component number
    Soft(_),                 \* is a number not hardened?
    Harden(_),               \* the hardened number
    RootNumber               \* what is listed for the root

Strip(s) == SelectSeq(s, LAMBDA c : ~IsBlank(c))
IsDigit(c) == c \in DigitBase..(DigitBase + 9)
Digits(s) == [i \in 1..Len(s) |-> s[i] - DigitBase]

\* ------------------------------------------------------------------ the grammar
NoPath == <<<<>>>>                                        \* not a sequence of numbers
\* components between slashes
Split(s) == LET C == SelectSeq(Ints(Len(s)), LAMBDA i : s[i] = SlashC)
            IN  [k \in 1..Len(C) |-> SubSeq(s, C[k] + 1, IF k < Len(C) THEN C[k + 1] - 1 ELSE Len(s))]
Hardened(c) == Len(c) > 0 /\ c[Len(c)] = TickC
Numeral(c) == IF Hardened(c) THEN SubSeq(c, 1, Len(c) - 1) ELSE c
\* the number of a component, <<>> if it has none
Component(c) == LET d == Numeral(c) IN
    IF d = <<>> \/ \E i \in 1..Len(d) : ~IsDigit(d[i]) THEN <<>>
    ELSE LET v == Number(Digits(d)) IN
         IF v = <<>> \/ (Hardened(c) /\ ~Soft(v)) THEN <<>> ELSE IF Hardened(c) THEN Harden(v) ELSE v
\* the numbers of a path, the root's first
ParseStripped(s) ==
    IF s = <<>> \/ s[1] \notin Root \/ (Len(s) > 1 /\ s[2] # SlashC) THEN NoPath
    ELSE LET C == Split(s) v == [k \in 1..Len(C) |-> Component(C[k])]
         IN  IF \E k \in 1..Len(C) : v[k] = <<>> THEN NoPath
             ELSE IF \E k \in 1..(Len(C) - 1) : ~Hardened(C[k]) /\ Hardened(C[k + 1]) THEN NoPath
             ELSE <<RootNumber>> \o v
Parse(s) == ParseStripped(Strip(s))
IsPath(s) == Parse(s) # NoPath

\* what is wrong with a text: its shape, a number
Shaped(s) == /\ s # <<>> /\ s[1] \in Root /\ (Len(s) > 1 => s[2] = SlashC)
             /\ LET C == Split(s) IN
                  /\ \A k \in 1..Len(C) : Numeral(C[k]) # <<>> /\ \A i \in 1..Len(Numeral(C[k])) : IsDigit(Numeral(C[k])[i])
                  /\ \A k \in 1..(Len(C) - 1) : Hardened(C[k]) \/ ~Hardened(C[k + 1])
Countable(c) == Numeral(c) # <<>> /\ (\A i \in 1..Len(Numeral(c)) : IsDigit(Numeral(c)[i])) => Component(c) # <<>>
TextCauses(s) == (IF Shaped(s) THEN {} ELSE {"path"}) \cup (IF \A k \in DOMAIN Split(s) : Countable(Split(s)[k]) THEN {} ELSE {"number"})
PathCauses(s) == TextCauses(Strip(s))

\* ------------------------------------------------------------------ the automaton
\* st.at: "start", "root", "slash", "digits", "tick", "bad"; st.plain: a plain component was completed
AStart == [at |-> "start", plain |-> FALSE, digits |-> <<>>, vals |-> <<>>]
Bad(st) == [st EXCEPT !.at = "bad"]
Close(st) == LET v == Number(st.digits) IN               \* a plain component ends
    IF v = <<>> THEN Bad(st) ELSE [st EXCEPT !.plain = TRUE, !.digits = <<>>, !.vals = Append(@, v)]
Read(st, c) ==
    IF IsBlank(c) \/ st.at = "bad" THEN st
    ELSE CASE st.at = "start" -> IF c \in Root THEN [st EXCEPT !.at = "root", !.vals = <<RootNumber>>] ELSE Bad(st)
           [] st.at \in {"root", "tick"} -> IF c = SlashC THEN [st EXCEPT !.at = "slash"] ELSE Bad(st)
           [] st.at = "slash" -> IF IsDigit(c) THEN [st EXCEPT !.at = "digits", !.digits = <<c - DigitBase>>] ELSE Bad(st)
           [] st.at = "digits" ->
                IF IsDigit(c) THEN [st EXCEPT !.digits = Append(@, c - DigitBase)]
                ELSE IF c = SlashC THEN LET z == Close(st) IN IF z.at = "bad" THEN z ELSE [z EXCEPT !.at = "slash"]
                ELSE IF c = TickC /\ ~st.plain
                     THEN LET v == Number(st.digits) IN
                          IF v = <<>> \/ ~Soft(v) THEN Bad(st)
                          ELSE [st EXCEPT !.at = "tick", !.digits = <<>>, !.vals = Append(@, Harden(v))]
                ELSE Bad(st)
\* what the automaton says at the end of the text
Says(st) == CASE st.at \in {"root", "tick"} -> st.vals
              [] st.at = "digits" -> LET z == Close(st) IN IF z.at = "bad" THEN NoPath ELSE z.vals
              [] OTHER -> NoPath

\* ------------------------------------------------------------------ rendering
IsHardNumber(v) == ~Soft(v)
CONSTANTS Numerals(_),       \* number (soft) -> digits
          Soften(_)          \* hardened number -> soft
RenderOne(v) == <<SlashC>> \o [i \in 1..Len(Numerals(IF Soft(v) THEN v ELSE Soften(v))) |->
                    Numerals(IF Soft(v) THEN v ELSE Soften(v))[i] + DigitBase] \o (IF Soft(v) THEN <<>> ELSE <<TickC>>)
Render(root, vals) == FoldLeft(LAMBDA acc, v : acc \o RenderOne(v), <<root>>, Tail(vals))

\* ------------------------------------------------------------------ obligations
\* An event e has the text e.t.  C08: validity and values; e.o, e.valid, e.vals
C08(e) == LET v == Parse(e.t) IN
             /\ e.o \in {"ok", "err"}
             /\ e.o = "ok" <=> v # NoPath
             /\ e.valid <=> v # NoPath
             /\ v # NoPath => e.vals = v
\* C09: the value at depth e.n (0 is the root) and its replacement by e.w, giving text e.r
Depth(v) == Len(v) - 1
C09Read(e) == LET v == Parse(e.t) IN v # NoPath =>
                 IF e.n <= Depth(v) THEN e.o = "ok" /\ e.v = v[e.n + 1] ELSE e.o = "err"
\* it must succeed when the old component has an apostrophe exactly if the new number is hardened
MustReplace(t, v, n, w) == n \in 1..Depth(v) /\ Soft(w) # Hardened(Split(Strip(t))[n])
C09Replace(e) == LET v == Parse(e.t) IN v # NoPath =>
                    /\ e.o \in {"ok", "err"}
                    /\ e.o = "err" => e.r = e.t
                    /\ e.o = "ok" => e.n <= Depth(v) /\ Parse(e.r) = [v EXCEPT ![e.n + 1] = e.w]
                    /\ MustReplace(e.t, v, e.n, e.w) => e.o = "ok"
C09(e) == CASE e.op = "valat" -> C09Read(e) [] e.op = "repl" -> C09Replace(e) [] OTHER -> TRUE
=============================================================================
