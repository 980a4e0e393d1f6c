------------------------------ MODULE WalletUI ------------------------------
(***************************************************************************)
(* The graphical wallet tool (C24): five fields that depend on each other  *)
(* - mnemonic, passphrase, seed, root key, path -, a tab for every prefix  *)
(* of the path, the details of the selected one.                           *)
(*                                                                         *)
(* An observation is what the window shows after an action of its user:    *)
(* the fields, the tabs' labels, the details, the number of words chosen   *)
(* for new mnemonics.  Obligations compare it with the observation before; *)
(* how the tool gets there is not specified.                               *)
(***************************************************************************)
EXTENDS Wallet

CONSTANTS SeedFor(_, _),     \* the seed (text) of a mnemonic and a passphrase; Fail if the mnemonic is invalid
          MasterOf(_),       \* the root key of a seed (text); Fail
          TextOf(_),         \* the text of a key
          KeyIn(_),          \* the key a text stands for; Fail
          WordsIn(_),        \* how many words a valid mnemonic has; 0 for an invalid one
          Facts(_)           \* what the details say about a key, below the label

FieldNames == {"m", "p", "s", "r", "d"}

VARIABLES seen,              \* [f, tabs, words]
          base,              \* root key text and path that the tabs belong to
          sel                \* the selected tab; 0 if none
ui == <<seen, base, sel>>

\* ------------------------------------------------------------------ the output of a root key text and a path text
RootPath == <<RootNumber>>
PathOf(d) == IF IsPath(d) THEN Parse(d) ELSE RootPath
Named(d) == IF IsPath(d) THEN d ELSE <<MLetter>>
\* keys at every prefix; none if the inputs define no valid private root key or a step is undefined
Rows(r, d) == LET b == KeyIn(r) IN IF b = Fail THEN <<>> ELSE IF ~ValidRoot(b) THEN <<>> ELSE Trail(b, Tail(PathOf(d)))
\* (deriving from roots of unregistered versions is left open)
NoneAllowed(r, d) == LET b == KeyIn(r) IN IF b = Fail THEN TRUE ELSE ~ValidRoot(b) \/ ~Registered(Fields(b)) \/ Trail(b, Tail(PathOf(d))) = Fail
TabsFit(R, d, tabs) == /\ Len(tabs) = Len(R)
                       /\ \A x \in DOMAIN tabs : Labelled(Named(d), PathOf(d), x - 1, tabs[x])
ShownFor(R, tabs, details, x) == details # <<>> /\ details[1] = tabs[x] /\ details = <<tabs[x]>> \o Facts(R[x])

\* ------------------------------------------------------------------ fields
Changing(e) == e.op = "generate" \/ (e.op = "edit" /\ e.t # seen.f[e.i])         \* the action may change the output
RootFits(s, r) == LET b == MasterOf(s) IN IF b = Fail THEN KeyIn(r) = Fail ELSE r = TextOf(b)
SeedFits(m, p, s) == LET x == SeedFor(m, p) IN IF x = Fail THEN s = <<>> ELSE s = x
FieldsFit(e) ==
    LET o == seen.f n == e.f IN
    /\ e.op # "edit" \/ e.i # "d" => n.d = o.d
    /\ e.op = "words" \/ e.words = seen.words
    /\ e.op # "words" \/ e.words = e.n
    /\ IF ~Changing(e) THEN n = o
       ELSE IF e.op = "generate" THEN WordsIn(n.m) = seen.words /\ n.p = o.p /\ SeedFits(n.m, n.p, n.s) /\ RootFits(n.s, n.r)
       ELSE CASE e.i = "m" -> n.m = e.t /\ n.p = o.p /\ SeedFits(n.m, n.p, n.s) /\ RootFits(n.s, n.r)
              [] e.i = "p" -> /\ n.m = o.m /\ n.p = e.t
                              \* a passphrase without a mnemonic says nothing about seed and root key
                              /\ \/ o.m = <<>> /\ n.s = o.s /\ n.r = o.r
                                 \/ SeedFits(n.m, n.p, n.s) /\ RootFits(n.s, n.r)
              [] e.i = "s" -> n.m = <<>> /\ n.p \in {o.p, <<>>} /\ n.s = e.t /\ RootFits(n.s, n.r)
              [] e.i = "r" -> n.m = <<>> /\ n.p \in {o.p, <<>>} /\ n.s = <<>> /\ n.r = e.t
              [] e.i = "d" -> n.m = o.m /\ n.p = o.p /\ n.s = o.s /\ n.d = e.t /\ (n.r = o.r \/ (KeyIn(o.r) = Fail /\ KeyIn(n.r) = Fail))

\* ------------------------------------------------------------------ selection: which of n tabs may be selected
Wanted(e, n) == CASE e.op = "tab" -> IF e.n < n THEN {e.n + 1} ELSE {sel}
                  [] e.op = "left" -> IF sel = 0 THEN 1..n ELSE {IF sel > 1 THEN sel - 1 ELSE 1}
                  [] e.op = "right" -> IF sel = 0 THEN 1..n ELSE {IF sel < n THEN sel + 1 ELSE n}
                  [] OTHER -> IF sel = 0 \/ Changing(e) THEN 1..n ELSE {sel}
\* the output is that of r and d, and the details are those of the wanted tab
OutputFits(r, d, e) == IF e.tabs = <<>> THEN NoneAllowed(r, d) /\ e.details = <<>>
                       ELSE LET R == Rows(r, d) IN TabsFit(R, d, e.tabs) /\ \E x \in Wanted(e, Len(e.tabs)) \cap DOMAIN e.tabs : ShownFor(R, e.tabs, e.details, x)
\* two ways in which the tool is known to fall short:
\* no tab is selected after the tabs had been gone
NoneSelected(r, d, e) == /\ sel = 0 /\ e.op # "right" /\ (e.op = "tab" => e.n >= Len(e.tabs))
                         /\ e.tabs # <<>> /\ e.details = <<>> /\ TabsFit(Rows(r, d), d, e.tabs)
\* the tabs of the last root key stay while a text that is no root key stands in its field
StillThere(e) == /\ seen.tabs # <<>> /\ e.tabs = seen.tabs
                 /\ KeyIn(e.f.r) = Fail
                 /\ \/ e.op = "edit" /\ e.i = "r"
                    \/ base # <<seen.f.r, seen.f.d>> /\ (~Changing(e) \/ (e.op = "edit" /\ e.i = "d" /\ PathOf(e.t) = PathOf(seen.f.d)))

Class(e) == IF e.o # "ok" \/ ~FieldsFit(e) THEN "other"
            ELSE IF OutputFits(e.f.r, e.f.d, e) THEN "ok"
            ELSE IF NoneSelected(e.f.r, e.f.d, e) THEN "unselected"
            ELSE IF StillThere(e) /\ (OutputFits(base[1], base[2], e) \/ NoneSelected(base[1], base[2], e)) THEN "stale"
            ELSE "other"

\* ------------------------------------------------------------------ transitions
\* e, which is of class c, has been observed
UStep(e, c) == LET B == IF c = "stale" THEN base ELSE <<e.f.r, e.f.d>> IN
    /\ seen' = [f |-> e.f, tabs |-> e.tabs, words |-> e.words]
    /\ base' = B
    /\ sel' = IF e.tabs = <<>> THEN IF Changing(e) THEN 0 ELSE sel
              ELSE LET R == Rows(B[1], B[2]) S == {x \in DOMAIN e.tabs : Len(R) = Len(e.tabs) /\ ShownFor(R, e.tabs, e.details, x)} IN
                   IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
UInit(words) == /\ seen = [f |-> [x \in FieldNames |-> <<>>], tabs |-> <<>>, words |-> words]
                /\ base = <<<<>>, <<>>>>
                /\ sel = 1
=============================================================================
