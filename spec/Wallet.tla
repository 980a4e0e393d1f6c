------------------------------- MODULE Wallet -------------------------------
(***************************************************************************)
(* Generators (a configured root key, derivation along a path listing      *)
(* every prefix) and ranges (a base key and path, a half-open interval of  *)
(* child numbers, the entries generated last).                             *)
(*                                                                         *)
(* Whether the entries of a range hang below the base side by side or one  *)
(* below the other is left open: an entry must hold what its own label     *)
(* says.                                                                   *)
(***************************************************************************)
EXTENDS HD, Paths, TLC

CONSTANTS WClaims, GenNames, RangeNames, NoRoot, MLetter

VARIABLES root,        \* generator -> configured root key
          range        \* range -> [i, j, t, key, list]
wallet == <<root, range>>

\* ------------------------------------------------------------------ derivation along numbers
\* the keys at every prefix of the numbers is, the start's first; Fail if a step is not defined
Trail(b, is) == FoldLeft(LAMBDA acc, i : IF acc = Fail THEN Fail
                                         ELSE LET c == ChildOf(Fields(acc[Len(acc)]), i) IN IF c = Fail THEN Fail ELSE Append(acc, c), <<b>>, is)
End(s) == s[Len(s)]
ValidRoot(b) == LET k == Fields(b) IN Legal(k) /\ k.prv /\ k.depth = 0

\* a plain component that carries a hardened number may be labelled either way
PlainOne(v, ds) == <<SlashC>> \o [x \in 1..Len(ds) |-> ds[x] + DigitBase]
CanonOne(c, v) == IF Hardened(c) \/ Soft(v) THEN {RenderOne(v)}
                  ELSE {RenderOne(v), <<SlashC>> \o LET z == Leading(c, DigitBase) IN SubSeq(c, z + 1, Len(c))}
\* is text p a canonical label for the first n components of path t?
LabelOK(t, v, n, p) == LET C == Split(Strip(t)) IN
    \E y \in FoldLeft(LAMBDA acc, x : {a \o one : a \in acc, one \in CanonOne(C[x], v[x + 1])}, {<<MLetter>>}, Ints(n)) : y = p
PlainHard(t, v) == LET C == Split(Strip(t)) IN \E x \in 1..Len(C) : ~Hardened(C[x]) /\ ~Soft(v[x + 1])
Canonical(v, n) == Render(MLetter, SubSeq(v, 1, n + 1))
Labelled(t, v, n, p) == p = Canonical(v, n) \/ (PlainHard(t, v) /\ n <= 8 /\ LabelOK(t, v, n, p))

\* ------------------------------------------------------------------ obligations
\* gderive: e.g, e.t, e.o, e.l (sequence of [p, k]), e.now (the root afterwards)
C10Derive(e) ==
    LET b == root[e.g] v == Parse(e.t)
    IN  /\ e.now = b
        /\ e.o \in {"ok", "err"}
        /\ e.o = "err" => e.l = <<>>
        /\ (~ValidRoot(b) \/ v = NoPath) => e.o = "err"
        /\ (ValidRoot(b) /\ v # NoPath) =>
              LET T == Trail(b, Tail(v))
              IN  /\ (T # Fail /\ Registered(Fields(b))) => e.o = "ok"
                  /\ e.o = "ok" =>
                        /\ T # Fail
                        /\ Len(e.l) = Len(v)
                        /\ \A x \in 1..Len(v) : e.l[x].k = T[x] /\ Labelled(e.t, v, x - 1, e.l[x].p)
C10(e) == CASE e.op = "gderive" -> C10Derive(e)
            [] e.op = "groot" -> e.o = "ok" /\ e.key = root[e.g]
            [] e.op = "gset" -> e.o = "ok" /\ e.now = e.key
            [] OTHER -> TRUE

\* The numbers that a label adds to the base path; NoPath if it does not extend it
Added(base, p) == LET b == Strip(base) n == Len(b) IN
    IF Len(p) > n /\ SubSeq(p, 1, n) = b /\ p[n + 1] = SlashC
    THEN LET C == Split(SubSeq(p, n + 1, Len(p))) w == [x \in 1..Len(C) |-> Component(C[x])]
         IN  IF \E x \in 1..Len(C) : w[x] = <<>> THEN NoPath ELSE w
    ELSE NoPath
\* the label may extend the base path as written or its canonical text
AddedTo(t, p) == LET a == Added(t, p) IN IF a # NoPath THEN a ELSE Added(Canonical(Parse(t), Depth(Parse(t))), p)

CONSTANTS Nth(_, _),          \* Nth(i, k): i + k
          Size(_, _),         \* Size(i, j): how many numbers are in [i, j), at most MaxDepth + 1; 0 if empty or inverted
          AnyHard(_, _)       \* does [i, j) contain hardened numbers?
EntryOK(r, k, x) == LET a == AddedTo(r.t, x.p) IN
    /\ a # NoPath
    /\ End(a) = Nth(r.i, k)
    /\ LET w == Walk(r.key, a) IN w # Fail /\ x.k = w
RangeValid(r) == Size(r.i, r.j) > 0 /\ Legal(Fields(r.key)) /\ IsPath(r.t)
\* every step of the range is defined, however the entries are arranged
RangeDefined(r) == LET k == Fields(r.key) n == Size(r.i, r.j) IN
    /\ Registered(k)
    /\ k.depth + n <= MaxDepth
    /\ ~k.prv => ~AnyHard(r.i, r.j)
\* some step is not defined, however the entries are arranged
RangeUndefined(r) == LET k == Fields(r.key) IN
    \/ ~Registered(k)
    \/ k.depth >= MaxDepth
    \/ ~k.prv /\ AnyHard(r.i, r.j)
\* rgen: e.r, e.o, e.l (the entries afterwards), e.n (how many; e.l may be cut), e.same (the entries are what they were)
C11(e) == e.op = "rgen" =>
    LET r == range[e.r]
    IN  /\ e.o \in {"ok", "err"}
        /\ ~RangeValid(r) => e.o = "err"
        /\ e.o = "err" => e.same
        /\ (RangeValid(r) /\ RangeDefined(r)) => e.o = "ok"
        /\ (RangeValid(r) /\ e.o = "ok") =>
              /\ ~RangeUndefined(r)
              /\ Len(e.l) = Size(r.i, r.j)
              /\ \A x \in 1..Len(e.l) : EntryOK(r, x - 1, e.l[x])

\* C07 for paths and ranges: an undefined step fails the whole call; depths count the steps
C07W(e) ==
    CASE e.op = "gderive" ->
           LET b == root[e.g] v == Parse(e.t)
           IN  (v # NoPath /\ ValidRoot(b)) =>
                  /\ Trail(b, Tail(v)) = Fail => e.o = "err" /\ e.l = <<>>
                  /\ e.o = "ok" => \A x \in 1..Len(e.l) : Fields(e.l[x].k).depth = x - 1
      [] e.op = "rgen" ->
           LET r == range[e.r]
           IN  RangeValid(r) =>
                  /\ RangeUndefined(r) => e.o = "err" /\ e.same
                  /\ e.o = "ok" => \A x \in 1..Len(e.l) :
                        Fields(e.l[x].k).depth = Fields(r.key).depth + Len(AddedTo(r.t, e.l[x].p))
      [] OTHER -> TRUE

\* why a call fails
DeriveCauses(e) == LET b == root[e.g] v == Parse(e.t) given == (IF ValidRoot(b) THEN {} ELSE {"root"}) \cup (IF v = NoPath THEN {"walletpath"} ELSE {}) IN
    IF given # {} THEN given
    ELSE LET s == StepCauses(Fields(b), FALSE, Depth(v)) IN
         IF Depth(v) = 0 THEN {} ELSE IF s = {} /\ Trail(b, Tail(v)) = Fail THEN {"private"} ELSE s
RangeCauses(e) == LET r == range[e.r] n == Size(r.i, r.j)
                      given == (IF n > 0 THEN {} ELSE {"range"}) \cup (IF Legal(Fields(r.key)) THEN {} ELSE {"root"}) \cup (IF IsPath(r.t) THEN {} ELSE {"walletpath"})
                  IN  IF given # {} THEN given ELSE StepCauses(Fields(r.key), AnyHard(r.i, r.j), n)
WAllowed(e) == /\ "C10" \in WClaims => C10(e)
               /\ "C11" \in WClaims => C11(e)
               /\ "C07" \in WClaims => C07W(e)

\* ------------------------------------------------------------------ transitions
NoRange == [i |-> RootNumber, j |-> RootNumber, t |-> <<>>, key |-> NoRoot, list |-> <<>>]
WStep(e) == /\ root' = IF e.op \in {"gset", "gderive"} THEN [root EXCEPT ![e.g] = e.now] ELSE root
            /\ range' = CASE e.op = "rset" -> [range EXCEPT ![e.r] = [i |-> e.i, j |-> e.j, t |-> e.t, key |-> e.key, list |-> @.list]]
                          [] e.op = "rgen" -> [range EXCEPT ![e.r].list = e.l]
                          [] OTHER -> range
WInit == /\ root = [g \in GenNames |-> NoRoot]
         /\ range = [r \in RangeNames |-> NoRange]
=============================================================================
