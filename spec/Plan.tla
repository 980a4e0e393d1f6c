-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* What plan generators share: parameters, reproducible random values,     *)
(* output.  A session is a sequence of operations; plans hold one session  *)
(* per line.                                                               *)
(***************************************************************************)
EXTENDS Bytes, Prims, Json, IOUtils, TLC, FiniteSets

Prop == IOEnv.PROP
Seed == atoi(IOEnv.SEED)
Size == atoi(IOEnv.SIZE)
Depth == atoi(IOEnv.STEPS)

S(n) == ToString(n)
Rnd(label, n) == RndHex(Seed, label, n)                                  \* n random bytes in hex
RndInt(label, n) == LET b == Unhex(Rnd(label, 3)) IN ((b[1] % 128) * 65536 + b[2] * 256 + b[3]) % n
Pick(label, seq) == seq[RndInt(label, Len(seq)) + 1]
One(X) == {RandomElement(X)}

Cat(seqs) == FlattenSeq(seqs)
ZeroTo(n, F(_)) == [m \in 1..(n + 1) |-> F(m - 1)]
\* every n-th element, starting at the k-th
Chunk(seq, n, k) == SelectSeq([j \in DOMAIN seq |-> IF (j + k) % n = 0 THEN seq[j] ELSE <<>>], LAMBDA x : x # <<>>)
\* a sequence cut into pieces of n
Pieces(seq, n) == [j \in 1..((Len(seq) + n - 1) \div n) |-> SubSeq(seq, (j - 1) * n + 1, IF j * n < Len(seq) THEN j * n ELSE Len(seq))]

Session(id, ops) == ToJson([id |-> id, ev |-> ops])
EmitAll(base, sessions) == \A j \in DOMAIN sessions : sessions[j] = <<>> \/ Emit(IOEnv.PLAN, Session(base + j, sessions[j]))

\* 32-bit boundary numbers
P2(k) == [i \in 1..4 |-> IF k \div 8 = 4 - i THEN Pow2[(k % 8) + 1] ELSE 0]          \* 2^k as four bytes
NumSet == {<<0,0,0,0>>} \cup {P2(k) : k \in 0..31} \cup {Succ32(P2(k)) : k \in 0..31}
          \cup {Minus(P2(k), <<0,0,0,1>>) : k \in 0..31} \cup {<<255,255,255,255>>, <<255,255,255,254>>, <<127,255,255,254>>}
Nums == SetToSeq(NumSet)
SoftNums == SelectSeq(Nums, LAMBDA i : ~HBit(i))
=============================================================================
