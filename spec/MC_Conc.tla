------------------------------ MODULE MC_Conc ------------------------------
(***************************************************************************)
(* Two goroutines call a library on a shared argument, step by step, over  *)
(* a memory of cells; the library is right or makes one of the usual       *)
(* mistakes of concurrent code.  Each makes Calls calls and keeps its       *)
(* results to the end.  The obligations of Concurrency (C22) hold of the   *)
(* right library in every interleaving, are violated in some interleaving  *)
(* of every wrong one, and whenever a caller is misled - a call yields or  *)
(* a result becomes something else than the call gives on its own - they   *)
(* are violated in that very execution, whether or not a race is seen.     *)
(*                                                                         *)
(* A call op(x): read x; compute in a working cell in two steps (a half    *)
(* result, then the result); read the working cell out; return.            *)
(***************************************************************************)
EXTENDS Concurrency, Sequences, TLC, IOUtils

Threads == {1, 2}
Ops == {"inc", "dbl"}
F(op, x) == IF op = "inc" THEN x + 1 ELSE 2 * x
Half(op, x) == 10 + F(op, x)
Mistakes == {"none", "once", "scratch", "lazy", "checkact", "pool", "inplace", "deadlock", "lost"}
\* cells: X the shared argument; W the library's own cell; Flg its flag; <<t, c>> thread t's cell of call c
X == <<0, 0>>
W == <<0, 1>>
Flg == <<0, 2>>
Calls == atoi(IOEnv.CALLS)

VARIABLES mem,          \* cell -> value
          pc, ncall, op, reg,       \* per thread: step; calls made; current operation; register
          lock,         \* lock -> holder, 0 if free
          got,          \* the returned: records [t, c, op, res, cell]
          races, mistake
vars == <<mem, pc, ncall, op, reg, lock, got, races, mistake>>
Cells == {X, W, Flg} \cup (Threads \X (1..Calls))
X0 == 3
Init == /\ mem = [c \in Cells |-> IF c = X THEN X0 ELSE 0] /\ pc = [t \in Threads |-> "idle"] /\ ncall = [t \in Threads |-> 0]
        /\ op = [t \in Threads |-> "inc"] /\ reg = [t \in Threads |-> 0] /\ lock = [k \in {"a", "b"} |-> 0] /\ got = {} /\ races = 0 /\ mistake \in Mistakes

\* the cell thread t computes in
Work(t) == IF mistake \in {"scratch", "pool"} THEN W ELSE IF mistake = "inplace" THEN X ELSE <<t, ncall[t]>>
Locked == mistake \in {"once", "checkact", "lost", "deadlock"}

\* what thread t accesses in its next step: <<cell, is it a write, locks held>>
Access(t) ==
    LET h == {k \in {"a", "b"} : lock[k] = t} IN
    CASE pc[t] = "read" -> {<<X, FALSE, h>>}
      [] pc[t] = "half" -> {<<Work(t), TRUE, h>>}
      [] pc[t] = "full" -> {<<Work(t), TRUE, h>>}
      [] pc[t] = "out" -> {<<Work(t), FALSE, h>>}
      [] pc[t] = "look" -> {<<Flg, FALSE, h>>}
      [] pc[t] = "flag" -> {<<Flg, TRUE, h>>}
      [] pc[t] = "keep" -> {<<W, TRUE, h>>}
      [] pc[t] = "use" -> {<<W, FALSE, h>>}
      [] OTHER -> {}
Race == \E a \in Access(1), b \in Access(2) : a[1] = b[1] /\ (a[2] \/ b[2]) /\ a[3] \cap b[3] = {}

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(c, v) == mem' = [mem EXCEPT ![c] = v]
Reg(t, v) == reg' = [reg EXCEPT ![t] = v]
Take(k, t) == lock[k] = 0 /\ lock' = [lock EXCEPT ![k] = t]
Drop(K) == lock' = [k \in DOMAIN lock |-> IF k \in K THEN 0 ELSE lock[k]]
Same(v) == UNCHANGED v

\* ------------------------------------------------------------------ steps of thread t
Begin(t) == /\ pc[t] = "idle" /\ ncall[t] < Calls
            /\ \E o \in Ops : op' = [op EXCEPT ![t] = o]
            /\ ncall' = [ncall EXCEPT ![t] = @ + 1]
            /\ Go(t, CASE mistake = "once" -> "lock" [] mistake = "deadlock" -> "lock1" [] mistake \in {"lazy"} -> "look" [] mistake \in {"checkact", "lost"} -> "locklook" [] OTHER -> "read")
            /\ Same(<<mem, reg, lock, got>>)
\* a right use of a shared cell: all under one lock
Lock(t) == pc[t] = "lock" /\ Take("a", t) /\ Go(t, "read") /\ Same(<<mem, reg, op, ncall, got>>)
\* two locks in the order the operation prefers
Lock1(t) == pc[t] = "lock1" /\ Take(IF op[t] = "inc" THEN "a" ELSE "b", t) /\ Go(t, "lock2") /\ Same(<<mem, reg, op, ncall, got>>)
Lock2(t) == pc[t] = "lock2" /\ Take(IF op[t] = "inc" THEN "b" ELSE "a", t) /\ Go(t, "read") /\ Same(<<mem, reg, op, ncall, got>>)
Read(t) == pc[t] = "read" /\ Reg(t, mem[X]) /\ Go(t, "half") /\ Same(<<mem, op, ncall, lock, got>>)
HalfStep(t) == pc[t] = "half" /\ Set(Work(t), Half(op[t], reg[t])) /\ Go(t, "full") /\ Same(<<reg, op, ncall, lock, got>>)
Full(t) == pc[t] = "full" /\ Set(Work(t), mem[Work(t)] - 10) /\ Go(t, "out") /\ Same(<<reg, op, ncall, lock, got>>)
\* read the result out, into the caller's cell; with the mistake pool the caller gets the working cell itself
Out(t) == /\ pc[t] = "out" /\ Go(t, IF Locked THEN "unlock" ELSE IF mistake = "lazy" THEN "flag" ELSE IF mistake = "inplace" THEN "restore" ELSE "ret")
          /\ Reg(t, mem[Work(t)]) /\ Same(<<mem, op, ncall, lock, got>>)
Restore(t) == pc[t] = "restore" /\ Set(X, X0) /\ Go(t, "ret") /\ Same(<<reg, op, ncall, lock, got>>)
Unlock(t) == pc[t] = "unlock" /\ Drop({k \in {"a", "b"} : lock[k] = t}) /\ Go(t, IF mistake \in {"checkact", "lost"} THEN "lockkeep" ELSE "ret") /\ Same(<<mem, reg, op, ncall, got>>)
\* an unlocked cache of the last result, published by a flag that is set before the value is there: f = 0 nothing, 1 inc, 2 dbl
Mark(o) == IF o = "inc" THEN 1 ELSE 2
Look(t) == pc[t] = "look" /\ Go(t, IF mem[Flg] = Mark(op[t]) THEN "use" ELSE IF mistake = "lazy" THEN "read" ELSE "unlockread") /\ Same(<<mem, reg, op, ncall, lock, got>>)
Flag(t) == pc[t] = "flag" /\ Set(Flg, Mark(op[t])) /\ Go(t, IF mistake = "lazy" THEN "keep" ELSE "unlock2") /\ Same(<<reg, op, ncall, lock, got>>)
Keep(t) == pc[t] = "keep" /\ Set(W, reg[t]) /\ Go(t, "ret") /\ Same(<<reg, op, ncall, lock, got>>)
Use(t) == pc[t] = "use" /\ Reg(t, mem[W]) /\ Go(t, IF mistake = "lazy" THEN "ret" ELSE "unlockuse") /\ Same(<<mem, op, ncall, lock, got>>)
\* the same cache with every access locked, but value and flag under separate locks (checkact); or correct (lost is its variant that never keeps the value)
LockLook(t) == pc[t] = "locklook" /\ Take("a", t) /\ Go(t, "look") /\ Same(<<mem, reg, op, ncall, got>>)
UnlockRead(t) == pc[t] = "unlockread" /\ Drop({"a"}) /\ Go(t, "read") /\ Same(<<mem, reg, op, ncall, got>>)
LockKeep(t) == pc[t] = "lockkeep" /\ Take("a", t) /\ Go(t, "flag") /\ Same(<<mem, reg, op, ncall, got>>)
Unlock2(t) == pc[t] = "unlock2" /\ Drop({"a"}) /\ Go(t, IF mistake = "lost" THEN "ret" ELSE "lockval") /\ Same(<<mem, reg, op, ncall, got>>)
LockVal(t) == pc[t] = "lockval" /\ Take("a", t) /\ Set(W, reg[t]) /\ Go(t, "unlockval") /\ Same(<<reg, op, ncall, got>>)
UnlockVal(t) == pc[t] \in {"unlockval", "unlockuse"} /\ Drop({"a"}) /\ Go(t, "ret") /\ Same(<<mem, reg, op, ncall, got>>)
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle")
          /\ LET c == IF mistake = "pool" THEN W ELSE <<t, ncall[t]>> IN
             /\ mem' = IF mistake = "pool" THEN mem ELSE [mem EXCEPT ![c] = reg[t]]
             /\ got' = got \cup {[t |-> t, c |-> ncall[t], op |-> op[t], res |-> reg[t], cell |-> c]}
          /\ Same(<<reg, op, ncall, lock>>)

Step(t) == Begin(t) \/ Lock(t) \/ Lock1(t) \/ Lock2(t) \/ Read(t) \/ HalfStep(t) \/ Full(t) \/ Out(t) \/ Restore(t) \/ Unlock(t) \/ Look(t) \/ Flag(t) \/ Keep(t) \/ Use(t)
           \/ LockLook(t) \/ UnlockRead(t) \/ LockKeep(t) \/ Unlock2(t) \/ LockVal(t) \/ UnlockVal(t) \/ Ret(t)
Next == \E t \in Threads : Step(t) /\ races' = (IF Race THEN 1 ELSE races) /\ mistake' = mistake
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ the end of an execution
Finished == \A t \in Threads : pc[t] = "idle" /\ ncall[t] = Calls
Stuck == ~Finished /\ \A t \in Threads : ~ENABLED Step(t)
Alone(g) == F(g.op, X0)
Event(g) == [o |-> "ok", res |-> g.res, alone |-> Alone(g), later |-> {}, own |-> FALSE, at |-> g.res, end |-> mem[g.cell]]
Hung(t) == [o |-> "hang", res |-> 0, alone |-> 0, later |-> {}, own |-> TRUE, at |-> 0, end |-> 0]
JoinEvent(r) == [changed |-> IF mem[X] = X0 THEN {} ELSE {"x"}, races |-> r]
\* does the record of this execution satisfy the obligation (with r races seen)?
Accepted(r) == /\ \A g \in got : C22Call(Event(g))
               /\ Stuck => \A t \in Threads : pc[t] = "idle" \/ C22Call(Hung(t))
               /\ C22Join(JoinEvent(r))
Misled == Stuck \/ mem[X] # X0 \/ \E g \in got : g.res # Alone(g) \/ mem[g.cell] # Alone(g)

Right == {"none", "once"}
Ended == Finished \/ Stuck
Quiet == Ended /\ mistake \in Right => Accepted(races)
Faithful == Ended /\ Misled => ~Accepted(0)

\* every mistake is found in some execution (counted over the whole exploration)
Slot(m) == CHOOSE n \in 1..Cardinality(Mistakes) : m = <<"none", "once", "scratch", "lazy", "checkact", "pool", "inplace", "deadlock", "lost">>[n]
Caught == (Ended /\ ~Accepted(races)) => TLCSet(10 + Slot(mistake), 1)
Blank == \A n \in 1..Cardinality(Mistakes) : TLCSet(10 + n, 0)
ASSUME Blank
AllCaught == \A n \in 3..Cardinality(Mistakes) : TLCGet(10 + n) = 1
=============================================================================
