------------------------------- MODULE T_Path -------------------------------
(***************************************************************************)
(* Validates recorded calls on path texts (C08, C09).                      *)
(***************************************************************************)
EXTENDS Paths, Failures, RealPaths, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES t, l
vars == <<t, l>>

Has(j, f) == f \in DOMAIN j
Text(j) == Unhex(j.t)
Doubtful(s) == \E i \in 1..Len(s) : s[i] > 127 \/ s[i] \in {11, 28, 29, 30, 31}
Wide(s) == SelectSeq(CodePoints(s), LAMBDA c : ~OpenBlank(c))

PathEvent(j, s) == [op |-> "path", t |-> s, o |-> j.o, valid |-> Has(j, "valid") /\ j.valid,
                    vals |-> IF Has(j, "vals") THEN [k \in 1..Len(j.vals) |-> Unhex(j.vals[k])] ELSE NoPath]
C08R(j) == IF Doubtful(Text(j)) /\ IsPath(Wide(Text(j)))
           THEN C08(PathEvent(j, Wide(Text(j)))) \/ C08(PathEvent(j, <<>>))
           ELSE C08(PathEvent(j, Text(j)))
C09R(j) == CASE j.op = "valat" -> C09([op |-> "valat", t |-> Text(j), n |-> j.n, o |-> j.o, v |-> IF Has(j, "v") THEN Unhex(j.v) ELSE <<>>])
             [] j.op = "repl" -> C09([op |-> "repl", t |-> Text(j), n |-> j.n, w |-> Unhex(j.v), o |-> j.o, r |-> IF Has(j, "r") THEN Unhex(j.r) ELSE <<-1>>])
             [] OTHER -> TRUE
\* C25: a call that fails on a valid path was asked for a component that it cannot give
C25R(j) == j.op \in {"path", "valat", "repl"} /\ j.o = "err" /\ ~Doubtful(Text(j)) =>
              Blames(Range(j.es), IF j.op # "path" /\ IsPath(Text(j)) THEN {"path"} ELSE PathCauses(Text(j)))
Accepted(j) == CASE Prop = "C08" -> j.op = "path" => C08R(j)
                 [] Prop = "C09" -> C09R(j)
                 [] Prop = "C25" -> C25R(j)

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in 1..Len(Sessions) /\ l = 1
Next == LET ev == Sessions[t].ev IN
        /\ l <= Len(ev)
        /\ IF Accepted(ev[l]) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
        /\ l' = l + 1
        /\ t' = t
=============================================================================
