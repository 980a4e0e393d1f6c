------------------------------- MODULE T_Pure -------------------------------
(***************************************************************************)
(* Validates recorded sessions against Purity (C23).                       *)
(***************************************************************************)
EXTENDS Purity, Sequences, Bytes, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l,
          obj,       \* name -> content
          list,      \* what was given to SetWordList last
          shared,    \* lists that the caller took from a range and that are that range's still: pairs <<list, range>>
          memo
vars == <<t, l, obj, list, shared, memo>>

Has(j, f) == f \in DOMAIN j
Fld(j, f) == IF Has(j, f) THEN j[f] ELSE ""
Txt(j, f) == ToString(Fld(j, f))
OnKey == {"child", "neuter", "prvhex", "pubhex", "isprv", "valid", "fields", "ser", "b58", "string", "b58round", "addrhex", "addrp2sh"}
OnBytes == {"master", "deser", "hash160", "checksum", "addchecksum", "expand", "enc"}
OnText == {"root", "b58deser", "path", "valat", "repl", "dec", "arr", "mvalid", "seed", "seedchk", "seedhex", "validprv", "vermeth", "coinmeth"}
Calls == OnKey \cup OnBytes \cup OnText \cup {"groot", "gderive", "rgen"}
Listed == {"enc", "dec", "arr", "mvalid", "seedchk", "seedhex"}

\* the call with the content of its arguments
KeyOf(j) ==
    LET In(n) == IF n \in DOMAIN obj THEN obj[n] ELSE IF n \in DOMAIN j.d THEN j.d[n] ELSE "" IN   \* an argument not named before is new
    j.op \o (IF j.op \in Listed THEN list ELSE "") \o "|" \o
      (CASE j.op \in OnKey -> In(Fld(j, "src"))
        [] j.op \in OnBytes \cup {"rgen"} -> Fld(j, "in")
        [] j.op \in {"groot", "gderive"} -> In(j.g)
        [] OTHER -> Fld(j, "b")) \o "|" \o
      Txt(j, "t") \o "," \o Txt(j, "u") \o "," \o Txt(j, "i") \o "," \o Txt(j, "n") \o "," \o Txt(j, "x") \o "," \o Txt(j, "raw") \o (IF j.op = "repl" THEN "," \o j.v ELSE "")
Results == {"o", "e", "key", "r", "v", "ver", "depth", "fp", "num", "cc", "kb", "pk", "vals", "valid", "str", "fmt", "l", "y", "purpose", "coin", "purposefull", "coinfull", "prvb", "pubb", "reg"}
ResOf(j) == LET D == {f \in DOMAIN j \cap Results : ~(f = "l" /\ j.op = "rgen" /\ j.o # "ok") /\ ~(f = "v" /\ j.op = "repl") /\ ~(f = "r" /\ j.op = "rgen")}
            IN  ToString([f \in D |-> j[f]]) \o (IF j.op = "expand" THEN Txt(j, "x") ELSE "")

Mates(n) == {n} \cup {p[1] : p \in {q \in shared : q[2] = n}} \cup {p[2] : p \in {q \in shared : q[1] = n}}
            \cup UNION {{p[1] : p \in {q \in shared : q[2] = m}} : m \in {p[2] : p \in {q \in shared : q[1] = n}}}
Targets(j) ==
    CASE j.op \in {"load", "copy", "setver", "buf", "wl", "rtake"} -> {Fld(j, "dst")}
      [] j.op = "poke" -> Mates(j.dst)
      [] j.op = "gset" -> {j.g}
      [] j.op = "rset" -> {j.r, j.r \o "!"}
      [] j.op = "rgen" -> IF j.o = "ok" THEN {j.r} ELSE {}
      [] OTHER -> IF j.o = "ok" THEN {Fld(j, "dst")} ELSE {}
\* objects come into being when they are first named
Named(j) == {Fld(j, f) : f \in {"src", "g", "r", "dst"}} \cup {Fld(j, f) \o "!" : f \in {"src", "r", "dst"}}
Event(j) == [targets |-> Targets(j) \cup (Named(j) \ DOMAIN obj),
             changed |-> {n \in DOMAIN j.d : n \notin DOMAIN obj \/ obj[n] # j.d[n]},
             key |-> IF j.op \in Calls THEN KeyOf(j) ELSE "",
             res |-> IF j.op \in Calls THEN ResOf(j) ELSE "",
             kept |-> Has(j, "kept") => j.kept]
\* setters set exactly what they are told to
Exact(j) == LET now == j.d @@ obj IN
            CASE j.op = "gset" -> now[j.g] = now[j.src]
              [] j.op = "copy" -> now[j.dst] = now[j.src]
              [] OTHER -> TRUE
Fine(j) == j.o \in {"ok", "err"} /\ Exact(j)

View == <<t, l>>                       \* a recorded session has one behaviour
Init == t \in DOMAIN Sessions /\ l = 1 /\ obj = <<>> /\ list = "" /\ shared = {} /\ memo = {}
Next == /\ l <= Len(Sessions[t].ev)
        /\ LET j == Sessions[t].ev[l] e == Event(j) IN
           /\ IF Fine(j) /\ C23(memo, e) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
           /\ obj' = j.d @@ obj
           /\ list' = IF j.op = "wl" THEN ToString([f \in DOMAIN j \ {"d", "o", "dst"} |-> j[f]]) ELSE list
           /\ shared' = CASE j.op = "rtake" -> {p \in shared : p[1] # j.dst} \cup {<<j.dst, j.r>>}
                          [] j.op = "rgen" /\ j.o = "ok" -> {p \in shared : p[2] # j.r}
                          [] j.op = "gderive" /\ j.o = "ok" -> {p \in shared : p[1] # Fld(j, "dst")}
                          [] OTHER -> shared
           /\ memo' = IF j.op \in Calls THEN Remember(memo, e) ELSE memo
        /\ l' = l + 1
        /\ t' = t
=============================================================================
