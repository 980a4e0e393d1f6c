------------------------------- MODULE T_Net -------------------------------
(***************************************************************************)
(* Validates recorded sessions against Network under the real algebra.     *)
(***************************************************************************)
EXTENDS T_HD, Network

NEvent(j) == IF j.op = "setdefault"
             THEN [op |-> "default", o |-> j.o, key |-> REmpty, d |-> <<>>, prv |-> Unhex(j.v), pub |-> Unhex(j.u), main |-> j.how # "test"]
             ELSE Event(j)
\* the hex-seed entry point
NRootOk(j) == LET s == FromHexText(Unhex(j.t)) IN
                IF s = <<-1>> \/ Len(s) < 16 THEN j.o = "err"
                ELSE j.o = "ok" /\ Has(j, "key") /\ Unhex(j.key) = NMaster(s)
NAccepted(j, e) == IF j.op = "root" THEN NRootOk(j) ELSE C27(e)

TInit == /\ t \in 1..Len(Sessions)
         /\ l = 1
         /\ NInit
TNext == LET ev == Sessions[t].ev IN
         /\ l <= Len(ev)
         /\ LET j == ev[l] e == NEvent(j) IN
              /\ IF NAccepted(j, e) THEN TRUE ELSE PrintT(<<"REJECT", Sessions[t].id, l>>)
              /\ NStep(e)
         /\ l' = l + 1
         /\ t' = t
=============================================================================
