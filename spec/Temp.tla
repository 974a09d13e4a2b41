-------------------------------- MODULE Temp --------------------------------
(***************************************************************************)
(* Concurrent calls of several processes that share read-only inputs and   *)
(* the directory of temporary files (C18).                                 *)
(*                                                                         *)
(* A call of process p reads the shared input, writes its temporary file   *)
(* in two pieces, reads it back, writes its output and removes the         *)
(* temporary file; a second temporary file follows in the same way.        *)
(* Name(p, k) is the name of the k-th temporary file of p.                 *)
(*                                                                         *)
(* Distinct = TRUE: names differ between processes (what the library       *)
(* promises with its random names).  With FALSE all processes use the same *)
(* names, and TLC finds the interleaving that breaks the invariants.       *)
(* Exclusive = TRUE: a reader locks the shared input against other readers *)
(* (what the library must not do): calls then fail as "busy".              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Distinct, Exclusive, Steps, Emit
VARIABLES pc, files, got, out, lock, sched
vars == <<pc, files, got, out, lock, sched>>

Name(p, k) == IF Distinct THEN <<p, k>> ELSE <<0, k>>
Own(p, k) == <<<<p, k, 1>>, <<p, k, 2>>>>
None == <<>>
Error == <<<<0, 0, 0>>>>
Last == 13

Init == /\ pc = [p \in Procs |-> 1] /\ files = [n \in {Name(p, k) : p \in Procs, k \in {1, 2}} |-> None]
        /\ got = [p \in Procs |-> <<>>] /\ out = [p \in Procs |-> <<>>] /\ lock = {} /\ sched = <<>>

Fail(p) == out' = [out EXCEPT ![p] = Error] /\ pc' = [pc EXCEPT ![p] = Last] /\ UNCHANGED <<files, got, lock>>
Go(p) == pc' = [pc EXCEPT ![p] = @ + 1]
\* the k-th temporary file at program counter b + 1 ..
Temp(p, k, b) ==
  \/ pc[p] = b + 1 /\ files' = [files EXCEPT ![Name(p, k)] = <<<<p, k, 1>>>>] /\ Go(p) /\ UNCHANGED <<got, out, lock>>
  \/ pc[p] = b + 2 /\ (IF files[Name(p, k)] = None THEN files' = files ELSE files' = [files EXCEPT ![Name(p, k)] = Append(@, <<p, k, 2>>)]) /\ Go(p) /\ UNCHANGED <<got, out, lock>>
  \/ pc[p] = b + 3 /\ (IF files[Name(p, k)] = None THEN Fail(p) ELSE got' = [got EXCEPT ![p] = @ \o files[Name(p, k)]] /\ Go(p) /\ UNCHANGED <<files, out, lock>>)
  \/ pc[p] = b + 4 /\ files' = [files EXCEPT ![Name(p, k)] = None] /\ Go(p) /\ UNCHANGED <<got, out, lock>>
Read(p) ==
  \/ pc[p] = 1 /\ (IF Exclusive /\ lock # {} THEN Fail(p) ELSE lock' = lock \cup {p} /\ Go(p) /\ UNCHANGED <<files, got, out>>)
  \/ pc[p] = 2 /\ lock' = lock \ {p} /\ Go(p) /\ UNCHANGED <<files, got, out>>
Write(p) == pc[p] = 11 /\ out' = [out EXCEPT ![p] = got[p]] /\ pc' = [pc EXCEPT ![p] = Last] /\ UNCHANGED <<files, got, lock>>
Step(p) == Read(p) \/ Temp(p, 1, 2) \/ Temp(p, 2, 6) \/ Write(p)
Next == \E p \in Procs : Step(p) /\ sched' = sched
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every call gets what it gets alone
Alone == \A p \in Procs : pc[p] = Last => out[p] = Own(p, 1) \o Own(p, 2)
Clean == (\A p \in Procs : pc[p] = Last) => (\A n \in DOMAIN files : files[n] = None) /\ lock = {}
Ends == <>(\A p \in Procs : pc[p] = Last)

---------------------------------------------------------------------------
(* Schedules for the replay: all orders of Steps chunks of each process *)
SInit == pc = [p \in Procs |-> 0] /\ files = <<>> /\ got = <<>> /\ out = <<>> /\ lock = {} /\ sched = <<>>
SNext == \E p \in Procs : /\ pc[p] < Steps /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ sched' = Append(sched, p)
                          /\ UNCHANGED <<files, got, out, lock>>
SSpec == SInit /\ [][SNext]_vars
Emitted == (Emit /\ \A p \in Procs : pc[p] = Steps) => PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
