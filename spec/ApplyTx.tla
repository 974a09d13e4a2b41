------------------------------ MODULE ApplyTx ------------------------------
(***************************************************************************)
(* Design of applying a changeset: the statements of applyChangeset against*)
(* a transactional engine, with failures, crashes and readers anywhere.    *)
(*                                                                         *)
(* The engine: disk (what another connection and the next process see),    *)
(* work (what this connection sees), tx (a transaction is open).  A        *)
(* statement may fail on its own (constraint, nothing matched: a conflict),*)
(* may fail with an error that leaves the transaction open, or with one    *)
(* after which the engine has rolled everything back (full disk, I/O       *)
(* error).  Outside a transaction every statement commits by itself.       *)
(*                                                                         *)
(* The library: open savepoint, drop triggers, one statement per entry,    *)
(* recreate triggers, release or roll back.  CheckTx: it verifies after    *)
(* every statement that its transaction still exists; CheckTrg: a failure  *)
(* to drop or recreate a trigger is an error.  Without them TLC finds the  *)
(* two defects that were repaired in the implementation.                   *)
(* C04, C05, C16, C20 for one call.                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N,          \* entries 1..N
          Triggers,   \* user triggers
          CheckTx, CheckTrg
VARIABLES disk, work, tx, pc, todo, conf, failed, res, seen
vars == <<disk, work, tx, pc, todo, conf, failed, res, seen>>
Before == [rows |-> {}, trg |-> Triggers]
After == [rows |-> 1..N, trg |-> Triggers]
Init == /\ disk = Before /\ work = Before /\ tx = FALSE
        /\ pc = "begin" /\ todo = Triggers /\ conf = 0 /\ failed = FALSE /\ res = "none" /\ seen = <<>>

\* one statement turning v into v2: done, failed on its own, failed with everything rolled back
Stmt(v2, ok(_), bad(_)) ==
  \/ /\ work' = v2 /\ disk' = (IF tx THEN disk ELSE v2) /\ UNCHANGED tx /\ ok(tx)
  \/ UNCHANGED <<work, disk, tx>> /\ bad(tx)
  \/ work' = disk /\ tx' = FALSE /\ UNCHANGED disk /\ bad(FALSE)
Err == pc' = "rollback" /\ failed' = TRUE
\* the library looks whether its transaction is still there
Guard(t, p) == IF CheckTx /\ ~t THEN Err ELSE p

Begin == /\ pc = "begin"
         /\ \/ tx' = TRUE /\ pc' = "drop" /\ UNCHANGED <<failed, res>>
            \/ pc' = "done" /\ res' = "error" /\ UNCHANGED <<tx, failed>>
         /\ UNCHANGED <<disk, work, todo, conf, seen>>
Drop == /\ pc = "drop" /\ todo # {} /\ UNCHANGED <<conf, res, seen>>
        /\ \E t \in todo :
             Stmt([work EXCEPT !.trg = @ \ {t}],
                  LAMBDA b : todo' = todo \ {t} /\ UNCHANGED <<pc, failed>>,
                  LAMBDA b : todo' = todo \ {t} /\ IF CheckTrg THEN Err ELSE UNCHANGED <<pc, failed>>)
Dropped == pc = "drop" /\ todo = {} /\ pc' = "entries" /\ todo' = 1..N /\ UNCHANGED <<disk, work, tx, conf, failed, res, seen>>
Entry == /\ pc = "entries" /\ todo # {} /\ UNCHANGED <<res, seen>>
         /\ LET i == CHOOSE x \in todo : \A y \in todo : x <= y IN
            /\ todo' = todo \ {i}
            /\ Stmt([work EXCEPT !.rows = @ \cup {i}],
                    LAMBDA b : conf' = conf /\ Guard(b, UNCHANGED <<pc, failed>>),
                    LAMBDA b : \/ conf' = conf + 1 /\ Guard(b, UNCHANGED <<pc, failed>>)
                               \/ conf' = conf /\ Err)
\* an entry cannot be read, or names a table that is not there
Malformed == pc = "entries" /\ Err /\ UNCHANGED <<disk, work, tx, todo, conf, res, seen>>
Entered == pc = "entries" /\ todo = {} /\ pc' = "create" /\ todo' = Triggers /\ UNCHANGED <<disk, work, tx, conf, failed, res, seen>>
Create == /\ pc = "create" /\ todo # {} /\ UNCHANGED <<conf, res, seen>>
          /\ \E t \in todo :
               Stmt([work EXCEPT !.trg = @ \cup {t}],
                    LAMBDA b : todo' = todo \ {t} /\ UNCHANGED <<pc, failed>>,
                    LAMBDA b : todo' = todo \ {t} /\ IF CheckTrg THEN Err ELSE UNCHANGED <<pc, failed>>)
Created == /\ pc = "create" /\ todo = {}
           /\ IF conf = 0 THEN pc' = "commit" /\ UNCHANGED failed ELSE Err
           /\ UNCHANGED <<disk, work, tx, todo, conf, res, seen>>
Commit == /\ pc = "commit" /\ UNCHANGED <<todo, conf, seen>>
          /\ \/ /\ disk' = work /\ tx' = FALSE /\ pc' = "done" /\ res' = "ok" /\ UNCHANGED <<work, failed>>
             \/ Err /\ UNCHANGED <<disk, work, tx, res>>                            \* busy: still open
             \/ Err /\ tx' = FALSE /\ work' = disk /\ UNCHANGED <<disk, res>>       \* rolled back
Rollback == /\ pc = "rollback"
            /\ tx' = FALSE /\ work' = disk /\ pc' = "done" /\ res' = "error" /\ UNCHANGED <<disk, todo, conf, failed, seen>>
\* the process dies; the next one finds disk
Crash == /\ pc # "done" /\ pc' = "done" /\ res' = "crash" /\ tx' = FALSE /\ work' = disk
         /\ UNCHANGED <<disk, todo, conf, failed, seen>>
Read == /\ Len(seen) < 2 /\ seen' = Append(seen, disk) /\ UNCHANGED <<disk, work, tx, pc, todo, conf, failed, res>>

Next == Begin \/ Drop \/ Dropped \/ Entry \/ Malformed \/ Entered \/ Create \/ Created \/ Commit \/ Rollback \/ Crash \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Drop \/ Dropped \/ Entry \/ Entered \/ Create \/ Created \/ Commit \/ Rollback)
---------------------------------------------------------------------------
\* C05 whatever happens, others see the old or the new state
Whole == disk \in {Before, After}
SeenWhole == \A i \in DOMAIN seen : seen[i] \in {Before, After}
Monotone == \A i \in DOMAIN seen : \A j \in i..Len(seen) : seen[i] = After => seen[j] = After
\* C04, C20, C16 the result tells which
Honest == (res = "ok" => disk = After) /\ (res = "error" => disk = Before)
Ends == <>(pc = "done")
=============================================================================
