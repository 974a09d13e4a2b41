-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* A server and clients that edit copies of one database and exchange      *)
(* changes by rebasing (C19).                                              *)
(*                                                                         *)
(* srv: the last version of the server; base[c]: the version that client c *)
(* last fetched; loc[c]: its edited copy.  A database maps a table to a    *)
(* set of rows <<key, tag, a, b>>; the tag identifies a row: it is never   *)
(* edited and no two insertions use the same.                              *)
(*                                                                         *)
(* Sync(c): theirs = diff(base[c], srv), mine = diff(base[c], loc[c]); the *)
(* algorithm of the implementation (RebaseTable) rebases mine on theirs,   *)
(* the result is applied to srv and becomes srv, base[c] and loc[c].       *)
(*                                                                         *)
(* Ghosts: alive maps tags to the column values last pushed; failed: a     *)
(* push did not apply; reused: a client met, under a key that its base     *)
(* has, a different row (deleted and inserted anew by others): the library *)
(* sees an update then, and the edits cannot be told apart.                *)
(*                                                                         *)
(* A client inserts under a key above all keys that its base and its copy  *)
(* have, as databases with AUTOINCREMENT do.  With LowKeys = TRUE it may   *)
(* use any free key: TLC then finds histories where a push fails or rows   *)
(* are mixed up (see DESIGN.md, "gap").                                    *)
(***************************************************************************)
EXTENDS Rebase, Json
CONSTANTS Clients, Tabs, MaxEdits, LowKeys, Emit, Len_
VARIABLES srv, base, loc, alive, n, r1, r2, failed, reused, acts
vars == <<srv, base, loc, alive, n, r1, r2, failed, reused, acts>>

PK == <<1, 0, 0, 0>>
MaxKey == 3 * MaxEdits + 6
cell(k) == "i:" \o ToString(k)
CellOf == [k \in 0..MaxKey |-> cell(k)]
KeyTab == [c \in {CellOf[k] : k \in 0..MaxKey} |-> CHOOSE k \in 0..MaxKey : CellOf[k] = c]
key(c) == KeyTab[c]
c_(k) == CellOf[k]
Tbl(R) == [n |-> "t", pk |-> PK, nn |-> <<0, 0, 0, 0>>, uq |-> <<>>, aff |-> <<"B", "B", "B", "B">>, sig |-> "s", rows |-> R]
KeysIn(R) == {key(r[1]) : r \in R}

Start == [t \in Tabs |-> {<<c_(1), "t0", "v0", "v0">>, <<c_(2), "t00", "v0", "v0">>}]
Values(R) == {<<r[2], <<r[3], r[4]>>>> : r \in R}
AsMap(S) == [x \in {y[1] : y \in S} |-> (CHOOSE y \in S : y[1] = x)[2]]
Init == /\ srv = Start /\ base = [c \in Clients |-> Start] /\ loc = [c \in Clients |-> Start]
        /\ alive = [t \in Tabs |-> AsMap(Values(Start[t]))]
        /\ n = 0 /\ r1 = {} /\ r2 = {} /\ failed = FALSE /\ reused = FALSE /\ acts = <<>>

Tag == "t" \o ToString(n + 1)
Val == "v" \o ToString(n + 1)
Edited(c, t, R, a) == /\ loc' = [loc EXCEPT ![c] = [loc[c] EXCEPT ![t] = R]]
                      /\ n' = n + 1 /\ r1' = {} /\ r2' = {} /\ acts' = IF Emit THEN Append(acts, a) ELSE acts
                      /\ UNCHANGED <<srv, base, alive, failed, reused>>
FreeKeys(c, t) == LET K == KeysIn(loc[c][t]) \cup KeysIn(base[c][t]) m == IF K = {} THEN 0 ELSE MaxOf(K) IN
                  {m + 1} \cup (IF n % 2 = 0 THEN {m + 2} ELSE {}) \cup (IF LowKeys THEN (1..m) \ K ELSE {})
Insert(c, t) == \E k \in FreeKeys(c, t) : k < MaxKey - MaxEdits /\
                   Edited(c, t, loc[c][t] \cup {<<c_(k), Tag, Val, Val>>},
                          [op |-> "ins", c |-> c, t |-> t, tag |-> Tag, col |-> 0, v |-> Val, k |-> k - (IF KeysIn(loc[c][t]) \cup KeysIn(base[c][t]) = {} THEN 0 ELSE MaxOf(KeysIn(loc[c][t]) \cup KeysIn(base[c][t])))])
Update(c, t) == \E r \in loc[c][t], i \in {3, 4}, v \in {Val, "v0"} : r[i] # v /\
                   Edited(c, t, (loc[c][t] \ {r}) \cup {[r EXCEPT ![i] = v]}, [op |-> "upd", c |-> c, t |-> t, tag |-> r[2], col |-> i, v |-> v, k |-> 0])
Delete(c, t) == \E r \in loc[c][t] : Edited(c, t, loc[c][t] \ {r}, [op |-> "del", c |-> c, t |-> t, tag |-> r[2], col |-> 0, v |-> "", k |-> 0])
Edit == n < MaxEdits /\ \E c \in Clients, t \in Tabs : Insert(c, t) \/ Update(c, t) \/ Delete(c, t)

Rebased(B, T, M) ==
  LET th == Ordered(DiffEntries(PK, B, T)) mi == Ordered(DiffEntries(PK, B, M)) IN
  IF th = <<>> THEN mi ELSE IF mi = <<>> THEN <<>> ELSE RebaseTable(PK, th, mi, key, c_).out
\* what is alive after c pushes: deletes win, then the columns that c changed
Pushed(A, B, M) ==
  LET bt == {r[2] : r \in B} mt == {r[2] : r \in M}
      b == [x \in bt |-> CHOOSE r \in B : r[2] = x]
      m == [x \in mt |-> CHOOSE r \in M : r[2] = x]
      tags == (DOMAIN A \ (bt \ mt)) \cup (mt \ bt) IN
  [x \in tags |-> IF x \notin bt THEN (IF x \in mt THEN <<m[x][3], m[x][4]>> ELSE A[x])
                  ELSE <<IF m[x][3] # b[x][3] THEN m[x][3] ELSE A[x][1], IF m[x][4] # b[x][4] THEN m[x][4] ELSE A[x][2]>>]
Sync(c) ==
  LET res == [t \in Tabs |-> ApplyEntries(Tbl(srv[t]), srv[t], Rebased(base[c][t], srv[t], loc[c][t]))]
      ok == \A t \in Tabs : res[t].ok
      new == [t \in Tabs |-> res[t].rows]
      reu == \E t \in Tabs : \E x \in base[c][t] : \E y \in srv[t] : x[1] = y[1] /\ x[2] # y[2] IN
  /\ ~failed
  /\ failed' = ~ok
  /\ reused' = (reused \/ reu)
  /\ IF ok THEN srv' = new /\ base' = [base EXCEPT ![c] = new] /\ loc' = [loc EXCEPT ![c] = new] ELSE UNCHANGED <<srv, base, loc>>
  /\ alive' = IF reused' THEN alive ELSE [t \in Tabs |-> Pushed(alive[t], base[c][t], loc[c][t])]
  /\ IF r1 # Clients THEN r1' = r1 \cup {c} /\ r2' = r2 ELSE r2' = r2 \cup {c} /\ r1' = r1
  /\ n' = n /\ acts' = IF Emit THEN Append(acts, [op |-> "sync", c |-> c, t |-> 0, tag |-> "", col |-> 0, v |-> "", k |-> 0]) ELSE acts
Next == (Emit => Len(acts) < Len_) /\ (Edit \/ \E c \in Clients : Sync(c))
Spec == Init /\ [][Next]_vars
\* the same for simulation: first the kind of the step is drawn, then one of that kind (insertions and deletions are few among all steps)
Draw == /\ Len(acts) < Len_
        /\ \E k \in {RandomElement(1..8)}, c \in {RandomElement(Clients)}, t \in {RandomElement(Tabs)} :
             CASE k > 6 \/ n >= MaxEdits -> Sync(c)
               [] k < 4 \/ loc[c][t] = {} -> Insert(c, t)
               [] k = 4 -> Update(c, t)
               [] OTHER -> Delete(c, t)
DrawSpec == Init /\ [][Draw]_vars
\* ghosts that do not matter for the behaviour are left out of the state
View == <<srv, base, loc, alive, n, r1, r2, failed, reused>>

---------------------------------------------------------------------------
NoFail == ~failed
\* rows and column values last pushed are there, and nothing else
NoLoss == ~reused => \A t \in Tabs : AsMap(Values(srv[t])) = alive[t] /\ Cardinality(srv[t]) = Cardinality(DOMAIN alive[t])
\* after all have synced, and then each once more
Converged == r2 = Clients => \A c \in Clients : loc[c] = srv
Emitted == (Emit /\ Len(acts) = Len_) => PrintT(<<"SYNC", ToJson(acts)>>)
=============================================================================
