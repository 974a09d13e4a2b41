------------------------------ MODULE Geodiff ------------------------------
(***************************************************************************)
(* The calls of geodiff's API as actions on a file system, and for each    *)
(* property of properties.jsonl what it demands of every call.             *)
(*                                                                         *)
(* fs maps paths to [c: content handle, h: identity of the bytes].         *)
(* Content(c) is the abstract content (records with a kind k):             *)
(*   "db"  database (see Tables) with meta (tables geodiff never records:  *)
(*         gpkg_ogr_contents), trg (its triggers), fk (a user table has a  *)
(*         foreign key), badtrg (it has a trigger of unknown purpose)      *)
(*   "cs"  changeset with size in bytes                                    *)
(*   "jl" / "js" / "jc"  JSON list / summary / conflicts                   *)
(*   "raw"  anything else                                                  *)
(*                                                                         *)
(* hist remembers where contents come from:                                *)
(*   diff: {<<changeset, base, modified>>}                                 *)
(*   dump: {<<changeset, database>>}                                       *)
(*   reb:  {<<rebased changeset, base, theirs, mine, conflict content>>}   *)
(*   res:  {<<base, theirs, mine, merged database>>}                       *)
(*   memo: {<<call, contents of its arguments, outcome, level, messages>>} *)
(*   nm:   {<<call, contents by role before, contents by role after>>}     *)
(*   lab:  {<<label of Api.tla, database>>}                                *)
(*   sync: rows that syncing clients pushed (C19)                          *)
(*   sq:   changesets written by SQLite's session extension (or rebased    *)
(*         from one: entries in another order)                            *)
(*                                                                         *)
(* An event e is one call: op, fn (API name), a (arguments by role), miss  *)
(* (a required argument is NULL), rc, lv (levels of log messages), level   *)
(* (maximum level set), fault (a fault was injected), fds / locked (left   *)
(* behind after return), exp / labs (what Api.tla predicts: the kind of    *)
(* the return code, and labels of databases afterwards).                   *)
(***************************************************************************)
EXTENDS Rebase, FrontEnd

CONSTANTS Content(_), Json(_), Fid(_)

None == [k |-> "none"]
In(f, p) == IF p \in DOMAIN f THEN Content(f[p].c) ELSE None
Handle(f, p) == IF p \in DOMAIN f THEN f[p].c ELSE 0
K(f, p) == In(f, p).k
IsDb(f, p) == K(f, p) = "db"
IsCs(f, p) == K(f, p) = "cs"
Ok(e) == e.rc = 0
\* an injected fault excuses a failure
Must(e) == e.fault = 0

NoHist == [diff |-> {}, dump |-> {}, reb |-> {}, res |-> {}, memo |-> {}, nm |-> {}, lab |-> {}, sq |-> {}, sync |-> [on |-> FALSE, reused |-> FALSE, alive |-> {}]]

\* the documented return codes
RcOk(e) == IF e.op \in {"has", "count"} THEN e.rc >= -1 ELSE e.rc \in {0, 1}
Mutates(e) == e.op \in {"apply", "rebase", "rebasex"}
\* same rows in all tables
Same(x, y) == Handle(x[1], x[2]) = Handle(y[1], y[2]) \/
              (K(x[1], x[2]) = "db" /\ K(y[1], y[2]) = "db" /\ SameRows(In(x[1], x[2]), In(y[1], y[2])))

---------------------------------------------------------------------------
(* C01 diff, then apply *)

Fits(d, b) == SameSchema(d, b) /\ SameRows(d, b)
C01(e, f, g, h) ==
  /\ (e.op = "create" /\ IsDb(f, e.a.base) /\ IsDb(f, e.a.mod) /\ e.a.drv = "sqlite" /\ SameSchema(In(f, e.a.base), In(f, e.a.mod))) =>
       /\ Must(e) => Ok(e)
       /\ Ok(e) => IsCs(g, e.a.out)
  /\ (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
       \A x \in {y \in h.diff : y[1] = f[e.a.cs].c /\ Fits(In(f, e.a.db), Content(y[2]))} :
          /\ Must(e) => Ok(e)
          /\ Ok(e) => /\ IsDb(g, e.a.db)
                      /\ RowsOf(In(g, e.a.db)) = RowsOf(Content(x[3]))
                      /\ Unkeyed(In(g, e.a.db)) = Unkeyed(In(f, e.a.db))

(* C02 a changeset lists exactly the difference *)
C02(e, f, g, h) ==
  /\ (e.op = "create" /\ Ok(e) /\ IsDb(f, e.a.base) /\ IsDb(f, e.a.mod) /\ SameSchema(In(f, e.a.base), In(f, e.a.mod))) =>
       /\ IsCs(g, e.a.out)
       /\ IsDiff(In(f, e.a.base), In(f, e.a.mod), In(g, e.a.out))
       /\ RowsOf(In(f, e.a.base)) = RowsOf(In(f, e.a.mod)) => In(g, e.a.out).size = 0
  /\ (e.op = "has" /\ IsCs(f, e.a.cs)) => (e.rc = (IF In(f, e.a.cs).ent = <<>> THEN 0 ELSE 1) \/ (~Must(e) /\ e.rc = -1))
  /\ (e.op = "count" /\ IsCs(f, e.a.cs)) => (e.rc = Len(In(f, e.a.cs).ent) \/ (~Must(e) /\ e.rc = -1))

(* C03 inversion *)
C03(e, f, g, h) ==
  /\ (e.op = "invert" /\ IsCs(f, e.a.cs) /\ WellFormedCs(In(f, e.a.cs))) =>
       /\ Must(e) => Ok(e)
       /\ Ok(e) => IsCs(g, e.a.out) /\ IsInverse(In(f, e.a.cs), In(g, e.a.out))
  /\ (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
       \A x \in {y \in h.diff : y[1] = f[e.a.cs].c /\ Fits(In(f, e.a.db), Content(y[2]))} :
          /\ Must(e) => Ok(e)
          /\ Ok(e) => IsDb(g, e.a.db) /\ RowsOf(In(g, e.a.db)) = RowsOf(Content(x[3]))

(* C04 all or nothing *)
Unchanged(e, f, g) == IsDb(g, e.a.db) /\ SameRows(In(f, e.a.db), In(g, e.a.db)) /\ Ran(In(f, e.a.db).trg) = Ran(In(g, e.a.db).trg)
C04(e, f, g, h) ==
  (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs) /\ WellFormedCs(In(f, e.a.cs))) =>
     LET r == ApplyCs(In(f, e.a.db), In(f, e.a.cs)) IN
     /\ Must(e) => (Ok(e) <=> r.ok)
     /\ Ok(e) => /\ IsDb(g, e.a.db)
                 /\ r.ok
                 /\ RowsOf(In(g, e.a.db)) = r.rows
                 /\ Unkeyed(In(g, e.a.db)) = Unkeyed(In(f, e.a.db))
     /\ ~Ok(e) => /\ Unchanged(e, f, g)
                  /\ e.level >= 2 => \E i \in DOMAIN e.lv : e.lv[i] <= 2

(* C05 crashes and readers: e.killed: the process was killed during the call, g is what the next program finds;
   e.obs: what a reader saw at successive moments of the call.  The call was made before without these (memo). *)
AfterOf(e, f, h) == {o[2] : o \in {y \in UNION {x[3][2] : x \in {z \in h.memo : z[1] = <<e.fn, e.a, e.miss, e.badout>> /\ z[2] = {<<p, f[p].c>> : p \in {e.a[r] : r \in DOMAIN e.a} \cap DOMAIN f}}} : y[1] = e.a.db}}
C05(e, f, g, h) ==
  (Mutates(e) /\ IsDb(f, e.a.db) /\ (e.killed > 0 \/ e.obs # <<>>)) =>
     LET b == f[e.a.db].c
         A == AfterOf(e, f, h)
         isB(c) == c = b \/ (Content(c).k = "db" /\ SameRows(Content(b), Content(c)))
         isA(c) == c \in A \/ (Content(c).k = "db" /\ \E a \in A : SameRows(Content(a), Content(c)))
         whole(c) == /\ isB(c) \/ isA(c)
                     /\ Content(c).k = "db" /\ Ran(Content(c).trg) = Ran(Content(b).trg)
         n == Len(e.obs) IN
     /\ A # {}
     /\ e.killed > 0 => whole(Handle(g, e.a.db))
     /\ \A i \in 1..n : whole(e.obs[i])
     \* a reader never sees the old rows again after the new ones
     /\ \A i \in 1..n : \A j \in i..n : (~isB(e.obs[i])) => isA(e.obs[j])
     /\ \A p \in DOMAIN f : p # e.a.db => p \in DOMAIN g /\ (f[p].h = g[p].h \/ p \in {e.a.conf, e.a.out})

(* C06 / C07 merging *)
\* tables with a single-column key can be merged; others only if one side did not change them
Mergeable(b, t, m) ==
  /\ SameSchema(b, t) /\ SameSchema(b, m)
  /\ \A n \in KeyedNames(b) : LET x == Tab(b, n) IN
       SingleKey(x.pk) \/ Rows(Tab(t, n)) = Rows(x)
PerTable(b, t, m, f, P(_, _, _, _, _)) ==
  \A n \in KeyedNames(b) :
    LET x == Tab(b, n) IN
    IF n \notin KeyedNames(f) THEN FALSE
    ELSE IF Rows(Tab(t, n)) = Rows(x) THEN Rows(Tab(f, n)) = Rows(Tab(m, n))
    ELSE IF Rows(Tab(m, n)) = Rows(x) THEN Rows(Tab(f, n)) = Rows(Tab(t, n))
    ELSE P(x.pk, Rows(x), Rows(Tab(t, n)), Rows(Tab(m, n)), Rows(Tab(f, n)))
MergedDb(b, t, m, f) == PerTable(b, t, m, f, MergedBase)
InsertsDb(b, t, m, f) == PerTable(b, t, m, f, MergedInserts)
\* rows that only one side inserted
OneSided(b, t, m, f) ==
  PerTable(b, t, m, f, LAMBDA pk, B, T, M, F :
     LET kb == KeysOf(pk, B) IN
     /\ {r \in T : Key(pk, r) \notin kb} \subseteq F
     /\ Clashing(pk, B, T, M) = {} => {r \in M : Key(pk, r) \notin kb} \subseteq F)

\* the triples of contents that a rebasing call is about: <<base, theirs, mine>> (handles)
Triples(e, f, h) ==
  CASE e.op = "rebasecs" -> {<<x[2], x[3], Handle(f, e.a.mod)>> : x \in {y \in h.diff : y[1] = Handle(f, e.a.thcs) /\ IsDb(f, e.a.base) /\ IsDb(f, e.a.mod) /\ Fits(In(f, e.a.base), Content(y[2]))}}
    [] e.op = "rebasecsx" -> {<<x[1][2], x[1][3], x[2][3]>> : x \in {y \in h.diff \X h.diff : y[1][1] = Handle(f, e.a.thcs) /\ y[2][1] = Handle(f, e.a.mycs) /\ y[1][2] = y[2][2]}}
    [] e.op = "rebase" -> IF IsDb(f, e.a.base) /\ IsDb(f, e.a.thdb) /\ IsDb(f, e.a.db)
                          THEN {<<Handle(f, e.a.base), Handle(f, e.a.thdb), Handle(f, e.a.db)>>} ELSE {}
    [] e.op = "rebasex" -> {<<x[2], x[3], Handle(f, e.a.db)>> : x \in {y \in h.diff : y[1] = Handle(f, e.a.thcs) /\ IsDb(f, e.a.base) /\ IsDb(f, e.a.db) /\ Fits(In(f, e.a.base), Content(y[2]))}}
    [] OTHER -> {}
MTriples(e, f, h) == {x \in Triples(e, f, h) : Mergeable(Content(x[1]), Content(x[2]), Content(x[3]))}

\* databases that createRebasedChangeset refuses
Refused(d) == d.fk > 0 \/ d.badtrg > 0

C06(e, f, g, h) ==
  /\ (e.op \in {"rebasecs", "rebasecsx"}) =>
       \A x \in MTriples(e, f, h) : LET b == Content(x[1]) t == Content(x[2]) m == Content(x[3]) IN
         (e.op = "rebasecs" => ~Refused(m)) =>
         (/\ Must(e) => Ok(e)
          /\ Ok(e) => /\ IsCs(g, e.a.out)
                      /\ RowsOf(t) = RowsOf(b) => IsDiff(b, m, In(g, e.a.out))
                      /\ RowsOf(m) = RowsOf(b) => In(g, e.a.out).ent = <<>>)
  /\ (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
       \A x \in {y \in h.reb : y[1] = f[e.a.cs].c /\ Fits(In(f, e.a.db), Content(y[3])) /\ Mergeable(Content(y[2]), Content(y[3]), Content(y[4]))} :
         /\ Must(e) => Ok(e)
         /\ Ok(e) => /\ IsDb(g, e.a.db)
                     /\ MergedDb(Content(x[2]), Content(x[3]), Content(x[4]), In(g, e.a.db))
                     /\ OneSided(Content(x[2]), Content(x[3]), Content(x[4]), In(g, e.a.db))
C07(e, f, g, h) ==
  (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
     \A x \in {y \in h.reb : y[1] = f[e.a.cs].c /\ Fits(In(f, e.a.db), Content(y[3])) /\ Mergeable(Content(y[2]), Content(y[3]), Content(y[4]))} :
       /\ Must(e) => Ok(e)
       /\ Ok(e) => IsDb(g, e.a.db) /\ InsertsDb(Content(x[2]), Content(x[3]), Content(x[4]), In(g, e.a.db))

(* C08 conflicts *)
\* the column of gpkg_contents that is never reported
Skip(n) == IF n = "gpkg_contents" THEN {5} ELSE {}
ExpectedConflicts(b, t, m) ==
  UNION {{[n |-> n, fid |-> Fid(x[1]), ch |-> {<<y[1], Json(y[2]), Json(y[3]), Json(y[4])>> : y \in x[2]}]
            : x \in Conflicts(Tab(b, n).pk, Rows(Tab(b, n)), Rows(Tab(t, n)), Rows(Tab(m, n)), Skip(n))}
         : n \in {z \in KeyedNames(b) : Rows(Tab(t, z)) # Rows(Tab(b, z)) /\ Rows(Tab(m, z)) # Rows(Tab(b, z))}}
ConflictsOk(c, X) ==
  IF X = {} THEN c.k = "none"
  ELSE /\ c.k = "jc"
       /\ Len(c.conf) = Cardinality(X)
       /\ {[n |-> c.conf[i][1], fid |-> c.conf[i][2], ch |-> Ran(c.conf[i][3])] : i \in DOMAIN c.conf} = X
       /\ \A i \in DOMAIN c.conf : Len(c.conf[i][3]) = Cardinality(Ran(c.conf[i][3]))
C08(e, f, g, h) ==
  (e.op \in {"rebasecs", "rebasecsx", "rebase", "rebasex"} /\ Ok(e)) =>
     \A x \in MTriples(e, f, h) :
       ConflictsOk(In(g, e.a.conf), ExpectedConflicts(Content(x[1]), Content(x[2]), Content(x[3])))

(* C09 in-place rebase *)
C09(e, f, g, h) ==
  (e.op \in {"rebase", "rebasex"} /\ IsDb(f, e.a.db)) =>
     /\ \A x \in MTriples(e, f, h) :
          LET b == Content(x[1]) t == Content(x[2]) m == Content(x[3])
              known == {y \in h.res : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3]}
              conf == {y \in h.reb : y[2] = x[1] /\ y[3] = x[2] /\ y[4] = x[3] /\ y[1] \notin h.sq} IN
          /\ Must(e) => Ok(e)
          /\ Ok(e) => /\ IsDb(g, e.a.db)
                      /\ Unkeyed(In(g, e.a.db)) = Unkeyed(In(f, e.a.db))
                      /\ \A y \in known : RowsOf(Content(y[4])) = RowsOf(In(g, e.a.db))
                      /\ \A y \in conf : y[5] = Handle(g, e.a.conf)
                      /\ RowsOf(t) = RowsOf(b) => RowsOf(In(g, e.a.db)) = RowsOf(m)
                      /\ RowsOf(m) = RowsOf(b) => RowsOf(In(g, e.a.db)) = RowsOf(t)
                      /\ MergedDb(b, t, m, In(g, e.a.db))
                      /\ InsertsDb(b, t, m, In(g, e.a.db))
     /\ ~Ok(e) => IsDb(g, e.a.db) /\ SameRows(In(f, e.a.db), In(g, e.a.db))

(* C10 frame *)
Writable(e) ==
  (CASE e.op \in {"create", "invert", "list", "summary", "dump", "copy"} -> {e.a.out}
     [] e.op \in {"rebasecs", "rebasecsx"} -> {e.a.out, e.a.conf}
     [] e.op \in {"rebase", "rebasex"} -> {e.a.db, e.a.conf}
     [] e.op = "apply" -> {e.a.db}
     [] OTHER -> {}) \ {""}
C10(e, f, g, h) ==
  e.op # "env" =>
     /\ \A p \in DOMAIN f \ Writable(e) : p \in DOMAIN g /\ g[p].h = f[p].h
     /\ DOMAIN g \subseteq DOMAIN f \cup Writable(e)
     /\ (Mutates(e) /\ IsDb(f, e.a.db)) => /\ IsDb(g, e.a.db)
                                          /\ Schema(In(f, e.a.db)) = Schema(In(g, e.a.db))
                                          /\ Ran(In(f, e.a.db).trg) = Ran(In(g, e.a.db).trg)

(* C13 JSON *)
OpName(o) == CASE o = "I" -> "insert" [] o = "U" -> "update" [] o = "D" -> "delete"
JsonEntry(cs, e) ==
  LET Val(s, i) == IF i \in DOMAIN s /\ s[i] # U THEN Json(s[i]) ELSE "-"
      n == Len(cs.tabs[e.t].pk)
      cols == SelectSeq([i \in 1..n |-> i], LAMBDA i : Val(e.old, i) # "-" \/ Val(e.new, i) # "-")
  IN  <<cs.tabs[e.t].n, OpName(e.op), [j \in DOMAIN cols |-> <<cols[j], Val(e.old, cols[j]), Val(e.new, cols[j])>>]>>
Count(cs, n, o) == Cardinality({i \in DOMAIN cs.ent : cs.ent[i].op = o /\ cs.tabs[cs.ent[i].t].n = n})
C13(e, f, g, h) ==
  /\ (e.op = "list" /\ IsCs(f, e.a.cs)) =>
       /\ Must(e) => Ok(e)
       /\ Ok(e) => LET c == In(f, e.a.cs) j == In(g, e.a.out) IN
            /\ j.k = "jl"
            /\ j.ent = [i \in DOMAIN c.ent |-> JsonEntry(c, c.ent[i])]
  /\ (e.op = "summary" /\ IsCs(f, e.a.cs)) =>
       /\ Must(e) => Ok(e)
       /\ Ok(e) => LET c == In(f, e.a.cs) j == In(g, e.a.out) IN
            /\ j.k = "js"
            /\ Len(j.tabs) = Cardinality(CsTabNames(c))
            /\ Ran(j.tabs) = {<<n, Count(c, n, "I"), Count(c, n, "U"), Count(c, n, "D")>> : n \in CsTabNames(c)}

(* C11 *)
Flat(cs) == [i \in DOMAIN cs.ent |-> LET t == cs.tabs[cs.ent[i].t] IN
               <<t.n, [j \in DOMAIN t.pk |-> IF t.pk[j] > 0 THEN 1 ELSE 0], cs.ent[i].op, cs.ent[i].old, cs.ent[i].new>>]
(* written changesets are well-formed, readable and hold defined values only where they must *)
C11(e, f, g, h) ==
  /\ (e.op \in {"create", "rebasecs", "rebasecsx", "dump"} \/ (e.op = "invert" /\ IsCs(f, e.a.cs) /\ WellFormedCs(In(f, e.a.cs)))) => (Ok(e) =>
     /\ IsCs(g, e.a.out)
     /\ WellFormedCs(In(g, e.a.out)))
  \* SQLite's session extension reads the same entries
  /\ (e.op = "sqiter" /\ IsCs(f, e.a.cs) /\ WellFormedCs(In(f, e.a.cs))) => Ok(e) /\ K(g, e.a.out) = "sqi" /\ In(g, e.a.out).ent = Flat(In(f, e.a.cs))
  \* ... and applies them to the same effect (where keys have one column: for others this SQLite compares the flags
  \* with the positions of the columns in the key, against the documented format, and skips the table)
  /\ (e.op = "sqapply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs) /\ \A t \in Ran(In(f, e.a.cs).tabs) : Cardinality({i \in DOMAIN t.pk : t.pk[i] > 0}) = 1) =>
       /\ \A x \in {y \in h.diff : y[1] = f[e.a.cs].c /\ Fits(In(f, e.a.db), Content(y[2]))} :
            Ok(e) /\ IsDb(g, e.a.db) /\ RowsOf(In(g, e.a.db)) = RowsOf(Content(x[3])) /\ Unkeyed(In(g, e.a.db)) = Unkeyed(In(f, e.a.db))
       /\ \A x \in {y \in h.reb : y[1] = f[e.a.cs].c /\ Fits(In(f, e.a.db), Content(y[3]))} :
            \A y \in {z \in h.res : z[1] = x[2] /\ z[2] = x[3] /\ z[3] = x[4]} : Ok(e) /\ IsDb(g, e.a.db) /\ RowsOf(In(g, e.a.db)) = RowsOf(Content(y[4]))
  \* what was written can be read back, with the same changes
  /\ (e.op \in {"list", "summary", "count", "invert"} /\ IsCs(f, e.a.cs) /\ WellFormedCs(In(f, e.a.cs)) /\ Must(e) /\ e.miss = 0 /\ e.badout = 0) =>
       (Ok(e) \/ (e.op = "count" /\ e.rc >= 0)) /\ C02(e, f, g, h) /\ C03(e, f, g, h) /\ C13(e, f, g, h)
  \* changesets that the extension made have the same meaning for geodiff
  /\ (\A r \in {"cs", "mycs"} : IsCs(f, e.a[r]) => WellFormedCs(In(f, e.a[r]))) /\ e.op \in {"sqrecord", "sqinvert", "sqconcat"} => Ok(e) /\ IsCs(g, e.a.out) /\ WellFormedCs(In(g, e.a.out))
  /\ (\E r \in {"cs", "thcs", "mycs"} : Handle(f, e.a[r]) \in h.sq) =>
       /\ C01(e, f, g, h) /\ C02(e, f, g, h) /\ C03(e, f, g, h) /\ C04(e, f, g, h) /\ C06(e, f, g, h) /\ C08(e, f, g, h) /\ C09(e, f, g, h) /\ C13(e, f, g, h)

(* C14 schemas *)
C14(e, f, g, h) ==
  /\ (e.op = "create" /\ IsDb(f, e.a.base) /\ IsDb(f, e.a.mod)) =>
       /\ ~SameSchema(In(f, e.a.base), In(f, e.a.mod)) => ~Ok(e)
       /\ (SameSchema(In(f, e.a.base), In(f, e.a.mod)) /\ Must(e) /\ e.a.drv = "sqlite") => Ok(e)
  /\ (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
       ((\E i \in DOMAIN In(f, e.a.cs).ent :
          LET c == In(f, e.a.cs) x == c.tabs[c.ent[i].t] IN
          (x.n \notin TabNames(In(f, e.a.db)) \/ ~HeaderFits(Tab(In(f, e.a.db), x.n), x))) =>
       (~Ok(e) /\ Unchanged(e, f, g)))

(* C15 rebase refuses what it cannot do *)
C15(e, f, g, h) ==
  (e.op = "rebasecs" /\ IsDb(f, e.a.mod)) =>
     IF Refused(In(f, e.a.mod))
     THEN ~Ok(e) /\ Handle(g, e.a.out) = Handle(f, e.a.out) /\ Handle(g, e.a.conf) \in {0, Handle(f, e.a.conf)}
     ELSE (MTriples(e, f, h) # {} /\ Must(e)) => Ok(e)

(* C16 triggers *)
MetaOf(d, n) == IF \E i \in DOMAIN d.meta : d.meta[i][1] = n THEN Ran(d.meta[CHOOSE i \in DOMAIN d.meta : d.meta[i][1] = n][2]) ELSE {}
\* feature counts (table, count) that the triggers of GeoPackage maintain
FeatureCounts(d) == {<<r[1], r[2]>> : r \in MetaOf(d, "gpkg_ogr_contents")}
Counted(d) == \A i \in DOMAIN d.cnt : d.cnt[i][2] = d.cnt[i][3]
C16(e, f, g, h) ==
  (Mutates(e) /\ IsDb(f, e.a.db)) =>
     /\ IsDb(g, e.a.db)
     /\ Ran(In(f, e.a.db).trg) = Ran(In(g, e.a.db).trg)
     /\ Len(In(f, e.a.db).trg) = Len(In(g, e.a.db).trg)
     /\ (e.op = "apply" /\ IsCs(f, e.a.cs) /\ WellFormedCs(In(f, e.a.cs))) =>
          LET r == ApplyCs(In(f, e.a.db), In(f, e.a.cs)) IN
          /\ (r.ok /\ Must(e)) => Ok(e)
          /\ (Ok(e) /\ r.ok) => RowsOf(In(g, e.a.db)) = r.rows /\ Unkeyed(In(g, e.a.db)) = Unkeyed(In(f, e.a.db))
     \* where feature counts were right before they are right afterwards
     /\ Counted(In(f, e.a.db)) => Counted(In(g, e.a.db))

(* C17 dump *)
Emptied(d) == [d EXCEPT !.tabs = [i \in DOMAIN d.tabs |-> IF Keyed(d.tabs[i].pk) THEN [d.tabs[i] EXCEPT !.rows = {}] ELSE d.tabs[i]]]
C17(e, f, g, h) ==
  /\ (e.op = "dump" /\ IsDb(f, e.a.base) /\ e.a.drv = "sqlite") =>
       /\ Must(e) => Ok(e)
       /\ Ok(e) => IsCs(g, e.a.out) /\ IsDiff(Emptied(In(f, e.a.base)), In(f, e.a.base), In(g, e.a.out))
  /\ (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
       \A x \in {y \in h.dump : y[1] = f[e.a.cs].c /\ SameSchema(In(f, e.a.db), Content(y[2])) /\ RowsOf(In(f, e.a.db)) = RowsOf(Emptied(Content(y[2])))} :
          /\ Must(e) => Ok(e)
          /\ Ok(e) => IsDb(g, e.a.db) /\ RowsOf(In(g, e.a.db)) = RowsOf(Content(x[2]))

(* C20 success means complete, failure of a modifying call means unchanged *)
Complete(e, f, g, h) ==
  /\ C01(e, f, g, h) /\ C02(e, f, g, h) /\ C03(e, f, g, h) /\ C06(e, f, g, h) /\ C07(e, f, g, h) /\ C08(e, f, g, h)
  /\ C09(e, f, g, h) /\ C11(e, f, g, h) /\ C13(e, f, g, h) /\ C16(e, f, g, h) /\ C17(e, f, g, h)
  /\ (e.op = "apply" /\ IsDb(f, e.a.db) /\ IsCs(f, e.a.cs)) =>
       LET r == ApplyCs(In(f, e.a.db), In(f, e.a.cs)) IN r.ok /\ IsDb(g, e.a.db) /\ RowsOf(In(g, e.a.db)) = r.rows
C20(e, f, g, h) ==
  (e.op # "env" /\ e.fault > 0) =>
     /\ RcOk(e)
     /\ (IF e.op \in {"has", "count"} THEN e.rc # -1 ELSE Ok(e)) => Complete([e EXCEPT !.fault = 0], f, g, h)
     /\ (Mutates(e) /\ ~Ok(e) /\ IsDb(f, e.a.db)) => IsDb(g, e.a.db) /\ SameRows(In(f, e.a.db), In(g, e.a.db)) /\ Ran(In(f, e.a.db).trg) = Ran(In(g, e.a.db).trg)

(* C21 contract of errors and logging *)
ErrVal(e) == IF e.op \in {"has", "count"} THEN -1 ELSE 1
Reads(e, f) ==
  CASE e.op = "create" -> {e.a.base, e.a.mod}
    [] e.op = "apply" -> {e.a.db, e.a.cs}
    [] e.op = "invert" -> {e.a.cs}
    [] e.op \in {"has", "count", "list", "summary"} -> {e.a.cs}
    [] e.op = "rebasecs" -> {e.a.base, e.a.mod, e.a.thcs}
    [] e.op = "rebasecsx" -> {e.a.mycs, e.a.thcs}
    [] e.op = "rebase" -> {e.a.base, e.a.thdb, e.a.db}
    \* with an empty changeset of theirs nothing else is read
    [] e.op = "rebasex" -> IF IsCs(f, e.a.thcs) /\ In(f, e.a.thcs).size = 0 THEN {e.a.thcs} ELSE {e.a.base, e.a.db, e.a.thcs}
    [] e.op = "dump" -> {e.a.base}
    [] e.op = "copy" -> {e.a.base}
    [] OTHER -> {}
Wrong(e, f) == e.miss > 0 \/ e.badout > 0 \/ e.a.drv # "sqlite" \/ \E p \in Reads(e, f) : p \notin DOMAIN f
\* identity of a call, the contents of all files it gets, and its outcome
CallOf(e) == <<e.fn, e.a, e.miss, e.badout>>
ArgsOf(e, f) == {<<p, f[p].c>> : p \in {e.a[r] : r \in DOMAIN e.a} \cap DOMAIN f}
OutcomeOf(e, g) == <<e.rc, {<<p, g[p].c>> : p \in {e.a[r] : r \in DOMAIN e.a} \cap DOMAIN g}>>
\* the prediction of Api.tla (exp is "" where there is none)
AsPredicted(e) ==
  CASE e.exp = "ok" -> e.rc = 0 [] e.exp = "err" -> e.rc = ErrVal(e) [] e.exp = "zero" -> e.rc = 0 [] e.exp = "some" -> e.rc > 0
    [] OTHER -> TRUE
\* files with equal labels have equal rows
LabelsOk(e, g, h) ==
  \A i \in DOMAIN e.labs : LET p == e.labs[i][1] v == e.labs[i][2] IN
    /\ IsDb(g, p)
    /\ \A x \in {y \in h.lab : y[1] = v} : x[2] = Handle(g, p) \/ SameRows(Content(x[2]), In(g, p))
\* messages of a level that were printed, or recorded
PerLevel(s, l) == Cardinality({i \in DOMAIN s : s[i] = l})
C21(e, f, g, h) ==
  e.op # "env" =>
     /\ (Wrong(e, f) /\ e.fault = 0) => /\ e.rc = ErrVal(e)
                                        /\ e.level >= 1 => \E i \in DOMAIN e.lv : e.lv[i] = 1
                                        /\ \A p \in DOMAIN f \ Writable(e) : p \in DOMAIN g /\ g[p].h = f[p].h
                                        /\ (Mutates(e) /\ e.a.db \in DOMAIN f) => e.a.db \in DOMAIN g /\ g[e.a.db].h = f[e.a.db].h
                                        /\ DOMAIN g \subseteq DOMAIN f \cup Writable(e)
     \* whatever the reason of a failure
     /\ (e.rc = ErrVal(e) /\ e.level >= 1 /\ e.killed = 0) => \E i \in DOMAIN e.lv : e.lv[i] = 1
     /\ \A i \in DOMAIN e.lv : e.lv[i] <= e.level /\ e.lv[i] >= 1
     /\ e.rc \in {0, 1} \/ e.op \in {"has", "count"}
     /\ AsPredicted(e)
     \* the same call on the same files with another level: same result, messages filtered
     /\ \A x \in {y \in h.memo : y[1] = CallOf(e) /\ y[2] = ArgsOf(e, f)} :
          /\ x[3][1] = e.rc
          /\ LET lo == IF x[4] < e.level THEN x[4] ELSE e.level IN
             IF e.via = "print" THEN \A l \in 1..4 : PerLevel(e.lv, l) = (IF l <= e.level THEN Cardinality({i \in DOMAIN x[5] : x[5][i][1] = l}) ELSE 0)
             ELSE SelectSeq(x[5], LAMBDA m : m[1] <= lo) = SelectSeq(e.lm, LAMBDA m : m[1] <= lo)
     /\ e.via = "print" => \E y \in h.memo : y[1] = CallOf(e) /\ y[2] = ArgsOf(e, f)

(* C22 no influence of earlier calls, nothing left open *)
C22(e, f, g, h) ==
  e.op # "env" =>
     /\ e.fds = 0 /\ e.locked = 0
     /\ AsPredicted(e)
     /\ LabelsOk(e, g, h)
     \* the same call on the same files (in a fresh process): the same outcome and messages
     /\ \A x \in {y \in h.memo : y[1] = CallOf(e) /\ y[2] = ArgsOf(e, f)} : x[3] = OutcomeOf(e, g) /\ (x[4] = e.level => x[5] = e.lm)

(* C18 concurrent processes: e.calls ran at the same time from files f to files g; each has the outcome that it had alone *)
C18(e, f, g, h) ==
  e.op = "conc" =>
     LET W == UNION {Writable(e.calls[i]) : i \in DOMAIN e.calls} IN
     /\ \A i \in DOMAIN e.calls : LET c == e.calls[i] IN
          \E x \in h.memo : x[1] = CallOf(c) /\ x[2] = ArgsOf(c, f) /\ x[3] = OutcomeOf(c, g)
     /\ DOMAIN g \subseteq DOMAIN f \cup W
     /\ \A p \in DOMAIN f \ W : p \in DOMAIN g /\ g[p].h = f[p].h

(* C19 one sync of a client: e.a.db its copy, e.a.base the version it fetched last, e.a.thdb the server; e.rcs the results of all
   calls; e.tagc: which column of a table identifies a row.  h.sync.alive: {<<table, row>>} what is on the server if nothing got lost *)
TagCol(e, n) == LET S == {i \in DOMAIN e.tagc : e.tagc[i][1] = n} IN e.tagc[CHOOSE i \in S : TRUE][2]
TaggedNames(e) == {e.tagc[i][1] : i \in DOMAIN e.tagc}
AllRows(e, d) == UNION {{<<n, r>> : r \in Rows(Tab(d, n))} : n \in TaggedNames(e)}
Reused(e, f) == \E n \in TaggedNames(e) : LET b == Tab(In(f, e.a.base), n) s == Tab(In(f, e.a.thdb), n) IN
                  \E x \in Rows(b) : HasKey(b.pk, Rows(s), Key(b.pk, x)) /\ RowAt(b.pk, Rows(s), Key(b.pk, x))[TagCol(e, n)] # x[TagCol(e, n)]
Alive0(e, f, h) == IF h.sync.on THEN h.sync.alive ELSE AllRows(e, In(f, e.a.thdb))
\* what is alive after the copy M of the version B was pushed: its inserted rows, its deletions, its changed columns
PushRows(n, tc, A, B, M) ==
  LET bt == {r[tc] : r \in B} mt == {r[tc] : r \in M} at == {x[2][tc] : x \in A}
      Old(t) == CHOOSE r \in B : r[tc] = t
      New(t) == CHOOSE r \in M : r[tc] = t
      Is(t) == (CHOOSE x \in A : x[2][tc] = t)[2] IN
  {<<n, IF t \notin bt THEN (IF t \in mt THEN New(t) ELSE Is(t))
        ELSE [i \in DOMAIN Is(t) |-> IF New(t)[i] # Old(t)[i] THEN New(t)[i] ELSE Is(t)[i]]>> : t \in (at \ (bt \ mt)) \cup (mt \ bt)}
Alive1(e, f, h) == LET A == Alive0(e, f, h) IN
  UNION {PushRows(n, TagCol(e, n), {x \in A : x[1] = n}, Rows(Tab(In(f, e.a.base), n)), Rows(Tab(In(f, e.a.db), n))) : n \in TaggedNames(e)}
SyncAfter(e, f, h) == IF h.sync.reused \/ Reused(e, f) THEN [on |-> TRUE, reused |-> TRUE, alive |-> {}]
                      ELSE [on |-> TRUE, reused |-> FALSE, alive |-> Alive1(e, f, h)]
Stripped(e, g, S) == {<<x[1], NoKey(Tab(In(g, e.a.thdb), x[1]).pk, x[2])>> : x \in S}
C19(e, f, g, h) ==
  /\ e.op = "sync" =>
       /\ \A i \in DOMAIN e.rcs : e.rcs[i] = 0
       /\ \A p \in {e.a.db, e.a.base, e.a.thdb} : IsDb(g, p) /\ SameRows(In(g, p), In(g, e.a.thdb))
       /\ \A p \in DOMAIN f \ {e.a.db, e.a.base, e.a.thdb} : p \in DOMAIN g /\ g[p].h = f[p].h
       /\ DOMAIN g = DOMAIN f
       \* without edits of the client the server stays as it is
       /\ SameRows(In(f, e.a.db), In(f, e.a.base)) => SameRows(In(f, e.a.thdb), In(g, e.a.thdb))
       /\ LET s == SyncAfter(e, f, h) R == AllRows(e, In(g, e.a.thdb)) IN
          s.reused \/ (Stripped(e, g, R) = Stripped(e, g, s.alive) /\ Cardinality(R) = Cardinality(s.alive))
  /\ e.op = "conv" => \A i \in DOMAIN e.copies : IsDb(g, e.copies[i]) /\ SameRows(In(g, e.copies[i]), In(g, e.copies[1]))

(* C24 names and places of files do not matter: the same call with files of the same contents has the same outcome *)
Roles == {"base", "mod", "db", "thdb", "cs", "thcs", "mycs", "out", "conf"}
Aliases(e) == {x \in Roles \X Roles : e.a[x[1]] # "" /\ e.a[x[1]] = e.a[x[2]]}
NameCall(e) == <<e.fn, e.miss, e.a.drv, e.a.drv2, Aliases(e)>>
ByRole(e, f) == [r \in Roles |-> Handle(f, e.a[r])]
C24(e, f, g, h) ==
  (e.op # "env" /\ e.fault = 0) =>
     /\ C10(e, f, g, h)
     /\ LET X == {y \in h.nm : y[1] = NameCall(e) /\ y[2] = ByRole(e, f)} IN
        /\ e.exp = "same" => X # {}
        /\ \A x \in X : x[3] = <<e.rc, ByRole(e, g)>>

(* C23 front ends: e.via says by which one the call was made ("" the C API).
   op "argv": a command line with too few arguments, an unknown mode or "version"; "pystub": the Python module with a library that returns
   a given code (also one with another version) *)
C23(e, f, g, h) ==
  CASE e.op = "env" -> TRUE
    [] e.op = "argv" ->
         /\ CliMeaning(e.mode, e.n) = e.meaning
         /\ f = g
         /\ IF e.meaning = "version" THEN e.rc = 0 /\ e.text = e.want ELSE e.rc = 1
    [] e.op = "pystub" -> f = g /\ (IF e.fn = "version" THEN e.got = e.want
                                  ELSE IF e.fn = "load" THEN e.got = <<IF e.text = e.want THEN "returned" ELSE "GeoDiffLibVersionError", 0>>
                                  ELSE e.got = PyOutcome(e.fn, e.rc))
    [] e.via \in {"", "print"} -> TRUE
    [] OTHER ->
         LET X == {x \in h.memo : x[1] = CallOf(e) /\ x[2] = ArgsOf(e, f)} IN
         /\ X # {}
         /\ C10(e, f, g, h)
         /\ \A x \in X :
              LET o == PyOutcome(e.fn, x[3][1]) IN
              /\ IF e.via = "py" THEN e.got = o ELSE e.rc = x[3][1]
              /\ x[3][2] = OutcomeOf(e, g)[2]
              \* the messages up to the level
              /\ \A l \in 1..4 : PerLevel(e.lv, l) = (IF l <= e.level THEN Cardinality({i \in DOMAIN x[5] : x[5][i][1] = l}) ELSE 0)
              /\ e.via = "py" => e.lm = SelectSeq(x[5], LAMBDA m : m[1] <= e.level)

(* C12: malformed changesets (raw) are errors and change nothing; no call ends abnormally *)
C12(e, f, g, h) ==
  e.op # "env" =>
     /\ RcOk(e)
     /\ (e.op \in {"apply", "count", "list", "summary", "invert"} /\ K(f, e.a.cs) = "raw") => e.rc = ErrVal(e)
     /\ (e.op \in {"rebasecs", "rebasex"} /\ K(f, e.a.thcs) = "raw") => e.rc = ErrVal(e)
     /\ (e.op = "rebasecsx" /\ K(f, e.a.thcs) = "raw" /\ In(f, e.a.mycs) # None) => e.rc = ErrVal(e)
     /\ (e.op = "rebasecsx" /\ K(f, e.a.mycs) = "raw" /\ (IsCs(f, e.a.thcs) => In(f, e.a.thcs).size > 0)) => e.rc = ErrVal(e)
     /\ (Mutates(e) /\ ~Ok(e) /\ IsDb(f, e.a.db)) => IsDb(g, e.a.db) /\ SameRows(In(f, e.a.db), In(g, e.a.db)) /\ Ran(In(f, e.a.db).trg) = Ran(In(g, e.a.db).trg)

---------------------------------------------------------------------------
(* The history *)

NextHist(e, f, g, h) ==
  LET new(p) == Handle(g, p)
      diff == CASE e.op = "create" /\ Ok(e) /\ IsDb(f, e.a.base) /\ IsDb(f, e.a.mod) /\ IsCs(g, e.a.out) -> {<<new(e.a.out), Handle(f, e.a.base), Handle(f, e.a.mod)>>}
                [] e.op = "invert" /\ Ok(e) /\ IsCs(g, e.a.out) -> {<<new(e.a.out), x[3], x[2]>> : x \in {y \in h.diff : y[1] = Handle(f, e.a.cs)}}
                [] e.op = "sqinvert" /\ Ok(e) /\ IsCs(g, e.a.out) -> {<<new(e.a.out), x[3], x[2]>> : x \in {y \in h.diff : y[1] = Handle(f, e.a.cs)}}
                [] e.op = "sqrecord" /\ Ok(e) /\ IsDb(f, e.a.db) /\ IsDb(g, e.a.db) /\ IsCs(g, e.a.out) -> {<<new(e.a.out), Handle(f, e.a.db), Handle(g, e.a.db)>>}
                [] e.op = "sqconcat" /\ Ok(e) /\ IsCs(g, e.a.out) ->
                     {<<new(e.a.out), x[1][2], x[2][3]>> : x \in {y \in h.diff \X h.diff : y[1][1] = Handle(f, e.a.cs) /\ y[2][1] = Handle(f, e.a.mycs) /\ SameRows(Content(y[1][3]), Content(y[2][2]))}}
                [] OTHER -> {}
      dump == IF e.op = "dump" /\ Ok(e) /\ IsDb(f, e.a.base) /\ IsCs(g, e.a.out) THEN {<<new(e.a.out), Handle(f, e.a.base)>>} ELSE {}
      reb == IF e.op \in {"rebasecs", "rebasecsx"} /\ Ok(e) /\ IsCs(g, e.a.out)
             THEN {<<new(e.a.out), x[1], x[2], x[3], Handle(g, e.a.conf)>> : x \in Triples(e, f, h)} ELSE {}
      res == IF e.op = "apply" /\ Ok(e) /\ IsDb(g, e.a.db) /\ IsDb(f, e.a.db)
             THEN {<<x[2], x[3], x[4], new(e.a.db)>> : x \in {y \in h.reb : y[1] = Handle(f, e.a.cs) /\ y[1] \notin h.sq /\ Fits(In(f, e.a.db), Content(y[3]))}} ELSE {}
      memo == IF e.memo > 0 /\ e.fault = 0 THEN {<<CallOf(e), ArgsOf(e, f), OutcomeOf(e, g), e.level, e.lm>>} ELSE {}
      nm == IF e.memo > 0 /\ e.fault = 0 THEN {<<NameCall(e), ByRole(e, f), <<e.rc, ByRole(e, g)>> >>} ELSE {}
  IN  [nm |-> h.nm \cup nm, diff |-> h.diff \cup diff, dump |-> h.dump \cup dump, sq |-> h.sq \cup (IF (e.op \in {"sqrecord", "sqinvert", "sqconcat"} \/ (e.op = "rebasecsx" /\ Handle(f, e.a.mycs) \in h.sq)) /\ Ok(e) THEN {new(e.a.out)} ELSE {}), reb |-> h.reb \cup reb, res |-> h.res \cup res, memo |-> h.memo \cup memo, sync |-> IF e.op = "sync" THEN SyncAfter(e, f, h) ELSE h.sync,
       lab |-> h.lab \cup {<<e.labs[i][2], Handle(g, e.labs[i][1])>> : i \in {j \in DOMAIN e.labs : IsDb(g, e.labs[j][1])}}]

Clause(p, e, f, g, h) ==
  CASE p = "C01" -> C01(e, f, g, h) [] p = "C02" -> C02(e, f, g, h) [] p = "C03" -> C03(e, f, g, h)
    [] p = "C04" -> C04(e, f, g, h) [] p = "C05" -> C05(e, f, g, h) [] p = "C06" -> C06(e, f, g, h) [] p = "C07" -> C07(e, f, g, h)
    [] p = "C08" -> C08(e, f, g, h) [] p = "C09" -> C09(e, f, g, h) [] p = "C10" -> C10(e, f, g, h)
    [] p = "C11" -> C11(e, f, g, h) [] p = "C12" -> C12(e, f, g, h) [] p = "C13" -> C13(e, f, g, h)
    [] p = "C14" -> C14(e, f, g, h) [] p = "C15" -> C15(e, f, g, h) [] p = "C16" -> C16(e, f, g, h)
    [] p = "C17" -> C17(e, f, g, h) [] p = "C18" -> C18(e, f, g, h) [] p = "C19" -> C19(e, f, g, h) [] p = "C20" -> C20(e, f, g, h) [] p = "C21" -> C21(e, f, g, h)
    [] p = "C22" -> C22(e, f, g, h) [] p = "C23" -> C23(e, f, g, h) [] p = "C24" -> C24(e, f, g, h)
=============================================================================
