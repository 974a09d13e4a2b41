------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Databases, rows and changesets, and the three basic transformations of  *)
(* geodiff: diff, apply and invert.                                        *)
(*                                                                         *)
(* A cell is a token (a string): "n" is NULL, "i:5" an integer, "r:..." a  *)
(* real (its 64 bits), "t:..." a text, "b:..." a blob.  "u" never is in a  *)
(* row: in a changeset it is the "undefined" (unchanged) value.            *)
(* A row is a tuple of cells.  A table is a record                         *)
(*   [n: name, pk: tuple of 0/1 per column (0: not in the key),            *)
(*    aff: column affinities, nn: tuple of 0/1 (NOT NULL), uq: tuple of tuples of column indexes   *)
(*    (UNIQUE constraints), rows: tuple of rows, sig: text (the schema)]   *)
(* A database has tabs: tuple of tables.  A changeset has                  *)
(*   tabs: tuple of [n, pk] headers in file order                          *)
(*   ent:  tuple of [t: index of header, op: "I"/"U"/"D", ind, old, new]   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

U == "u"
NULL == "n"

Ran(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* Rows and keys *)

PkIdx(pk) == {i \in DOMAIN pk : pk[i] > 0}
Keyed(pk) == \E i \in DOMAIN pk : pk[i] > 0
Key(pk, r) == [i \in PkIdx(pk) |-> r[i]]
KeysOf(pk, R) == {Key(pk, r) : r \in R}
\* the row of R with key k (there is at most one)
RowAt(pk, R, k) == CHOOSE r \in R : Key(pk, r) = k
HasKey(pk, R, k) == \E r \in R : Key(pk, r) = k

Rows(t) == t.rows
TabNames(db) == {db.tabs[i].n : i \in DOMAIN db.tabs}
Tab(db, n) == db.tabs[CHOOSE i \in DOMAIN db.tabs : db.tabs[i].n = n]

\* the rows of all keyed tables, as a function name -> set of rows
KeyedNames(db) == {db.tabs[i].n : i \in {j \in DOMAIN db.tabs : Keyed(db.tabs[j].pk)}}
RowsOf(db) == [n \in KeyedNames(db) |-> Rows(Tab(db, n))]
\* the rows of the tables without a key (a bag, given as a sorted tuple)
Unkeyed(db) == [n \in {db.tabs[i].n : i \in {j \in DOMAIN db.tabs : ~Keyed(db.tabs[j].pk)}} |-> Tab(db, n).rows]
SameRows(a, b) == RowsOf(a) = RowsOf(b) /\ Unkeyed(a) = Unkeyed(b)

\* same tables with the same columns
Schema(db) == {<<db.tabs[i].n, db.tabs[i].sig>> : i \in DOMAIN db.tabs}
SameSchema(a, b) == Schema(a) = Schema(b)

---------------------------------------------------------------------------
(* Diff *)

\* S itself (TLC finds elements faster in a set whose size it has computed)
Sorted(S) == IF Cardinality(S) >= 0 THEN S ELSE {}

InsE(r) == [op |-> "I", old |-> <<>>, new |-> r]
DelE(r) == [op |-> "D", old |-> r, new |-> <<>>]
UpdE(pk, b, m) == [op |-> "U",
                   old |-> [i \in DOMAIN b |-> IF pk[i] > 0 \/ b[i] # m[i] THEN b[i] ELSE U],
                   new |-> [i \in DOMAIN b |-> IF b[i] # m[i] THEN m[i] ELSE U]]

\* the set of entries that describe the change of a table from the rows B to the rows M
DiffEntries(pk, B, M) ==
  LET bo == Sorted(B \ M)
      mo == Sorted(M \ B)
      kb == Sorted(KeysOf(pk, bo))
      km == Sorted(KeysOf(pk, mo))
      \* the rows that are on both sides, with their keys, in the same order
      bs == SetToSeq(Sorted({<<Key(pk, r), r>> : r \in {x \in bo : Key(pk, x) \in km}}))
      ms == SetToSeq(Sorted({<<Key(pk, r), r>> : r \in {x \in mo : Key(pk, x) \in kb}}))
      aligned == Len(bs) = Len(ms) /\ \A i \in DOMAIN bs : bs[i][1] = ms[i][1]
  IN  {InsE(r) : r \in {x \in mo : Key(pk, x) \notin kb}}
      \cup {DelE(r) : r \in {x \in bo : Key(pk, x) \notin km}}
      \cup IF aligned THEN {UpdE(pk, bs[i][2], ms[i][2]) : i \in DOMAIN bs}
           ELSE UNION {{UpdE(pk, b, m) : m \in {x \in mo : Key(pk, x) = Key(pk, b)}} : b \in bo}

\* the entries of a changeset that belong to the table n, as a tuple of [op, old, new]
CsEntries(cs, n) ==
  LET s == SelectSeq(cs.ent, LAMBDA e : cs.tabs[e.t].n = n)
  IN  [i \in DOMAIN s |-> [op |-> s[i].op, old |-> s[i].old, new |-> s[i].new]]
CsTabNames(cs) == {cs.tabs[cs.ent[i].t].n : i \in DOMAIN cs.ent}

\* the key of an entry
EKey(pk, e) == IF e.op = "I" THEN Key(pk, e.new) ELSE Key(pk, e.old)

\* cs lists exactly the difference from database b to database m
IsDiff(b, m, cs) ==
  /\ CsTabNames(cs) \subseteq {n \in TabNames(b) : Keyed(Tab(b, n).pk)}
  /\ \A n \in TabNames(b) : Keyed(Tab(b, n).pk) =>
       LET D == DiffEntries(Tab(b, n).pk, Rows(Tab(b, n)), Rows(Tab(m, n)))
           E == CsEntries(cs, n)
       IN  Ran(E) = D /\ Len(E) = Cardinality(D)
  /\ \A i \in DOMAIN cs.ent : LET h == cs.tabs[cs.ent[i].t] IN
       [j \in DOMAIN h.pk |-> h.pk[j] > 0] = [j \in DOMAIN Tab(b, h.n).pk |-> Tab(b, h.n).pk[j] > 0]

\* well-formedness of one entry for a table with key flags pk
WellFormedEntry(pk, e) ==
  CASE e.op = "I" -> Len(e.new) = Len(pk) /\ Len(e.old) = 0 /\ \A i \in DOMAIN pk : e.new[i] # U
    [] e.op = "D" -> Len(e.old) = Len(pk) /\ Len(e.new) = 0 /\ \A i \in DOMAIN pk : e.old[i] # U
    [] e.op = "U" -> /\ Len(e.old) = Len(pk) /\ Len(e.new) = Len(pk)
                     /\ \A i \in DOMAIN pk : IF pk[i] > 0 THEN e.old[i] # U
                                             ELSE (e.old[i] = U) = (e.new[i] = U)
                     /\ \E i \in DOMAIN pk : e.new[i] # U
    [] OTHER -> FALSE
WellFormedCs(cs) == \A i \in DOMAIN cs.ent : WellFormedEntry(cs.tabs[cs.ent[i].t].pk, cs.ent[i])

---------------------------------------------------------------------------
(* Apply *)

\* constraints of table t that the row r would break besides the rows R
Violates(t, R, r) ==
  \/ \E i \in DOMAIN r : t.nn[i] > 0 /\ r[i] = NULL
  \/ \E j \in DOMAIN t.uq : LET c == t.uq[j] IN
       /\ \A i \in DOMAIN c : r[c[i]] # NULL
       /\ \E x \in R : \A i \in DOMAIN c : x[c[i]] = r[c[i]]

\* a column with TEXT affinity stores an integer as text
Coerce(a, c) == IF a = "T" /\ Len(c) > 2 /\ SubSeq(c, 1, 2) = "i:" THEN "t:" \o SubSeq(c, 3, Len(c)) ELSE c
Stored(t, r) == [i \in DOMAIN r |-> Coerce(t.aff[i], r[i])]

\* one entry on the rows R of table t: [ok, rows]
ApplyEntry(t, R, e) ==
  CASE e.op = "I" ->
         LET r == Stored(t, e.new) IN
         IF HasKey(t.pk, R, Key(t.pk, r)) \/ Violates(t, R, r)
         THEN [ok |-> FALSE, rows |-> R]
         ELSE [ok |-> TRUE, rows |-> R \cup {r}]
    [] e.op = "D" ->
         IF e.old \in R THEN [ok |-> TRUE, rows |-> R \ {e.old}]
         ELSE [ok |-> FALSE, rows |-> R]
    [] e.op = "U" ->
         LET k == Key(t.pk, e.old) IN
         IF ~HasKey(t.pk, R, k) THEN [ok |-> FALSE, rows |-> R]
         ELSE LET r == RowAt(t.pk, R, k)
                  r2 == [i \in DOMAIN r |-> IF e.new[i] # U THEN Coerce(t.aff[i], e.new[i]) ELSE r[i]]
                  rest == R \ {r}
              IN  IF \/ \E i \in DOMAIN r : t.pk[i] = 0 /\ e.new[i] # U /\ e.old[i] # r[i]
                     \/ Violates(t, rest, r2)
                     \/ HasKey(t.pk, rest, Key(t.pk, r2))
                  THEN [ok |-> FALSE, rows |-> R]
                  ELSE [ok |-> TRUE, rows |-> rest \cup {r2}]

\* a table sequence of entries: [ok, rows]; a failed entry makes the whole fail
ApplyFold(t, R, es) ==
  FoldLeft(LAMBDA s, e : IF ~s.ok THEN s
                         ELSE LET a == ApplyEntry(t, s.rows, e) IN [ok |-> a.ok, rows |-> a.rows],
           [ok |-> TRUE, rows |-> R], es)

(* Entries about different rows do not depend on each other (without UNIQUE constraints, and if no key changes): they can be *)
(* applied at once, which TLC does much faster.  MC_Tables checks that the outcome is the same.                          *)
Separate(t, es) ==
  LET EK(e) == IF e.op = "I" THEN Key(t.pk, Stored(t, e.new)) ELSE Key(t.pk, e.old) IN
  /\ t.uq = <<>>
  /\ \A i \in DOMAIN es : es[i].op = "U" => \A j \in DOMAIN t.pk : t.pk[j] > 0 => es[i].new[j] = U
  /\ Cardinality({EK(es[i]) : i \in DOMAIN es}) = Len(es)
NnOk(t, r) == \A i \in DOMAIN r : t.nn[i] > 0 => r[i] # NULL
ApplyAtOnce(t, R0, es) ==
  LET R == Sorted(R0)
      Of(o) == {i \in DOMAIN es : es[i].op = o}
      ins == Sorted({Stored(t, es[i].new) : i \in Of("I")})
      ik == Sorted(KeysOf(t.pk, ins))
      dels == Sorted({es[i].old : i \in Of("D")})
      us == SetToSeq(Sorted({<<Key(t.pk, es[i].old), es[i].old, es[i].new>> : i \in Of("U")}))
      uk == Sorted({us[i][1] : i \in DOMAIN us})
      rs == SetToSeq(Sorted({<<Key(t.pk, r), r>> : r \in {x \in R : Key(t.pk, x) \in uk}}))
      aligned == \A i \in DOMAIN us : us[i][1] = rs[i][1]
      New(i) == [j \in DOMAIN t.pk |-> IF us[i][3][j] # U THEN Coerce(t.aff[j], us[i][3][j]) ELSE rs[i][2][j]]
      ok == /\ dels \subseteq R
            /\ \A r \in R : Key(t.pk, r) \notin ik
            /\ \A r \in ins : NnOk(t, r)
            /\ \A i \in DOMAIN us : /\ \A j \in DOMAIN t.pk : (t.pk[j] = 0 /\ us[i][3][j] # U) => us[i][2][j] = rs[i][2][j]
                                     /\ NnOk(t, New(i))
  IN  IF Len(us) # Len(rs) THEN [ok |-> FALSE, rows |-> R]
      ELSE IF ~aligned THEN ApplyFold(t, R, es)
      ELSE IF ok THEN [ok |-> TRUE, rows |-> ((R \ dels) \ {rs[i][2] : i \in DOMAIN rs}) \cup ins \cup {New(i) : i \in DOMAIN us}]
      ELSE [ok |-> FALSE, rows |-> R]
ApplyEntries(t, R, es) == IF Len(es) > 50 /\ Separate(t, es) THEN ApplyAtOnce(t, R, es) ELSE ApplyFold(t, R, es)

\* does the header fit the table (same number of columns, same key columns)?
HeaderFits(t, h) == Len(h.pk) = Len(t.pk) /\ \A i \in DOMAIN h.pk : (h.pk[i] > 0) = (t.pk[i] > 0)

\* a changeset on a database: [ok, rows: table name -> rows].  Rows of different tables do not interact.
ApplyCs(db, cs) ==
  LET names == CsTabNames(cs)
      known == /\ names \subseteq TabNames(db)
               /\ \A i \in DOMAIN cs.ent : LET h == cs.tabs[cs.ent[i].t] IN
                    h.n \in TabNames(db) /\ HeaderFits(Tab(db, h.n), h)
      res == [n \in names |-> ApplyEntries(Tab(db, n), Rows(Tab(db, n)), CsEntries(cs, n))]
  IN  IF ~known THEN [ok |-> FALSE, rows |-> RowsOf(db)]
      ELSE IF \A n \in names : res[n].ok
           THEN [ok |-> TRUE, rows |-> [n \in DOMAIN RowsOf(db) |-> IF n \in names THEN res[n].rows ELSE RowsOf(db)[n]]]
           ELSE [ok |-> FALSE, rows |-> RowsOf(db)]

---------------------------------------------------------------------------
(* Invert *)

InvertEntry(pk, e) ==
  CASE e.op = "I" -> [op |-> "D", old |-> e.new, new |-> <<>>]
    [] e.op = "D" -> [op |-> "I", old |-> <<>>, new |-> e.old]
    [] OTHER -> [op |-> "U",
                 old |-> [i \in DOMAIN e.old |-> IF pk[i] > 0 /\ e.new[i] = U THEN e.old[i] ELSE e.new[i]],
                 new |-> [i \in DOMAIN e.old |-> IF pk[i] > 0 /\ e.new[i] = U THEN U ELSE e.old[i]]]

\* b is the inverse of a: per table the inverted entries, as bags
Bag(s) == [x \in Ran(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameBag(a, b) == Len(a) = Len(b) /\ Ran(a) = Ran(b) /\ (Cardinality(Ran(a)) = Len(a) \/ Bag(a) = Bag(b))
IsInverse(a, b) ==
  /\ CsTabNames(a) = CsTabNames(b)
  /\ \A n \in CsTabNames(a) :
       LET ea == SelectSeq(a.ent, LAMBDA e : a.tabs[e.t].n = n)
           ia == [i \in DOMAIN ea |-> InvertEntry(a.tabs[ea[i].t].pk, ea[i])]
       IN  SameBag(ia, CsEntries(b, n))
SameChanges(a, b) ==
  /\ CsTabNames(a) = CsTabNames(b)
  /\ \A n \in CsTabNames(a) : SameBag(CsEntries(a, n), CsEntries(b, n))
=============================================================================
