----------------------------- MODULE MC_Merge ------------------------------
(***************************************************************************)
(* The rebase algorithm against the declarative merge, for all combinations*)
(* of edits of one row of BASE and all pairs of sets of inserted keys; and *)
(* in-place rebase = inverse of mine, then theirs, then rebased.           *)
(* With DumpTo # "" the cases are also written as JSON: they are run       *)
(* against the implementation.                                             *)
(***************************************************************************)
EXTENDS Rebase, Json, IOUtils
CONSTANTS InsKeys   \* keys that may be inserted
PK == <<1, 0, 0>>
cell(k) == "i:" \o ToString(k)
key(c) == CHOOSE k \in (0 - 2)..60 : cell(k) = c
T(R) == [n |-> "t", pk |-> PK, nn |-> <<0, 0, 0>>, uq |-> <<>>, aff |-> <<"B", "B", "B">>, sig |-> "s", rows |-> R]
Base == {<<cell(1), "a", "b">>}
\* what a side may do to the row of BASE: v stands for its own new value
Edits(v) == {{}} \cup {{<<cell(1), x, y>>} : x \in {"a", v, "z"}, y \in {"b", v, "z"}}
Ins(side, S) == {<<cell(k), side, side>> : k \in S}
VARIABLES t, m, done
vars == <<t, m, done>>
Init == /\ t \in {e \cup Ins("t", S) : e \in Edits("t"), S \in SUBSET InsKeys}
        /\ m \in {e \cup Ins("m", S) : e \in Edits("m"), S \in SUBSET InsKeys}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, m>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Th == Ordered(DiffEntries(PK, Base, t))
Mi == Ordered(DiffEntries(PK, Base, m))
R == IF Th = <<>> THEN [out |-> Mi, map |-> << >>, conf |-> {}]
     ELSE IF Mi = <<>> THEN [out |-> <<>>, map |-> << >>, conf |-> {}]
     ELSE RebaseTable(PK, Th, Mi, key, cell)
Final == ApplyEntries(T(t), t, R.out)
InvMi == [i \in DOMAIN Mi |-> InvertEntry(PK, Mi[Len(Mi) + 1 - i])]
InPlace == ApplyEntries(T(m), m, InvMi \o Th \o R.out)

Applies == Final.ok
MergeOk == Merged(PK, Base, t, m, Final.rows)
PiecesOk == MergedBase(PK, Base, t, m, Final.rows) /\ MergedInserts(PK, Base, t, m, Final.rows)
\* the pieces say the same as the whole, of right and of wrong outcomes
SamePieces == \A F \in {Base, t, m, Base \cup t, t \cup m, Final.rows \cup m, Final.rows \ t} \cup {Final.rows \ {r} : r \in Final.rows} :
                Merged(PK, Base, t, m, F) = (MergedBase(PK, Base, t, m, F) /\ MergedInserts(PK, Base, t, m, F))
ConflictOk == {<<cell(c[1]), c[2]>> : c \in R.conf} = Conflicts(PK, Base, t, m, {})
InPlaceOk == InPlace.ok /\ InPlace.rows = Final.rows
EmptyOk == (t = Base => Ran(R.out) = DiffEntries(PK, Base, m)) /\ (m = Base => R.out = <<>>)
FreshOk == \A k \in DOMAIN R.map : cell(R.map[k]) \notin {r[1] : r \in Base \cup t}
=============================================================================
