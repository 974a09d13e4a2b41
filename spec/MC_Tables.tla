----------------------------- MODULE MC_Tables -----------------------------
(***************************************************************************)
(* Diff, apply and invert for all small tables: two keys, two further      *)
(* columns over Vals.  The implementation's order of entries is Ordered.   *)
(***************************************************************************)
EXTENDS Rebase
CONSTANTS Vals, Keys
PK == <<1, 0, 0>>
RowsAll == {<<k, x, y>> : k \in Keys, x \in Vals, y \in Vals}
Tables1 == {R \in SUBSET RowsAll : Cardinality({r[1] : r \in R}) = Cardinality(R)}
T(R) == [n |-> "t", pk |-> PK, nn |-> <<0, 0, 0>>, uq |-> <<>>, aff |-> <<"B", "B", "B">>, sig |-> "s", rows |-> R]
VARIABLES b, m, d, cs
vars == <<b, m, d, cs>>
\* d: any database that the changeset gets applied to
Init == b \in Tables1 /\ m \in Tables1 /\ d = b /\ cs = <<>>
Diff == cs = <<>> /\ cs' = Ordered(DiffEntries(PK, b, m)) /\ UNCHANGED <<b, m, d>>
Apply == cs # <<>> /\ LET r == ApplyEntries(T(d), d, cs) IN r.ok /\ d' = r.rows /\ UNCHANGED <<b, m, cs>>
Invert == cs # <<>> /\ cs' = [i \in DOMAIN cs |-> InvertEntry(PK, cs[Len(cs) + 1 - i])] /\ UNCHANGED <<b, m, d>>
Next == Diff \/ Apply \/ Invert
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
DiffCs == Ordered(DiffEntries(PK, b, m))
InvCs == [i \in DOMAIN DiffCs |-> InvertEntry(PK, DiffCs[i])]
\* C01, C02, C03 on the design
Roundtrip == LET r == ApplyEntries(T(b), b, DiffCs) IN r.ok /\ r.rows = m
Minimal == /\ \A i \in DOMAIN DiffCs : WellFormedEntry(PK, DiffCs[i])
           /\ Len(DiffCs) = Cardinality({k \in KeysOf(PK, b \cup m) : {r \in b : Key(PK, r) = k} # {r \in m : Key(PK, r) = k}})
Undo == LET r == ApplyEntries(T(m), m, InvCs) IN r.ok /\ r.rows = b
Twice == [i \in DOMAIN InvCs |-> InvertEntry(PK, InvCs[i])] = DiffCs
InvIsDiff == Ran(InvCs) = DiffEntries(PK, m, b)
\* the two ways to apply agree on whether the entries fit any table, and if they do on the result
AtOnce == cs = <<>> =>
            \A es \in {DiffCs, InvCs} : Separate(T(d), es) /\
              \A R \in Tables1 : LET x == ApplyAtOnce(T(R), R, es) y == ApplyFold(T(R), R, es) IN x.ok = y.ok /\ (x.ok => x.rows = y.rows)
\* whatever sequence of (inverse) applications: the database is always b or m
Closed == d \in {b, m}
=============================================================================
