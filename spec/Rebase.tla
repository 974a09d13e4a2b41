------------------------------- MODULE Rebase -------------------------------
(***************************************************************************)
(* Rebasing my changes (BASE -> MINE) on top of theirs (BASE -> THEIRS).   *)
(*                                                                         *)
(* Declarative part: what the merged table must look like (Merged), which  *)
(* conflicts must be reported (Conflicts).  Relational where the code has  *)
(* freedom: which fresh keys renumbered rows get.                          *)
(* Operational part: the algorithm of the implementation (RebaseTable), at *)
(* its grain: sets of keys touched by theirs, first free key, second pass  *)
(* over inserts that clash with keys handed out, re-based old values.      *)
(* MC_Merge checks that the algorithm meets the declarative part.          *)
(* All for tables with a single-column key.                                *)
(***************************************************************************)
EXTENDS Tables

KeyCol(pk) == CHOOSE i \in DOMAIN pk : pk[i] > 0
SingleKey(pk) == Cardinality(PkIdx(pk)) = 1
\* a row without its key
NoKey(pk, r) == [i \in (DOMAIN r \ PkIdx(pk)) |-> r[i]]
BagOf(S, f(_)) == [x \in {f(y) : y \in S} |-> Cardinality({y \in S : f(y) = x})]

\* column-wise merge of one row that all three have
MergeRow(b, t, m) == [i \in DOMAIN b |-> IF m[i] # b[i] THEN m[i] ELSE t[i]]

\* F is a correct merge of the tables B, T, M (sets of rows)
Merged(pk, B, T, M, F) ==
  LET KB == KeysOf(pk, B)
      TI == {r \in T : Key(pk, r) \notin KB}                       \* inserted by theirs
      MI == {r \in M : Key(pk, r) \notin KB}                       \* inserted by me
      KTI == KeysOf(pk, TI)
      clash == {r \in MI : Key(pk, r) \in KTI}
      bt == B \ T
      bm == B \ M
      \* rows of BASE changed by at least one side
      touched == KeysOf(pk, bt \cup bm)
      KF == KeysOf(pk, F)
      FB == {r \in F : Key(pk, r) \in KB}
      FN == {r \in F : Key(pk, r) \notin (KB \cup KTI)}
  IN  /\ Cardinality(KF) = Cardinality(F)
      \* rows of BASE
      /\ {r \in FB : Key(pk, r) \notin touched} = {r \in B : Key(pk, r) \notin touched}
      /\ \A k \in touched :
           LET b == RowAt(pk, B, k) IN
           IF HasKey(pk, T, k) /\ HasKey(pk, M, k)
           THEN MergeRow(b, RowAt(pk, T, k), RowAt(pk, M, k)) \in F
           ELSE k \notin KF
      \* rows inserted by theirs stay where they are
      /\ TI \subseteq F
      \* rows inserted by me are all there, those that did not clash under their own key
      /\ BagOf(FN, LAMBDA r : NoKey(pk, r)) = BagOf(MI, LAMBDA r : NoKey(pk, r))
      /\ \A r \in MI \ clash : r \in F \/ (clash # {} /\ Key(pk, r) \in KF)
\* pieces of Merged, for the properties C06 and C07, in forms that TLC computes faster (MC_Merge compares them with Merged)
\* the rows of S whose keys are in K with their keys, in the order of the keys
ByKey(pk, S, K) == SetToSeq(Sorted({<<Key(pk, r), r>> : r \in {x \in S : Key(pk, x) \in K}}))
MergedBase(pk, B, T, M, F) ==
  LET KB == Sorted(KeysOf(pk, B))
      touched == Sorted(KeysOf(pk, Sorted(B \ T) \cup Sorted(B \ M)))
      both == Sorted(touched \cap Sorted(KeysOf(pk, T)) \cap Sorted(KeysOf(pk, M)))
      FB == Sorted({r \in F : Key(pk, r) \in KB})
      bs == ByKey(pk, B, both)
      ts == ByKey(pk, T, both)
      ms == ByKey(pk, M, both)
  IN  /\ {r \in FB : Key(pk, r) \notin touched} = {r \in B : Key(pk, r) \notin touched}
      /\ Assert(Len(bs) = Len(ts) /\ Len(bs) = Len(ms) /\ \A i \in DOMAIN bs : bs[i][1] = ts[i][1] /\ bs[i][1] = ms[i][1], "keys are not aligned")
      /\ {r \in FB : Key(pk, r) \in touched} = {MergeRow(bs[i][2], ts[i][2], ms[i][2]) : i \in DOMAIN bs}
Clashing(pk, B, T, M) ==
  LET KB == Sorted(KeysOf(pk, B)) KT == Sorted(KeysOf(pk, T)) IN
  {r \in M : Key(pk, r) \notin KB /\ Key(pk, r) \in KT}
\* the rows of S without their keys, as often as they occur, in a certain order
Bodies(pk, S) == LET s == SetToSeq(Sorted({<<NoKey(pk, r), r>> : r \in S})) IN [i \in DOMAIN s |-> s[i][1]]
MergedInserts(pk, B, T, M, F) ==
  LET KB == Sorted(KeysOf(pk, B))
      TI == Sorted({r \in T : Key(pk, r) \notin KB})
      MI == Sorted({r \in M : Key(pk, r) \notin KB})
      KTI == Sorted(KeysOf(pk, TI))
      clash == Sorted({r \in MI : Key(pk, r) \in KTI})
      KF == Sorted(KeysOf(pk, F))
      FN == Sorted({r \in F : Key(pk, r) \notin (KB \cup KTI)})
  IN  /\ Cardinality(KF) = Cardinality(F)
      /\ TI \subseteq F
      /\ Bodies(pk, FN) = Bodies(pk, MI)
      /\ \A r \in MI \ clash : r \in F \/ (clash # {} /\ Key(pk, r) \in KF)

\* conflicts of a table: {<<key cell, {<<column, base, theirs, mine>>}>>}; skip: columns that are never reported
Conflicts(pk, B, T, M, skip) ==
  LET ok(S) == Sorted(KeysOf(pk, S))
      both == Sorted(ok(Sorted(B \ T)) \cap ok(Sorted(B \ M)) \cap ok(T) \cap ok(M))
      bs == ByKey(pk, B, both)
      ts == ByKey(pk, T, both)
      ms == ByKey(pk, M, both)
      Items(i) == LET b == bs[i][2] t == ts[i][2] m == ms[i][2]
                  IN  {<<j, b[j], t[j], m[j]>> : j \in {c \in DOMAIN b : t[c] # b[c] /\ m[c] # b[c] /\ c \notin skip}}
  IN  {<<bs[i][2][KeyCol(pk)], Items(i)>> : i \in {x \in DOMAIN bs : Items(x) # {}}}

---------------------------------------------------------------------------
(* The algorithm.  Keys are integers here (keys are cells elsewhere): key(c)*)
(* and cell(k) convert.  Entries are tuples of [op, old, new].             *)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the integers of S in ascending order
Ascending(S) == SortSeq(SetToSeq(S), LAMBDA a, b : a < b)

RebaseTable(pk, theirs, mine, key(_), cell(_)) ==
  LET kc == KeyCol(pk)
      K(e) == key(IF e.op = "I" THEN e.new[kc] ELSE e.old[kc])
      ins == {K(theirs[i]) : i \in {j \in DOMAIN theirs : theirs[j].op = "I"}}
      del == {K(theirs[i]) : i \in {j \in DOMAIN theirs : theirs[j].op = "D"}}
      upd == {K(theirs[i]) : i \in {j \in DOMAIN theirs : theirs[j].op = "U"}}
      Upd(k) == theirs[CHOOSE i \in DOMAIN theirs : theirs[i].op = "U" /\ K(theirs[i]) = k].new
      free0 == IF ins = {} THEN 0 ELSE MaxOf(ins) + 1
      mins == SelectSeq(mine, LAMBDA e : e.op = "I")
      \* first pass, in the order of my changeset
      p1 == FoldLeft(LAMBDA s, e : IF K(e) \in ins THEN [map |-> s.map @@ (K(e) :> s.free), free |-> s.free + 1] ELSE s,
                     [map |-> << >>, free |-> free0], mins)
      unmapped == {K(mins[i]) : i \in DOMAIN mins} \ ins
      \* second pass, in the order of the keys
      p2 == FoldLeft(LAMBDA s, k : IF k \in {s.map[x] : x \in DOMAIN s.map}
                                   THEN [map |-> s.map @@ (k :> s.free), free |-> s.free + 1] ELSE s,
                     p1, Ascending(unmapped))
      Out(e) ==
        CASE e.op = "I" -> <<[e EXCEPT !.new[kc] = IF K(e) \in DOMAIN p2.map THEN cell(p2.map[K(e)]) ELSE @]>>
          [] e.op = "D" -> IF K(e) \in del THEN <<>>
                           ELSE <<[e EXCEPT !.old = [i \in DOMAIN e.old |->
                                    IF pk[i] = 0 /\ K(e) \in upd /\ Upd(K(e))[i] # U THEN Upd(K(e))[i] ELSE e.old[i]]]>>
          [] e.op = "U" -> IF K(e) \in del THEN <<>>
                           ELSE <<[e EXCEPT !.old = [i \in DOMAIN e.old |->
                                    IF pk[i] = 0 /\ K(e) \in upd /\ Upd(K(e))[i] # U /\ e.new[i] # U
                                    THEN Upd(K(e))[i] ELSE e.old[i]]]>>
  IN  [out |-> FlattenSeq([i \in DOMAIN mine |-> Out(mine[i])]),
       map |-> p2.map,
       conf |-> {<<K(mine[j]), {<<i, mine[j].old[i], Upd(K(mine[j]))[i], mine[j].new[i]>> :
                   i \in {c \in DOMAIN mine[j].new : Upd(K(mine[j]))[c] # U /\ mine[j].new[c] # U}}>> :
                 j \in {x \in DOMAIN mine : mine[x].op = "U" /\ K(mine[x]) \in upd /\ K(mine[x]) \notin del
                          /\ \E c \in DOMAIN mine[x].new : Upd(K(mine[x]))[c] # U /\ mine[x].new[c] # U}}]

\* the entries of a set in the order in which the implementation writes them (any order within a kind)
Ordered(E) == SetToSeq({e \in E : e.op = "I"}) \o SetToSeq({e \in E : e.op = "D"}) \o SetToSeq({e \in E : e.op = "U"})
=============================================================================
