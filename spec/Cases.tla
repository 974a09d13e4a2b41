------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* Exhaustive test cases, derived from the same definitions that the model *)
(* checking runs explore.  Every set is written as JSON to IOEnv.OUT; the  *)
(* harness builds files from the cases and runs them in the implementation.*)
(***************************************************************************)
EXTENDS Rebase, FrontEnd, Json, IOUtils
PK == <<1, 0, 0>>
K1 == "i:1"
Vals == {"n", "i:7", "t:a"}
\* all states of one row: absent or any values
RowStates == {<<>>} \cup {<<x, y>> : x \in Vals, y \in Vals}
\* all changes of one row
Transitions == RowStates \X RowStates
\* all well-formed entries about one row, without key (U: undefined)
Upds == {e \in {[op |-> "U", old |-> <<a, b>>, new |-> <<c, d>>] :
                  a \in Vals \cup {U}, b \in Vals \cup {U}, c \in Vals \cup {U}, d \in Vals \cup {U}} :
            /\ \A i \in {1, 2} : (e.old[i] = U) = (e.new[i] = U)
            /\ \E i \in {1, 2} : e.new[i] # U}
Entries == {[op |-> "I", old |-> <<>>, new |-> v] : v \in Vals \X Vals}
           \cup {[op |-> "D", old |-> v, new |-> <<>>] : v \in Vals \X Vals}
           \cup Upds
\* a row state and an entry that may or may not fit
Fitting == {<<s, e>> : s \in RowStates, e \in Entries}
\* an entry and a second one on the same key
EntryPairs == {<<s, e, f>> : s \in {<<>>, <<"n", "t:a">>}, e \in Entries, f \in {x \in Entries : x.op # "U"}}
\* what the two sides may do to one row of BASE (absent, or the two columns: a/b unchanged, own, common new value)
SideEdits(v) == {<<>>} \cup {<<x, y>> : x \in {"t:a", v, "t:z"}, y \in {"t:b", v, "t:z"}}
EditCombos == SideEdits("t:theirs") \X SideEdits("t:mine")
\* keys inserted by the two sides
InsKeys == {2, 3, 4, 6}
InsertCombos == (SUBSET InsKeys) \X (SUBSET InsKeys)
Which == CASE IOEnv.WHAT = "transitions" -> SetToSeq(Transitions)
           [] IOEnv.WHAT = "fitting" -> SetToSeq(Fitting)
           [] IOEnv.WHAT = "entrypairs" -> SetToSeq(EntryPairs)
           [] IOEnv.WHAT = "edits" -> SetToSeq(EditCombos)
           [] IOEnv.WHAT = "inserts" -> SetToSeq({<<SetToSeq(x[1]), SetToSeq(x[2])>> : x \in InsertCombos})
           [] IOEnv.WHAT = "argv" -> SetToSeq(ArgvCases)
           [] IOEnv.WHAT = "stub" -> SetToSeq(StubCases)
ASSUME JsonSerialize(IOEnv.OUT, Which)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
