------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* Two explorations of Codec:                                              *)
(*  Mode "values": all small changesets: decoding gives back what was      *)
(*    encoded, and a prefix is either malformed or holds the first entries.*)
(*  Mode "bytes": byte strings over Alphabet, one representative per state *)
(*    of the decoder (VIEW); each transition can be printed as test input. *)
(***************************************************************************)
EXTENDS Codec, Json
CONSTANTS Mode, Alphabet, MaxLen, MaxEnt, MaxTab, Emit
VARIABLES str, st, x
vars == <<str, st, x>>

Vals == {<<0, <<>>>>, <<5, <<>>>>, <<1, <<0, 0, 0, 0, 0, 0, 0, 84>>>>, <<3, <<18>>>>} \cup (IF MaxLen > 0 THEN {<<3, <<>>>>, <<4, <<0, 255>>>>} ELSE {})
Tabs == {[n |-> <<116>>, pk |-> <<1>>], [n |-> <<84, 18>>, pk |-> <<1>>], [n |-> <<116>>, pk |-> <<0, 1>>]}
Recs(t) == {r \in [1..Len(t.pk) -> Vals] : TRUE}
RecT(t) == {[i \in 1..Len(t.pk) |-> r[i]] : r \in Recs(t)}
Ents(t, i) == {[t |-> i, op |-> INS, ind |-> 0, old |-> <<>>, new |-> r] : r \in RecT(t)}
              \cup {[t |-> i, op |-> DEL, ind |-> 1, old |-> r, new |-> <<>>] : r \in RecT(t)}
              \cup {[t |-> i, op |-> UPD, ind |-> 0, old |-> r, new |-> q] : r \in RecT(t), q \in RecT(t)}
Empty == [tabs |-> <<>>, ent |-> <<>>]
Add(y) == {[y EXCEPT !.tabs = Append(@, t)] : t \in IF Len(y.tabs) < MaxTab THEN Tabs ELSE {}}
          \cup (IF y.tabs = <<>> \/ Len(y.ent) >= MaxEnt THEN {} ELSE {[y EXCEPT !.ent = Append(@, e)] : e \in Ents(y.tabs[Len(y.tabs)], Len(y.tabs))})

Init == str = <<>> /\ st = Start /\ x = Empty
Next == IF Mode = "values"
        THEN x' \in Add(x) /\ UNCHANGED <<str, st>>
        ELSE /\ st.m # "bad" /\ Len(str) < MaxLen /\ Len(st.ent) < MaxEnt /\ Len(st.tabs) <= MaxTab
             /\ \E b \in Alphabet :
                  /\ str' = Append(str, b) /\ st' = Step(st, b) /\ UNCHANGED x
                  /\ (st'.ncol <= 2 \/ st'.m \in {"flags", "bad"}) /\ (st'.need <= 9 \/ st'.m = "data" \/ st'.m = "flags")
                  /\ Emit => PrintT(<<"BYTES", ToJson(str')>>)
Spec == Init /\ [][Next]_vars

\* decoder states up to positions and values
Shape == <<st.m, st.ncol, IF st.need > 2 THEN (IF st.need > 9 THEN 4 ELSE 3) ELSE st.need, IF st.v > 2 THEN (IF st.v > 65536 THEN 4 ELSE 3) ELSE st.v, IF st.vn \in {0, 1, 8} THEN st.vn ELSE 2, st.op, st.side, Len(st.old), Len(st.new),
           Len(st.ent), Len(st.tabs), IF st.m = "data" THEN st.typ ELSE 0, x>>

Roundtrip == Mode = "values" =>
  LET b == Encode(x) d == Decode(b) IN
  /\ d.ok /\ Explicit(b, d) = x /\ (x.ent # <<>> => TRUE)
  \* an inverse twice is the original where all entries are well-formed
  /\ LET y == [x EXCEPT !.ent = [i \in DOMAIN x.ent |-> InvEnt(x.tabs[x.ent[i].t].pk, x.ent[i])]] IN Plain(y) = PlainInv(x)
PrefixOk == Mode = "values" =>
  LET b == Encode(x) IN
  \A n \in 0..Len(b) :
    LET p == SubSeq(b, 1, n) d == Decode(p) IN
    d.ok => /\ Len(d.ent) <= Len(x.ent) /\ Len(d.tabs) <= Len(x.tabs)
            /\ Explicit(p, d).ent = SubSeq(x.ent, 1, Len(d.ent))
            /\ Explicit(p, d).tabs = SubSeq(x.tabs, 1, Len(d.tabs))
\* the only inputs to give up on early are those that nothing can complete
NoDeadEnd == (Mode = "bytes" /\ st.m # "bad" /\ st.need < 100 /\ st.v < 100) => Run(st, Complete(st)).m = "rec"
Incremental == (Mode = "bytes") => Run(Start, str) = st
=============================================================================
