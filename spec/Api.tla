-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* Sequences of API calls of one process, right and wrong ones, at the     *)
(* level of versions: a database has a label (a term such as B, T, M or    *)
(* R(B,T,M): mine rebased on theirs), a changeset leads from one label to  *)
(* another.  The model predicts whether every call succeeds and which      *)
(* label its outputs have; the harness runs the sequences (TLC simulation) *)
(* in the implementation and TraceApi demands that                         *)
(*   - calls succeed and fail as predicted,                                *)
(*   - files with equal labels have equal rows.                            *)
(* "?" is a label or content that the model does not predict.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Length, Emit, Start

Dbs == {"b.gpkg", "t.gpkg", "m.gpkg", "w.gpkg"}
Css == {"1.diff", "2.diff", "3.diff"}
Jsons == {"l.json", "c.json"}
Null == "\\N"
Db(v) == [k |-> "db", v |-> v, to |-> ""]
Cs(f, t) == [k |-> "cs", v |-> f, to |-> t]
Unk(k) == [k |-> k, v |-> "?", to |-> "?"]

Ops == {"create", "createx", "apply", "applyx", "invert", "has", "count", "list", "summary", "rebasecs", "rebasecsx", "rebase", "rebasex", "dump", "makecopy", "copy"}
\* what is wrong with a call
Wrongs == {"no", "no1", "no2", "no3", "no4", "null", "missing", "driver", "outdir", "confdir", "bad", "foreign", "notdb"}
\* set-up of the work files between calls
VARIABLES fs, op, log
vars == <<fs, op, log>>

Has(p) == p \in DOMAIN fs
DbSlots == {p \in Dbs : Has(p)}
CsSlots == {p \in Css : Has(p)}
Lab(p) == IF Has(p) THEN fs[p] ELSE Unk("none")

\* the label of mine rebased on theirs
Reb(b, t, m) == IF t = b THEN m ELSE IF m = b THEN t ELSE "R(" \o b \o "," \o t \o "," \o m \o ")"
Known(S) == "?" \notin S

\* outcome of a call: exp ("ok", "err", "any") and the changes of files
Res(e, ch) == [exp |-> e, ch |-> ch]
NoCh == [p \in {} |-> Unk("none")]

CreateRes(a, b, o) ==
  LET x == Lab(a).v y == Lab(b).v IN
  Res("ok", o :> (IF Known({x, y}) THEN Cs(x, y) ELSE Unk("cs")))
ApplyRes(d, c) ==
  LET x == Lab(d) y == Lab(c) IN
  CASE ~Known({x.v, y.v, y.to}) -> Res("any", d :> Unk("db"))
    [] y.v = y.to -> Res("ok", NoCh)
    [] y.v = x.v -> Res("ok", d :> Db(y.to))
    [] y.to = x.v -> Res("err", NoCh)      \* all changes are there already: none of them fits
    [] OTHER -> Res("any", d :> Unk("db"))
InvertRes(c, o) == LET y == Lab(c) IN Res(IF Known({y.v, y.to}) THEN "ok" ELSE "any", o :> (IF Known({y.v, y.to}) THEN Cs(y.to, y.v) ELSE Unk("cs")))
RebaseCsRes(b, m, c, o) ==
  LET x == Lab(b).v z == Lab(m).v y == Lab(c) IN
  IF ~Known({x, z, y.v, y.to}) \/ y.v # x THEN Res("any", o :> Unk("cs"))
  ELSE Res("ok", o :> Cs(y.to, Reb(x, y.to, z)))
RebaseCsxRes(mc, tc, o) ==
  LET z == Lab(mc) y == Lab(tc) IN
  IF ~Known({z.v, z.to, y.v, y.to}) \/ y.v # z.v THEN Res("any", o :> Unk("cs"))
  ELSE Res("ok", o :> Cs(y.to, Reb(y.v, y.to, z.to)))
RebaseRes(b, t, m) ==
  LET x == Lab(b).v y == Lab(t).v z == Lab(m).v IN
  IF ~Known({x, y, z}) THEN Res("any", m :> Unk("db")) ELSE Res("ok", m :> Db(Reb(x, y, z)))
RebasexRes(b, m, c) ==
  LET x == Lab(b).v z == Lab(m).v y == Lab(c) IN
  IF ~Known({x, z, y.v, y.to}) \/ y.v # x THEN Res("any", m :> Unk("db"))
  ELSE Res("ok", m :> Db(Reb(x, y.to, z)))

\* all right calls of an operation: [fn, args, in: indexes of input arguments, dbin: those that are databases,
\* out: indexes of output arguments, res]
C(fn, args, in, dbin, out, drv, res) == [fn |-> fn, args |-> args, in |-> in, dbin |-> dbin, out |-> out, drv |-> drv, res |-> res]
Right(o) ==
  CASE o = "create" -> {C("createChangeset", <<a, b, c>>, {1, 2}, {1, 2}, {3}, 0, CreateRes(a, b, c)) : a \in DbSlots, b \in DbSlots, c \in Css}
    [] o = "createx" -> {C("createChangesetEx", <<"sqlite", "", a, b, c>>, {3, 4}, {3, 4}, {5}, 1, CreateRes(a, b, c)) : a \in DbSlots, b \in DbSlots, c \in Css}
    [] o = "apply" -> {C("applyChangeset", <<d, c>>, {1, 2}, {1}, {}, 0, ApplyRes(d, c)) : d \in DbSlots, c \in CsSlots}
    [] o = "applyx" -> {C("applyChangesetEx", <<"sqlite", Null, d, c>>, {3, 4}, {3}, {}, 1, ApplyRes(d, c)) : d \in DbSlots, c \in CsSlots}
    [] o = "invert" -> {C("invertChangeset", <<c, x>>, {1}, {}, {2}, 0, InvertRes(c, x)) : <<c, x>> \in {y \in CsSlots \X Css : y[1] # y[2]}}
    [] o \in {"has", "count"} -> {C(IF o = "has" THEN "hasChanges" ELSE "changesCount", <<c>>, {1}, {}, {}, 0,
                                    Res(IF ~Known({Lab(c).v, Lab(c).to}) THEN "any" ELSE IF Lab(c).v = Lab(c).to THEN "zero" ELSE "some", NoCh)) : c \in CsSlots}
    [] o \in {"list", "summary"} -> {C(IF o = "list" THEN "listChanges" ELSE "listChangesSummary", <<c, "l.json">>, {1}, {}, {2}, 0, Res(IF Lab(c).v = "?" THEN "any" ELSE "ok", NoCh)) : c \in CsSlots}
    [] o = "rebasecs" -> {C("createRebasedChangeset", <<b, m, c, x, "c.json">>, {1, 2, 3}, {1, 2}, {4, 5}, 0, RebaseCsRes(b, m, c, x)) :
                            <<b, m, c, x>> \in {y \in DbSlots \X DbSlots \X CsSlots \X Css : y[3] # y[4]}}
    [] o = "rebasecsx" -> {C("createRebasedChangesetEx", <<"sqlite", "", "b.gpkg", mc, tc, x, "c.json">>, {4, 5}, {}, {6, 7}, 1, RebaseCsxRes(mc, tc, x)) :
                            <<mc, tc, x>> \in {y \in CsSlots \X CsSlots \X Css : y[1] # y[3] /\ y[2] # y[3]}}
    [] o = "rebase" -> {C("rebase", <<b, t, m, "c.json">>, {1, 2, 3}, {1, 2, 3}, {4}, 0, RebaseRes(b, t, m)) :
                            <<b, t, m>> \in {y \in DbSlots \X DbSlots \X DbSlots : y[3] # y[1] /\ y[3] # y[2]}}
    [] o = "rebasex" -> {C("rebaseEx", <<"sqlite", Null, b, m, c, "c.json">>, {3, 4, 5}, {3, 4}, {6}, 1, RebasexRes(b, m, c)) :
                            <<b, m, c>> \in {y \in DbSlots \X DbSlots \X CsSlots : y[1] # y[2]}}
    [] o = "dump" -> {C("dumpData", <<"sqlite", Null, d, c>>, {3}, {3}, {4}, 1, Res("ok", c :> Unk("cs"))) : d \in DbSlots, c \in Css}
    \* makeCopy is not predicted (a copy of tables that are no feature tables fails)
    [] o = "makecopy" -> {C("makeCopy", <<"sqlite", Null, d, "sqlite", "", "x.gpkg">>, {3}, {3}, {6}, 1, Res("any", NoCh)) : d \in DbSlots}
    \* a copy of a file by the environment
    [] o = "copy" -> {C("copy", <<d, "w.gpkg">>, {}, {}, {}, 0, Res("ok", "w.gpkg" :> fs[d])) : d \in {"b.gpkg", "t.gpkg", "m.gpkg"}}

\* a call spoiled; what its outputs hold afterwards is not predicted
Subst(c, i, v) == [c EXCEPT !.args[i] = v, !.res = Res("err", [p \in {c.args[j] : j \in c.out} \cap (Css \cap DOMAIN fs) |-> Unk("cs")])]
\* "driver extra info" may be NULL
Required(c) == {i \in DOMAIN c.args : ~(c.drv = 1 /\ i = 2) /\ ~(c.fn = "makeCopy" /\ i = 5)}
Spoiled(w, c) ==
  CASE c.fn = "copy" /\ w \notin {"no", "no1"} -> {}
    [] w = "null" -> {Subst(c, i, Null) : i \in Required(c)}
    [] w = "missing" -> {Subst(c, i, IF i \in c.dbin THEN "none.gpkg" ELSE "none.diff") : i \in c.in}
    [] w = "driver" -> IF c.drv = 1 THEN {Subst(c, i, d) : d \in {"nosuch", "", "SQLITE"}, i \in IF c.fn = "makeCopy" THEN {1, 4} ELSE {1}} ELSE {}
    [] w = "outdir" -> {Subst(c, i, "nodir/" \o c.args[i]) : i \in c.out \ {j \in c.out : c.args[j] = "c.json"}}
    \* a conflict file that cannot be written matters only if there is a conflict
    [] w = "confdir" -> IF c.fn \in {"createRebasedChangeset", "createRebasedChangesetEx", "rebase", "rebaseEx"}
                        THEN {[c EXCEPT !.args[Len(c.args)] = "nodir/c.json",
                                        !.res = Res("any", [p \in DOMAIN c.res.ch |-> Unk(IF p \in Dbs THEN "db" ELSE "cs")])]} ELSE {}
    [] w = "bad" -> {Subst(c, i, "bad.diff") : i \in c.in \ c.dbin}
    [] w = "foreign" -> IF c.fn \in {"createChangeset", "createChangesetEx", "rebase"} THEN {Subst(c, CHOOSE i \in c.dbin : \A j \in c.dbin : i <= j, "f.gpkg")} ELSE {}
    [] w = "notdb" -> {Subst(c, i, "txt.gpkg") : i \in c.dbin}
    [] OTHER -> {c}
\* a malformed changeset is not noticed by hasChanges, and rebasing onto an empty changeset reads nothing else
Sure(w, c) == CASE w = "bad" -> c.fn \notin {"hasChanges", "createRebasedChangesetEx", "createRebasedChangeset", "rebaseEx"}
                [] w = "notdb" -> c.fn \notin {"applyChangeset", "applyChangesetEx", "rebaseEx", "makeCopy"} /\ (c.fn = "rebase" => c.args[3] # "txt.gpkg")
                \* with an empty changeset of theirs nothing else is read
                [] w = "missing" -> c.fn # "rebaseEx" \/ (Known({Lab(c.args[5]).v, Lab(c.args[5]).to}) /\ Lab(c.args[5]).v # Lab(c.args[5]).to)
                [] OTHER -> TRUE
Fix(w, c) == IF w \in {"bad", "notdb", "missing", "foreign"} /\ ~Sure(w, c)
             THEN [c EXCEPT !.res.exp = "any", !.res.ch = c.res.ch @@ [p \in {c.args[j] : j \in DOMAIN c.args} \cap (Dbs \cap DOMAIN fs) |-> fs[p]]] ELSE c

Init == /\ fs = ("b.gpkg" :> Db("B") @@ "t.gpkg" :> Db("T") @@ "m.gpkg" :> Db("M") @@ "w.gpkg" :> Db("B")
                 @@ (IF Start = "full" THEN "1.diff" :> Cs("B", "T") @@ "2.diff" :> Cs("B", "M") ELSE NoCh))
        /\ op = <<>> /\ log = <<>>
Pick == /\ op = <<>> /\ Len(log) < Length
        /\ \E o \in Ops, w \in Wrongs :
             /\ op' = <<o, w>>
             /\ \E c \in Right(o) : Spoiled(w, c) # {}
        /\ UNCHANGED <<fs, log>>
Upd(f, ch) == [p \in DOMAIN f \cup DOMAIN ch |-> IF p \in DOMAIN ch THEN ch[p] ELSE f[p]]
LabsOf(f) == SetToSeq({<<p, f[p].v>> : p \in {q \in DOMAIN f : f[q].k = "db" /\ f[q].v # "?"}})
Do == /\ op # <<>>
      /\ \E c0 \in Right(op[1]) : \E c1 \in Spoiled(op[2], c0) :
           LET c == Fix(op[2], c1) f == Upd(fs, c.res.ch) IN
           /\ fs' = f
           /\ log' = Append(log, [fn |-> c.fn, args |-> c.args, exp |-> c.res.exp, wrong |-> op[2], labs |-> LabsOf(f)])
      /\ op' = <<>>
Next == Pick \/ Do
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* predicted changes touch only arguments of the call; inputs keep their label unless the call may change them
TypeOk == \A p \in DOMAIN fs : p \in Dbs \cup Css
Frame == \A i \in DOMAIN log : log[i].exp \in {"ok", "err", "any", "zero", "some"}
\* printed at the end of a simulated behaviour
Out == (Emit /\ Len(log) = Length /\ op = <<>>) => PrintT(<<"BEHAVIOUR", ToJson(log)>>)
=============================================================================
