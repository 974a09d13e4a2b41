---------------------------- MODULE TraceCodec ----------------------------
(***************************************************************************)
(* Recorded uses of changeset files, judged at the level of bytes (Codec). *)
(* Events:                                                                 *)
(*  op "bytes": a file with bytes b was given to all calls that read       *)
(*    changesets; r: their return codes, same: 1 if no input or database   *)
(*    changed although the call failed (and nothing was left behind).      *)
(*  op "file": a changeset of a recorded run: b, what the projection made  *)
(*    of it (cs; "raw" if malformed), toks (bytes of the value tokens),    *)
(*    lib: 1 if a call of the library wrote it.                            *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
CONSTANT Props
T == JsonDeserialize(IOEnv.TRACE)
Events == T.events

Ran(s) == {s[i] : i \in DOMAIN s}
C12(e) ==
  LET d == Decode(e.b) r == e.r IN
  /\ r.has \in {0, 1} /\ r.count >= -1
  /\ {r.list, r.summary, r.invert, r.apply, r.rb, r.rx1, r.rx2, r.re} \subseteq {0, 1}
  /\ e.same = 1
  /\ ~d.ok => /\ r.count = -1
              /\ {r.list, r.summary, r.invert, r.apply, r.rb, r.rx1, r.rx2, r.re} = {1}
  /\ d.ok => r.count = Len(d.ent)

\* the value of a token
TokFn(toks) == [x \in {toks[i][1] : i \in DOMAIN toks} |-> LET y == toks[CHOOSE i \in DOMAIN toks : toks[i][1] = x] IN <<y[2], y[3]>>]
SameVals(b, r, v, f) == Len(r) = Len(v) /\ \A i \in DOMAIN r : ValB(b, r[i]) = f[v[i]]
OpOf(o) == CASE o = INS -> "I" [] o = UPD -> "U" [] o = DEL -> "D"
C11(e) ==
  LET d == Decode(e.b) f == TokFn(e.toks) IN
  IF e.cs.k # "cs" THEN ~d.ok
  ELSE /\ d.ok
       /\ e.lib = 1 => Strict(e.b)
       /\ Len(d.tabs) = Len(e.cs.tabs) /\ Len(d.ent) = Len(e.cs.ent)
       /\ \A i \in DOMAIN d.tabs : d.tabs[i].pk = e.cs.tabs[i].pk /\ Bytes(e.b, d.tabs[i].n[1], d.tabs[i].n[2]) = e.cs.tabs[i].nb
       /\ \A i \in DOMAIN d.ent : LET x == d.ent[i] y == e.cs.ent[i] IN
            /\ x.t = y.t /\ OpOf(x.op) = y.op /\ x.ind = y.ind
            /\ SameVals(e.b, x.old, y.old, f) /\ SameVals(e.b, x.new, y.new, f)

Clause(p, e) == CASE p = "C12" -> (e.op = "bytes" => C12(e)) [] p = "C11" -> (e.op = "file" => C11(e)) [] OTHER -> TRUE
VARIABLES l
Check(p, P, n) == IF P THEN TRUE ELSE (PrintT(<<"FAIL", p, n>>) /\ FALSE)
TraceInit == l = 1
TraceNext == l <= Len(Events) /\ (\A p \in Props : Check(p, Clause(p, Events[l]), l)) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
