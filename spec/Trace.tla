------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is a recorded execution of the implementation a behaviour that the      *)
(* specification allows?  One step per recorded event; a step is possible  *)
(* only if the clauses of the properties in Props hold for it.             *)
(* IOEnv.TRACE: JSON with contents, events, render.                        *)
(***************************************************************************)
EXTENDS Tables, Json, IOUtils
CONSTANT Props

T == JsonDeserialize(IOEnv.TRACE)

\* rows of keyed tables become sets
AbsTab(t) == IF Keyed(t.pk) THEN [t EXCEPT !.rows = Ran(t.rows)] ELSE t
Abs(c) == IF c.k = "db" THEN [c EXCEPT !.tabs = [i \in DOMAIN c.tabs |-> AbsTab(c.tabs[i])]] ELSE c
Vals == [i \in DOMAIN T.contents |-> Abs(T.contents[i])]
\* how values appear in JSON files (1) and as the key of a conflict (2)
RenderToks == DOMAIN T.render

ContentOp(c) == Vals[c]
JsonOp(x) == IF x \in RenderToks THEN T.render[x][1] ELSE "?"
FidOp(x) == IF x \in RenderToks THEN T.render[x][2] ELSE "?"

G == INSTANCE Geodiff WITH Content <- ContentOp, Json <- JsonOp, Fid <- FidOp

Events == T.events
FilesOf(e) == [p \in {e.files[i][1] : i \in DOMAIN e.files} |->
                 LET x == e.files[CHOOSE i \in DOMAIN e.files : e.files[i][1] = p] IN [c |-> x[2], h |-> x[3]]]

VARIABLES l, fs, hist
vars == <<l, fs, hist>>

Check(p, P, n) == IF P THEN TRUE ELSE (PrintT(<<"FAIL", p, n>>) /\ FALSE)

TraceInit == l = 1 /\ fs = [p \in {} |-> 0] /\ hist = G!NoHist
\* the environment changes files between calls
Env == /\ Events[l].op = "env"
       /\ fs' = FilesOf(Events[l])
       /\ hist' = hist
Call == /\ Events[l].op # "env"
        /\ fs' = FilesOf(Events[l])
        /\ \A p \in Props : Check(p, G!Clause(p, Events[l], fs, fs', hist), l)
        /\ hist' = G!NextHist(Events[l], fs, fs', hist)
TraceNext == l <= Len(Events) /\ (Env \/ Call) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
