------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The binary format of changesets (docs/changeset-format.md), as a        *)
(* decoder that reads one byte per step, and an encoder.                   *)
(*                                                                         *)
(* Decode(b), for a tuple b of bytes:                                      *)
(*   [ok, tabs: tuple of [n: <<from, length>>, pk: tuple of flag bytes],   *)
(*    ent: tuple of [t: header, op: 18/23/9, ind, old, new]] where a value *)
(*   is <<type, from, length>> (the position of its bytes in b).           *)
(* Explicit(b, d) replaces positions by the bytes themselves.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

TAB == 84  INS == 18  UPD == 23  DEL == 9
Huge == 1048576      \* lengths from here on are not told apart

Start == [m |-> "rec", pos |-> 0, tabs |-> <<>>, ent |-> <<>>, ncol |-> 0, pk |-> <<>>, v |-> 0, vn |-> 0, need |-> 0,
          from |-> 0, typ |-> 0, op |-> 0, ind |-> 0, side |-> "", old |-> <<>>, new |-> <<>>]
Bad(s) == [s EXCEPT !.m = "bad"]

\* a value is complete: [typ, from, length]
Push(s, x) ==
  LET o == IF s.side = "old" THEN Append(s.old, x) ELSE s.old
      n == IF s.side = "new" THEN Append(s.new, x) ELSE s.new
      full == Len(IF s.side = "old" THEN o ELSE n) = s.ncol
  IN  IF ~full THEN [s EXCEPT !.m = "val", !.old = o, !.new = n]
      ELSE IF s.side = "old" /\ s.op = UPD THEN [s EXCEPT !.m = "val", !.old = o, !.new = n, !.side = "new"]
      ELSE [s EXCEPT !.m = "rec", !.old = <<>>, !.new = <<>>, !.side = "",
                     !.ent = Append(@, [t |-> Len(s.tabs), op |-> s.op, ind |-> s.ind, old |-> o, new |-> n])]

\* a varint is complete with value w
Number(s, w) ==
  IF s.m = "ncol" THEN (IF w > 65536 THEN Bad(s)
                        ELSE [s EXCEPT !.m = IF w = 0 THEN "name" ELSE "flags", !.ncol = w, !.need = w, !.pk = <<>>, !.from = s.pos + 1])
  ELSE IF w = 0 THEN Push([s EXCEPT !.v = 0, !.vn = 0], <<s.typ, s.pos + 1, 0>>)
  ELSE [s EXCEPT !.m = "data", !.need = w, !.from = s.pos + 1, !.v = 0, !.vn = 0]

\* one byte
Step(s0, b) ==
  LET s == [s0 EXCEPT !.pos = @ + 1] IN
  CASE s.m = "bad" -> s
    [] s.m = "rec" -> IF b = TAB THEN [s EXCEPT !.m = "ncol", !.v = 0, !.vn = 0]
                      ELSE IF b \in {INS, UPD, DEL} /\ s.ncol > 0
                           THEN [s EXCEPT !.m = "ind", !.op = b, !.side = IF b = INS THEN "new" ELSE "old"]
                      ELSE Bad(s)
    [] s.m \in {"ncol", "len"} ->
         LET top == IF s.v >= Huge THEN Huge ELSE IF s.vn = 8 THEN s.v * 256 + b ELSE s.v * 128 + (b % 128)
             w == IF top > Huge THEN Huge ELSE top IN
         IF b >= 128 /\ s.vn < 8 THEN [s EXCEPT !.v = w, !.vn = @ + 1] ELSE Number([s EXCEPT !.v = 0, !.vn = 0], w)
    [] s.m = "flags" -> [s EXCEPT !.pk = Append(@, b), !.need = @ - 1, !.m = IF s.need = 1 THEN "name" ELSE "flags", !.from = s.pos + 1]
    [] s.m = "name" -> IF b = 0 THEN [s EXCEPT !.m = "rec", !.tabs = Append(@, [n |-> <<s.from, s.pos - s.from>>, pk |-> s.pk])] ELSE s
    [] s.m = "ind" -> [s EXCEPT !.m = "val", !.ind = b]
    [] s.m = "val" -> IF b \in {0, 5} THEN Push(s, <<b, s.pos + 1, 0>>)
                      ELSE IF b \in {1, 2} THEN [s EXCEPT !.m = "data", !.need = 8, !.typ = b, !.from = s.pos + 1]
                      ELSE IF b \in {3, 4} THEN [s EXCEPT !.m = "len", !.typ = b, !.v = 0, !.vn = 0]
                      ELSE Bad(s)
    [] s.m = "data" -> IF s.need > 1 THEN [s EXCEPT !.need = @ - 1] ELSE Push(s, <<s.typ, s.from, s.pos + 1 - s.from>>)

Run(s, b) == FoldLeft(Step, s, b)
Decode(b) == LET s == Run(Start, b) IN [ok |-> s.m = "rec", tabs |-> s.tabs, ent |-> s.ent]

Bytes(b, from, n) == SubSeq(b, from, from + n - 1)
ValB(b, x) == <<x[1], Bytes(b, x[2], x[3])>>
RecB(b, r) == [i \in DOMAIN r |-> ValB(b, r[i])]
Explicit(b, d) == [tabs |-> [i \in DOMAIN d.tabs |-> [n |-> Bytes(b, d.tabs[i].n[1], d.tabs[i].n[2]), pk |-> d.tabs[i].pk]],
                   ent |-> [i \in DOMAIN d.ent |-> [d.ent[i] EXCEPT !.old = RecB(b, @), !.new = RecB(b, @)]]]

---------------------------------------------------------------------------
(* Encoding of an explicit changeset *)

RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE LET Hi(k) == LET h == Varint(k) IN [h EXCEPT ![Len(h)] = @ + 128] IN Hi(n \div 128) \o <<n % 128>>
EncVal(v) == IF v[1] \in {0, 5} THEN <<v[1]>> ELSE IF v[1] \in {1, 2} THEN <<v[1]>> \o v[2] ELSE <<v[1]>> \o Varint(Len(v[2])) \o v[2]
EncRec(r) == FoldLeft(LAMBDA a, v : a \o EncVal(v), <<>>, r)
EncTab(t) == <<TAB>> \o Varint(Len(t.pk)) \o t.pk \o t.n \o <<0>>
EncEnt(e) == <<e.op, e.ind>> \o EncRec(e.old) \o EncRec(e.new)
\* headers and entries in order: every header is followed by its entries
Encode(x) ==
  FoldLeft(LAMBDA a, i : a \o EncTab(x.tabs[i]) \o FoldLeft(LAMBDA c, e : c \o EncEnt(e), <<>>, SelectSeq(x.ent, LAMBDA e : e.t = i)),
           <<>>, [i \in DOMAIN x.tabs |-> i])

---------------------------------------------------------------------------
(* What geodiff and SQLite write: canonical encoding, no header without entries, plain flags *)
Strict(b) ==
  LET d == Decode(b) x == Explicit(b, d) IN
  /\ d.ok
  /\ Encode(x) = b
  /\ \A i \in DOMAIN x.tabs : /\ \E j \in DOMAIN x.ent : x.ent[j].t = i
                              /\ Len(x.tabs[i].n) > 0
                              /\ \A j \in DOMAIN x.tabs[i].pk : x.tabs[i].pk[j] \in {0, 1}
  /\ \A i \in DOMAIN x.ent : x.ent[i].ind \in {0, 1}

(* The inverse of an explicit changeset, entry by entry *)
InvEnt(pk, e) ==
  CASE e.op = INS -> [e EXCEPT !.op = DEL, !.old = e.new, !.new = <<>>]
    [] e.op = DEL -> [e EXCEPT !.op = INS, !.new = e.old, !.old = <<>>]
    [] e.op = UPD -> [e EXCEPT !.old = [i \in DOMAIN e.old |-> IF pk[i] > 0 /\ e.new[i][1] = 0 THEN e.old[i] ELSE e.new[i]],
                               !.new = [i \in DOMAIN e.old |-> IF pk[i] > 0 /\ e.new[i][1] = 0 THEN e.new[i] ELSE e.old[i]]]
Plain(x) == [i \in DOMAIN x.ent |-> LET e == x.ent[i] t == x.tabs[e.t] IN <<t.n, [j \in DOMAIN t.pk |-> t.pk[j] > 0], e.op, e.old, e.new>>]
PlainInv(x) == [i \in DOMAIN x.ent |-> LET t == x.tabs[x.ent[i].t] e == InvEnt(t.pk, x.ent[i]) IN <<t.n, [j \in DOMAIN t.pk |-> t.pk[j] > 0], e.op, e.old, e.new>>]

\* bytes that complete the input in any state but "bad"
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
RECURSIVE Complete(_)
Complete(s) ==
  CASE s.m = "rec" -> <<>>
    [] s.m \in {"ncol", "len"} -> IF s.v >= 65 THEN <<0>> \o Complete(Step(s, 0)) ELSE LET c == IF s.vn = 0 THEN 1 ELSE 0 IN <<c>> \o Complete(Step(s, c))
    [] OTHER -> <<0>> \o Complete(Step(s, 0))
=============================================================================
