-------------------------------- MODULE Judge --------------------------------
(* What the judges of recorded executions share: the catalog of messages    *)
(* that a reading of a document gives, and its translation.                 *)
EXTENDS Sax

AliasMap(t) == [x \in {t.al[j].n : j \in DOMAIN t.al} |->
                  t.al[CHOOSE j \in DOMAIN t.al : t.al[j].n = x].c]

------------------------------------------------------------------------------
(* Extraction *)

(* what is left of a file at its end: its link references *)
RefMsgs(s, refs) ==
  IF ~s.links THEN <<>>
  ELSE [j \in DOMAIN refs |->
          [k |-> "ref", id |-> RefText(refs[j]), ctx |-> "", tc |-> "",
           on |-> TRUE, loc |-> Loc(s)]]

(* the catalog of messages found *)
Ignored(m, t) == \E j \in DOMAIN t.ignore : t.ignore[j] = m.id
RECURSIVE Cat(_, _, _)
Cat(ms, seen, t) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms) IN
       IF ~m.on \/ Ignored(m, t) \/ <<m.ctx, m.id>> \in seen
       THEN Cat(Tail(ms), seen, t)
       ELSE <<[ctx |-> m.ctx, id |-> m.id, tc |-> m.tc,
               str |-> IF m.k = "ref" THEN m.id ELSE t.msgstr,
               fuzzy |-> m.k = "ref", loc |-> m.loc]>>
            \o Cat(Tail(ms), seen \cup {<<m.ctx, m.id>>}, t)
Disabled(ms) ==
  LET D == SelectSeq(ms, LAMBDA m : ~m.on)
  IN [j \in DOMAIN D |-> [ctx |-> D[j].ctx, id |-> D[j].id]]


------------------------------------------------------------------------------
(* Translation *)

(* the last non-empty translation of a message, "" if there is none *)
RECURSIVE Find2(_, _, _, _)
Find2(po, j, ctx, id) ==
  IF j = 0 THEN ""
  ELSE IF po[j].ctx = ctx /\ po[j].id = id /\ po[j].str # "" THEN po[j].str
  ELSE Find2(po, j - 1, ctx, id)
Lookup(po, ctx, id) ==
  LET s == Find2(po, Len(po), ctx, id) IN IF s = "" THEN id ELSE s

Translated(skel, po) ==
  [j \in DOMAIN skel |->
     IF skel[j].k \in {"msg", "code"} /\ skel[j].on
     THEN [k |-> skel[j].k, v |-> Lookup(po, skel[j].ctx, skel[j].v)]
     ELSE [k |-> skel[j].k, v |-> skel[j].v]]

(* messages that po2md looks up, in order of appearance *)
RECURSIVE Messages_(_, _)
Messages_(found, seen) ==
  IF found = <<>> THEN <<>>
  ELSE LET m == Head(found)
           e == <<m.ctx, m.id>>
       IN IF ~m.on \/ e \in seen THEN Messages_(Tail(found), seen)
          ELSE <<e>> \o Messages_(Tail(found), seen \cup {e})
Messages(found) == Messages_(found, {})

(* link references: one for each different target and title *)
RECURSIVE Uniq(_, _)
Uniq(refs, seen) ==
  IF refs = <<>> THEN <<>>
  ELSE LET r == Head(refs) IN
       IF <<r.h, r.ti>> \in seen THEN Uniq(Tail(refs), seen)
       ELSE <<r>> \o Uniq(Tail(refs), seen \cup {<<r.h, r.ti>>})
TranslatedRefs(refs, po) ==
  LET u == Uniq(refs, {})
  IN [j \in DOMAIN u |-> Lookup(po, "", RefText(u[j]))]
Texts(refs) == [j \in DOMAIN refs |-> RefText(refs[j])]

Plain(skel) == [j \in DOMAIN skel |-> [k |-> skel[j].k, v |-> skel[j].v]]
FirstDiff(a, b) ==
  LET S == {j \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) :
              \/ j > Len(a) \/ j > Len(b) \/ a[j] # b[j]}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : j <= m
At(s, j) == SubSeq(s, IF j > 2 THEN j - 2 ELSE 1,
                   IF j + 2 > Len(s) THEN Len(s) ELSE j + 2)
=============================================================================
