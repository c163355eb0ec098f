--------------------------- MODULE TranslateTrace ---------------------------
(* Judge of recorded translations.  A trace has the events of a source      *)
(* document, the translations of the PO files in order, and the events of   *)
(* the document that po2md wrote.  The machine of Sax reads both; the       *)
(* skeleton of the second one must be the first one with its messages       *)
(* replaced by their translations.                                          *)
EXTENDS Judge, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k,      \* trace
          side,   \* "src" or "out": document being read
          i,      \* event
          st,     \* state of the reader
          src     \* result for the source
vars == <<k, side, i, st, src>>
Id == <<k, side, i>>

Tr == Traces[k]
Doc == IF side = "src" THEN Tr.src ELSE Tr.out
O == [all |-> Tr.all, plain |-> FALSE]
Result(s) == [skel |-> s.skel, links |-> s.links, refs |-> RefsOf(Doc.lines),
              msgs |-> Messages(s.found)]

(* the output is rendered again as it is; in documents with lists, up to    *)
(* empty lines: tight and loose lists are equivalent                        *)
NonEmpty(lines) == SelectSeq(lines, LAMBDA l : ~IsBlank(ReplaceAll(l, ">", "")))
Again(skel) ==
  IF \E j \in DOMAIN skel : skel[j].k = "+" /\ skel[j].v \in {"UL", "OL"}
  THEN NonEmpty(Tr.md) = NonEmpty(Tr.again)
  ELSE Tr.md = Tr.again

(* Line lengths, in documents without containers, code and HTML: without   *)
(* wrap width each paragraph is a line; with it a line is only longer when  *)
(* its last pieces do not fit (the line breaking library decides if a line  *)
(* may be broken before each one).                                          *)
RECURSIVE Spaces_(_, _, _)
Spaces_(l, c, inside) ==
  IF c > Len(l) THEN <<>>
  ELSE (IF Ch(l, c) = " " /\ ~inside THEN <<c>> ELSE <<>>)
       \o Spaces_(l, c + 1, IF Ch(l, c) = "`" THEN ~inside ELSE inside)
ParagraphLine(l) == l # "" /\ ~(Ch(l, 1) \in {"#", "|"} \/ l = "***" \/ IsRef(l))
LineOK(l, w) ==
  \/ w = 0 \/ Len(l) <= w
  \/ LET s == Spaces_(l, 1, FALSE) IN Len(s) < 3 \/ s[Len(s) - 2] <= w + 1
WrapOK(skel) ==
  LET pl == SelectSeq(Tr.md, ParagraphLine)
      ps == SelectSeq(skel, LAMBDA t : t.k = "+" /\ t.v = "P")
  IN \A j \in DOMAIN Tr.widths :
       /\ Tr.widths[j] \in {0, 10000} => Len(pl) = Len(ps)
       /\ \A m \in DOMAIN pl : LineOK(pl[m], Tr.widths[j])

Verdict(out) ==
  LET want == Translated(src.skel, Tr.po)
      got == Plain(out.skel)
      wr == IF src.links THEN TranslatedRefs(src.refs, Tr.po) ELSE <<>>
      gr == Texts(out.refs)
      d == FirstDiff(want, got)
  IN [k |-> k, skel |-> want = got, refs |-> wr = gr,
      again |-> Again(src.skel),
      \* md2po extracts what po2md looks up, also from the output
      agree |-> src.msgs = Tr.ids /\ (~Tr.hasre \/ out.msgs = Tr.reids),
      wrap |-> ~Tr.simple \/ WrapOK(out.skel),
      \* is the difference only in texts?
      shape |-> [j \in DOMAIN want |-> IF want[j].k = "msg" THEN "" ELSE want[j].v]
              = [j \in DOMAIN got |-> IF got[j].k = "msg" THEN "" ELSE got[j].v],
      want |-> IF want = got /\ wr = gr THEN <<>>
               ELSE IF want # got THEN <<At(want, d), At(got, d)>>
               ELSE <<wr, gr>>]

Init == /\ k \in DOMAIN Traces /\ side = "src" /\ i = 0
        /\ st = InitSax(O) /\ src = [none |-> TRUE]

Next ==
  \/ /\ i < Len(Doc.ev)
     /\ i' = i + 1
     /\ st' = SaxStep(st, Doc.ev[i + 1], O, RefsOf(Doc.lines), AliasMap(Tr))
     /\ UNCHANGED <<k, side, src>>
  \/ /\ side = "src" /\ i = Len(Doc.ev)
     /\ side' = "out" /\ i' = 0 /\ st' = InitSax(O) /\ UNCHANGED k
     /\ src' = Result(st)
  \/ /\ side = "out" /\ i = Len(Doc.ev)
     /\ PrintT(ToJson(Verdict(Result(st))))
     /\ i' = i + 1 /\ UNCHANGED <<k, side, st, src>>

------------------------------------------------------------------------------
WellNested ==
  /\ Len(st.bufs) = Len(st.sp) + 1
  /\ i >= Len(Doc.ev) => st.anc = <<>> /\ st.sp = <<>> /\ st.bufs = <<"">>
=============================================================================
