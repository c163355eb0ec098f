-------------------------------- MODULE Sax --------------------------------
(* The extractor as a state machine over the events of a Markdown parser:   *)
(* blocks and spans entered and left, and texts.  An event is               *)
(*    [k, t, a, b, x]                                                       *)
(* k: "eb" | "lb" | "es" | "ls" | "tx"; t: type of block or span; a, b:     *)
(* attributes (target and title of links and images, target of wikilinks,   *)
(* level of headings, info and kind of code blocks, ...); x: text.          *)
(*                                                                          *)
(* The machine gives, for a document, the messages found (in order, with    *)
(* context, comment, whether they are enabled and their location) and the   *)
(* skeleton of the document: its blocks with the messages in their places.  *)
EXTENDS CommandMachine, CommandSyntax

Top == "top"

(* o: options [all: include code blocks, plain: BOOLEAN]; refs: sequence of *)
(* [t, h, ti] (target, href, title); al: command aliases                    *)
NoHandlers == [on |-> FALSE, every |-> FALSE, ids |-> {}, cmds |-> {}]
InitSax(o) ==
  [ev |-> NoHandlers, log |-> <<>>, anc |-> <<>>, bufs |-> <<"">>, sp |-> <<>>, f |-> InitFlags(o.all),
   n |-> 0, kind |-> "", code |-> "", htm |-> "", found |-> <<>>,
   skel |-> <<>>, links |-> FALSE, titles |-> <<>>]

In(st, t) == \E i \in DOMAIN st.anc : st.anc[i] = t
InSpan(st, t) == \E i \in DOMAIN st.sp : st.sp[i].t = t
Last(s) == s[Len(s)]
ButLast(s) == SubSeq(s, 1, Len(s) - 1)

AddText(st, x) ==
  [st EXCEPT !.bufs = [@ EXCEPT ![Len(@)] = @ \o x]]

------------------------------------------------------------------------------
(* Events (C16): st.ev has the messages and commands that handlers skip,    *)
(* st.log the occurrences of events so far, if it is on.                    *)

Occ(e, m, x) == [e |-> e, m |-> m, x |-> x]
Log(st, occ) == IF st.ev.on /\ ~(occ.e = "msgid" /\ occ.m = "")
                THEN [st EXCEPT !.log = Append(@, occ)] ELSE st
\* a message is going to be stored, with flags fl
MsgOcc(st, id, str, fl) ==
  Occ("msgid", id, id \o "|" \o str \o "|" \o st.f.ctx \o "|" \o st.f.tc
                   \o "|" \o fl)
SkipsMsg(st, id) == st.ev.on /\ (id \in st.ev.ids \/ "*" \in st.ev.ids)
SkipsCmd(st, c) == st.ev.on /\ (c \in st.ev.cmds \/ "*" \in st.ev.cmds)

------------------------------------------------------------------------------
(* Messages *)

Kind == [t \in {"QUOTE", "UL", "OL", "H", "CODE", "HTML", "P", "TABLE"} |->
           CASE t = "QUOTE" -> "quote" [] t = "UL" -> "unordered list"
             [] t = "OL" -> "ordered list" [] t = "H" -> "header"
             [] t = "CODE" -> "code" [] t = "HTML" -> "html"
             [] t = "P" -> "paragraph" [] t = "TABLE" -> "table"]

Loc(st) == "block " \o ToStr(st.n) \o " (" \o st.kind \o ")"

Found(st, k, id) ==
  [k |-> k, id |-> id, ctx |-> st.f.ctx, tc |-> st.f.tc,
   on |-> Enabled_(st.f), loc |-> Loc(st)]

(* the message being read ends *)
Flush(st0) ==
  LET id == st0.bufs[1]
      st == Log(st0, MsgOcc(st0, id, "", "")) IN
  IF id = "" THEN st0
  ELSE IF SkipsMsg(st, id) THEN [st EXCEPT !.bufs = <<"">>]
  ELSE [st EXCEPT !.found = Append(@, Found(st, "text", id)),
                  !.skel  = Append(@, [k |-> "msg", v |-> id,
                                       ctx |-> st.f.ctx,
                                       on |-> Enabled_(st.f)]),
                  !.f     = Consume(@),
                  !.bufs  = <<"">>]

Tok(k, v) == [k |-> k, v |-> v, ctx |-> "", on |-> FALSE]

\* (st.ev.every: the event is raised for all code blocks, as po2md does)
FlushCode(st0) ==
  LET st == IF CodeIncluded(st0.f) \/ st0.ev.every
            THEN Log(st0, MsgOcc(st0, st0.code, "", "")) ELSE st0 IN
  IF SkipsMsg(st, st.code)
  THEN [st EXCEPT !.f = [@ EXCEPT !.one = FALSE, !.skip = FALSE], !.code = ""]
  ELSE IF CodeIncluded(st.f) /\ st.code # ""
  THEN [st EXCEPT !.found = Append(@, Found(st, "code", st.code)),
                  !.skel  = Append(@, [k |-> "code", v |-> st.code,
                                       ctx |-> st.f.ctx,
                                       on |-> Enabled_(st.f)]),
                  !.f     = [Consume(@) EXCEPT !.one = FALSE, !.skip = FALSE],
                  !.code  = ""]
  ELSE [st EXCEPT !.skel = Append(@, [k |-> "code", v |-> st.code, ctx |-> "",
                                      on |-> Enabled_(st.f)]),
                  !.f    = [@ EXCEPT !.one = FALSE, !.skip = FALSE],
                  !.code = ""]

------------------------------------------------------------------------------
(* Inline markup, written canonically *)

EscapeTitle(s) == ReplaceAll(ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"")
TitlePart(ti) == IF ti = "" THEN "" ELSE " \"" \o EscapeTitle(ti) \o "\""

(* parentheses close in order *)
RECURSIVE Balanced(_, _)
Balanced(h, d) ==
  IF h = "" THEN d = 0
  ELSE CASE Ch(h, 1) = "(" -> Balanced(Drop(h, 1), d + 1)
         [] Ch(h, 1) = ")" -> d > 0 /\ Balanced(Drop(h, 1), d - 1)
         [] OTHER -> Balanced(Drop(h, 1), d)
(* targets must not end before, and do not disappear before a title *)
Target(h, ti) ==
  IF h = "" /\ ti # "" THEN "<>"
  ELSE LET e == IF Balanced(h, 0) THEN h
                ELSE ReplaceAll(ReplaceAll(h, "(", "\\("), ")", "\\)")
       IN ReplaceAll(e, " ", "%20")

(* the first definition with that target and title, 0 if there is none *)
RefIdx(refs, h, ti) ==
  LET S == {i \in DOMAIN refs : refs[i].h = h /\ refs[i].ti = ti} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RenderLink(text, h, ti, refs) ==
  LET r == RefIdx(refs, h, ti) IN
  IF r # 0
  THEN "[" \o text \o "]" \o
       (IF refs[r].t = text THEN "" ELSE "[" \o refs[r].t \o "]")
  ELSE IF text = h
  THEN "<" \o text \o TitlePart(ti) \o ">"
  ELSE "[" \o text \o "](" \o Target(h, ti) \o TitlePart(ti) \o ")"

RenderImg(alt, src, ti, refs) ==
  LET r == RefIdx(refs, src, ti) IN
  "![" \o alt \o "]" \o
  (IF r # 0 THEN "[" \o refs[r].t \o "]"
   ELSE "(" \o Target(src, ti) \o TitlePart(ti) \o ")")

RenderCode(c) ==
  LET d == Repeat("`", MinDelim(c, "`", 1))
      pad == IF c # "" /\ (\/ Ch(c, 1) = "`" \/ Ch(c, Len(c)) = "`"
                           \/ /\ Ch(c, 1) = " " /\ Ch(c, Len(c)) = " "
                              /\ Strip(c) # "")
             THEN " " ELSE ""
  IN d \o pad \o c \o pad \o d

RenderSpan(s, c, refs, inU) ==
  CASE s.t = "EM" -> "*" \o c \o "*"
    [] s.t = "STRONG" -> "**" \o c \o "**"
    [] s.t = "DEL" -> "~~" \o c \o "~~"
    [] s.t = "U" -> IF inU THEN c ELSE "__" \o c \o "__"
    [] s.t = "CODE" -> RenderCode(c)
    [] s.t = "LATEXMATH" -> "$" \o c \o "$"
    [] s.t = "WIKILINK" -> "[[" \o (IF c = s.a THEN c ELSE s.a \o "|" \o c)
                           \o "]]"
    [] s.t = "A" -> RenderLink(c, s.a, s.b, refs)
    [] s.t = "IMG" -> RenderImg(c, s.a, s.b, refs)
    [] OTHER -> c

EnterSpan(st, e, o) ==
  LET st1 == IF e.t \in {"A", "IMG"} THEN [st EXCEPT !.links = TRUE] ELSE st
  IN IF o.plain
     THEN IF e.t \in {"A", "IMG"} /\ e.b # "" /\ Enabled_(st.f)
          THEN [st EXCEPT !.found = Append(@, [k |-> "title", id |-> e.b,
                            ctx |-> "", tc |-> "", on |-> TRUE,
                            loc |-> Loc(st)])]
          ELSE st
     ELSE [st1 EXCEPT !.bufs = Append(@, ""),
                      !.sp = Append(@, [t |-> e.t, a |-> e.a, b |-> e.b])]

LeaveSpan(st, e, o, refs) ==
  IF o.plain THEN st
  ELSE LET c  == Last(st.bufs)
           s  == Last(st.sp)
           up == [st EXCEPT !.bufs = ButLast(@), !.sp = ButLast(@)]
       IN IF s.t = "LATEXMATH_DISPLAY"
          THEN LET m == AddText(up, Strip(c)) IN
               [Flush([m EXCEPT !.skel = Append(@, Tok("+", "MATH"))])
                  EXCEPT !.skel = Append(@, Tok("-", "MATH"))]
          ELSE AddText(up, IF InSpan(up, "IMG") THEN c  \* plain text
                           ELSE RenderSpan(s, c, refs, InSpan(up, "U")))

------------------------------------------------------------------------------
(* Texts *)

InlineText(st, x, o) ==
  LET raw == o.plain \/ InSpan(st, "CODE") \/ InSpan(st, "IMG")
      y == IF x = "\n" THEN " "
           ELSE IF Contains(x, "\n") THEN ReplaceAll(x, "\n", " ") ELSE x
  IN AddText(st, IF ~raw /\ x = "*" THEN "\\*"
                 ELSE IF ~raw /\ x = "`" THEN "\\`" ELSE y)

(* the indentation of HTML inside list items is not significant *)
RECURSIVE NoIndent(_)
NoIndent(s) == IF Contains(s, "\n ") THEN NoIndent(ReplaceAll(s, "\n ", "\n"))
               ELSE s

(* a text of an HTML block: maybe a command, whose line is removed *)
RECURSIVE NoBreak(_)
NoBreak(h) == IF EndsWith(h, " ") THEN NoBreak(Take(h, Len(h) - 1))
              ELSE IF EndsWith(h, "\n") THEN Take(h, Len(h) - 1) ELSE h
HtmlText(st0, x, al) ==
  LET tk == TokenOf(x, al)
      p  == ParseComment(x)
      c  == Resolve(p.name, al)
      st == IF p.name = "" THEN st0
            ELSE Log([st0 EXCEPT !.htm = IF tk.k = "" THEN @ ELSE NoBreak(@)],
                     Occ("command", c,
                              c \o "|" \o p.arg \o "|" \o p.name))
  IN
  IF p.name # "" /\ SkipsCmd(st, c) THEN st
  ELSE IF tk.k = ""
  THEN [st EXCEPT !.htm = @ \o x]
  ELSE IF tk.k = "inc"
  THEN LET m == [k |-> "inc", id |-> tk.a, ctx |-> st.f.ctx, tc |-> st.f.tc,
                 on |-> Enabled_(st.f), loc |-> Loc(st)]
           st1 == IF st.ev.every THEN st
                  ELSE Log(st, MsgOcc(st, tk.a, "", ""))
       IN IF SkipsMsg(st1, tk.a) THEN st1
          ELSE [st1 EXCEPT !.found = Append(@, m), !.f = Consume(@)]
  ELSE [st EXCEPT !.f = Step(@, <<>>, tk).f]

------------------------------------------------------------------------------
(* Blocks *)

Containers == {"QUOTE", "UL", "OL"}
Nested(st) == \E i \in DOMAIN st.anc : st.anc[i] \in Containers

(* a top-level block starts: blocks inside quotes and lists do not count,   *)
(* but an outermost quote inside a list does                                *)
Count(st, t) ==
  IF t \in DOMAIN Kind /\
     (IF t = "QUOTE" THEN ~In(st, "QUOTE") ELSE ~Nested(st))
  THEN [st EXCEPT !.n = @ + 1, !.kind = Kind[t]] ELSE st

(* paragraphs of list items are not distinguished from their direct text:   *)
(* tight and loose lists are equivalent                                     *)
Silent(st, t) == t \in {"DOC", "HTML"} \/ (t = "P" /\ Last(st.anc) = "LI")

Label(e) == IF e.a = "" THEN e.t ELSE e.t \o ":" \o e.a

EnterBlock(st, e) ==
  LET st1 == IF \/ e.t \in {"UL", "OL"} /\ (In(st, "UL") \/ In(st, "OL"))
                \/ e.t \in {"QUOTE", "CODE", "H", "HR", "HTML"} /\ In(st, "LI")
             THEN Flush(st) ELSE st
      st2 == Count(st1, e.t)
      st3 == IF Silent(st, e.t) THEN st2
             ELSE [st2 EXCEPT !.skel = Append(@, Tok("+", Label(e)))]
  IN [st3 EXCEPT !.anc = Append(@, e.t)]

LeaveBlock(st, e) ==
  LET st1 == CASE e.t = "CODE" -> FlushCode(st)
               [] e.t = "HTML" ->
                    IF IsBlank(st.htm) THEN [st EXCEPT !.htm = ""]
                    ELSE [st EXCEPT !.htm = "",
                            !.skel = Append(@, Tok("html", Strip(
                              IF In(st, "LI") THEN NoIndent(st.htm)
                              ELSE st.htm)))]
               [] OTHER -> Flush(st)
      st2 == [st1 EXCEPT !.anc = ButLast(@)]
  IN IF Silent(st2, e.t) THEN st2
     ELSE [st2 EXCEPT !.skel = Append(@, Tok("-", e.t))]

Text(st, x, o, al) ==
  IF In(st, "HTML") THEN HtmlText(st, x, al)
  ELSE IF In(st, "CODE") THEN [st EXCEPT !.code = @ \o x]
  ELSE InlineText(st, x, o)

SaxStep(st, e, o, refs, al) ==
  CASE e.k = "eb" -> EnterBlock(st, e)
    [] e.k = "lb" -> LeaveBlock(st, e)
    [] e.k = "es" -> EnterSpan(st, e, o)
    [] e.k = "ls" -> LeaveSpan(st, e, o, refs)
    [] e.k = "tx" -> Text(st, e.x, o, al)

------------------------------------------------------------------------------
(* Link reference definitions, from the lines of the document that look     *)
(* like one: [target]: href "title"                                         *)
RECURSIVE Unescape(_)
Unescape(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF Ch(s, 1) = "\\" /\ Ch(s, 2) \in {"\\", "\"", "'", "(", ")"}
  THEN Ch(s, 2) \o Unescape(Drop(s, 2))
  ELSE Ch(s, 1) \o Unescape(Drop(s, 1))
ParseRef(line) ==
  LET s == Strip(line)
      c == Find(s, "]:")
      rest == IF c = 0 THEN "" ELSE LStrip(Drop(s, c + 1))
      sp == FindSpaceFrom(rest, 1)
      h0 == IF sp = 0 THEN rest ELSE Take(rest, sp - 1)
      h == IF StartsWith(h0, "<") THEN SubSeq(h0, 2, Len(h0) - 1) ELSE h0
      t0 == IF sp = 0 THEN "" ELSE Strip(Drop(rest, sp))
      ti == IF t0 = "" THEN "" ELSE Unescape(SubSeq(t0, 2, Len(t0) - 1))
  IN [t |-> SubSeq(s, 2, c - 1), h |-> h, ti |-> ti]
IsRef(line) == LET s == Strip(line)
                   c == Find(s, "]:")
               IN /\ StartsWith(s, "[") /\ c > 2 /\ c = Find(s, "]")
                  /\ Len(s) > c + 2 /\ Ch(s, c + 2) \in Space
RefsOf(lines) ==
  LET L == SelectSeq(lines, IsRef) IN [i \in DOMAIN L |-> ParseRef(L[i])]
RefText(r) == "[" \o r.t \o "]: " \o r.h \o TitlePart(r.ti)
=============================================================================
