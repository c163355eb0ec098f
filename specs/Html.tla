-------------------------------- MODULE Html --------------------------------
(* mdpo2html: a pushdown machine which writes at once a Markdown document,  *)
(* the HTML that md4c renders from it and the HTML that mdpo2html must      *)
(* produce with the catalog chosen on the way.                              *)
(*                                                                          *)
(* A message is a sequence of spans; its translation has the translated     *)
(* spans in reverse order.  The translation of a message replaces it when   *)
(* the message is enabled (CommandMachine) and its (context, id) has a      *)
(* translation in the catalog; anything else is kept, but the commands.     *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, Str, CommandMachine

CONSTANTS N,        \* blocks of the document
          Spans,    \* maximum spans of a message
          Kinds,    \* kinds of spans
          Leaves,   \* kinds of blocks without blocks
          Conts,    \* kinds of blocks with blocks
          Cmds      \* commands

VARIABLES md,     \* lines of the Markdown document
          html,   \* its HTML
          want,   \* HTML translated
          wantm,  \* the same with adjacent markups merged
          plain,  \* html without commands
          flags,      \* flags of the commands
          stack,  \* open containers
          cur,    \* message being written: its block and spans
          found,  \* messages found
          cat,    \* catalog: sequence of [ctx, id, str, out]
          defs,   \* definitions of link references
          late,   \* a code block was found between a command and its block
          n, w    \* blocks and words used
vars == <<md, html, want, wantm, plain, flags, stack, cur, found, cat, defs, late, n, w>>

(* ---- spans ---- *)
(* md: source; id: in msgids; out: HTML; t..: the same of the translation *)
Span(k, i, dt) ==
  LET s == ToString(i)
      a == "w" \o s   b == "t" \o s
      u == "u" \o s   v == "v" \o s
      Both(M(_, _), H(_, _)) ==
        [k |-> k, md |-> M(a, u), id |-> M(a, u), out |-> H(a, u),
         tid |-> M(b, v), tout |-> H(b, v)]
  IN
  CASE k = "t" -> Both(LAMBDA x, y : x \o " word",
                       LAMBDA x, y : x \o " word")
    [] k = "x" -> Both(LAMBDA x, y : x \o " & \"q\" > it's {} é",
                       LAMBDA x, y : x \o " &amp; &quot;q&quot; &gt; it's {} é")
    [] k = "e" -> Both(LAMBDA x, y : "*" \o x \o "*",
                       LAMBDA x, y : "<em>" \o x \o "</em>")
    [] k = "s" -> Both(LAMBDA x, y : "**" \o x \o "**",
                       LAMBDA x, y : "<strong>" \o x \o "</strong>")
    [] k = "es" -> Both(LAMBDA x, y : "***" \o x \o "***",
                        LAMBDA x, y : "<em><strong>" \o x \o "</strong></em>")
    [] k = "n" -> Both(LAMBDA x, y : "**" \o x \o " *z* y**",
                       LAMBDA x, y : "<strong>" \o x \o " <em>z</em> y</strong>")
    [] k = "c" -> Both(LAMBDA x, y : "`" \o x \o "  <b> &lt;`",
                       LAMBDA x, y : "<code>" \o x \o "  &lt;b&gt; &amp;lt;</code>")
    [] k = "ec" -> Both(LAMBDA x, y : "**`" \o x \o "`**",
                        LAMBDA x, y : "<strong><code>" \o x \o "</code></strong>")
    [] k = "a" -> Both(LAMBDA x, y : "[" \o x \o "](" \o y \o "?a=1&b=2)",
                       LAMBDA x, y : "<a href=\"" \o y \o "?a=1&amp;b=2\">" \o x \o "</a>")
    [] k = "at" -> Both(LAMBDA x, y : "[" \o x \o "](" \o y \o " \"title\")",
                        LAMBDA x, y : "<a href=\"" \o y \o "\" title=\"title\">" \o x \o "</a>")
    [] k = "ae" -> Both(LAMBDA x, y : "[" \o x \o " *z*](" \o y \o ")",
                        LAMBDA x, y : "<a href=\"" \o y \o "\">" \o x \o " <em>z</em></a>")
    [] k = "ac" -> Both(LAMBDA x, y : "[`" \o x \o "`](" \o y \o ")",
                        LAMBDA x, y : "<a href=\"" \o y \o "\"><code>" \o x \o "</code></a>")
    [] k = "i" -> Both(LAMBDA x, y : "![" \o x \o "](" \o y \o ")",
                       LAMBDA x, y : "<img src=\"" \o y \o "\" alt=\"" \o x \o "\">")
    [] k = "it" -> Both(LAMBDA x, y : "![" \o x \o "](" \o y \o " \"a title\")",
                        LAMBDA x, y : "<img src=\"" \o y \o "\" alt=\"" \o x
                                      \o "\" title=\"a title\">")
    [] k = "aq" -> Both(LAMBDA x, y : "[" \o x \o "](" \o y \o "(1) \"a \\\"q\\\" b & c\")",
                        LAMBDA x, y : "<a href=\"" \o y
                                      \o "(1)\" title=\"a &quot;q&quot; b &amp; c\">" \o x \o "</a>")
    [] k = "en" -> Both(LAMBDA x, y : x \o " &copy; &lt;b&gt; &amp; &#38; z",
                        LAMBDA x, y : x \o " © &lt;b&gt; &amp; &amp; z")
    [] k = "br" -> Both(LAMBDA x, y : x \o "<br>y",
                        LAMBDA x, y : x \o "<br>y")
    [] k = "sp" -> Both(LAMBDA x, y : "<sup>" \o x \o "</sup>",
                        LAMBDA x, y : "<sup>" \o x \o "</sup>")
    [] k = "cm" -> Both(LAMBDA x, y : x \o " <!-- z --> y",
                        LAMBDA x, y : x \o " <!-- z --> y")
    [] k = "ai" -> Both(LAMBDA x, y : "[![" \o x \o "](i)](" \o y \o ")",
                        LAMBDA x, y : "<a href=\"" \o y \o "\"><img src=\"i\" alt=\""
                                      \o x \o "\"></a>")
    [] k = "u" -> Both(LAMBDA x, y : "<https://" \o x \o ".org>",
                       LAMBDA x, y : "<a href=\"https://" \o x \o ".org\">https://"
                                     \o x \o ".org</a>")
    [] k = "r" -> [k |-> k, md |-> "[" \o a \o "][r" \o s \o "]",
                   id |-> "[" \o a \o "][r" \o s \o "]",
                   out |-> "<a href=\"" \o u \o "\">" \o a \o "</a>",
                   tid |-> "[" \o b \o "][r" \o s \o "]",
                   tout |-> "<a href=\"" \o (IF dt THEN v ELSE u) \o "\">"
                            \o b \o "</a>"]
    [] k = "rt" -> [k |-> k, md |-> "![" \o a \o "][r" \o s \o "]",
                   id |-> "![" \o a \o "][r" \o s \o "]",
                   out |-> "<img src=\"" \o u \o "\" alt=\"" \o a
                           \o "\" title=\"the title\">",
                   tid |-> "![" \o b \o "][r" \o s \o "]",
                   tout |-> "<img src=\"" \o (IF dt THEN v ELSE u)
                            \o "\" alt=\"" \o b \o "\" title=\""
                            \o (IF dt THEN "translated" ELSE "the title") \o "\">"]
    [] k = "rs" -> [k |-> k, md |-> "[r" \o s \o "]",
                   id |-> "[r" \o s \o "]",
                   out |-> "<a href=\"" \o u \o "\">r" \o s \o "</a>",
                   tid |-> "[r" \o s \o "]",
                   tout |-> "<a href=\"" \o (IF dt THEN v ELSE u) \o "\">r"
                            \o s \o "</a>"]

RefKinds == {"r", "rt", "rs"}
Def(k, i, dt) ==
  LET s == ToString(i)
      L(x, t) == "[r" \o s \o "]: " \o x \o s
                 \o (IF k = "rt" THEN " \"" \o t \o "\"" ELSE "")
  IN [id |-> L("u", "the title"),
      str |-> IF dt THEN L("v", "translated") ELSE ""]

(* separators: in the source, in the HTML *)
Sep(b) == CASE b = " " -> [md |-> " ", out |-> " "]
            [] b = "soft" -> [md |-> "\n", out |-> "\n"]
            [] b = "hard" -> [md |-> "\\\n", out |-> "<br>\n"]
            [] b = "two" -> [md |-> "  ", out |-> "  "]

(* a message: items [s: span, b: separator before] *)
RECURSIVE MsgMd(_), MsgOut(_)
MsgMd(ms) == IF ms = <<>> THEN ""
             ELSE ms[1].b.md \o ms[1].s.md \o MsgMd(Tail(ms))
MsgOut(ms) == IF ms = <<>> THEN ""
              ELSE ms[1].b.out \o ms[1].s.out \o MsgOut(Tail(ms))
Ids(ms) == [i \in 1..Len(ms) |-> ms[i].s.id]
(* the translations of the spans are in reverse order *)
TIds(ms) == [i \in 1..Len(ms) |-> ms[Len(ms) + 1 - i].s.tid]
TOuts(ms) == [i \in 1..Len(ms) |-> ms[Len(ms) + 1 - i].s.tout]
Message(ms) ==
  [md |-> MsgMd(ms), out |-> MsgOut(ms),
   id |-> Join(Ids(ms), " "),
   str |-> "tr " \o Join(TIds(ms), " "),
   tout |-> "tr " \o Join(TOuts(ms), " "),
   reuse |-> \A i \in 2..Len(ms) : ms[i].b.md = " "]
Merge(h) ==
  LET M(x, t) == ReplaceAll(ReplaceAll(ReplaceAll(
        x, "</" \o t \o "> <" \o t \o ">", " "),
        "</" \o t \o ">\n<" \o t \o ">", " "),
        "</" \o t \o ">  <" \o t \o ">", " ")
  IN M(M(h, "strong"), "em")

(* ---- documents ---- *)
Top == stack[Len(stack)]
Lists == {"ul", "ol", "UL", "OL"}    \* upper case: loose lists
Tight == {"ul", "ol"}

RECURSIVE Prefix(_)
Prefix(st) == IF st = <<>> THEN "" ELSE st[1].pfx \o Prefix(Tail(st))
(* the first line of an item has its mark *)
FirstPrefix == IF Top.c = "li" /\ Top.prev = ""
               THEN Prefix(SubSeq(stack, 1, Len(stack) - 1)) \o Top.mark
               ELSE Prefix(stack)
InTight == Len(stack) > 1 /\ Top.c = "li" /\ stack[Len(stack) - 1].c \in Tight
(* there is an empty line between blocks but in tight items *)
Blank(st) == RStrip(Prefix(st))
Gap == IF md = <<>> \/ Top.prev = "" \/ InTight THEN <<>> ELSE <<Blank(stack)>>
Lines(text) ==  \* lines of text with the prefixes
  LET ls == <<FirstPrefix>>
      RECURSIVE Go(_, _)
      Go(s, p) == LET i == Find(s, "\n") IN
                  IF i = 0 THEN <<p \o s>>
                  ELSE <<RStrip(p \o Take(s, i - 1))>>
                       \o Go(Drop(s, i), Prefix(stack))
  IN Go(text, ls[1])
SetPrev(x) == [stack EXCEPT ![Len(stack)].prev = x, ![Len(stack)].kids = @ + 1]

Write(h) == /\ html' = html \o h /\ want' = want \o h
            /\ wantm' = wantm \o h /\ plain' = plain \o h

Marker(c, i) == CASE c \in {"ul", "UL"} -> "- "
                  [] OTHER -> ToString(i) \o ". "
Leaf(c) == [c |-> c, prev |-> "", pfx |-> "", mark |-> "", kids |-> 0, st |-> 1]

Init == /\ md = <<>> /\ html = "" /\ want = "" /\ wantm = "" /\ plain = ""
        /\ flags = InitFlags(FALSE)
        /\ stack = <<Leaf("doc")>> /\ cur = [k |-> "", ms |-> <<>>, row |-> ""]
        /\ found = <<>> /\ cat = <<>> /\ defs = <<>> /\ late = FALSE /\ n = 0 /\ w = 1

Idle == cur.k = ""
(* x may follow prev in c *)
Allowed(x) ==
  LET c == Top.c  prev == Top.prev IN
  CASE c \in Lists -> FALSE
    [] c = "li" /\ prev = "" -> x = "p"
    [] c = "li" /\ InTight ->
         /\ x \in {"h", "hr", "cf", "q"} \cup Tight
         /\ x = "q" => prev # "q"
         /\ x \in Lists => prev \notin Lists
    [] c \in {"doc", "q", "li"} ->
         /\ x \in Lists => prev \notin Lists
         /\ x = "q" => prev # "q"
         /\ x = "htm" => prev # "htm"
    [] OTHER -> FALSE

(* -- blocks with a message -- *)
StartMsg(k, lvl) ==
  /\ Idle /\ n < N /\ Allowed(k)
  /\ cur' = [k |-> k, ms |-> <<>>, row |-> "", lvl |-> lvl]
  /\ n' = n + 1
  /\ UNCHANGED <<md, html, want, wantm, plain, flags, stack, found, cat, defs, late, w>>

Breaks == IF cur.k = "p" THEN {" ", "soft", "hard", "two"} ELSE {" "}
AddSpan(k, b, dt) ==
  /\ cur.k \in {"p", "h", "cell"} /\ Len(cur.ms) < Spans
  /\ cur.ms = <<>> => b = " "
  /\ dt => k \in RefKinds
  /\ cur' = [cur EXCEPT !.ms = Append(@,
       [s |-> Span(k, w, dt),
        b |-> IF cur.ms = <<>> THEN [md |-> "", out |-> ""] ELSE Sep(b)])]
  /\ w' = w + 1
  /\ defs' = IF k \in RefKinds THEN Append(defs, Def(k, w, dt)) ELSE defs
  /\ UNCHANGED <<md, html, want, wantm, plain, flags, stack, found, cat, late, n>>

Entries(ctx, id) == {i \in 1..Len(cat) : cat[i].ctx = ctx /\ cat[i].id = id}
(* the message m is found: it has the translation of the catalog or, if it  *)
(* is not there yet, tr decides: "", "tr" (translated) or "other"           *)
(* (translated in another context)                                          *)
Result(m, tr) ==
  LET known == Entries(flags.ctx, m.id)
      entry == [ctx |-> flags.ctx, id |-> m.id,
                str |-> IF tr = "tr" THEN m.str ELSE "",
                out |-> IF tr = "tr" THEN m.tout ELSE ""]
      other == [ctx |-> IF flags.ctx = "" THEN "k" ELSE "", id |-> m.id,
                str |-> "other " \o m.str, out |-> "other " \o m.tout]
      cat2 == IF known # {} THEN cat
              ELSE Append(cat, entry) \o
                   IF tr = "other" /\ Entries(other.ctx, m.id) = {}
                   THEN <<other>> ELSE <<>>
      e == cat2[CHOOSE i \in 1..Len(cat2) :
                  cat2[i].ctx = flags.ctx /\ cat2[i].id = m.id]
      on == Enabled_(flags)
  IN [cat |-> cat2, on |-> on,
      out |-> IF on /\ e.out # "" THEN e.out ELSE m.out]

Tags == CASE cur.k = "h" -> <<"<h" \o ToString(cur.lvl) \o ">",
                              "</h" \o ToString(cur.lvl) \o ">\n">>
          [] InTight /\ Top.prev = "" -> <<"", "">>
          [] OTHER -> <<"<p>", "</p>\n">>

Emit_(m, r, open, close) ==
  /\ html' = html \o open \o m.out \o close
  /\ plain' = plain \o open \o m.out \o close
  /\ want' = want \o open \o r.out \o close
  /\ wantm' = wantm \o open \o Merge(r.out) \o close
  /\ cat' = r.cat /\ flags' = Consume(flags)
  /\ found' = Append(found, [ctx |-> flags.ctx, id |-> m.id, on |-> r.on,
                             m |-> m])

EndMsg(tr, m) ==
  LET r == Result(m, tr)
      src == IF cur.k = "h" THEN Repeat("#", cur.lvl) \o " " \o m.md ELSE m.md
  IN /\ cur.k \in {"p", "h"}
     /\ tr # "" => Entries(flags.ctx, m.id) = {}
     /\ Emit_(m, r, Tags[1], Tags[2])
     /\ md' = md \o Gap \o Lines(src)
     /\ stack' = SetPrev(cur.k)
     /\ cur' = [cur EXCEPT !.k = "", !.ms = <<>>]
     /\ UNCHANGED <<defs, late, n, w>>
FinishMsg(tr) == cur.ms # <<>> /\ EndMsg(tr, Message(cur.ms))
(* the same text as a message before *)
Reuse(i) == /\ cur.k \in {"p", "h"} /\ cur.ms = <<>> /\ found # <<>>
            /\ found[i].m.reuse
            /\ EndMsg("", found[i].m)

(* -- tables: two columns -- *)
StartTable(al) ==
  /\ Idle /\ n < N /\ Allowed("tbl")
  /\ cur' = [k |-> "row", ms |-> <<>>, row |-> "", al |-> al, col |-> 0, head |-> TRUE]
  /\ n' = n + 1
  /\ md' = md \o Gap
  /\ Write("<table>\n<thead>\n<tr>\n")
  /\ UNCHANGED <<flags, stack, found, cat, defs, late, w>>
StartCell == /\ cur.k = "row" /\ cur.col < 2
             /\ cur' = [cur EXCEPT !.k = "cell", !.ms = <<>>]
             /\ UNCHANGED <<md, html, want, wantm, plain, flags, stack, found, cat, defs, late, n, w>>
EndCell(tr) ==
  LET m == Message(cur.ms)
      t == IF cur.head THEN "th" ELSE "td"
      open == "<" \o t \o (IF cur.al = "" THEN "" ELSE
                           " align=\"" \o cur.al \o "\"") \o ">"
      close == "</" \o t \o ">\n"
  IN /\ cur.k = "cell"
     /\ cur.head => cur.ms # <<>>
     /\ IF cur.ms = <<>>
        THEN /\ tr = "" /\ Write(open \o close)
             /\ UNCHANGED <<flags, cat, found>>
        ELSE Emit_(m, Result(m, tr), open, close)
     /\ cur' = [cur EXCEPT !.k = "row", !.ms = <<>>, !.col = @ + 1,
                           !.row = @ \o " " \o (IF cur.ms = <<>> THEN "" ELSE m.md) \o " |"]
     /\ UNCHANGED <<md, stack, defs, late, n, w>>
Dash == CASE cur.al = "left" -> " :-- |" [] cur.al = "right" -> " --: |"
          [] cur.al = "center" -> " :-: |" [] OTHER -> " --- |"
EndRow(again) ==
  /\ cur.k = "row" /\ cur.col = 2
  /\ cur.head => again
  /\ md' = md \o Lines("|" \o cur.row)
           \o (IF cur.head THEN <<Prefix(stack) \o "|" \o Dash \o Dash>> ELSE <<>>)
  /\ Write("</tr>\n" \o (IF cur.head THEN "</thead>\n<tbody>\n" ELSE "")
           \o (IF again THEN "<tr>\n" ELSE "</tbody>\n</table>\n"))
  /\ cur' = IF again THEN [cur EXCEPT !.row = "", !.col = 0, !.head = FALSE]
            ELSE [k |-> "", ms |-> <<>>, row |-> ""]
  /\ stack' = IF again THEN stack ELSE SetPrev("tbl")
  /\ UNCHANGED <<flags, found, cat, defs, late, n, w>>

(* -- blocks without messages -- *)
Other(x, src, out) ==
  /\ Idle /\ n < N /\ x \in Leaves /\ Allowed(x)
  /\ md' = md \o Gap \o Lines(src)
  /\ Write(out)
  /\ stack' = SetPrev(x) /\ n' = n + 1
  /\ late' = (late \/ (x = "cf" /\ Pending(flags)))
  /\ UNCHANGED <<flags, cur, found, cat, defs, w>>
Rule == Other("hr", "***", "<hr>\n")
Code(l) == Other("cf", "```" \o l \o "\na < b & *c*\n\n<!-- mdpo-disable -->\n```",
                 "<pre><code" \o (IF l = "" THEN "" ELSE " class=\"language-" \o l \o "\"")
                 \o ">a &lt; b &amp; *c*\n\n&lt;!-- mdpo-disable --&gt;\n</code></pre>\n")
Htm(s) == Other("htm", s, s \o "\n")
Htmls == {"<div class=\"x\">\nw1 word &amp; <b>c</b>\n</div>",
          "<!-- a comment: with & text -->", "<!-- note -->",
          "<hr class=\"y\">", "<?php echo ?>", "<img src=\"a.png\"/>",
          "<details>\n<summary>raw & text</summary>", "</details>",
          "<section>", "</section>", "<center>\n*raw*\n</center>",
          "<span>\nraw  <i>x</i> &lt;\n</span>", "<a id=\"w1\">", "</a>",
          "<!-- a: b, c --> x: <!-- b: c. -->", "<![CDATA[ raw < &amp; ]]>", "<!DOCTYPE x>"}

Tok(k, a) == [k |-> k, a |-> a]
Comment(t, name) ==
  LET s == "<!-- mdpo-" \o name \o (IF t.a = "" THEN "" ELSE " " \o t.a) \o " -->" IN
  /\ Idle /\ n < N /\ Allowed("cmd") /\ t.k \in Cmds
  /\ md' = md \o Gap \o Lines(s)
  /\ html' = html \o s \o "\n"
  /\ flags' = Step(flags, <<>>, t).f
  /\ stack' = SetPrev("cmd") /\ n' = n + 1
  /\ UNCHANGED <<want, wantm, plain, cur, found, cat, defs, late, w>>
Commands_ ==
  \/ Comment(Tok("dis", ""), "disable") \/ Comment(Tok("ena", ""), "enable")
  \/ Comment(Tok("dnb", ""), "disable-next-block")
  \/ Comment(Tok("enb", ""), "enable-next-line")
  \/ Comment(Tok("ctx", "k"), "context")
  \/ Comment(Tok("ctx", "other one"), "context")
  \/ Comment(Tok("tr", "a note"), "translator")
  \/ Comment(Tok("dcbs", ""), "disable-codeblocks")
  \/ Comment(Tok("inc", "included"), "include")

(* -- containers -- *)
Enter(c) ==
  /\ Idle /\ n < N /\ c \in Conts /\ Allowed(c) /\ Len(stack) < 6
  /\ md' = md \o Gap
  /\ Write(CASE c = "q" -> "<blockquote>\n"
             [] c \in {"ul", "UL"} -> "<ul>\n"
             [] c = "OL" -> "<ol start=\"3\">\n"
             [] OTHER -> "<ol>\n")
  /\ stack' = Append(SetPrev(c), [Leaf(c) EXCEPT !.pfx = IF c = "q" THEN "> " ELSE "",
                                                 !.st = IF c = "OL" THEN 3 ELSE 1])
  /\ n' = n + 1
  /\ UNCHANGED <<flags, cur, found, cat, defs, late, w>>
Item ==
  LET m == Marker(Top.c, Top.st + Top.kids) IN
  /\ Idle /\ n < N /\ Top.c \in Lists
  /\ md' = md \o IF Top.kids > 0 /\ Top.c \notin Tight
                 THEN <<Blank(stack)>> ELSE <<>>
  /\ Write("<li>")
  /\ stack' = Append(SetPrev("li"),
                     [Leaf("li") EXCEPT !.mark = m, !.pfx = Repeat(" ", Len(m))])
  /\ UNCHANGED <<flags, cur, found, cat, defs, late, n, w>>
Leave ==
  /\ Idle /\ Len(stack) > 1 /\ Top.prev # ""
  (* a loose list needs an empty line to be loose *)
  /\ Top.c \in {"UL", "OL"} => Top.kids > 1
  /\ Write(CASE Top.c = "q" -> "</blockquote>\n"
             [] Top.c \in {"ul", "UL"} -> "</ul>\n"
             [] Top.c \in {"ol", "OL"} -> "</ol>\n"
             [] OTHER -> "</li>\n")
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<md, flags, cur, found, cat, defs, late, n, w>>

Next ==
  \/ StartMsg("p", 0) \/ \E l \in {1, 2, 6} : StartMsg("h", l)
  \/ \E k \in Kinds, b \in Breaks, dt \in BOOLEAN : AddSpan(k, b, dt)
  \/ \E tr \in {"", "tr", "other"} : FinishMsg(tr) \/ EndCell(tr)
  \/ \E i \in 1..Len(found) : Reuse(i)
  \/ "tbl" \in Leaves /\ \E al \in {"", "left", "right", "center"} : StartTable(al)
  \/ StartCell \/ \E a \in BOOLEAN : EndRow(a)
  \/ Rule \/ \E l \in {"", "python"} : Code(l) \/ \E s \in Htmls : Htm(s)
  \/ Commands_
  \/ \E c \in Conts : Enter(c)
  \/ Item \/ Leave

(* ---- properties ---- *)
Complete == Idle /\ Len(stack) = 1 /\ n > 0
(* without translations only the commands disappear *)
NothingOK == (\A i \in 1..Len(cat) : cat[i].str = "") => want = plain
(* disabled messages are not translated *)
DisabledOK == (\A i \in 1..Len(found) : ~found[i].on) => want = plain
(* nothing but messages with translation changes *)
TranslatedOK ==
  want # plain => \E i \in 1..Len(found) :
     /\ found[i].on
     /\ \E e \in 1..Len(cat) : /\ cat[e].ctx = found[i].ctx
                               /\ cat[e].id = found[i].id /\ cat[e].str # ""
Record == [md |-> md, html |-> html, want |-> want, plain |-> plain, wantm |-> wantm,
           cat |-> [i \in 1..Len(cat) |->
                      [c |-> cat[i].ctx, i |-> cat[i].id, s |-> cat[i].str]],
           defs |-> defs, late |-> late,
           found |-> [i \in 1..Len(found) |->
                      [c |-> found[i].ctx, i |-> found[i].id, on |-> found[i].on]]]
Emit == IF Complete /\ n >= N - 1 THEN PrintT(ToJson(Record)) ELSE TRUE
=============================================================================
