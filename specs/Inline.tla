------------------------------- MODULE Inline -------------------------------
(* Inline contents of messages: a pushdown machine over spans and pieces of *)
(* text which TLC explores to enumerate every content of N nodes, or        *)
(* simulates for longer ones.  Each leaf is a class of texts, targets or    *)
(* titles; the harness writes them as Markdown.                             *)
EXTENDS Str, Json, TLC

CONSTANTS N,         \* nodes
          Depth,     \* nested spans
          Families   \* parts of the language

Hrefs == {"plain", "space", "amp", "empty", "paren", "open", "text", "mailto"}
Titles == {"no", "plain", "quote", "bs", "nl", "amp"}

Texts == {"w", "star", "tick", "amp", "soft", "under", "glued", "html",
          "uni", "and"}
Codes == {"code:" \o c : c \in
            {"w", "two", "nl", "first", "last", "both", "one", "double",
             "pad", "runs", "gap", "only", "markup", "bs"}}
Wikis == {"wiki:" \o c : c \in {"same", "case", "text", "sp", "pre"}}
Links == {"+a:" \o h \o ":" \o t : h \in Hrefs, t \in Titles}
Images == {"+img:" \o h \o ":" \o t : h \in Hrefs \ {"text", "mailto"}, t \in Titles}
Marks == {"+em", "+em_", "+st", "+st_", "+del"}
Refs == {"+ref:" \o ToString(i) : i \in 0..7}
          \cup {"+imgref:" \o ToString(i) : i \in 0..7}
          \cup {"refs:" \o ToString(i) : i \in 0..7}
          \cup {"refc:" \o ToString(i) : i \in 0..7}

Family == [texts |-> Texts, codes |-> Codes, wikis |-> Wikis, links |-> Links,
           images |-> Images, marks |-> Marks, refs |-> Refs,
           math |-> {"math"}, auto |-> {"auto"}, u |-> {"+u"}]
Tokens == UNION {Family[f] : f \in Families} \cup {"w"}

Spans == UNION {Links, Images, Marks, {"+u"},
                {t \in Refs : StartsWith(t, "+")}}
IsLink(t) == t \in Links \cup Wikis \cup {"auto"}
                \/ StartsWith(t, "+ref") \/ StartsWith(t, "ref")
IsImage(t) == t \in Images \/ StartsWith(t, "+imgref")

VARIABLES toks, stack, n, prev
vars == <<toks, stack, n, prev>>

Inside(P(_)) == \E i \in DOMAIN stack : P(stack[i])
Init == toks = <<>> /\ stack = <<>> /\ n = 0 /\ prev = ""

Allowed(t) ==
  \* no links inside links, nothing but texts and marks inside images, and
  \* the marks are not repeated
  /\ IsLink(t) => ~Inside(IsLink) /\ ~Inside(IsImage)
  /\ IsImage(t) => ~Inside(IsImage)
  /\ t \in Marks \cup {"+u"} => ~Inside(LAMBDA x : Take(x, 3) = Take(t, 3))
  /\ t = "soft" => prev # ""
  /\ t \in {"math", "html"} => ~Inside(IsImage)
  \* pieces which belong to the words beside them
  /\ t = "glued" => prev # "" /\ prev # "soft"

Leaf(t) == /\ n < N /\ Allowed(t) /\ t \notin Spans
           /\ toks' = Append(toks, t) /\ prev' = t
           /\ n' = n + 1 /\ UNCHANGED stack
Enter(t) == /\ n < N /\ Len(stack) < Depth /\ t \in Spans /\ Allowed(t)
            /\ toks' = Append(toks, t) /\ stack' = Append(stack, t)
            /\ prev' = "" /\ n' = n + 1
Leave == /\ stack # <<>> /\ prev # "" /\ prev # "soft"
         /\ toks' = Append(toks, "-") /\ prev' = "-"
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED n

Next == (\E t \in Tokens : Leaf(t) \/ Enter(t)) \/ Leave

Complete == stack = <<>> /\ n > 0 /\ prev # "soft"
Emit == IF Complete THEN PrintT(ToJson([d |-> toks])) ELSE TRUE
EmitFull == IF Complete /\ n >= N - 1 THEN PrintT(ToJson([d |-> toks])) ELSE TRUE
=============================================================================
