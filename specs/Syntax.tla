------------------------------- MODULE Syntax -------------------------------
(* Comments over the grammar of commands, with aliases: what each of them   *)
(* does to a document (C20).                                                *)
EXTENDS CommandSyntax, CommandMachine, Json, TLC, Sequences, Randomization

CONSTANTS Rich,   \* more spaces and arguments
          Size    \* comments of each aliases and prelude, at random (0: all)

T(k, a) == [k |-> k, a |-> a]
Sp1 == IF Rich THEN {"", " ", "\t", "   ", " \t ", "       "}
       ELSE {"", " ", "\t ", "     "}
Sp2 == {" ", "\t", "   ", "      "}
Sp3 == IF Rich THEN {"", " ", "    ", " \t", "\t"} ELSE {"", "  ", "\t"}
Args == {"", "k", "two words", "ñ_1 Ω", "a  b", "a-b", "x.y", "mdpo-disable",
         "k!"} \cup (IF Rich THEN {"_", "1", "a\tb", "漢字 k", "¿k", "-", "k,",
                                   "<b", "(k)", "é à ü", "k / l"} ELSE {})
AliasMaps == {
  [x \in {} |-> ""],
  [x \in {"on", "mdpo-off", "ctx"} |->
     CASE x = "on" -> "mdpo-enable" [] x = "mdpo-off" -> "disable"
       [] x = "ctx" -> "context"],
  [x \in {"mdpo-enable", "next", "note:", "cb"} |->
     CASE x = "mdpo-enable" -> "disable" [] x = "next" -> "disable-next-line"
       [] x = "note:" -> "mdpo-translator" [] x = "cb" -> "include-codeblock"],
  [x \in {"i", "disable", "Ñ", "no-code"} |->
     CASE x = "i" -> "mdpo-include" [] x = "disable" -> "disable-codeblock"
       [] x = "Ñ" -> "enable-next-block" [] x = "no-code" -> "disable-codeblocks"],
  [x \in {"codes", "e", "x-y-z"} |->
     CASE x = "codes" -> "mdpo-include-codeblocks"
       [] x = "e" -> "mdpo-enable-next-line"
       [] x = "x-y-z" -> "mdpo-disable-next-block"],
  (* an alias with the name of a command, which is the target of others *)
  [x \in {"off", "mdpo-enable", "l", "mdpo-translator", "nb", "disable"} |->
     CASE x = "off" -> "mdpo-enable" [] x = "mdpo-enable" -> "mdpo-disable"
       [] x = "l" -> "mdpo-translator" [] x = "mdpo-translator" -> "context"
       [] x = "nb" -> "disable" [] x = "disable" -> "enable-next-block"]}
Names == DOMAIN Kinds \cup UNION {DOMAIN m : m \in AliasMaps}
         \cup {"mdpo-", "mdpo-disabled", "MDPO-disable", "Mdpo-context", "mdpo",
               "mdpo-disable-next", "context", "enable", "note", "translator",
               "mdpo--disable", "mdpo_disable", "mdpo-context:", "mdpo-includ"}

Comment(a, n, b, x, c) ==
  "<!--" \o a \o n \o (IF x = "" THEN "" ELSE b \o x) \o c \o "-->"

VARIABLES text, al, pre, res
vars == <<text, al, pre, res>>

Preludes == {<<>>, <<T("dis", "")>>, <<T("icbs", "")>>, <<T("ctx", "l")>>}
Doc(p, t) == <<T("text", "x")>> \o p \o t
             \o <<T("text", "y"), T("code", "c"), T("text", "z"),
                  T("code", "d"), T("text", "y")>>
RECURSIVE Run(_, _, _)
Run(f, found, ts) ==
  IF ts = <<>> THEN [f |-> f, found |-> found]
  ELSE LET s == Step(f, found, Head(ts)) IN Run(s.f, s.found, Tail(ts))

Cases == Sp1 \X Names \X Sp2 \X Args \X Sp3

Init ==
  /\ al \in AliasMaps
  /\ pre \in Preludes
  /\ \E q \in IF Size = 0 THEN Cases ELSE RandomSubset(Size, Cases) :
       text = Comment(q[1], q[2], q[3], q[4], q[5])
  /\ res = [done |-> FALSE]

Next ==
  /\ ~res.done
  /\ LET t == TokenOf(text, al)
         r == Run(InitFlags(FALSE), <<>>,
                  Doc(pre, IF t.k = "" THEN <<>> ELSE <<t>>))
     IN res' = [done |-> TRUE, k |-> t.k, a |-> t.a,
                err |-> t.k \in NeedsArgument /\ t.a = "",
                found |-> r.found, cat |-> CatalogOf(r.found)]
  /\ UNCHANGED <<text, al, pre>>

Pairs(m) == LET RECURSIVE P(_)
                P(S) == IF S = {} THEN <<>>
                        ELSE LET x == CHOOSE y \in S : TRUE
                             IN <<[n |-> x, c |-> m[x]]>> \o P(S \ {x})
            IN P(DOMAIN m)
Emit == res.done =>
  PrintT(ToJson([text |-> text, al |-> Pairs(al), pre |-> pre, k |-> res.k,
                 a |-> res.a, err |-> res.err, found |-> res.found,
                 cat |-> res.cat]))

------------------------------------------------------------------------------
(* A command is recognised by its name alone, whatever the spaces, and its  *)
(* argument neither begins nor ends with a space.                           *)
ArgOK == res.done /\ res.k # "" =>
  /\ ~StartsWith(res.a, " ") /\ ~EndsWith(res.a, " ")
  /\ res.a # "" => Contains(text, res.a)
(* Comments with the name of a command and without punctuation after it are *)
(* commands.                                                                *)
Known == res.done =>
  LET inner == LStrip(SubSeq(text, 5, Len(text) - 3))
      s == FindSpaceFrom(inner, 1)
      n == IF s = 0 THEN inner ELSE Take(inner, s - 1)
      full == IF n \in DOMAIN al THEN FullName(al[n]) ELSE n
  IN (res.k # "") =
       /\ full \in DOMAIN Kinds
       /\ s = 0 \/ \A p \in Punctuation : ~Contains(Drop(inner, s), p)
=============================================================================
