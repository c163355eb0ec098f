---------------------------- MODULE CommandSyntax ----------------------------
(* Which HTML comments are mdpo commands and what they mean.                *)
EXTENDS Str

NotCommand == [name |-> "", arg |-> ""]

(* An argument is made of letters, digits, underscores and white space; the *)
(* alphabet is given by exclusion because texts are Unicode.                *)
Punctuation == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",",
                "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\",
                "]", "^", "`", "{", "|", "}", "~", "¿", "¡", "«", "»", "–",
                "—", "…"}
WordsOnly(s) == \A i \in 1..Len(s) : Ch(s, i) \notin Punctuation

(* <!-- name -->  or  <!-- name argument -->, any white space around, the   *)
(* argument without its trailing spaces                                     *)
ParseComment(text) ==
  LET a == Find(text, "<!--")
      b == IF a = 0 THEN 0 ELSE FindFrom(text, "-->", a + 4)
  IN IF a = 0 \/ b = 0 THEN NotCommand
     ELSE LET inner == LStrip(SubSeq(text, a + 4, b - 1))
              sp    == FindSpaceFrom(inner, 1)
              name  == IF sp = 0 THEN inner ELSE Take(inner, sp - 1)
              arg   == IF sp = 0 THEN "" ELSE LStrip(Drop(inner, sp))
          IN IF name = "" \/ ~WordsOnly(arg) THEN NotCommand
             ELSE [name |-> name, arg |-> RStripCh(arg, " ")]

(* command -> kind of token of CommandMachine *)
Kinds == [c \in {"mdpo-disable", "mdpo-enable", "mdpo-disable-next-block",
                 "mdpo-disable-next-line", "mdpo-enable-next-block",
                 "mdpo-enable-next-line", "mdpo-context", "mdpo-translator",
                 "mdpo-include", "mdpo-include-codeblock",
                 "mdpo-disable-codeblock", "mdpo-include-codeblocks",
                 "mdpo-disable-codeblocks"} |->
  CASE c = "mdpo-disable" -> "dis"
    [] c = "mdpo-enable" -> "ena"
    [] c \in {"mdpo-disable-next-block", "mdpo-disable-next-line"} -> "dnb"
    [] c \in {"mdpo-enable-next-block", "mdpo-enable-next-line"} -> "enb"
    [] c = "mdpo-context" -> "ctx"
    [] c = "mdpo-translator" -> "tr"
    [] c = "mdpo-include" -> "inc"
    [] c = "mdpo-include-codeblock" -> "icb"
    [] c = "mdpo-disable-codeblock" -> "dcb"
    [] c = "mdpo-include-codeblocks" -> "icbs"
    [] c = "mdpo-disable-codeblocks" -> "dcbs"]
NeedsArgument == {"ctx", "tr", "inc"}

(* aliases: function from names to commands, with or without "mdpo-" *)
FullName(c) == IF StartsWith(c, "mdpo-") THEN c ELSE "mdpo-" \o c
ValidCommand(c) == FullName(c) \in DOMAIN Kinds
Resolve(name, aliases) ==
  IF name \in DOMAIN aliases THEN FullName(aliases[name]) ELSE name

(* the token of a comment: kind "" when it is not a command *)
TokenOf(text, aliases) ==
  LET p == ParseComment(text)
      c == Resolve(p.name, aliases)
  IN IF p.name # "" /\ c \in DOMAIN Kinds
     THEN [k |-> Kinds[c], a |-> p.arg]
     ELSE [k |-> "", a |-> ""]
=============================================================================
