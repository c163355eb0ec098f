------------------------------- MODULE Lines --------------------------------
(* The most general author: documents are any sequence of lines, whether or *)
(* not they make sense together.  A line is a text which can start, be lazy *)
(* continuation of, interrupt or close any block that may be open; `@` are  *)
(* words, numbered by the harness, and `%` a letter which is not ASCII.     *)
(* What a sequence of lines means is decided by the parser, and judged by   *)
(* Sax (ExtractTrace, TranslateTrace).                                      *)
EXTENDS Naturals, Sequences, Json, TLC

CONSTANTS N,         \* lines
          Families   \* which lines there are

VARIABLE doc

Text == {"@", "@ @", "  @", "*@* **@**", "`@`", "@ <b>@</b>", "@  ", "@\\",
         "[@](/@)", "![@](/@ \"@\")", "%@ %", "@ &amp; @", "\\*@ \\`",
         "@ *a", "<http://@.x>", "\\# @", "\\- @", "1\\. @",
         "\\> @", "\\---", "\\* * *", "\\~~~ @", "22\\) @", "\\+", "@ - @"}
Heads == {"# @", "## @", "###", "===", "---", "# @ #", "@\n---", "@ @\n==="}
Items == {"- @", "* @", "+ @", "  - @", "    - @", "   - @", "1. @", "2. @",
          "   1. @", "1) @", "- [ ] @", "  - [x] @", "   @", "- `@`", "- # @",
          "-", "- - @", "1. - @"}
Quotes == {"> @", "> > @", "> - @", ">   @", ">", "> # @", "> 1. @", "> ```",
           ">     @", "> <div>@</div>", "> ***", "> | @ | @ |"}
Code == {"```", "~~~", "```` @", "``` @ @", "    @", "      @", "\t@"}
Tables == {"| @ | @ |", "| - | - |", "| :-: | -: |", "@ | @", "- | -"}
Html == {"<div>@</div>", "<div>", "</div>", "<!-- @: @, -->", "<!--", "-->",
         "  <p>@", "<pre>", "</pre>"}
Refs == {"[r]: /@", "[s]: /@ \"@\"", "[@][r]", "[s]", "![@][s]", "[r]",
         "[t]: <@>", "[@]: /@"}
Breaks == {"***", "- - -", "____"}
Commands == {"<!-- mdpo-disable -->", "<!-- mdpo-enable -->",
             "<!-- mdpo-include-codeblock -->", "<!-- mdpo-disable-codeblock -->",
             "  <!-- mdpo-include-codeblocks -->"}
Next_ == {"<!-- mdpo-disable-next-block -->", "<!-- mdpo-enable-next-line -->",
          "<!-- mdpo-include @ a -->", "- <!-- mdpo-disable -->",
          "> <!-- mdpo-enable-next-block -->"}
Attached == {"<!-- mdpo-context c1 -->", "<!-- mdpo-translator @ a -->",
             "<!-- mdpo-context other context -->",
             "  <!-- mdpo-context c1 -->"}

Family(f) == CASE f = "text" -> Text [] f = "heads" -> Heads
               [] f = "items" -> Items [] f = "quotes" -> Quotes
               [] f = "code" -> Code [] f = "tables" -> Tables
               [] f = "html" -> Html [] f = "refs" -> Refs
               [] f = "breaks" -> Breaks [] f = "commands" -> Commands
               [] f = "next" -> Next_ [] f = "attached" -> Attached

Init == doc = <<>>
Add(l) == doc' = Append(doc, l)
(* families are equally likely in simulations, and empty lines frequent     *)
Next == /\ Len(doc) < N
        /\ \/ Add("")
           \/ \E f \in Families : \E l \in Family(f) : Add(l)

Emit == doc # <<>> => PrintT(ToJson([d |-> doc]))
EmitFull == Len(doc) = N => PrintT(ToJson([d |-> doc]))
=============================================================================
