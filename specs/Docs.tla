-------------------------------- MODULE Docs --------------------------------
(* Block structures of Markdown documents: a pushdown machine which TLC     *)
(* explores to enumerate every document skeleton of N nodes, or simulates   *)
(* for longer ones.  The harness writes them as Markdown with random        *)
(* inline contents.                                                         *)
EXTENDS Naturals, Sequences, Json, TLC

CONSTANTS N,         \* nodes
          MaxLists,  \* nested lists
          Simple,    \* TRUE: only top-level blocks and commands
          Wide       \* 0: common structures; 1: any block inside quotes and
                     \* lists that po2md can write; 2: any block anywhere

Leaves == {"p", "h", "s", "cf", "ci", "hr", "html", "tbl", "cmd"}
Lists == {"ul", "ol"}

VARIABLES toks, stack, n
vars == <<toks, stack, n>>

Top == stack[Len(stack)]
Depth == Len(SelectSeq(stack, LAMBDA x : x.c \in Lists))

(* x may be the next child of a block c whose last child is prev *)
Allowed(c, prev, x) ==
  CASE c = "doc" ->
         /\ x \in Leaves \cup Lists \cup {"q"}
         /\ x = "ci" => prev \notin {"ci", "ul", "ol", "cmd"}
         /\ x \in {"q", "html"} => prev # x
         /\ x \in Lists => prev # "cmd"
         /\ prev = "cmd" => x \notin {"hr", "html", "q"}
    [] c = "q" ->
         /\ \/ x \in {"p", "h", "cf", "ci", "tbl"} \cup Lists
            \/ Wide > 0 /\ x \in {"q", "html", "hr", "s", "cmd"} /\ prev # x
         /\ prev = "cmd" => x \in {"p", "h", "cf", "tbl", "s"}
         /\ x = "ci" => prev \notin {"ci", "ul", "ol"}
    [] c \in Lists -> x = "li"
    [] c = "li" ->
         IF prev = "" THEN x = "t"
         ELSE /\ \/ x \in {"p", "cf"} \cup Lists
                 \/ Wide > 0 /\ x \in {"q", "html", "h", "tbl", "hr", "cmd"}
                    /\ prev # x
                 \/ Wide > 0 /\ x = "ci" /\ prev \notin {"ci", "ul", "ol"}
              /\ prev = "cmd" => x \in {"p", "h", "cf", "tbl"}
              /\ Wide = 1 => /\ prev = "tbl" => x # "cf"
                             /\ prev # "html"
    [] OTHER -> FALSE

SetPrev(x) == [stack EXCEPT ![Len(stack)].prev = x]

Init == toks = <<>> /\ n = 0 /\ stack = <<[c |-> "doc", prev |-> ""]>>

Leaf(x) == /\ n < N /\ Allowed(Top.c, Top.prev, x)
           /\ toks' = Append(toks, x) /\ stack' = SetPrev(x) /\ n' = n + 1
Enter(x) == /\ n < N /\ Allowed(Top.c, Top.prev, x) /\ ~Simple
            /\ x \in Lists => Depth < MaxLists
            /\ toks' = Append(toks, "+" \o x)
            /\ stack' = Append(SetPrev(x), [c |-> x, prev |-> ""])
            /\ n' = n + 1
Leave == /\ Len(stack) > 1 /\ Top.prev \notin {"", "cmd"}
         /\ toks' = Append(toks, "-" \o Top.c)
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ n' = n

Next == \/ \E x \in Leaves \cup {"t"} : Leaf(x)
        \/ \E x \in Lists \cup {"li", "q"} : Enter(x)
        \/ Leave

Complete == Len(stack) = 1 /\ n > 0 /\ Top.prev # "cmd"
Emit == IF Complete THEN PrintT(ToJson([d |-> toks])) ELSE TRUE
(* only the longest ones *)
EmitFull == IF Complete /\ n >= N - 2 THEN PrintT(ToJson([d |-> toks])) ELSE TRUE
=============================================================================
