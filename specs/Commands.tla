------------------------------ MODULE Commands ------------------------------
(* All documents of N blocks and commands over an alphabet; TLC checks the  *)
(* scoping rules of C08-C10 on each of them and prints it with the messages *)
(* an extractor must find, and the harness replays it on md2po, po2md and   *)
(* mdpo2html.                                                               *)
EXTENDS CommandMachine, Json, TLC, FiniteSets

CONSTANTS Alphabet, N, AllStart

T(k, a) == [k |-> k, a |-> a]
Scope == {T("text", "x"), T("text", "y"), T("dis", ""), T("ena", ""),
          T("dnb", ""), T("enb", "")}
Attach == {T("text", "x"), T("text", "y"), T("ctx", "k"), T("ctx", "l"),
           T("tr", "note"), T("inc", "z"), T("dnb", ""), T("dis", ""),
           T("enb", "")}
Code == {T("text", "x"), T("code", "c"), T("code", "d"), T("icb", ""),
         T("dcb", ""), T("icbs", ""), T("dcbs", ""), T("dis", "")}
Full == Scope \cup Attach \cup Code

Tokens == CASE Alphabet = "scope" -> Scope [] Alphabet = "attach" -> Attach
            [] Alphabet = "code" -> Code [] Alphabet = "full" -> Full

VARIABLES doc, flags, found, past
vars == <<doc, flags, found, past>>

Init == /\ doc = <<>> /\ flags \in {InitFlags(a) : a \in AllStart}
        /\ found = <<>> /\ past = <<flags>>

Useful(d) ==  \* a document ends with something to extract
  d[Len(d)].k \in {"text", "code", "inc"}

Next == /\ Len(doc) < N
        /\ \E t \in Tokens :
             (* A code block which is not extracted is not a message: md2po *)
             (* leaves commands for the next message pending and po2md does *)
             (* not (see known_findings.json), so that is not generated.    *)
             /\ ~(t.k = "code" /\ Pending(flags) /\ ~CodeIncluded(flags))
             /\ LET s == Step(flags, found, t) IN
                /\ doc' = Append(doc, t) /\ flags' = s.f /\ found' = s.found
                /\ past' = Append(past, s.f)

(* evaluated as an invariant: prints every document once *)
Emit == IF Len(doc) = N /\ Useful(doc)
        THEN PrintT(ToJson([doc |-> doc, all |-> past[1].all,
                            found |-> found, cat |-> CatalogOf(found)]))
        ELSE TRUE

------------------------------------------------------------------------------
(* C08 stated on the history, independently of the flags of the machine:    *)
(* the last dis/ena before a message says whether it is disabled, and a     *)
(* dnb/enb between the previous message and it overrides that.              *)
IsMsg(i) == \/ doc[i].k \in {"text", "inc"}
            \/ doc[i].k = "code" /\ CodeIncluded(past[i])
PrevMsg(i) == LET S == {j \in 1..(i - 1) : IsMsg(j)} IN
              IF S = {} THEN 0 ELSE CHOOSE j \in S : \A l \in S : l <= j
Between(i, k) == {j \in (PrevMsg(i) + 1)..(i - 1) : doc[j].k = k}
Off(i) == LET S == {j \in 1..(i - 1) : doc[j].k \in {"dis", "ena"}} IN
          S # {} /\ doc[CHOOSE j \in S : \A l \in S : l <= j].k = "dis"
(* position in found of token i *)
Pos(i) == Cardinality({j \in 1..i : doc[j].k \in {"text", "inc", "code"}})
ScopeOK ==
  \A i \in DOMAIN doc : IsMsg(i) =>
    found[Pos(i)].on = \/ Between(i, "enb") # {}
                       \/ ~Off(i) /\ Between(i, "dnb") = {}

(* C09 *)
Last(S) == CHOOSE j \in S : \A l \in S : l <= j
AttachOK ==
  \A i \in DOMAIN doc : IsMsg(i) =>
    LET c == Between(i, "ctx") t == Between(i, "tr") IN
    /\ found[Pos(i)].ctx = IF c = {} THEN "" ELSE doc[Last(c)].a
    /\ found[Pos(i)].tc  = IF t = {} THEN "" ELSE doc[Last(t)].a

(* C10 *)
PrevCode(i) == LET S == {j \in 1..(i - 1) : doc[j].k = "code"} IN
               IF S = {} THEN 0 ELSE Last(S)
CodeOK ==
  \A i \in DOMAIN doc : doc[i].k = "code" =>
    LET since == (PrevCode(i) + 1)..(i - 1)
        has(k) == \E j \in since : doc[j].k = k
        sw == {j \in 1..(i - 1) : doc[j].k \in {"icbs", "dcbs"}}
        all == IF sw = {} THEN past[1].all ELSE doc[Last(sw)].k = "icbs"
    IN (found[Pos(i)].k = "code") = ((all \/ has("icb")) /\ ~has("dcb"))
=============================================================================
