------------------------------- MODULE Options -------------------------------
(* What each option of md2po, po2md and mdpo2html changes in the result for *)
(* a project with something for every option (C15).  The project is fixed   *)
(* (harness/cli.py writes it); the model is the effect of the options.      *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, Randomization

CONSTANTS Tool, Size

M(c, i) == [ctx |-> c, id |-> i]
If(b, s) == IF b THEN s ELSE <<>>

(* what is in the file to save: "same", the result already *)
Exit(o) == IF o.check /\ o.save /\ o.target # "same" THEN 2 ELSE 0

(* ------------------------------ md2po ----------------------------------- *)
(* input: files (doc.md and other.md), file (doc.md), content, stdin        *)
Md2poOptions == [
  input : {"files", "file", "content", "stdin"},
  ignore : BOOLEAN, plain : BOOLEAN, codes : BOOLEAN, loc : BOOLEAN,
  mode : {"default", "merge", "remove", "both"}, xheader : BOOLEAN,
  meta : BOOLEAN, alias : BOOLEAN, ext : {"default", "tables", "strike"},
  ignids : BOOLEAN, mdenc : {"utf-8", "latin-1"}, poenc : {"", "latin-1"},
  width : {78, 0, 40}, event : BOOLEAN]
Md2poOutput == [debug : BOOLEAN, mo : BOOLEAN, save : BOOLEAN,
  quiet : BOOLEAN, check : BOOLEAN, target : {"base", "same", "trailing"}]

(* messages found in the document *)
DocMsgs(o) ==
  If(o.codes, <<M("", "indented = 1\n")>>)
  \o <<M("", IF o.plain THEN "Title em" ELSE "Title *em*")>>
  \o (IF o.ext = "strike" THEN <<M("", "| T | | --- | | cell |")>>
      ELSE <<M("", "T"), M("", "cell")>>)
  \o <<M(IF o.alias THEN "k" ELSE "", "aliased text")>>
  \o If(o.codes, <<M("", "code = 1\n")>>)
  \o If(~o.ignids, <<M("", "ignored message")>>)
  \o If(~o.event, <<M("", "evented")>>)
  \o <<M("", "ñandú text"), M("", "long"),
       M("", IF o.ext # "tables" /\ o.plain THEN "strike" ELSE "~~strike~~")>>
Files(o) == o.input \in {"files", "file"}
Old == M("", "old message")
Known == M("", "ñandú text")   \* in the PO file, translated
Md2poResult(o) ==
  LET found == DocMsgs(o)
               \o If(o.input = "files" /\ ~o.ignore, <<M("", "other text")>>)
      new == SelectSeq(found, LAMBDA m : m # Known)
      keep == o.mode \in {"merge"}
  IN [exit |-> Exit(o), live |-> If(keep, <<Old>>) \o <<Known>> \o new,
      obs |-> If(o.mode = "default", <<Old>>),
      located |-> Files(o) /\ o.loc,
      xgen |-> o.xheader, meta |-> o.meta,
      printed |-> ~o.quiet, debug |-> o.debug, saved |-> o.save,
      \* the MO file has what is translated
      mo |-> If(o.mo, <<Known>> \o If(keep, <<Old>>)),
      oneline |-> o.width = 0]

(* ------------------------------ po2md ----------------------------------- *)
Po2mdOptions == [
  input : {"file", "content", "stdin"}, ignore : BOOLEAN,
  alias : BOOLEAN, mdenc : {"utf-8", "latin-1"}, poenc : {"", "latin-1"},
  width : {80, 0, 30}, event : BOOLEAN, debug : BOOLEAN, save : BOOLEAN,
  quiet : BOOLEAN, check : BOOLEAN, pos : {"glob", "list", "many"}]
TranslationResult(o, event) ==
  [out |-> <<IF o.ignore THEN "uno" ELSE "UNO",
             IF o.alias /\ ~event THEN "dos k" ELSE "dos",
             "tres ñ", "long">>,
   exit |-> Exit(o), printed |-> ~o.quiet /\ ~o.save, saved |-> o.save]
Po2mdResult(o) ==
  TranslationResult(o, o.event) @@ [debug |-> o.debug, oneline |-> o.width = 0]

(* ----------------------------- mdpo2html -------------------------------- *)
HtmlOptions == [
  input : {"file", "content", "stdin"}, ignore : BOOLEAN,
  alias : BOOLEAN, mdenc : {"utf-8", "latin-1"}, poenc : {"", "latin-1"},
  save : BOOLEAN, quiet : BOOLEAN, check : BOOLEAN,
  pos : {"glob", "list", "many"}]

All == CASE Tool = "md2po" -> Md2poOptions [] Tool = "po2md" -> Po2mdOptions
         [] Tool = "mdpo2html" -> HtmlOptions
\* (apart: there are too many for TLC to pick one of them)
Output == IF Tool = "md2po" THEN Md2poOutput
          ELSE [target : {"none", "same", "trailing", "stale"}]
Result(o) == CASE Tool = "md2po" -> Md2poResult(o)
               [] Tool = "po2md" -> Po2mdResult(o)
               [] Tool = "mdpo2html" -> TranslationResult(o, FALSE)

(* the flags are changed one at a time, starting from random ones *)
VARIABLES o, r, n
vars == <<o, r, n>>
Flags == {"save", "quiet", "check", "ignore", "alias"}
         \cup (IF Tool = "mdpo2html" THEN {} ELSE {"event", "debug"})
         \cup (IF Tool = "md2po" THEN {"plain", "codes", "loc", "xheader",
                                       "meta", "ignids", "mo"} ELSE {})
Toggle(x, f) == [x EXCEPT ![f] = ~x[f]]
Pick(i) == (CHOOSE x \in RandomSubset(1, All) : TRUE)
           @@ (CHOOSE x \in RandomSubset(1, Output) : TRUE)
Init == \E i \in 1..Size :
          n = i /\ o = Pick(i) /\ r = Result(o)
Next == /\ n <= Size /\ n' = n + Size
        /\ \E f \in Flags : o' = Toggle(o, f) /\ r' = Result(o')
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([o |-> o, r |-> r]))

------------------------------------------------------------------------------
(* each flag changes only what it documents *)
Same(f, fields) ==
  \A x \in (DOMAIN r) \ fields : Result(Toggle(o, f))[x] = r[x]
Independent ==
  /\ Same("save", {"saved", "printed", "exit"}) /\ Same("quiet", {"printed"})
  /\ Same("check", {"exit"})
  /\ (Tool # "mdpo2html" => Same("debug", {"debug"}))
  /\ (Tool = "md2po" =>
       /\ Same("xheader", {"xgen"}) /\ Same("meta", {"meta"})
       /\ Same("mo", {"mo"}) /\ Same("loc", {"located"})
       /\ Same("codes", {"live"}) /\ Same("ignids", {"live"})
       /\ Same("save", {"saved", "exit"}))
=============================================================================
