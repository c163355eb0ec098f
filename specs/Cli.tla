--------------------------------- MODULE Cli ---------------------------------
(* Histories of a project on disk: a Markdown document and the HTML made    *)
(* from it, a PO file, a second PO file that nobody changes, the translated *)
(* documents; the document is edited, the catalog translated and reviewed,  *)
(* and md2po, po2md and mdpo2html run with every combination of --save,     *)
(* --quiet, --check, --no-obsolete, --no-fuzzy and --no-empty-msgstr.  The  *)
(* model says what each run prints, which files it writes and its exit code *)
(* (C14, C15).                                                              *)
EXTENDS Catalog, Json, TLC, Randomization

CONSTANTS Steps

Id(n) == <<"m1", "m2", "m3", "m4">>[n]
Ids == {Id(n) : n \in 1..4}
Msg(i) == [ctx |-> "", id |-> i, str |-> "", fuzzy |-> FALSE]
Docs == {<<"m1">>, <<"m2", "m1">>, <<"m1", "m2", "m3", "m4">>,
         <<"m3", "m4">>, <<"m4">>, <<"m2", "m3", "m1">>, <<>>}

Absent == [ex |-> FALSE, val |-> <<>>, lay |-> 0]
File(v) == [ex |-> TRUE, val |-> v, lay |-> 0]
(* the same contents with another layout (spaces, empty lines, order...) *)
Layouts == 1..4

VARIABLES doc0,  \* the document at the beginning
          doc,   \* messages of the document
          po,    \* the PO file
          md,    \* the translated document saved by po2md
          html,  \* the same by mdpo2html
          aux,   \* entries of the second PO file
          hist   \* operations and what they do
vars == <<doc0, doc, po, md, html, aux, hist>>

Tr(i, n) == "t" \o ToString(n) \o i
AuxSets == {<<>>,
  <<[ctx |-> "", id |-> "z1", str |-> "", fuzzy |-> FALSE, obs |-> FALSE]>>,
  <<[ctx |-> "", id |-> "m1", str |-> "aux m1", fuzzy |-> TRUE, obs |-> FALSE],
    [ctx |-> "", id |-> "m2", str |-> "", fuzzy |-> FALSE, obs |-> FALSE],
    [ctx |-> "", id |-> "z2", str |-> "z", fuzzy |-> FALSE, obs |-> TRUE]>>}

(* what po2md and mdpo2html find: the PO file is read before the other one  *)
Find(cat, i) ==
  LET S == {j \in DOMAIN cat : cat[j].id = i /\ cat[j].str # ""}
  IN IF S = {} THEN "" ELSE cat[CHOOSE j \in S : \A m \in S : m <= j].str
Lookup(i, both) ==
  LET a == IF both THEN Find(aux, i) ELSE ""
      b == Find(po.val, i)
  IN IF a # "" THEN a ELSE IF b # "" THEN b ELSE i
Render(both) == [j \in DOMAIN doc |-> Lookup(doc[j], both)]

Count(cat, P(_)) == Cardinality({j \in DOMAIN cat : P(cat[j])})
Obs(e) == e.obs
Fz(e) == e.fuzzy
Em(e) == e.str = ""

(* exit code: the last failed check wins *)
Exit(changed, no, n) ==
  IF "e" \in no /\ n.e > 0 THEN 5
  ELSE IF "f" \in no /\ n.f > 0 THEN 4
  ELSE IF "o" \in no /\ n.o > 0 THEN 3
  ELSE IF changed THEN 2 ELSE 0
Features(cats) ==
  [o |-> Count(cats, Obs), f |-> Count(cats, Fz), e |-> Count(cats, Em)]

(* save, check, quiet, no-*, also the second PO file, mode *)
Flags == BOOLEAN \X BOOLEAN \X BOOLEAN \X {{}, {"o"}, {"f"}, {"e"}, {"o", "f"}, {"o", "e"},
                             {"f", "e"}, {"o", "f", "e"}}
         \X BOOLEAN \X Modes

Op(x) == hist' = Append(hist, x)

Init == /\ doc \in Docs /\ doc0 = doc /\ po = Absent /\ md = Absent /\ html = Absent
        /\ aux \in AuxSets /\ hist = <<>>

Edit == /\ \E d \in RandomSubset(3, Docs) : d # doc /\ doc' = d
                           /\ Op([op |-> "edit", doc |-> d])
        /\ UNCHANGED <<doc0, po, md, html, aux>>

Write(i, s, f) ==
  /\ po' = File([po.val EXCEPT ![i].str = s, ![i].fuzzy = f])
  /\ Op([op |-> "write", cat |-> po'.val])
  /\ UNCHANGED <<doc0, doc, md, html, aux>>
TranslateAll ==
  /\ po.ex /\ \E i \in DOMAIN po.val : po.val[i].str = ""
  /\ po' = File([i \in DOMAIN po.val |->
                  IF po.val[i].str = "" THEN
                     [po.val[i] EXCEPT !.str = Tr(po.val[i].id, 3)]
                  ELSE po.val[i]])
  /\ Op([op |-> "write", cat |-> po'.val])
  /\ UNCHANGED <<doc0, doc, md, html, aux>>
Some(S) == RandomSubset(IF Cardinality(S) > 1 THEN 2 ELSE Cardinality(S), S)
Translate == po.ex /\ \E i \in Some(DOMAIN po.val) : \E n \in 1..2 :
               po.val[i].str # Tr(po.val[i].id, n)
               /\ Write(i, Tr(po.val[i].id, n), FALSE)
Review == po.ex /\ \E i \in Some(DOMAIN po.val) :
            po.val[i].str # "" /\ Write(i, po.val[i].str, ~po.val[i].fuzzy)
Blank == po.ex /\ \E i \in Some(DOMAIN po.val) :
           po.val[i].str # "" /\ Write(i, "", FALSE)

(* somebody brings a PO file from another place *)
Kinds == <<"none", "done", "fuzzy", "empty", "obs", "obsfuzzy", "obsempty">>
Entry(i, k) ==
  [ctx |-> "", id |-> i, fuzzy |-> k \in {"fuzzy", "obsfuzzy"},
   str |-> IF k \in {"empty", "obsempty"} THEN "" ELSE Tr(i, 4),
   obs |-> k \in {"obs", "obsfuzzy", "obsempty"}]
Imported == <<"z", "m3", "m1", "m4", "m2">>
Choices == {<<1>>, <<1, 2>>, <<1, 2, 5>>, <<2, 3>>, <<2, 6>>, <<1, 2, 3, 5>>,
            <<3, 7>>, <<1, 4, 5, 6>>, <<1, 2, 3, 4, 5, 6, 7>>}
Import ==
  \E c \in RandomSubset(2, Choices) :
  \E ks \in RandomSubset(1, [DOMAIN Imported -> {Kinds[c[x]] : x \in DOMAIN c}]) :
    LET at(S) == SelectSeq([n \in DOMAIN Imported |-> Entry(Imported[n], ks[n])],
                           LAMBDA e : ks[CHOOSE n \in DOMAIN Imported :
                                           Imported[n] = e.id] \in S)
        \* ... of another program: it is always written in another way
        new == at({"done", "fuzzy", "empty"}) \o at({"obs", "obsfuzzy", "obsempty"})
    IN /\ po' = [ex |-> TRUE, val |-> TLCEval(new), lay |-> 1]
       /\ Op([op |-> "import", cat |-> po'.val])
       /\ UNCHANGED <<doc0, doc, md, html, aux>>

(* somebody touches the layout of a file *)
Format ==
  /\ \E l \in Layouts, f \in {"po", "md", "html"} :
       LET touch(x) == [x EXCEPT !.lay = l] IN
       CASE f = "po" -> /\ po.ex /\ po.lay = 0 /\ po' = touch(po)
                        /\ UNCHANGED <<md, html>>
                        /\ Op([op |-> "format", file |-> f, lay |-> l])
         [] f = "md" -> /\ md.ex /\ md.lay = 0 /\ md' = touch(md)
                        /\ UNCHANGED <<po, html>>
                        /\ Op([op |-> "format", file |-> f, lay |-> l])
         [] OTHER -> /\ html.ex /\ html.lay = 0 /\ html' = touch(html)
                     /\ UNCHANGED <<po, md>>
                     /\ Op([op |-> "format", file |-> f, lay |-> l])
  /\ UNCHANGED <<doc0, doc, aux>>

Md2po ==
  \E c \in RandomSubset(4, Flags) :
    LET save == c[1] check == c[2] quiet == c[3] no == c[4] mode == c[6]
        src == [j \in DOMAIN doc |-> Msg(doc[j])]
        new == Extract(po.val, src, mode)
        disk == IF save THEN File(new) ELSE po
        changed == check /\ save /\ po # disk
    IN /\ disk.ex \/ no = {}   \* the checks read the file
       /\ po' = disk
       /\ Op([op |-> "md2po", save |-> save, check |-> check, quiet |-> quiet,
              no |-> no, mode |-> mode, cat |-> new,
              n |-> Features(disk.val), printed |-> ~quiet,
              exit |-> Exit(changed, no, Features(disk.val))])
       /\ UNCHANGED <<doc0, doc, md, html, aux>>

Translation(tool, f) ==
  \E c \in RandomSubset(3, Flags) :
    LET save == c[1] check == c[2] quiet == c[3] no == c[4] both == c[5]
        cats == IF both THEN po.val \o aux ELSE po.val
        out == Render(both)
        disk == IF save THEN File(out) ELSE f
        changed == check /\ save /\ f # disk
    IN /\ po.ex
       /\ (IF tool = "po2md" THEN md' = disk /\ UNCHANGED html
           ELSE html' = disk /\ UNCHANGED md)
       /\ Op([op |-> tool, save |-> save, check |-> check, quiet |-> quiet,
              no |-> no, both |-> both, out |-> out,
              n |-> Features(cats), printed |-> ~quiet /\ ~save,
              exit |-> Exit(changed, no, Features(cats))])
       /\ UNCHANGED <<doc0, doc, po, aux>>
Po2md == Translation("po2md", md)
ToHtml == Translation("mdpo2html", html)

Next == /\ Len(hist) < Steps
        /\ \/ Edit \/ Import \/ Format \/ TranslateAll \/ Translate \/ Review \/ Blank \/ Md2po \/ Po2md \/ ToHtml

Emit == Len(hist) = Steps =>
  PrintT(ToJson([doc |-> doc0,
                 aux |-> aux, hist |-> hist, po |-> po, md |-> md,
                 html |-> html]))

------------------------------------------------------------------------------
Last == hist[Len(hist)]
IsRun == hist # <<>> /\ Last.op \in {"md2po", "po2md", "mdpo2html"}
(* C14 on the state: exit code 0 exactly when no requested check fails *)
ExitOK == IsRun =>
  LET cats == IF Last.op = "md2po" THEN po.val
              ELSE IF Last.both THEN po.val \o aux ELSE po.val
      bad(k, P(_)) == k \in Last.no /\ \E j \in DOMAIN cats : P(cats[j])
  IN (Last.exit \notin {0, 2}) = (bad("o", Obs) \/ bad("f", Fz) \/ bad("e", Em))
(* running the same again with --save and --check finds no change *)
Settled == Len(hist) > 1 /\ IsRun =>
  LET prev == hist[Len(hist) - 1] IN
  ([prev EXCEPT !.op = ""] = [Last EXCEPT !.op = ""] /\ prev.op = Last.op
   /\ Last.save) => Last.exit # 2
(* a file is written only by a run which saves it *)
Frame == [][
  LET l == hist'[Len(hist')] IN
  /\ (md' # md => l.op = "format" \/ (l.op = "po2md" /\ l.save))
  /\ (html' # html => l.op = "format" \/ (l.op = "mdpo2html" /\ l.save))
  /\ (po' # po => l.op \in {"write", "format", "import"} \/ (l.op = "md2po" /\ l.save))]_vars
=============================================================================
