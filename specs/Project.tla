------------------------------- MODULE Project -------------------------------
(* Histories of a project translated with md2po2md (C17): Markdown files in *)
(* directories, a PO file and a translated document for each language and   *)
(* file at the paths given by an output schema.  Documents are edited, PO   *)
(* files translated and reviewed, outputs deleted or spoiled, and md2po2md  *)
(* run for some languages and files with its options.  Each run is md2po    *)
(* (Catalog) and then po2md for each language and file, and nothing else.   *)
EXTENDS Catalog, Str, Json, TLC, Randomization

CONSTANTS Steps

Langs == {"es", "fr", "de_DE", "sr@latin"}
F(d, n) == [d |-> d, n |-> n]
Files == {F("", "README.md"), F("docs", "guide.md"), F("docs", "es.md"),
          F("docs", "x[1].md"), F("docs/api", "a.b.markdown"),
          F("", "zeta.txt")}
PathOf(f) == IF f.d = "" THEN f.n ELSE f.d \o "/" \o f.n

(* what is passed to select files, and the files it matches *)
Globs == {"README.md", "*.md", "*.txt", "docs/*.md", "docs/[eg]*", "docs/*/*",
          "docs/guide.md", "docs/api/a.b.markdown", "doc?/x*.md"}
Matched(g) == CASE
     g = "README.md" -> {F("", "README.md")}
  [] g = "*.md" -> {F("", "README.md")}
  [] g = "*.txt" -> {F("", "zeta.txt")}
  [] g = "docs/*.md" -> {f \in Files : f.d = "docs"}
  [] g = "docs/[eg]*" -> {F("docs", "guide.md"), F("docs", "es.md")}
  [] g = "docs/*/*" -> {f \in Files : f.d = "docs/api"}
  [] g = "docs/guide.md" -> {F("docs", "guide.md")}
  [] g = "docs/api/a.b.markdown" -> {f \in Files : f.d = "docs/api"}
  [] g = "doc?/x*.md" -> {F("docs", "x[1].md")}

------------------------------------------------------------------------------
(* Output paths *)

Schemas == {"locale/{lang}", "locale/{lang}/", "{lang}", "i18n/{lang}/{basename}",
            "out/{lang}/{basename}.{ext}", "out/{basename}/{lang}",
            "out.d/{lang}/{basename}.md", "tr/{basename}.{lang}.{ext}",
            "x.y/{lang}", "{lang}/{lang}-{basename}", "{lang}/doc.{basename}",
            "t/{lang}/{basename}/{basename}", "t/{lang}/{ext}/{basename}.x",
            "{lang}/{basename}.{ext}.{lang}"}
(* name without its last extension, and the extension *)
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i
                 ELSE LastDot(s, i - 1)
Stem(f) == Take(f.n, LastDot(f.n, Len(f.n)) - 1)
Ext(f) == Drop(f.n, LastDot(f.n, Len(f.n)))
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "/" THEN i
                   ELSE LastSlash(s, i - 1)
Base(p) == Drop(p, LastSlash(p, Len(p)))

Expand(s, l, f, e) ==
  ReplaceAll(ReplaceAll(ReplaceAll(s, "{lang}", l), "{basename}", Stem(f)),
             "{ext}", e)
(* a schema is of directories, which have the files with their names, if    *)
(* its last part is not {basename} and does not have dots for this file     *)
IsDirSchema(s, l, f) ==
  Base(s) # "{basename}" /\ ~Contains(Base(Expand(s, l, f, "po")), ".")
PoPath_(s, l, f) ==
  LET p == Expand(s, l, f, "po") IN
  IF IsDirSchema(s, l, f) THEN RStripCh(p, "/") \o "/" \o f.n \o ".po"
  ELSE IF EndsWith(p, ".po") THEN p ELSE p \o ".po"
MdPath_(s, l, f) ==
  IF IsDirSchema(s, l, f)
  THEN RStripCh(Expand(s, l, f, Ext(f)), "/") \o "/" \o f.n
  ELSE Expand(s, l, f, Ext(f))

Pairs == Langs \X Files
Paths == TLCEval([s \in Schemas |-> [q \in Pairs |->
            [po |-> PoPath_(s, q[1], q[2]), md |-> MdPath_(s, q[1], q[2])]]])
PoPath(s, l, f) == Paths[s][<<l, f>>].po
MdPath(s, l, f) == Paths[s][<<l, f>>].md
(* the schemas by which each language and file has its own outputs *)
Proper(s) ==
  /\ Cardinality(UNION {{Paths[s][q].po, Paths[s][q].md} : q \in Pairs})
       = 2 * Cardinality(Pairs)
  \* (files or directories alike for the PO file and for the document)
  /\ \A q \in Pairs :
       Contains(Base(Expand(s, q[1], q[2], "po")), ".") =
       Contains(Base(Expand(s, q[1], q[2], Ext(q[2]))), ".")
ProperSchemas == {s \in Schemas : Proper(s)}

------------------------------------------------------------------------------
M(c, i) == [ctx |-> c, id |-> i, str |-> "", fuzzy |-> FALSE]
Docs == {<<M("", "m1")>>, <<M("", "m2"), M("", "m1")>>,
         <<M("", "m1"), M("k", "m1"), M("", "m3")>>,
         <<M("k", "m1"), M("", "m4")>>, <<M("", "m4"), M("", "m3")>>,
         <<M("", "m2"), M("", "m3"), M("", "m4"), M("", "m1")>>}
Trs(m, n) == "t" \o ToString(n) \o m.ctx \o m.id

(* options which a project keeps; every document ends with something for    *)
(* each of them if it is rich                                               *)
Options == [rich : BOOLEAN, codes : BOOLEAN, alias : BOOLEAN,
            ext : {"default", "strike"}, loc : BOOLEAN, cli : BOOLEAN,
            pow : {78, 0, 40}, mdw : {80, 0, 40}, abs : BOOLEAN,
            poenc : {"", "latin-1"}, mdenc : {"", "latin-1"}, debug : BOOLEAN]
If(b, s) == IF b THEN s ELSE <<>>
TailMsgs(o) == If(o.rich,
  (IF o.ext = "strike" THEN <<M("", "| T | | --- | | cell |")>>
   ELSE <<M("", "T"), M("", "cell")>>)
  \o <<M(IF o.alias THEN "k" ELSE "", "aliased")>>
  \o If(o.codes, <<M("", "code = 1\n")>>)
  \o <<M("", "long")>>)

Absent == [ex |-> FALSE, val |-> <<>>, lay |-> 0, at |-> <<>>]
File(v) == [ex |-> TRUE, val |-> v, lay |-> 0, at |-> <<>>]
(* the blocks where the messages of a document are (contexts are blocks); a  *)
(* message keeps its last one while it is in the catalog                     *)
Blocks(src) ==
  [k \in Keys(src) |->
     {i + Cardinality({j \in 1..i : src[j].ctx # ""}) :
        i \in {x \in DOMAIN src : Key(src[x]) = k}}]
Located(file, src, new) ==
  LET b == Blocks(src)
      all == b @@ file.at
  IN [k \in DOMAIN all \cap
        {Key(new[i]) : i \in {x \in DOMAIN new : ~new[x].obs}} |-> all[k]]

VARIABLES sch, opt, docs, po, md, hist
vars == <<sch, opt, docs, po, md, hist>>

Op(x) == hist' = Append(hist, x)
Init == /\ sch \in ProperSchemas /\ opt \in RandomSubset(3, Options)
        /\ docs = [f \in Files |->
                     CHOOSE d \in RandomSubset(1, Docs) : TRUE]
        /\ po = [q \in Pairs |-> Absent] /\ md = [q \in Pairs |-> Absent]
        /\ hist = <<[op |-> "init",
                     docs |-> {[f |-> PathOf(f), doc |-> docs[f]] : f \in Files}]>>

Some(n, S) == RandomSubset(IF Cardinality(S) > n THEN n ELSE Cardinality(S), S)
Existing == {q \in Pairs : po[q].ex}

Edit == /\ \E f \in Some(2, Files), d \in Some(2, Docs) :
             /\ d # docs[f] /\ docs' = [docs EXCEPT ![f] = d]
             /\ Op([op |-> "edit", f |-> PathOf(f), doc |-> d])
        /\ UNCHANGED <<sch, opt, po, md>>

SetPo(q, cat) ==
  /\ po' = [po EXCEPT ![q].val = cat]
  /\ Op([op |-> "write", path |-> PoPath(sch, q[1], q[2]), cat |-> cat,
         lay |-> po[q].lay])
  /\ UNCHANGED <<sch, opt, docs, md>>
TranslateAll ==
  \E q \in Some(2, Existing) :
    SetPo(q, [i \in DOMAIN po[q].val |->
                [po[q].val[i] EXCEPT !.str = IF @ = "" THEN
                   Trs(po[q].val[i], q[1]) ELSE @]])
Translate ==
  \E q \in Some(3, Existing) : \E i \in Some(1, DOMAIN po[q].val) :
    \E n \in 1..2 :
      SetPo(q, [po[q].val EXCEPT ![i].str = Trs(po[q].val[i], n),
                                 ![i].fuzzy = FALSE])
Review ==
  \E q \in Some(2, Existing) : \E i \in Some(1, DOMAIN po[q].val) :
    SetPo(q, [po[q].val EXCEPT ![i].fuzzy = ~@])
Blank ==
  \E q \in Some(1, Existing) : \E i \in Some(1, DOMAIN po[q].val) :
    po[q].val[i].str # "" /\ SetPo(q, [po[q].val EXCEPT ![i].str = ""])

(* somebody brings a PO file from another place, written in another way *)
Kinds == <<"none", "done", "fuzzy", "empty", "obs", "obsfuzzy", "obsempty">>
Entry(m, k) == [m EXCEPT !.fuzzy = k \in {"fuzzy", "obsfuzzy"},
                         !.str = IF k \in {"empty", "obsempty"} THEN ""
                                 ELSE Trs(m, 4)]
               @@ [obs |-> k \in {"obs", "obsfuzzy", "obsempty"}]
Imported == <<M("", "m3"), M("k", "m1"), M("", "m1"), M("", "m4"), M("", "m2")>>
Choices == {<<1, 2>>, <<1, 2, 5>>, <<2, 3>>, <<2, 6>>, <<1, 2, 3, 5>>,
            <<3, 7>>, <<1, 4, 5, 6>>, <<1, 2, 3, 4, 5, 6, 7>>}
Import ==
  \E q \in Some(2, Pairs), c \in RandomSubset(1, Choices) :
  \E ks \in RandomSubset(1, [DOMAIN Imported -> {Kinds[c[x]] : x \in DOMAIN c}]) :
    LET at(S) == SelectSeq([n \in DOMAIN Imported |-> Entry(Imported[n], ks[n])],
                           LAMBDA e : ks[CHOOSE n \in DOMAIN Imported :
                                           Key(Imported[n]) = Key(e)] \in S)
        cat == at({"done", "fuzzy", "empty"}) \o at({"obs", "obsfuzzy", "obsempty"})
    IN /\ po' = [po EXCEPT ![q] = [ex |-> TRUE, val |-> cat, lay |-> 1, at |-> <<>>]]
       /\ Op([op |-> "import", path |-> PoPath(sch, q[1], q[2]), cat |-> cat])
       /\ UNCHANGED <<sch, opt, docs, md>>

Delete ==
  \E q \in Some(2, Existing) :
    \/ /\ md[q].ex /\ md' = [md EXCEPT ![q] = Absent]
       /\ Op([op |-> "delete", path |-> MdPath(sch, q[1], q[2])])
       /\ UNCHANGED <<sch, opt, docs, po>>
    \/ /\ md[q].ex /\ md' = [md EXCEPT ![q] = File(<<"spoiled">>)]
       /\ Op([op |-> "spoil", path |-> MdPath(sch, q[1], q[2])])
       /\ UNCHANGED <<sch, opt, docs, po>>
    \/ /\ po' = [po EXCEPT ![q] = Absent]
       /\ Op([op |-> "delete", path |-> PoPath(sch, q[1], q[2])])
       /\ UNCHANGED <<sch, opt, docs, md>>

------------------------------------------------------------------------------
Find_(cat, m) ==
  LET S == {j \in DOMAIN cat : Key(cat[j]) = Key(m) /\ cat[j].str # ""}
  IN IF S = {} THEN m.id ELSE cat[CHOOSE j \in S : \A n \in S : n <= j].str
Render(src, cat) == [j \in DOMAIN src |-> Find_(cat, src[j])]

Count(cat, P(_)) == Cardinality({j \in DOMAIN cat : P(cat[j])})
Obs(e) == e.obs
Fz(e) == e.fuzzy
Em(e) == e.str = ""
RECURSIVE Sum(_, _)
Sum(n, S) == IF S = {} THEN 0
             ELSE LET q == CHOOSE x \in S : TRUE IN n[q] + Sum(n, S \ {q})

LangSets == TLCEval((SUBSET Langs) \ {{}})
GlobLists == TLCEval({<<g>> : g \in Globs} \cup {<<g, h>> : g, h \in Globs})
Nos == {{}, {"o"}, {"f"}, {"e"}, {"o", "f"}, {"o", "e"}, {"f", "e"},
        {"o", "f", "e"}}

Run ==
  \E ls \in Some(2, LangSets), globs \in Some(2, GlobLists),
     d \in Some(1, BOOLEAN \X Nos), m \in Some(1, Modes) :
   LET check == d[1]
       no == d[2]
       mode == IF opt.cli THEN "default" ELSE m
       fs == UNION {Matched(globs[i]) : i \in DOMAIN globs}
       run == ls \X fs
       new == TLCEval([q \in Pairs |->
                IF q \in run
                THEN LET src == TLCEval(docs[q[2]] \o TailMsgs(opt))
                         v == TLCEval(Extract(po[q].val, src, mode))
                     IN [File(v) EXCEPT !.at = IF opt.loc
                           THEN TLCEval(Located(po[q], src, v)) ELSE <<>>]
                ELSE po[q]])
       out == TLCEval([q \in Pairs |->
                IF q \in run THEN File(Render(docs[q[2]] \o TailMsgs(opt),
                                              new[q].val))
                ELSE md[q]])
       changed == new # po \/ out # md
       n(P(_)) == Sum([q \in run |-> Count(new[q].val, P)], run)
       no_ == n(Obs)  nf == n(Fz)  ne == n(Em)
       x == IF "e" \in no /\ ne > 0 THEN 5
            ELSE IF "f" \in no /\ nf > 0 THEN 4
            ELSE IF "o" \in no /\ no_ > 0 THEN 3
            ELSE IF check /\ changed THEN 2 ELSE 0
   IN /\ po' = new /\ md' = out /\ UNCHANGED <<sch, opt, docs>>
      /\ Op([op |-> "run", langs |-> ls, globs |-> globs, check |-> check,
             no |-> no, mode |-> mode, exit |-> x,
             n |-> [o |-> no_, f |-> nf, e |-> ne],
             outs |-> {[q |-> q, f |-> PathOf(q[2]), lang |-> q[1],
                        po |-> PoPath(sch, q[1], q[2]),
                        md |-> MdPath(sch, q[1], q[2]),
                        cat |-> new[q].val, text |-> out[q].val,
                        poch |-> new[q] # po[q], mdch |-> out[q] # md[q]]
                       : q \in run}])

(* the same run again *)
Rerun == LET l == hist[Len(hist)] IN
  /\ l.op = "run"
  /\ Op([l EXCEPT !.exit = IF @ = 2 THEN 0 ELSE @,
                  !.outs = {[y EXCEPT !.poch = FALSE, !.mdch = FALSE]
                            : y \in l.outs}])
  /\ UNCHANGED <<sch, opt, docs, po, md>>

(* a run which is refused and writes nothing *)
Refused ==
  /\ \E ls \in Some(1, SUBSET Langs \ {{}}), g \in Some(1, Globs),
        why \in {"schema", "glob", "second"} :
       Op([op |-> "refused", langs |-> ls, globs |-> <<g>>, why |-> why])
  /\ UNCHANGED <<sch, opt, docs, po, md>>

\* (runs are made as likely as the other operations together)
Next == /\ Len(hist) < Steps
        /\ IF Len(hist) % 2 = 1 \/ Existing = {} THEN Run
           ELSE \/ Edit \/ Import \/ TranslateAll \/ Translate \/ Review \/ Blank
                \/ Delete \/ Rerun \/ (Len(hist) % 4 = 0 /\ Refused)

Emit == Len(hist) = Steps =>
  PrintT(ToJson([sch |-> sch, opt |-> opt, hist |-> hist]))

------------------------------------------------------------------------------
LastOp == hist[Len(hist)]
(* every output of a run is where the schema says and is what the composition*)
(* gives from what was there                                                *)
Composed == LastOp.op = "run" =>
  \A y \in LastOp.outs :
    LET q == y.q IN
    /\ y.po = PoPath(sch, q[1], q[2]) /\ y.md = MdPath(sch, q[1], q[2])
    /\ y.text = Render(docs[q[2]] \o TailMsgs(opt), po[q].val)
(* running again changes nothing *)
Idempotent == LastOp.op = "run" =>
  \A y \in LastOp.outs :
    Extract(po[y.q].val, docs[y.q[2]] \o TailMsgs(opt), LastOp.mode)
      = po[y.q].val
(* languages and files are isolated *)
Isolated == [][
  \A q \in Pairs : (po'[q] # po[q] \/ md'[q] # md[q]) =>
    LET l == hist'[Len(hist')] IN
    CASE l.op = "run" -> \E y \in l.outs : y.q = q
      [] l.op \in {"write", "import", "delete", "spoil"} ->
           l.path \in {PoPath(sch, q[1], q[2]), MdPath(sch, q[1], q[2])}
      [] OTHER -> FALSE]_vars
(* after translating a PO file only its document changes *)
OnlyTranslated == [][
  LET l == hist'[Len(hist')]
      p == hist[Len(hist)] IN
  (l.op = "run" /\ p.op = "write" /\ l.mode = "default") =>
    \A y \in l.outs : (y.mdch /\ y.po # p.path) =>
      \E j \in DOMAIN hist : \* its last run did not see its state
        hist[j].op \in {"init", "edit", "write", "import", "delete", "spoil"} /\
        ~\E m \in (j + 1)..Len(hist) :
           hist[m].op = "run" /\ \E z \in hist[m].outs : z.po = y.po]_vars
=============================================================================
