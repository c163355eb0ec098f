---------------------------- MODULE ExtractTrace ----------------------------
(* Judge of recorded extractions.  A trace has the events that the parser   *)
(* gives for each file, the options, and what md2po extracted; each step    *)
(* takes one event, and the catalog that the specification gives at the end *)
(* is compared with the one observed.                                       *)
EXTENDS Judge, Catalog, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k,      \* trace
          f, i,   \* file and event
          st,     \* state of the extractor
          msgs    \* messages of the previous files, with their paths

vars == <<k, f, i, st, msgs>>
Id == <<k, f, i>>

Tr == Traces[k]
File == Tr.files[f]
Opts(t) == [all |-> t.all, plain |-> t.plain]
Init == /\ k \in DOMAIN Traces /\ f = 1 /\ i = 0 /\ msgs = <<>>
        /\ st = InitSax(Opts(Tr))

Located(ms, path) ==
  [j \in DOMAIN ms |-> [k |-> ms[j].k, id |-> ms[j].id, ctx |-> ms[j].ctx,
                        tc |-> ms[j].tc, on |-> ms[j].on,
                        loc |-> IF path = "" THEN "" ELSE path \o ":" \o ms[j].loc]]

------------------------------------------------------------------------------
(* the catalog after the extraction; t.old: the one there was *)
(* (obsolete entries are written without references and comments)          *)
CatalogAfter(ms, t) ==
  LET c == Extract(t.old, Cat(ms, {}, t), t.mode)
  IN [j \in DOMAIN c |-> IF c[j].obs THEN [c[j] EXCEPT !.loc = "", !.tc = ""]
                         ELSE c[j]]
(* header fields: those given replace or follow the ones there were *)
AsMap(pairs) == [x \in {pairs[j].k : j \in DOMAIN pairs} |->
                   pairs[CHOOSE j \in DOMAIN pairs : pairs[j].k = x].v]
HeaderAfter(h) ==
  LET old == AsMap(h.old)  new == AsMap(h.given)
  IN [x \in DOMAIN old \cup DOMAIN new |->
        IF x \in DOMAIN new THEN new[x] ELSE old[x]]
HeaderOK(h) == Len(h.got) = Cardinality(DOMAIN AsMap(h.got)) /\ AsMap(h.got) = HeaderAfter(h)

(* a MO file: translated messages *)
Compiled(cat) == {<<cat[j].ctx, cat[j].id, cat[j].str>> : j \in
                    {x \in DOMAIN cat : ~cat[x].obs /\ ~cat[x].fuzzy /\ cat[x].str # ""}}
MoOK(cat) == \/ ~Tr.hasmo
             \/ {<<Tr.mo[j].ctx, Tr.mo[j].id, Tr.mo[j].str>> : j \in DOMAIN Tr.mo}
                  = Compiled(cat)

Verdict(ms) ==
  LET cat == CatalogAfter(ms, Tr)
      dis == Disabled(ms)
  IN [k |-> k, cat |-> cat = Tr.cat,
      dis |-> Tr.nodis \/ dis = Tr.dis,
      head |-> HeaderOK(Tr.head), mo |-> MoOK(cat),
      want |-> IF cat = Tr.cat /\ (Tr.nodis \/ dis = Tr.dis) THEN <<>>
               ELSE <<cat, dis>>]

Next ==
  \/ /\ f <= Len(Tr.files) /\ i < Len(File.ev)
     /\ i' = i + 1
     /\ st' = SaxStep(st, File.ev[i + 1], Opts(Tr), RefsOf(File.lines), AliasMap(Tr))
     /\ UNCHANGED <<k, f, msgs>>
  \/ /\ f <= Len(Tr.files) /\ i = Len(File.ev)
     /\ f' = f + 1 /\ i' = 0 /\ st' = InitSax(Opts(Tr)) /\ UNCHANGED k
     /\ msgs' = msgs \o Located(st.found \o RefMsgs(st, RefsOf(File.lines)), File.path)
  \/ /\ f = Len(Tr.files) + 1 /\ i = 0
     /\ PrintT(ToJson(Verdict(msgs)))
     /\ i' = 1 /\ UNCHANGED <<k, f, st, msgs>>

------------------------------------------------------------------------------
(* Properties of the specification itself, checked on every state *)

(* blocks and spans are well nested, and every message read is given out    *)
(* before its block ends                                                    *)
WellNested ==
  /\ Len(st.bufs) = Len(st.sp) + 1
  /\ f <= Len(Tr.files) /\ i = Len(File.ev) /\ i > 0 =>
       st.anc = <<>> /\ st.sp = <<>> /\ st.bufs = <<"">> /\ st.code = ""

(* the skeleton has each message found once, in the same order *)
SkelMsgs == SelectSeq(st.skel, LAMBDA t : t.k \in {"msg", "code"})
FoundMsgs == SelectSeq(st.found, LAMBDA m : m.k \in {"text", "code"})
SkeletonOK ==
  LET a == SelectSeq(SkelMsgs, LAMBDA t : t.on /\ t.k = "msg")
      b == SelectSeq(FoundMsgs, LAMBDA m : m.on /\ m.k = "text")
  IN [j \in DOMAIN a |-> <<a[j].ctx, a[j].v>>] =
     [j \in DOMAIN b |-> <<b[j].ctx, b[j].id>>]
=============================================================================
