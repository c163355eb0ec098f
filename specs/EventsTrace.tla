----------------------------- MODULE EventsTrace -----------------------------
(* Judge of executions with event handlers (C16).  A trace has the events   *)
(* of the parser for a document, the handlers of each event, the calls they *)
(* received in order and the result: the catalog of md2po, or the events of *)
(* the parser for the document that po2md wrote.                            *)
(*                                                                          *)
(* The handlers of an event are called for each of its occurrences, in      *)
(* order; what happens is what the machine of Sax does without the          *)
(* occurrences for which some handler returned False.                       *)
EXTENDS Judge, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, side, i, st, src
vars == <<k, side, i, st, src>>
Id == <<k, side, i>>

Tr == Traces[k]
Doc == IF side = "src" THEN Tr.src ELSE Tr.out
O == [all |-> Tr.all, plain |-> FALSE]
Po2Md == Tr.tool = "po2md"

Raw == [eb |-> "enter_block", lb |-> "leave_block", es |-> "enter_span",
        ls |-> "leave_span", tx |-> "text"]

(* A handler answers False (f) for the occurrences of its event which are   *)
(* of m ("*": any) among the events lo..hi of the parser; None, True or     *)
(* another value otherwise.                                                 *)
Handlers(e) == IF e \in DOMAIN Tr.handlers THEN Tr.handlers[e] ELSE <<>>
SkipAt(e, m, n) == \E j \in DOMAIN Handlers(e) :
  LET h == Handlers(e)[j]
  IN h.f /\ h.m \in {"*", m} /\ h.lo <= n /\ n <= h.hi
Named(e) == {Handlers(e)[j].m : j \in {x \in DOMAIN Handlers(e) :
                                         Handlers(e)[x].f}}
Start(t) ==
  [InitSax([all |-> t.all, plain |-> FALSE]) EXCEPT
     !.ev = [on |-> TRUE, every |-> Po2Md, ids |-> Named("msgid"),
             cmds |-> Named("command")]]

(* an event of the parser *)
Take_(s, e, n) ==
  LET name == Raw[e.k]
      s1 == Log(s, Occ(name, e.m, e.key))
  IN IF SkipAt(name, e.m, n) THEN s1
     ELSE SaxStep(s1, e, O, RefsOf(Doc.lines), AliasMap(Tr))

(* the link references at the end *)
RECURSIVE Refs(_, _, _)
Refs(s, refs, seen) ==
  IF refs = <<>> THEN s
  ELSE LET r  == Head(refs)
           id == RefText(r)
           s1 == Log(s, Occ("link_reference", r.t,
                            r.t \o "|" \o r.h \o "|" \o r.ti))
           s2 == IF Po2Md THEN s1
                 ELSE Log(s1, MsgOcc(s1, id, id, "fuzzy"))
           m  == [k |-> "ref", id |-> id, ctx |-> "", tc |-> "", on |-> TRUE,
                  loc |-> ""]
       IN IF SkipAt("link_reference", r.t, 0) THEN Refs(s1, Tail(refs), seen)
          ELSE IF SkipsMsg(s2, id) /\ ~Po2Md THEN Refs(s2, Tail(refs), seen)
          ELSE IF Po2Md /\ <<r.h, r.ti>> \in seen
          THEN Refs(s2, Tail(refs), seen)
          ELSE Refs([s2 EXCEPT !.found = Append(@, m)], Tail(refs),
                    seen \cup {<<r.h, r.ti>>})
Ended(s) ==
  IF ~s.links THEN s
  ELSE Refs([s EXCEPT !.f = [@ EXCEPT !.ctx = "", !.tc = ""]],
            RefsOf(Doc.lines), {})

------------------------------------------------------------------------------
Answers(occ) == [j \in DOMAIN Handlers(occ.e) |->
                   [e |-> occ.e, j |-> j, x |-> occ.x]]
RECURSIVE Calls(_)
Calls(log) == IF log = <<>> THEN <<>>
              ELSE Answers(Head(log)) \o Calls(Tail(log))

NoLoc(cat) == [j \in DOMAIN cat |-> [cat[j] EXCEPT !.loc = ""]]

(* a paragraph whose message is skipped is not written *)
RECURSIVE NoEmpty(_)
NoEmpty(skel) ==
  IF skel = <<>> THEN <<>>
  ELSE IF Len(skel) > 1 /\ skel[1].k = "+" /\ skel[1].v = "P"
          /\ skel[2].k = "-"
  THEN NoEmpty(SubSeq(skel, 3, Len(skel)))
  ELSE <<Head(skel)>> \o NoEmpty(Tail(skel))

RefsFound(s) == LET r == SelectSeq(s.found, LAMBDA m : m.k = "ref")
                IN [j \in DOMAIN r |-> Lookup(Tr.po, "", r[j].id)]

Verdict(want, got) ==
  LET s == want
      calls == Calls(s.log)
      d == FirstDiff(calls, Tr.calls)
      cat == NoLoc(Cat(s.found, {}, Tr))
      ws == NoEmpty(Translated(s.skel, Tr.po))
      gs == Plain(got.skel)
      result == IF Po2Md
                THEN ws = gs /\ RefsFound(s) = Texts(RefsOf(Tr.out.lines))
                ELSE cat = NoLoc(Tr.cat) /\ Disabled(s.found) = Tr.dis
      e == FirstDiff(ws, gs)
  IN [k |-> k, calls |-> calls = Tr.calls, result |-> result,
      debug |-> ~Tr.debug \/ Tr.printed = [j \in DOMAIN s.log |-> s.log[j].e],
      want |-> IF calls # Tr.calls
               THEN <<At(calls, d), At(Tr.calls, d)>>
               ELSE IF result THEN <<>>
               ELSE IF Po2Md THEN <<At(ws, e), At(gs, e), RefsFound(s)>>
               ELSE <<cat, Disabled(s.found)>>]

Init == /\ k \in DOMAIN Traces /\ side = "src" /\ i = 0
        /\ st = Start(Tr) /\ src = [none |-> TRUE]

Next ==
  \/ /\ side = "src" /\ i < Len(Doc.ev)
     /\ i' = i + 1 /\ st' = Take_(st, Doc.ev[i + 1], i + 1)
     /\ UNCHANGED <<k, side, src>>
  \/ /\ side = "src" /\ i = Len(Doc.ev)
     /\ side' = "out" /\ i' = 0 /\ st' = InitSax(O) /\ src' = Ended(st)
     /\ UNCHANGED k
  \/ /\ side = "out" /\ i < Len(Doc.ev)
     /\ i' = i + 1 /\ UNCHANGED <<k, side, src>>
     /\ st' = SaxStep(st, Doc.ev[i + 1], O, RefsOf(Doc.lines), AliasMap(Tr))
  \/ /\ side = "out" /\ i = Len(Doc.ev)
     /\ PrintT(ToJson(Verdict(src, st)))
     /\ i' = i + 1 /\ UNCHANGED <<k, side, st, src>>

------------------------------------------------------------------------------
(* what is entered is left, in the log, whatever is skipped *)
Count_(log, es) == Len(SelectSeq(log, LAMBDA o : o.e \in es))
Nested_ == side = "out" /\ i = 0 =>
  /\ Count_(src.log, {"enter_block"}) = Count_(src.log, {"leave_block"})
  /\ Count_(src.log, {"enter_span"}) = Count_(src.log, {"leave_span"})
=============================================================================
