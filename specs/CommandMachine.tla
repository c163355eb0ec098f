--------------------------- MODULE CommandMachine ---------------------------
(* The state that mdpo commands act on and how blocks consume it.           *)
(*                                                                          *)
(* Tokens are records [k, a]: k is the kind and a its argument:             *)
(*   text a      a block with one message a (paragraph, heading, item...)   *)
(*   code a      a code block with content a                                *)
(*   dis, ena    mdpo-disable, mdpo-enable                                  *)
(*   dnb, enb    mdpo-(disable|enable)-next-(block|line)                    *)
(*   ctx a, tr a, inc a     mdpo-context, -translator, -include             *)
(*   icb, dcb    mdpo-include-codeblock, mdpo-disable-codeblock             *)
(*   icbs, dcbs  mdpo-include-codeblocks, mdpo-disable-codeblocks           *)
EXTENDS Naturals, Sequences

NoMsg == [ctx |-> "", tc |-> ""]

(* dis: disabled; dnb/enb: pending for the next message; ctx/tc: pending    *)
(* context and translator comment; all: code blocks are included; one/skip: *)
(* pending inclusion/exclusion of the next code block                       *)
InitFlags(all) ==
  [dis |-> FALSE, dnb |-> FALSE, enb |-> FALSE, ctx |-> "", tc |-> "",
   all |-> all, one |-> FALSE, skip |-> FALSE]

Enabled_(f) == (~f.dis /\ ~f.dnb) \/ f.enb

(* A message is found: what is recorded of it, and the flags after it. *)
MsgOf(f, k, id) ==
  [k |-> k, id |-> id, ctx |-> f.ctx, tc |-> f.tc, on |-> Enabled_(f)]
Consume(f) == [f EXCEPT !.dnb = FALSE, !.enb = FALSE, !.ctx = "", !.tc = ""]

CodeIncluded(f) == (f.all \/ f.one) /\ ~f.skip

(* messages found so far, flags *)
Step(f, found, t) ==
  CASE t.k \in {"text", "inc"} ->
         [f |-> Consume(f), found |-> Append(found, MsgOf(f, t.k, t.a))]
    [] t.k = "code" ->
         IF CodeIncluded(f)
         THEN [f |-> [Consume(f) EXCEPT !.one = FALSE, !.skip = FALSE],
               found |-> Append(found, MsgOf(f, t.k, t.a))]
         ELSE [f |-> [f EXCEPT !.one = FALSE, !.skip = FALSE],
               found |-> Append(found, [k |-> "nocode", id |-> t.a,
                                ctx |-> "", tc |-> "", on |-> Enabled_(f)])]
    [] t.k = "dis"  -> [f |-> [f EXCEPT !.dis = TRUE], found |-> found]
    [] t.k = "ena"  -> [f |-> [f EXCEPT !.dis = FALSE], found |-> found]
    [] t.k = "dnb"  -> [f |-> [f EXCEPT !.dnb = TRUE], found |-> found]
    [] t.k = "enb"  -> [f |-> [f EXCEPT !.enb = TRUE], found |-> found]
    [] t.k = "ctx"  -> [f |-> [f EXCEPT !.ctx = t.a], found |-> found]
    [] t.k = "tr"   -> [f |-> [f EXCEPT !.tc = t.a], found |-> found]
    [] t.k = "icb"  -> [f |-> [f EXCEPT !.one = TRUE], found |-> found]
    [] t.k = "dcb"  -> [f |-> [f EXCEPT !.skip = TRUE], found |-> found]
    [] t.k = "icbs" -> [f |-> [f EXCEPT !.all = TRUE], found |-> found]
    [] t.k = "dcbs" -> [f |-> [f EXCEPT !.all = FALSE], found |-> found]

(* pending commands for the next message *)
Pending(f) == f.dnb \/ f.enb \/ f.ctx # "" \/ f.tc # ""

(* the catalog: enabled messages, the first one of each key *)
RECURSIVE Dedup(_, _)
Dedup(ms, seen) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms) IN
       IF ~m.on \/ m.k = "nocode" \/ <<m.ctx, m.id>> \in seen THEN Dedup(Tail(ms), seen)
       ELSE <<m>> \o Dedup(Tail(ms), seen \cup {<<m.ctx, m.id>>})
CatalogOf(found) == Dedup(found, {})
=============================================================================
