------------------------------- MODULE Catalog -------------------------------
(* The state of a PO catalog and what an extraction does to it.             *)
(*                                                                          *)
(* A catalog is a sequence of entries                                       *)
(*    [ctx, id, str : STRING, fuzzy, obs : BOOLEAN]                         *)
(* where ctx = "" means "no context".  A source is the sequence of messages *)
(* found by the extractor, in document order:                               *)
(*    [ctx, id, str : STRING, fuzzy : BOOLEAN]                              *)
(* (str is the initial translation: the default msgstr, or the message      *)
(* itself for link references, which are born fuzzy).  Messages and entries *)
(* may have more fields (comments, references): they always come from the   *)
(* message.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets

Modes == {"default", "merge", "remove"}

Key(e) == <<e.ctx, e.id>>
Keys(s) == {Key(s[i]) : i \in DOMAIN s}

(* index of the first entry satisfying P, or 0 *)
FirstIdx(cat, P(_)) ==
  IF \E i \in DOMAIN cat : P(cat[i])
  THEN CHOOSE i \in DOMAIN cat :
         P(cat[i]) /\ \A j \in 1..(i - 1) : ~P(cat[j])
  ELSE 0

Without(cat, i) ==
  SubSeq(cat, 1, i - 1) \o SubSeq(cat, i + 1, Len(cat))

Born(m) == [x \in DOMAIN m \cup {"obs"} |-> IF x = "obs" THEN FALSE ELSE m[x]]

(* its translation is not touched *)
Updated(e, m) ==
  [x \in DOMAIN e |-> IF x \in {"str", "fuzzy", "obs"} THEN e[x] ELSE m[x]]

(* One message found in the source. *)
AddMessage(cat, m) ==
  LET same(e) == Key(e) = Key(m)
      live(e) == same(e) /\ ~e.obs
      i       == FirstIdx(cat, same)
  IN IF FirstIdx(cat, live) # 0
     THEN [cat EXCEPT ![FirstIdx(cat, live)] = Updated(@, m)]
     ELSE IF i # 0                              \* it was obsolete: it comes
          THEN Append(Without(cat, i),          \* back as it was
                 IF cat[i].str # ""
                 THEN [Born(m) EXCEPT !.str = cat[i].str, !.fuzzy = cat[i].fuzzy]
                 ELSE Born(m))
          ELSE Append(cat, Born(m))

RECURSIVE AddAll(_, _)
AddAll(cat, src) ==
  IF src = <<>> THEN cat ELSE AddAll(AddMessage(cat, Head(src)), Tail(src))

(* What happens with the entries which are not in the source. *)
Sweep(cat, src, mode) ==
  CASE mode = "default" ->
         [i \in DOMAIN cat |->
            [cat[i] EXCEPT !.obs = Key(cat[i]) \notin Keys(src)]]
    [] mode = "merge"   -> cat
    [] mode = "remove"  -> SelectSeq(cat, LAMBDA e : Key(e) \in Keys(src))

(* PO files keep the obsolete entries at the end. *)
Saved(cat) ==
  SelectSeq(cat, LAMBDA e : ~e.obs) \o SelectSeq(cat, LAMBDA e : e.obs)

Extract(cat, src, mode) == Saved(Sweep(AddAll(cat, src), src, mode))

------------------------------------------------------------------------------
(* Well-formed catalogs: what C02 promises after any history. *)
NoDuplicates(cat) ==
  \A i, j \in DOMAIN cat : Key(cat[i]) = Key(cat[j]) => i = j

Mirrors(cat, src, mode, before) ==
  LET liveKeys == {Key(cat[i]) : i \in {j \in DOMAIN cat : ~cat[j].obs}}
      obsKeys  == {Key(cat[i]) : i \in {j \in DOMAIN cat : cat[j].obs}}
  IN CASE mode = "default" -> /\ liveKeys = Keys(src)
                              /\ obsKeys = Keys(before) \ Keys(src)
       [] mode = "merge"   ->
            /\ Keys(src) \subseteq liveKeys
            /\ liveKeys \cup obsKeys = Keys(before) \cup Keys(src)
            /\ \A i \in DOMAIN before :
                 Key(before[i]) \notin Keys(src) =>
                   \E j \in DOMAIN cat : cat[j] = before[i]
       [] mode = "remove"  -> liveKeys = Keys(src) /\ obsKeys = {}
=============================================================================
