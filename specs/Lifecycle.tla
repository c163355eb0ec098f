------------------------------ MODULE Lifecycle ------------------------------
(* Histories of a catalog: the source is edited and extracted again, a      *)
(* translator writes translations and a reviewer marks entries fuzzy or     *)
(* reviewed.  TLC explores every history over the messages in Msgs, checks  *)
(* the properties of C01-C03 in every state and prints every transition,    *)
(* which the harness replays on the real md2po.                             *)
EXTENDS Catalog, Json, TLC

CONSTANTS NIds,      \* messages without context: "m1".."mN"
          CtxOn,     \* message "m1" also in this number of contexts
          RefOn,     \* also one link reference (born fuzzy)
          Default,   \* default msgstr
          MaxSrc,    \* sources of at most this many messages
          DefaultOnly,
          Emitting

Ids == {"m1", "m2", "m3", "m4"}
Id(n) == CASE n = 1 -> "m1" [] n = 2 -> "m2" [] n = 3 -> "m3" [] n = 4 -> "m4"
Msg(c, i) == [ctx |-> c, id |-> i, str |-> Default, fuzzy |-> FALSE]
Ref == [ctx |-> "", id |-> "[r]: /r", str |-> "[r]: /r", fuzzy |-> TRUE]

Plain == {Msg("", Id(n)) : n \in 1..NIds}
Msgs  == Plain \cup (IF CtxOn > 0 THEN {Msg("k", "m1")} ELSE {})
         \cup (IF CtxOn > 1 THEN {Msg("l", "m1")} ELSE {})

(* Sources: sequences without repetition are enough because a repetition    *)
(* is found when the message is already there; repetitions are added by     *)
(* the harness when it writes the documents.                                *)
Sources ==
  LET S(n) == {s \in [1..n -> Msgs] : \A i, j \in 1..n : s[i] = s[j] => i = j}
      base == UNION {S(n) : n \in 0..MaxSrc}
  IN base \cup (IF RefOn THEN {Append(s, Ref) : s \in base} ELSE {})

ModesUsed == IF DefaultOnly THEN {"default"} ELSE Modes

VARIABLES cat,   \* the catalog
          memo,  \* ghost: key -> the last translation somebody wrote
          last   \* the last operation

vars == <<cat, memo, last>>

AllKeys == {Key(m) : m \in Msgs} \cup (IF RefOn THEN {Key(Ref)} ELSE {})

Init == /\ cat = <<>>
        /\ memo = [k \in AllKeys |-> [str |-> "", fuzzy |-> FALSE]]
        /\ last = [op |-> "init", mode |-> "", src |-> <<>>]

Tr(e) == "T " \o e.ctx \o "." \o e.id

DoExtract(src, mode) ==
  /\ cat' = Extract(cat, src, mode)
  /\ last' = [op |-> "extract", mode |-> mode, src |-> src]
  /\ memo' = IF mode = "remove"
             THEN [k \in AllKeys |->
                     IF k \in Keys(src) THEN memo[k]
                     ELSE [str |-> "", fuzzy |-> FALSE]]
             ELSE memo

Write(i, str, fz) ==
  /\ cat' = [cat EXCEPT ![i].str = str, ![i].fuzzy = fz]
  /\ memo' = [memo EXCEPT ![Key(cat[i])] = [str |-> str, fuzzy |-> fz]]
  /\ last' = [op |-> "write", mode |-> "", src |-> <<>>]

Translate == \E i \in DOMAIN cat :
               /\ ~cat[i].obs /\ cat[i].str # Tr(cat[i])
               /\ Write(i, Tr(cat[i]), FALSE)
Review    == \E i \in DOMAIN cat :
               /\ ~cat[i].obs /\ cat[i].str # ""
               /\ Write(i, cat[i].str, ~cat[i].fuzzy)

Next == \/ \E src \in Sources, mode \in ModesUsed : DoExtract(src, mode)
        \/ Translate
        \/ Review

(* printing of every transition *)
Emit ==
  IF Emitting
  THEN PrintT(ToJson([before |-> cat, op |-> last'.op, src |-> last'.src,
                      mode |-> last'.mode, after |-> cat']))
  ELSE TRUE

view == <<cat, memo>>

------------------------------------------------------------------------------
(* C01 *)
TranslationsSurvive ==
  \A k \in AllKeys : memo[k].str # "" =>
    \E i \in DOMAIN cat : /\ Key(cat[i]) = k
                          /\ cat[i].str = memo[k].str
                          /\ cat[i].fuzzy = memo[k].fuzzy

NotAttachedToOthers ==
  \A i \in DOMAIN cat :
    cat[i].str \in {"", Default, Tr(cat[i])} \cup
                   (IF Key(cat[i]) = Key(Ref) THEN {Ref.str} ELSE {})

(* C02 *)
Unique == NoDuplicates(cat)
MirrorsAction ==
  last'.op = "extract" => Mirrors(cat', last'.src, last'.mode, cat)
MirrorsProp == [][MirrorsAction]_vars

(* C03 *)
IdempotentAction ==
  last'.op = "extract" => Extract(cat', last'.src, last'.mode) = cat'
IdempotentProp == [][IdempotentAction]_vars
=============================================================================
