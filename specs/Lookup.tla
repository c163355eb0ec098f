------------------------------- MODULE Lookup -------------------------------
(* Several PO files and the translation of each message (C24).              *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, Randomization

CONSTANTS NFiles, Size

Keys == <<[ctx |-> "", id |-> "x"], [ctx |-> "c", id |-> "x"],
          [ctx |-> "", id |-> "y"], [ctx |-> "d", id |-> "x"],
          [ctx |-> "c", id |-> "y"], [ctx |-> "x", id |-> "c"]>>
NK == Len(Keys)
FileNames == <<"a.po", "b.po", "d/c.po">>
(* state of a message in a file: 0 absent, 1 without translation, 2 with an *)
(* own one, 3 with one which other files have too, 4 with an own one which  *)
(* is fuzzy, 5 with an own one which is obsolete                            *)
Catalogs == [1..NK -> 0..5]
Globs == [g \in {"*.po", "a.po", "b.po", "d/c.po", "d/*.po", "[ab].po",
                 "none*.po", "?.po"} |->
  CASE g \in {"*.po", "?.po", "[ab].po"} -> <<"a.po", "b.po">>
    [] g = "a.po" -> <<"a.po">> [] g = "b.po" -> <<"b.po">>
    [] g \in {"d/c.po", "d/*.po"} -> <<"d/c.po">>
    [] g = "none*.po" -> <<>>]
Args == {<<"*.po">>, <<"a.po", "b.po">>, <<"b.po", "a.po">>,
         <<"b.po", "*.po">>, <<"*.po", "d/*.po">>, <<"d/c.po", "?.po">>,
         <<"d/*.po", "b.po", "a.po">>, <<"a.po">>, <<"none*.po", "b.po">>,
         <<"b.po", "d/c.po", "a.po", "b.po">>, <<"[ab].po", "d/c.po">>,
         <<"a.po", "d/c.po", "b.po">>}
Ignores == {{}, {"a.po"}, {"d"}, {"c.po"}, {"b.po", "d/c.po"}}

VARIABLES cats, args, ign, step, order, table, seen
vars == <<cats, args, ign, step, order, table, seen>>

Exists(f) == \E i \in 1..NFiles : FileNames[i] = f
Ignored(f) == \/ f \in ign
              \/ f = "d/c.po" /\ ign \cap {"c.po", "d"} # {}
Flat(as) == IF as = <<>> THEN <<>>
            ELSE LET RECURSIVE F(_)
                     F(s) == IF s = <<>> THEN <<>> ELSE Globs[Head(s)] \o F(Tail(s))
                 IN F(as)

Init ==
  /\ cats \in RandomSubset(Size, [1..NFiles -> Catalogs])
  /\ args \in RandomSubset(3, Args) /\ ign \in RandomSubset(2, Ignores)
  /\ step = 0 /\ order = <<>> /\ table = [k \in 1..NK |-> ""] /\ seen = {}

Str(f, k) == IF k[1] = 3 THEN "same" \o ToString(k[2])
             ELSE f \o ToString(k[2])
(* a file is read: its translations override the ones of the previous files *)
Next ==
  LET fs == Flat(args) IN
  /\ step < Len(fs)
  /\ step' = step + 1
  /\ LET f == fs[step + 1] IN
       IF ~Exists(f) \/ Ignored(f) \/ f \in seen
       THEN UNCHANGED <<order, table, seen>>
       ELSE LET i == CHOOSE j \in 1..NFiles : FileNames[j] = f IN
            /\ order' = Append(order, f) /\ seen' = seen \cup {f}
            /\ table' = [k \in 1..NK |->
                 IF cats[i][k] > 1 THEN Str(f, <<cats[i][k], k>>)
                 ELSE table[k]]
  /\ UNCHANGED <<cats, args, ign>>

Emit == step = Len(Flat(args)) =>
  PrintT(ToJson([args |-> args, ign |-> ign, order |-> order,
    files |-> [i \in 1..NFiles |-> [name |-> FileNames[i], es |->
      LET RECURSIVE E(_)
          E(k) == IF k > NK THEN <<>>
                  ELSE (IF cats[i][k] = 0 THEN <<>>
                        ELSE <<[ctx |-> Keys[k].ctx, id |-> Keys[k].id,
                                fuzzy |-> cats[i][k] = 4,
                                obs |-> cats[i][k] = 5,
                                str |-> IF cats[i][k] = 1 THEN ""
                                        ELSE Str(FileNames[i], <<cats[i][k], k>>)]>>)
                       \o E(k + 1)
      IN E(1)]],
    want |-> [k \in 1..NK |->
      [ctx |-> Keys[k].ctx, id |-> Keys[k].id,
       str |-> IF table[k] = "" THEN Keys[k].id ELSE table[k]]]]))

------------------------------------------------------------------------------
(* C24 on the files: the translation of a message is the one of the last    *)
(* file which has one, and nothing else                                     *)
LastWins ==
  step = Len(Flat(args)) =>
    \A k \in 1..NK :
      LET has == {j \in DOMAIN order :
                    cats[CHOOSE i \in 1..NFiles : FileNames[i] = order[j]][k] > 1}
      IN IF has = {} THEN table[k] = ""
         ELSE LET l == CHOOSE j \in has : \A m \in has : m <= j
                  i == CHOOSE q \in 1..NFiles : FileNames[q] = order[l]
              IN table[k] = Str(order[l], <<cats[i][k], k>>)
Ignoring == \A j \in DOMAIN order : ~Ignored(order[j])
=============================================================================
