------------------------------- MODULE PoFile -------------------------------
(* PO files written entry by entry, and what the checks for obsolete, fuzzy *)
(* and untranslated entries must report of them (C22).                      *)
EXTENDS Str, Json, TLC, Randomization

CONSTANTS N,      \* entries
          Shapes, \* how many shapes of entries, at random (0: all)
          Plain   \* only the parts which matter to the lines around

Flags == {"", "#, fuzzy", "#, python-format, fuzzy", "#, fuzzy, no-wrap",
          "#,fuzzy", "#, no-wrap", "#, fuzzy-match", "#, notfuzzy"}
HasFuzzy(f) == f \in {"#, fuzzy", "#, python-format, fuzzy",
                      "#, fuzzy, no-wrap", "#,fuzzy"}
Comments == {<<>>, <<"# fuzzy">>, <<"#. msgstr \"\"", "#. #, fuzzy">>,
             <<"#: a.md:block 1 (paragraph)">>, <<"# c", "", "# d">>}
\* the last one is a comment apart and a comment of the entry
\* the message which an entry had before
Previous == {<<>>, <<"msgid \"old\"">>, <<"msgid \"\"", "\"old \"", "\"er\"">>,
             <<"msgctxt \"msgstr \"", "msgid \"fuzzy\"">>}
Contexts == {"", "fuzzy", "msgstr"}
\* lines of texts, the first one after the keyword
Ids == {<<"A">>, <<"", "B ", "C">>, <<"msgstr \\\"\\\"">>, <<"#~ x">>,
        <<"", "#, fuzzy ", "msgstr">>}
Strs == {<<"">>, <<"T">>, <<"", "U ", "V">>, <<"msgid \\\"\\\"">>, <<"", "W">>}
Shape == [c : Comments, v : Previous, f : Flags, x : Contexts, id : Ids, s : Strs,
          o : BOOLEAN, blank : {0, 1, 2}]

PlainShape == [c : {<<>>, <<"# c">>}, v : {<<>>, <<"msgid \"old\"">>},
               f : {"", "#, fuzzy"}, x : {""}, id : {<<"A">>},
               s : {<<"">>, <<"T">>}, o : BOOLEAN, blank : {0, 1, 2}]

Quote(t) == "\"" \o t \o "\""
Field(pre, key, t) ==
  [i \in DOMAIN t |-> IF i = 1 THEN pre \o key \o " " \o Quote(t[1])
                      ELSE pre \o Quote(t[i])]
Entry(e, n) ==
  LET p == IF e.o THEN "#~ " ELSE ""
      q == IF e.o THEN "#~| " ELSE "#| "
      id == [e.id EXCEPT ![Len(e.id)] = @ \o ToStr(n)]
  IN e.c \o (IF e.f = "" THEN <<>> ELSE <<e.f>>)
     \o [i \in DOMAIN e.v |-> q \o e.v[i]]
     \o (IF e.x = "" THEN <<>> ELSE Field(p, "msgctxt", <<e.x>>))
     \o Field(p, "msgid", id) \o Field(p, "msgstr", e.s)
Blank(n) == [i \in 1..n |-> ""]
Header == {<<>>, <<"#", "msgid \"\"", "msgstr \"\"">>,
           <<"# fuzzy", "msgid \"\"", "msgstr \"\"",
             "\"Content-Type: text/plain; charset=UTF-8\\n\"">>}

VARIABLES lines, n, obs, fuzzy, empty, parsed, run
vars == <<lines, n, obs, fuzzy, empty, parsed, run>>
(* run: the last line belongs to an obsolete message *)

Base == IF Plain THEN PlainShape ELSE Shape
All == IF Shapes = 0 THEN Base ELSE RandomSubset(Shapes, Base)

Init == \E h \in Header :
          /\ lines = IF h = <<>> THEN <<>> ELSE h \o <<"">>
          /\ n = 0 /\ obs = <<>> /\ fuzzy = <<>> /\ empty = <<>>
          /\ parsed = <<>> /\ run = FALSE

Add(e) ==
  LET p == IF n = 0 THEN <<>> ELSE Blank(e.blank)
      ls == Entry(e, n)
      start == Len(lines) + Len(p)
      pre == Len(e.c) + (IF e.f = "" THEN 0 ELSE 1)
      joined == run /\ p = <<>> /\ pre + Len(e.v) = 0
      prev == Len(e.v)
  IN /\ lines' = lines \o p \o ls
     /\ n' = n + 1
     /\ obs' = IF e.o /\ ~joined THEN Append(obs, start + pre + prev + 1) ELSE obs
     /\ fuzzy' = IF HasFuzzy(e.f) THEN Append(fuzzy, start + Len(e.c) + 1)
                 ELSE fuzzy
     /\ empty' = IF e.s = <<"">> THEN Append(empty, start + Len(ls)) ELSE empty
     /\ parsed' = Append(parsed, [o |-> e.o, f |-> HasFuzzy(e.f),
                                  e |-> e.s = <<"">>])
     /\ run' = e.o

(* the obsolete entries are the last ones, as polib and gettext write them *)
Next == /\ n < N
        /\ \E e \in All : (run => e.o) /\ Add(e)

Emit == n = N => PrintT(ToJson([lines |-> lines, obs |-> obs, fuzzy |-> fuzzy,
                                empty |-> empty, parsed |-> parsed]))
------------------------------------------------------------------------------
(* the locations, stated on the lines of the file alone *)
IsObs(i) == StartsWith(lines[i], "#~ ")
Cont(i) == i <= Len(lines) /\ (StartsWith(lines[i], "\"")
                               \/ StartsWith(lines[i], "#~ \""))
SetOf(s) == {s[i] : i \in DOMAIN s}
OnLines ==
  /\ SetOf(obs) = {i \in DOMAIN lines : IsObs(i) /\ (i = 1 \/ ~IsObs(i - 1))}
  /\ SetOf(empty) = {i \in DOMAIN lines :
                       /\ lines[i] \in {"msgstr \"\"", "#~ msgstr \"\""}
                       /\ ~Cont(i + 1) /\ lines[i - 1] # "msgid \"\""}
  /\ SetOf(fuzzy) = {i \in DOMAIN lines : lines[i] \in Flags /\ HasFuzzy(lines[i])}
(* and against the entries *)
OnEntries ==
  LET count(k) == Cardinality({i \in DOMAIN parsed : parsed[i][k]})
  IN /\ Len(fuzzy) = count("f") /\ Len(empty) = count("e")
     /\ Len(obs) <= count("o") /\ (obs = <<>>) = (count("o") = 0)
=============================================================================
