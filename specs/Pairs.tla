-------------------------------- MODULE Pairs --------------------------------
(* key:value arguments of the command lines (C25).  A reader goes through   *)
(* the characters of the argument.                                          *)
EXTENDS Str, Json, TLC

CONSTANTS MaxLen

Chars == {"a", "B", ":", "\\", " "}

VARIABLES text, pos, key, value, phase
vars == <<text, pos, key, value, phase>>

(* the backslashes before a separator are not part of the key *)
RECURSIVE DropSlashes(_)
DropSlashes(s) == IF s # "" /\ Ch(s, Len(s)) = "\\"
                  THEN DropSlashes(Take(s, Len(s) - 1)) ELSE s

Init == /\ text = "" /\ pos = 0 /\ key = "" /\ value = "" /\ phase = "write"

Write == /\ phase = "write" /\ Len(text) < MaxLen
         /\ \E c \in Chars : text' = text \o c
         /\ UNCHANGED <<pos, key, value, phase>>
Start == /\ phase = "write" /\ phase' = "lead"
         /\ UNCHANGED <<text, pos, key, value>>
(* phases: lead (before the first character of the key), key, value *)
Read ==
  /\ phase \in {"lead", "key", "space", "value"} /\ pos < Len(text)
  /\ pos' = pos + 1 /\ UNCHANGED text
  /\ LET c == Ch(text, pos + 1)
         prev == Ch(text, pos) IN
       CASE phase = "lead" ->
              \* an initial separator is part of the key
              IF c = "\\" THEN UNCHANGED <<key, value, phase>>
              ELSE key' = c /\ phase' = "key" /\ UNCHANGED value
         [] phase = "key" ->
              IF c = ":" /\ prev # "\\"
              THEN phase' = "space" /\ UNCHANGED <<key, value>>
              ELSE /\ key' = IF c = ":" THEN DropSlashes(key) \o ":"
                             ELSE key \o c
                   /\ UNCHANGED <<value, phase>>
         [] phase = "space" /\ c = " " -> UNCHANGED <<key, value, phase>>
         [] OTHER -> /\ value' = value \o c /\ phase' = "value"
                     /\ UNCHANGED key
Next == Write \/ Start \/ Read

Done == phase # "write" /\ pos = Len(text)
OK == phase \in {"space", "value"}
Emit == Done => PrintT(ToJson([text |-> text, ok |-> OK,
                               key |-> IF OK THEN key ELSE "",
                               value |-> value]))
------------------------------------------------------------------------------
(* a separator which nobody escapes is needed *)
Unescaped(i) == /\ i > 1 /\ Ch(text, i) = ":" /\ Ch(text, i - 1) # "\\"
                /\ \E j \in 1..(i - 1) : Ch(text, j) # "\\"
First == {i \in 1..Len(text) : Unescaped(i)}
Split == Done =>
  /\ OK = (First # {})
  /\ OK => LET p == CHOOSE i \in First : \A j \in First : i <= j
           IN /\ value = LStrip(Drop(text, p))
              \* without escapes the key is what is written
              /\ ~Contains(Take(text, p - 1), "\\") => key = Take(text, p - 1)
              \* and it never has an escape left
              /\ ~Contains(key, "\\:")
              /\ ReplaceAll(key, "\\", "") = ReplaceAll(Take(text, p - 1), "\\", "")
=============================================================================
