-------------------------------- MODULE Str --------------------------------
(* Strings as sequences of characters (TLC: Len, SubSeq and \o work on      *)
(* strings).                                                                *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
ContainsAt(s, p, i) == SubSeq(s, i, i + Len(p) - 1) = p
(* first position of p in s, 0 if it is not there *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF ContainsAt(s, p, i) THEN i ELSE FindFrom(s, p, i + 1)
Find(s, p) == FindFrom(s, p, 1)
Contains(s, p) == Find(s, p) # 0

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, p, r) ==
  LET i == Find(s, p) IN
  IF i = 0 THEN s
  ELSE Take(s, i - 1) \o r \o ReplaceAll(Drop(s, i + Len(p) - 1), p, r)

Space == {" ", "\t", "\n", "\r"}
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in Space THEN LStrip(Drop(s, 1)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Ch(s, Len(s)) \in Space
             THEN RStrip(Take(s, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
RECURSIVE RStripCh(_, _)
RStripCh(s, c) == IF s # "" /\ Ch(s, Len(s)) = c
                  THEN RStripCh(Take(s, Len(s) - 1), c) ELSE s
IsBlank(s) == LStrip(s) = ""

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)

(* first white space, 0 if there is none *)
RECURSIVE FindSpaceFrom(_, _)
FindSpaceFrom(s, i) == IF i > Len(s) THEN 0
                       ELSE IF Ch(s, i) \in Space THEN i
                       ELSE FindSpaceFrom(s, i + 1)

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN ""
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* s has a run of exactly n (not more) characters c *)
HasRun(s, c, n) ==
  \E i \in 1..(Len(s) - n + 1) :
    /\ \A j \in i..(i + n - 1) : Ch(s, j) = c
    /\ (i = 1 \/ Ch(s, i - 1) # c)
    /\ (i + n - 1 = Len(s) \/ Ch(s, i + n) # c)
(* fewest characters which delimit a text with runs of that character *)
RECURSIVE MinDelim(_, _, _)
MinDelim(s, c, n) == IF HasRun(s, c, n) THEN MinDelim(s, c, n + 1) ELSE n

Digits == [i \in 0..9 |-> SubSeq("0123456789", i + 1, i + 1)]
RECURSIVE ToStr(_)
ToStr(n) == IF n < 10 THEN Digits[n] ELSE ToStr(n \div 10) \o Digits[n % 10]
=============================================================================
