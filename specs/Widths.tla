------------------------------- MODULE Widths -------------------------------
(* Spellings of wrap widths (C25).                                          *)
EXTENDS Naturals, Str, Json, TLC

(* [t, k, v]: text without sign, kind (num, inf, bad) and integer part *)
Bodies == {
  [t |-> "0", k |-> "num", v |-> 0], [t |-> "00", k |-> "num", v |-> 0],
  [t |-> "1", k |-> "num", v |-> 1], [t |-> "80", k |-> "num", v |-> 80],
  [t |-> "080", k |-> "num", v |-> 80], [t |-> "79.99", k |-> "num", v |-> 79],
  [t |-> "0.5", k |-> "num", v |-> 0], [t |-> ".9", k |-> "num", v |-> 0],
  [t |-> "1.", k |-> "num", v |-> 1], [t |-> "1e2", k |-> "num", v |-> 100],
  [t |-> "2.5E1", k |-> "num", v |-> 25], [t |-> "1e-3", k |-> "num", v |-> 0],
  [t |-> "100000", k |-> "num", v |-> 100000],
  [t |-> "inf", k |-> "inf", v |-> 0], [t |-> "INF", k |-> "inf", v |-> 0],
  [t |-> "Infinity", k |-> "inf", v |-> 0], [t |-> "1e400", k |-> "inf", v |-> 0],
  [t |-> "nan", k |-> "bad", v |-> 0], [t |-> "NaN", k |-> "bad", v |-> 0],
  [t |-> "", k |-> "bad", v |-> 0], [t |-> "a", k |-> "bad", v |-> 0],
  [t |-> "8O", k |-> "bad", v |-> 0], [t |-> "8 0", k |-> "bad", v |-> 0],
  [t |-> "80px", k |-> "bad", v |-> 0], [t |-> "0x50", k |-> "bad", v |-> 0],
  [t |-> "1,5", k |-> "bad", v |-> 0], [t |-> "infinit", k |-> "bad", v |-> 0],
  [t |-> "1e", k |-> "bad", v |-> 0], [t |-> ".", k |-> "bad", v |-> 0],
  [t |-> "none", k |-> "bad", v |-> 0]}
VARIABLES sign, body, space
Init == sign \in {"", "+", "-", "--"} /\ body \in Bodies /\ space \in {"", " "}
Next == FALSE /\ UNCHANGED <<sign, body, space>>
Kind == IF sign = "--" THEN "bad" ELSE body.k
(* 0: no wrapping *)
Width == IF sign = "-" \/ Kind = "inf" THEN 0 ELSE body.v
Emit == PrintT(ToJson([text |-> space \o sign \o body.t \o space,
                       ok |-> Kind # "bad", width |-> Width]))
=============================================================================
