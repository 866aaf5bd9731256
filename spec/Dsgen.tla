------------------------------- MODULE Dsgen ------------------------------
(* The program dsgen: what its arguments ask for, and what it prints. An    *)
(* argument is [k, n]: "rows" asks for n rows, "rows=" is the same in one   *)
(* word, "bad" a flag that is not understood; others name what rows are     *)
(* made for: "fixed", "good" a structure of a table, and "untabular",       *)
(* "broken" and "missing", which can not be used.                           *)
EXTENDS Tabular, FiniteSets
Default == 1000
Flags == {"rows", "rows=", "bad"}
Kinds == {"fixed", "good", "untabular", "broken", "missing"}

\* arguments are taken one by one, flags at any place
Start == [kind |-> "", n |-> Default, bad |-> FALSE]
Take(s, a) ==
  IF s.bad THEN s
  ELSE CASE a.k \in {"rows", "rows="} -> [s EXCEPT !.n = a.n]
         [] a.k = "bad" -> [s EXCEPT !.bad = TRUE]
         [] OTHER -> IF s.kind = "" THEN [s EXCEPT !.kind = a.k] ELSE s
RECURSIVE TakeAll(_, _)
TakeAll(s, args) == IF args = <<>> THEN s ELSE TakeAll(Take(s, Head(args)), Tail(args))
Asked(args) == TakeAll(Start, args)
Works(s) == ~s.bad /\ s.kind \in {"fixed", "good"}
Rows(s) == IF ~Works(s) THEN 0 ELSE IF s.n < 0 THEN 0 ELSE s.n

\* the i-th fixed row, counting from zero; a cell [head, zeros] is a text
\* followed by that many zeros
FixedHead == <<"uuid", "ingest", "occurred", "raw_data">>
FixedRow(i) == <<ToString(i) \o "-BA882B47-B26A-4E29-BFB4-XXXXXXXXXXXX", ToString(i) \o "-01-01 00:00:01.000 UTC",
                 "2000-" \o ToString(i) \o "-01 00:00:02.000 UTC", ToString(i)>>
FixedZeros == 908
===========================================================================
