------------------------------- MODULE Val -------------------------------
(* Values.  A value is a flat sequence of tokens; a token is a record       *)
(*   k : kind.  n null, b boolean, s text, y bytes, i 64 bit integer,       *)
(*       u integer beyond 64 bits, f finite float, z NaN or infinity,       *)
(*       [ array and { object with v = number of children, k object key,    *)
(*       x a value no format can carry                                      *)
(*   v : canonical text                                                     *)
(*   a : for i, u the text of the nearest float; for f the text of the      *)
(*       integer it equals, or "" when there is none                        *)
(* An entry carries a sequence of cells, each of which is a value. Rows of  *)
(* tabular formats have one cell per column, other entries have one cell.   *)
EXTENDS Naturals, Sequences

\* What a reader gives for a token, by the way a format carries values. Floats
\* in JSON text have no mark, an integral one reads as an integer; other texts
\* have only floats.
Through(class, t) ==
  CASE class = "json"  -> IF t.k = "f" /\ t.a # "" THEN [k |-> "i", v |-> t.a, a |-> t.v]
                          ELSE IF t.k = "u" THEN [k |-> "f", v |-> t.a, a |-> ""] ELSE t
    [] class = "cbor"  -> IF t.k = "u" THEN [k |-> "f", v |-> t.a, a |-> ""] ELSE t
    [] class = "float" -> IF t.k \in {"i", "u"} THEN [k |-> "f", v |-> t.a, a |-> t.v] ELSE t
    [] OTHER           -> t

Reads(class, t) == LET x == Through(class, t) IN <<x.k, x.v>>

Got(t) == <<t.k, t.v>>

\* the value w, carried by class, reads as the value r
ValueReads(class, w, r) ==
  /\ Len(w) = Len(r)
  /\ \A i \in 1..Len(w) : Got(r[i]) = Reads(class, w[i])

\* w is carried by class c1, what is read of it is carried on by class c2
ValueReads2(c1, c2, w, r) ==
  /\ Len(w) = Len(r)
  /\ \A i \in 1..Len(w) : Got(r[i]) = Reads(c2, Through(c1, w[i]))

\* how a cell of a column of some type is carried
CellClass(type) == IF type \in {"number", "object", "array"} THEN "float" ELSE "exact"

\* text a value has in a cell, for those values that have only one
CellText(w, r) ==
  /\ Len(r) = 1 /\ r[1].k = "s"
  /\ CASE w[1].k \in {"s", "i", "b"} -> r[1].v = w[1].v
       [] w[1].k = "n" -> r[1].v = ""
       [] OTHER -> TRUE

Unencodable(v) == \E i \in 1..Len(v) : v[i].k = "x"
NonFinite(v)   == \E i \in 1..Len(v) : v[i].k = "z"

\* sequences as prefixes
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]
==========================================================================
