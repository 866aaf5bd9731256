------------------------------ MODULE StatsMC -----------------------------
(* Design: an accumulator that sees one value at a time ends with what the  *)
(* whole column is described by, for all columns up to MaxLen values. All   *)
(* such columns are scenarios.                                              *)
EXTENDS Stats, Json
CONSTANTS MaxLen
VARIABLES col, acc
vars == <<col, acc>>
V(k, n, s, len) == [k |-> k, n |-> n, s |-> s, h |-> s, len |-> len, items |-> <<>>, keys |-> <<>>]
Num(n) == V("num", n, "", 0)
Str(s, len) == V("s", 0, s, len)
Arr(items) == [V("arr", 0, "", 0) EXCEPT !.items = items]
Obj(keys, items) == [V("obj", 0, "", 0) EXCEPT !.keys = keys, !.items = items]
Scalars == {V("n", 0, "", 0), V("b", 0, "", 0), V("b", 1, "", 0), Num(-3), Num(0), Num(4), Str("", 0), Str("b", 1)}
Values == Scalars \cup {Arr(<<>>), Arr(<<Num(2)>>), Arr(<<Str("x", 1), Num(1)>>), Obj(<<"a">>, <<Num(2)>>), Obj(<<"b", "a">>, <<Str("y", 1), Num(-1)>>)}

\* one value at a time
RECURSIVE Add(_, _)
Fresh(v) == [Empty EXCEPT !.t = CASE v.k = "num" -> "numeric" [] v.k = "s" -> "string" [] v.k = "b" -> "boolean" [] v.k = "n" -> "null" [] v.k = "arr" -> "array" [] OTHER -> "object"]
Lower(a, x, c) == IF c = 0 \/ x < a THEN x ELSE a
Higher(a, x, c) == IF c = 0 \/ x > a THEN x ELSE a
RECURSIVE AddItems(_, _, _)
AddItems(kids, items, i) ==
  IF i > Len(items) THEN kids
  ELSE AddItems(IF i > Len(kids) THEN Append(kids, Add(Fresh(items[i]), items[i])) ELSE [kids EXCEPT ![i] = Add(@, items[i])], items, i + 1)
RECURSIVE AddProps(_, _, _)
AddProps(a, v, i) ==
  IF i > Len(v.keys) THEN a
  ELSE LET at == {j \in 1..Len(a.keys) : a.keys[j] = v.keys[i]}
       IN AddProps(IF at = {} THEN [a EXCEPT !.keys = Append(@, v.keys[i]), !.kids = Append(@, Add(Fresh(v.items[i]), v.items[i]))]
                   ELSE [a EXCEPT !.kids[CHOOSE j \in at : TRUE] = Add(@, v.items[i])], v, i + 1)
Add(a, v) ==
  IF Fresh(v).t # a.t THEN a
  ELSE CASE v.k = "num" -> [a EXCEPT !.count = @ + 1, !.min = Lower(@, v.n, a.count), !.max = Higher(@, v.n, a.count), !.sum = @ + v.n, !.vals = Append(@, v.n)]
         [] v.k = "s" -> [a EXCEPT !.count = @ + 1, !.minlen = Lower(@, v.len, a.count), !.maxlen = Higher(@, v.len, a.count), !.vals = Append(@, v)]
         [] v.k = "b" -> [a EXCEPT !.count = @ + 1, !.true = @ + v.n, !.false = @ + 1 - v.n]
         [] v.k = "n" -> [a EXCEPT !.count = @ + 1]
         [] v.k = "arr" -> [a EXCEPT !.kids = AddItems(@, v.items, 1)]
         [] OTHER -> AddProps(a, v, 1)

\* the same, but for the order of keys
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ [a EXCEPT !.kids = <<>>, !.keys = <<>>] = [b EXCEPT !.kids = <<>>, !.keys = <<>>]
  /\ Len(a.kids) = Len(b.kids)
  /\ IF a.t = "object"
     THEN {a.keys[i] : i \in 1..Len(a.keys)} = {b.keys[i] : i \in 1..Len(b.keys)}
          /\ \A i, j \in 1..Len(a.keys) : a.keys[i] = b.keys[j] => Same(a.kids[i], b.kids[j])
     ELSE \A i \in 1..Len(a.kids) : Same(a.kids[i], b.kids[i])

Init == col = <<>> /\ acc = Empty
Next == Len(col) < MaxLen /\ \E v \in Values : col' = Append(col, v) /\ acc' = Add(IF col = <<>> THEN Fresh(v) ELSE acc, v)
Spec == Init /\ [][Next]_vars
Agrees == Same(acc, Describe(col))
MedianInside == acc.t = "numeric" /\ acc.count > 0 => acc.min <= Median(acc.vals) /\ Median(acc.vals) <= acc.max
Emit == PrintT("SCN " \o ToJson([col |-> col]))
===========================================================================
