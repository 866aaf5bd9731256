------------------------------- MODULE Stats ------------------------------
(* Statistics of the entries of a body.  A value is a record                *)
(*   k : n null, b boolean, num, s string, arr, obj                         *)
(*   n : twice the number (1 for true);  len : bytes of a string            *)
(*   s : the string;  h : its first forty bytes                             *)
(*   items : children;  keys : names of the children of an object           *)
(* A column is the sequence of values found at one place of all entries. It *)
(* is described by a record, by the kind of its first value; values of      *)
(* other kinds in the same column are left out.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Empty == [t |-> "null", count |-> 0, min |-> 0, max |-> 0, sum |-> 0, minlen |-> 0, maxlen |-> 0, true |-> 0, false |-> 0, vals |-> <<>>, kids |-> <<>>, keys |-> <<>>]

Like(col) == SelectSeq(col, LAMBDA v : v.k = col[1].k)
SumOf(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Nums(col) == [i \in 1..Len(col) |-> col[i].n]
Lens(col) == [i \in 1..Len(col) |-> col[i].len]
Strs(col) == [i \in 1..Len(col) |-> col[i].s]
LowOf(q) == Min({q[i] : i \in 1..Len(q)})
HighOf(q) == Max({q[i] : i \in 1..Len(q)})
KeysOf(col) == UNION {{col[i].keys[j] : j \in 1..Len(col[i].keys)} : i \in 1..Len(col)}
AtKey(v, key) == {j \in 1..Len(v.keys) : v.keys[j] = key}

RECURSIVE Describe(_)
Describe(col) ==
  IF col = <<>> THEN Empty
  ELSE LET q == Like(col) n == Len(q)
       IN CASE col[1].k = "num" -> [Empty EXCEPT !.t = "numeric", !.count = n, !.min = LowOf(Nums(q)), !.max = HighOf(Nums(q)), !.sum = SumOf(Nums(q)), !.vals = Nums(q)]
            [] col[1].k = "s" -> [Empty EXCEPT !.t = "string", !.count = n, !.minlen = LowOf(Lens(q)), !.maxlen = HighOf(Lens(q)), !.vals = q]
            [] col[1].k = "b" -> [Empty EXCEPT !.t = "boolean", !.count = n, !.true = SumOf(Nums(q)), !.false = n - SumOf(Nums(q))]
            [] col[1].k = "n" -> [Empty EXCEPT !.count = n]
            [] col[1].k = "arr" -> [Empty EXCEPT !.t = "array",
                 !.kids = [i \in 1..HighOf([j \in 1..n |-> Len(q[j].items)]) |->
                           LET has == SelectSeq(q, LAMBDA v : Len(v.items) >= i) IN Describe([j \in 1..Len(has) |-> has[j].items[i]])]]
            [] OTHER -> LET ks == SetToSeq(KeysOf(q))
                        IN [Empty EXCEPT !.t = "object", !.keys = ks,
                              !.kids = [i \in 1..Len(ks) |->
                                LET has == SelectSeq(q, LAMBDA v : AtKey(v, ks[i]) # {})
                                IN Describe([j \in 1..Len(has) |-> has[j].items[CHOOSE x \in AtKey(has[j], ks[i]) : TRUE]])]]

\* how often values occur
Times(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
Distinct(q) == {q[i] : i \in 1..Len(q)}

\* the middle of a list of numbers: the least number at which half of the
\* numbers are below, counting half of its own
Below(x, q) == Cardinality({i \in 1..Len(q) : q[i] < x})
Median(q) == Min({x \in Distinct(q) : 2 * Below(x, q) + Times(x, q) >= Len(q)})

Near(a, b, d) == a - b <= d /\ b - a <= d
==========================================================================
