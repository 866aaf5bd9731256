------------------------------ MODULE Validate ----------------------------
(* Validation of the entries of a body by a schema.  A value is a record    *)
(*   k : n null, b boolean, num, s string, arr, obj                         *)
(*   n : twice the number, so that halves show;  len : length of a string   *)
(*   items : children;  keys : names of the children of an object           *)
(* A schema is a record of the keywords of JSON schema that apply to single *)
(* values; keywords that are absent are empty sequences.                    *)
(*   types, min, max (doubled), minlen, maxlen, req (names required),       *)
(*   tuple (schemas by position), each (schema of all items),               *)
(*   props (<<name, schema>>), other (schema of properties not named)       *)
(* An error is known by the path of the value it is about.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

IsType(v, t) ==
  CASE t = "null" -> v.k = "n"
    [] t = "boolean" -> v.k = "b"
    [] t = "integer" -> v.k = "num" /\ v.n % 2 = 0
    [] t = "number" -> v.k = "num"
    [] t = "string" -> v.k = "s"
    [] t = "array" -> v.k = "arr"
    [] t = "object" -> v.k = "obj"
    [] OTHER -> FALSE

Once(cond, p) == IF cond THEN <<p>> ELSE <<>>
Has(seq) == Len(seq) > 0
NamedProp(s, name) == {i \in 1..Len(s.props) : s.props[i][1] = name}

RECURSIVE Errors(_, _, _)
Errors(v, s, p) ==
  Once(Has(s.types) /\ \A i \in 1..Len(s.types) : ~IsType(v, s.types[i]), p)
  \o (IF v.k = "num" THEN Once(Has(s.min) /\ v.n < s.min[1], p) \o Once(Has(s.max) /\ v.n > s.max[1], p) ELSE <<>>)
  \o (IF v.k = "s" THEN Once(Has(s.minlen) /\ v.len < s.minlen[1], p) \o Once(Has(s.maxlen) /\ v.len > s.maxlen[1], p) ELSE <<>>)
  \o (IF v.k = "arr"
      THEN FlattenSeq([i \in 1..Len(v.items) |->
             LET q == p \o "/" \o ToString(i - 1)
             IN IF Has(s.tuple) THEN (IF i <= Len(s.tuple) THEN Errors(v.items[i], s.tuple[i], q) ELSE <<>>)
                ELSE IF Has(s.each) THEN Errors(v.items[i], s.each[1], q) ELSE <<>>])
      ELSE <<>>)
  \o (IF v.k = "obj"
      THEN FlattenSeq([i \in 1..Len(s.req) |-> Once(\A j \in 1..Len(v.keys) : v.keys[j] # s.req[i], p)])
           \o FlattenSeq([i \in 1..Len(v.keys) |->
                LET q == p \o "/" \o v.keys[i]
                    named == NamedProp(s, v.keys[i])
                IN IF named # {} THEN Errors(v.items[i], s.props[CHOOSE k \in named : TRUE][2], q)
                   ELSE IF Has(s.other) THEN Errors(v.items[i], s.other[1], q) ELSE <<>>])
      ELSE <<>>)

\* A body of n entries: entry "rest" but for those listed in "some", each with
\* its place and its value. An object body names the entries it lists.
EntrySchema(s, e) ==
  IF e.key # "" THEN (LET named == NamedProp(s, e.key) IN IF named # {} THEN <<s.props[CHOOSE k \in named : TRUE][2]>> ELSE s.other)
  ELSE IF Has(s.tuple) THEN (IF e.at < Len(s.tuple) THEN <<s.tuple[e.at + 1]>> ELSE <<>>) ELSE s.each
EntryErrors(s, e) ==
  LET es == EntrySchema(s, e)
  IN IF Has(es) THEN Errors(e.val, es[1], "/" \o (IF e.key # "" THEN e.key ELSE ToString(e.at))) ELSE <<>>
BodyErrors(s, some) == FlattenSeq([i \in 1..Len(some) |-> EntryErrors(s, some[i])])

\* two lists hold the same, each as often
Count(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)
===========================================================================
