---------------------------- MODULE ValidateMC ----------------------------
(* Design: entries are validated in batches, errors of a batch are moved by *)
(* the number of entries before it. Checked for all bodies up to MaxN       *)
(* entries. All small schemas and values are scenarios.                     *)
EXTENDS Validate, TLC, Json
CONSTANTS MaxN, Batch
VARIABLES todo, batch, offset, found, body, done
vars == <<todo, batch, offset, found, body, done>>
Free == [types |-> <<>>, min |-> <<>>, max |-> <<>>, minlen |-> <<>>, maxlen |-> <<>>, req |-> <<>>, tuple |-> <<>>, each |-> <<>>, props |-> <<>>, other |-> <<>>]
V(k, n, len) == [k |-> k, n |-> n, len |-> len, items |-> <<>>, keys |-> <<>>]
Arr(items) == [k |-> "arr", n |-> 0, len |-> 0, items |-> items, keys |-> <<>>]
Obj(keys, items) == [k |-> "obj", n |-> 0, len |-> 0, items |-> items, keys |-> keys]
Scalars == {V("n", 0, 0), V("b", 0, 0), V("num", 2, 0), V("num", 3, 0), V("num", 4, 0), V("s", 0, 0), V("s", 0, 2)}
Some3 == {V("num", 2, 0), V("num", 3, 0), V("s", 0, 1)}
Leaf == [Free EXCEPT !.types = <<"integer">>]
Values == Scalars \cup {Arr(<<>>), Obj(<<>>, <<>>)} \cup {Arr(<<a>>) : a \in Some3} \cup {Arr(<<a, b>>) : a, b \in Some3}
          \cup {Obj(<<"a">>, <<a>>) : a \in Some3} \cup {Obj(<<"a", "b">>, <<a, b>>) : a, b \in Some3}
Types == {"null", "boolean", "integer", "number", "string", "array", "object"}
Schemas == {Free} \cup {[Free EXCEPT !.types = <<t>>] : t \in Types} \cup {[Free EXCEPT !.types = <<t, u>>] : t \in {"integer", "array"}, u \in {"string", "null"}}
           \cup {[Free EXCEPT !.min = a, !.max = b, !.types = t] : a \in {<<>>, <<3>>}, b \in {<<>>, <<3>>}, t \in {<<>>, <<"integer">>}}
           \cup {[Free EXCEPT !.minlen = a, !.maxlen = b] : a \in {<<>>, <<1>>}, b \in {<<>>, <<1>>}}
           \cup {[Free EXCEPT !.tuple = t, !.each = e] : t \in {<<>>, <<Leaf>>, <<Free, Leaf>>}, e \in {<<>>, <<Leaf>>}}
           \cup {[Free EXCEPT !.req = r, !.props = p, !.other = o] : r \in {<<>>, <<"a">>, <<"a", "b">>}, p \in {<<>>, <<<<"a", Leaf>>>>}, o \in {<<>>, <<Leaf>>}}

\* laws of the error relation, for all small schemas and values
ASSUME \A v \in Values : Errors(v, Free, "") = <<>>
ASSUME \A v \in Values : \E t \in Types : Errors(v, [Free EXCEPT !.types = <<t>>], "") = <<>>
ASSUME \A v \in Values, s \in Schemas, u \in Schemas :
         (s.types = <<>> /\ s.each = u.each /\ s.tuple = u.tuple /\ s.req = u.req /\ s.props = u.props /\ s.other = u.other /\ s.min = u.min /\ s.max = u.max /\ s.minlen = u.minlen /\ s.maxlen = u.maxlen)
         => Len(Errors(v, s, "")) <= Len(Errors(v, u, ""))
\* errors are about paths below the one asked about, and move with it
ASSUME \A v \in Values, s \in Schemas : Errors(v, s, "/x") = [i \in 1..Len(Errors(v, s, "")) |-> "/x" \o Errors(v, s, "")[i]]
ASSUME \A v \in Values, s \in Schemas : PrintT("SCN " \o ToJson([schema |-> s, val |-> v]))

\* design of batching: entries are 0 (valid), 1 or 2 (that many errors)
Init == \E n \in 0..MaxN : body \in [1..n -> 0..2] /\ todo = body /\ batch = <<>> /\ offset = 0 /\ found = <<>> /\ done = FALSE
Flush == FlattenSeq([i \in 1..Len(batch) |-> [k \in 1..batch[i] |-> offset + i]])
Read == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<body, done>>
        /\ LET i == Len(body) - Len(todo)
           IN IF i % Batch = 0 THEN found' = found \o Flush /\ batch' = <<Head(todo)>> /\ offset' = i
              ELSE batch' = Append(batch, Head(todo)) /\ UNCHANGED <<found, offset>>
End == todo = <<>> /\ ~done /\ found' = found \o Flush /\ batch' = <<>> /\ done' = TRUE /\ UNCHANGED <<body, todo, offset>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Bounded == Len(batch) <= Batch
Complete == done => SameBag(found, FlattenSeq([i \in 1..Len(body) |-> [k \in 1..body[i] |-> i]]))
===========================================================================
