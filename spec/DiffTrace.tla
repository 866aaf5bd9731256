----------------------------- MODULE DiffTrace ---------------------------
(* Conformance of recorded differences.                                     *)
EXTENDS Diff, TraceBase
vars == l
Init == l = 1
\* a value not set is written as a blank by some fields
AsBlank(n, v) == Blank(n, v) \/ (v = "?" /\ n \in {"title", "format", "timestamp"})
\* a record of texts is shown by the differences inside of it
Holds(g, v, d) == g = "?" \/ IsMapField(E.c, d.name) \/ g = v
Shows(g, d) ==
  /\ g.name = d.name
  /\ Holds(g.old, d.old, d) \/ (d.kind = "added" /\ AsBlank(d.name, g.old))
  /\ Holds(g.new, d.new, d) \/ (d.kind = "deleted" /\ AsBlank(d.name, g.new))
  /\ \/ g.kind = d.kind
     \/ g.kind = "changed" /\ d.kind = "added" /\ AsBlank(d.name, g.old)
     \/ g.kind = "changed" /\ d.kind = "deleted" /\ AsBlank(d.name, g.new)
Names(D) == {d.name : d \in D}
Elems(s) == {s[i] : i \in 1..Len(s)}
Says(D) ==
  /\ E.modified = (D # {}) /\ E.count = Cardinality(D) /\ E.encoded = Cardinality(D)
  /\ IF D = {} THEN E.texts = <<"", "", "", "">> /\ E.got = <<>>
     ELSE /\ \A i \in 1..4 : E.texts[i] # ""
          /\ E.simple = [kind |-> E.c, n |-> Cardinality(D), plural |-> Cardinality(D) > 1]
          /\ E.list = E.simple /\ Elems(E.names) = Names(D) /\ Len(E.names) = Cardinality(D)
          /\ Len(E.got) = Cardinality(D) /\ \A d \in D : \E i \in 1..Len(E.got) : Shows(E.got[i], d)
          \* lines of the left that go, of the right that come, and no others; a
          \* difference within a value is shown inside of it
          /\ Elems(E.minus) \subseteq Names(D) /\ (~E.lines => Elems(E.inside) \subseteq Names(D)) /\ Elems(E.plus) \subseteq Names(D)
          /\ \A d \in D : IF d.kind = "added" THEN d.name \in Elems(E.plus) \/ \E i \in 1..Len(E.got) : E.got[i].name = d.name /\ E.got[i].kind = "changed"
                          ELSE IF d.kind = "deleted" THEN d.name \in Elems(E.minus)
                          ELSE (d.name \in Elems(E.minus) /\ d.name \in Elems(E.plus)) \/ d.name \in Elems(E.inside)
          /\ E.colors
  /\ E.other = ""
TBegin == Is("begin")
TDiff == Is("diff") /\ E.res = "ok" /\ E.after /\ Says(Deltas(E.c, E.l, E.r))
TJson == Is("json") /\ IF E.bad THEN E.res = "err" ELSE E.res = "ok" /\ Says(DiffOf(E.l, E.r))
\* a map of differences, of which the first is summarized
TDocs == /\ Is("docs") /\ E.res = "ok" /\ E.after
         /\ LET m == Modified(E.l, E.r)
            IN /\ Elems(E.modified) = Elems(m)
               /\ Elems(E.keys) \subseteq DOMAIN E.l \cup DOMAIN E.r
               /\ \A s \in {E.simple, E.list} :
                    s = IF m = <<>> THEN [kind |-> "", n |-> 0, plural |-> FALSE]
                        ELSE LET n == Cardinality(Deltas(m[1], Comp(E.l, m[1]), Comp(E.r, m[1]))) IN [kind |-> m[1], n |-> n, plural |-> n > 1]
               /\ E.other = ""
Next == TBegin \/ TDiff \/ TJson \/ TDocs
Spec == Init /\ [][Next]_vars
==========================================================================
