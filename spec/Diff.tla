-------------------------------- MODULE Diff -----------------------------
(* How two versions of a component differ. A difference is a set of deltas  *)
(* [name, kind, old, new] of the names they have in JSON.                   *)
EXTENDS Doc

\* what is compared: everything a component says but where a script is kept,
\* as long as both keep one
Flat(c, f) == IF c = "meta" /\ Has(f, "meta") THEN Without(f, {"meta"}) @@ f.meta ELSE f
Compared(c, t) == Flat(c, Set(Encoded(c, t)))
Right(c, t, u) == IF c = "transform" /\ Has(t, "scriptPath") /\ Has(u, "scriptPath") THEN [u EXCEPT !.scriptPath = t.scriptPath] ELSE u
\* components in the same place are the same, and so is metadata without content
SamePlace(t, u) == Has(t, "path") /\ Has(u, "path") /\ t.path = u.path
BothPlaced(t, u) == Has(t, "path") /\ Has(u, "path")
Skipped(c, t, u) == \/ c # "structure" /\ SamePlace(t, u)
                    \/ c = "meta" /\ ~BothPlaced(t, u) /\ EmptyComp(t) /\ EmptyComp(u)
Delta(n, f, g) ==
  IF ~Has(g, n) THEN [name |-> n, kind |-> "deleted", old |-> f[n], new |-> "none"]
  ELSE IF ~Has(f, n) THEN [name |-> n, kind |-> "added", old |-> "none", new |-> g[n]]
  ELSE [name |-> n, kind |-> "changed", old |-> f[n], new |-> g[n]]
Same(n, f, g) == Has(f, n) /\ Has(g, n) /\ f[n] = g[n]
DiffOf(f, g) == {Delta(n, f, g) : n \in {m \in DOMAIN f \cup DOMAIN g : ~Same(m, f, g)}}
Deltas(c, t, u) == IF Skipped(c, t, u) THEN {} ELSE DiffOf(Compared(c, t), Compared(c, Right(c, t, u)))
\* taking the deltas to the left gives the right
Patched(f, ds) == [n \in (DOMAIN f \cup {d.name : d \in ds}) \ {d.name : d \in {e \in ds : e.kind = "deleted"}} |->
                     IF \E d \in ds : d.name = n THEN (CHOOSE d \in ds : d.name = n).new ELSE f[n]]
\* components are summarized one at a time, the first that differs
Order == <<"structure", "transform", "meta", "viz">>
Comp(d, c) == IF Has(d, c) THEN d[c] ELSE Nothing
Modified(d, e) == SelectSeq(Order, LAMBDA c : Deltas(c, Comp(d, c), Comp(e, c)) # {})
==========================================================================
