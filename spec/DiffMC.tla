------------------------------- MODULE DiffMC ----------------------------
(* Laws of differences between all small components; each pair is a         *)
(* scenario.                                                                *)
EXTENDS Diff, Json
VARIABLES c, t, u
vars == <<c, t, u>>
Fn(S, R) == UNION {[T -> R] : T \in SUBSET S}
Fields(x) == CASE x = "structure" -> {"path", "checksum", "compression"} [] x = "meta" -> {"path", "description", "title", "qri"}
               [] x = "transform" -> {"path", "scriptPath", "text"} [] x = "viz" -> {"path", "scriptPath", "format"}
V == {"\"a\"", "\"b\""}
Extras == {<<>>, [k |-> "\"a\""], [k |-> "\"b\"", j |-> "\"a\""]}
Comps(x) == LET p == {f \in Fn(Fields(x), V) : ~Has(f, "qri") \/ f.qri = "\"a\""} IN
  IF x = "meta" THEN p \cup {[g \in DOMAIN f \cup {"meta"} |-> IF g = "meta" THEN m ELSE f[g]] : f \in {h \in p : ~Has(h, "qri")}, m \in Extras \ {<<>>}} ELSE p
Init == c \in {"structure", "meta", "transform", "viz"} /\ t \in Comps(c) /\ u \in Comps(c)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
D == Deltas(c, t, u)
Names(ds) == {d.name : d \in ds}
Turned(ds) == {[name |-> d.name, kind |-> IF d.kind = "added" THEN "deleted" ELSE IF d.kind = "deleted" THEN "added" ELSE "changed", old |-> d.new, new |-> d.old] : d \in ds}
Laws ==
  /\ Deltas(c, t, t) = {}
  /\ \A d, e \in D : d.name = e.name => d = e
  \* the other way round, deltas are turned around
  /\ Deltas(c, u, t) = Turned(D)
  /\ ~Skipped(c, t, u) => Patched(Compared(c, t), D) = Compared(c, Right(c, t, u))
  \* nothing that matters is overlooked
  /\ D = {} /\ ~SamePlace(t, u) =>
       \/ Compared(c, t) = Compared(c, u)
       \/ c = "transform" /\ Without(t, {"scriptPath"}) = Without(u, {"scriptPath"}) /\ Has(t, "scriptPath") /\ Has(u, "scriptPath")
       \/ c = "meta" /\ EmptyComp(t) /\ EmptyComp(u)
Emit == PrintT("SCN " \o ToJson([c |-> c, t |-> t, u |-> u]))
==========================================================================
