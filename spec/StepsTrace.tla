---------------------------- MODULE StepsTrace ---------------------------
(* Conformance of recorded reads and writes of step files.                  *)
EXTENDS Steps, TraceBase, FiniteSets
vars == l
Init == l = 1
TBegin == Is("begin")
TRead == Is("read") /\ IF E.fails THEN E.res = "err" /\ E.steps = <<>> ELSE E.res = "ok" /\ E.steps = Split(E.text) /\ E.plain
Elems(s) == {s[i] : i \in 1..Len(s)}
TWrite == /\ Is("write") /\ E.res \in {"ok", "err"}
          /\ LET o == Outcome(E.ss, E.room, 0) IN
             /\ E.out = o.out /\ (E.res = "ok") = o.ok
             /\ Elems(E.closed) = Closed(E.ss, o.seen) /\ Len(E.closed) = Cardinality(Elems(E.closed))
             /\ \A i \in Elems(E.touched) : i <= o.seen
          /\ E.after
TMissing == Is("missing") /\ E.res = "err"
Next == TBegin \/ TRead \/ TWrite \/ TMissing
Spec == Init /\ [][Next]_vars
==========================================================================
