------------------------------ MODULE DsgenMC -----------------------------
(* All short lists of arguments. Each is a scenario.                        *)
EXTENDS Dsgen, Json, IOUtils
CONSTANTS MaxArgs, Counts
VARIABLE args
Init == args = <<>>
Arg == [k : {"rows", "rows="}, n : Counts] \cup [k : {"bad"} \cup Kinds, n : {0}]
\* a second thing to make rows for means nothing
Fits(a) == a.k \in Kinds => \A i \in 1..Len(args) : args[i].k \notin Kinds
Next == \E a \in Arg : Fits(a) /\ Len(args) < MaxArgs /\ args' = Append(args, a)
Spec == Init /\ [][Next]_args
\* laws: a place among the others does not matter, but for the order of flags
Moved(i) == SubSeq(args, 1, i - 1) \o SubSeq(args, i + 1, Len(args)) \o <<args[i]>>
LastRows == {i \in 1..Len(args) : args[i].k \in {"rows", "rows="} /\ \A j \in (i + 1)..Len(args) : args[j].k \notin {"rows", "rows="}}
Laws ==
  LET s == Asked(args) IN
  /\ \A i \in 1..Len(args) : ~s.bad /\ args[i].k \in Kinds => Asked(Moved(i)) = s
  /\ s.bad = \E i \in 1..Len(args) : args[i].k = "bad"
  /\ ~s.bad => \A i \in LastRows : s.n = args[i].n
  /\ ~s.bad /\ LastRows = {} => s.n = Default
  /\ (\A i \in 1..Len(args) : args[i].k \notin Kinds) => ~Works(s)
Emit == PrintT("SCN " \o ToJson([args |-> args]))
===========================================================================
