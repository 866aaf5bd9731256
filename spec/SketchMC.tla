----------------------------- MODULE SketchMC -----------------------------
(* Design of the sketch: nothing that is added gets lost, the sketch stays  *)
(* small and in order, and is exact as long as it can be. All sequences of  *)
(* up to MaxLen numbers of Vals are scenarios.                              *)
EXTENDS Sketch, TLC, Json
CONSTANTS N, Vals, MaxLen
VARIABLES cs, added
vars == <<cs, added>>
Init == cs = <<>> /\ added = <<>>
Next == Len(added) < MaxLen /\ \E v \in Vals : cs' \in Adding(N, cs, One(v, 1)) /\ added' = Append(added, v)
Spec == Init /\ [][Next]_vars
Distinct == {added[i] : i \in 1..Len(added)}
Small == Len(cs) <= N
Ordered == \A i \in 1..(Len(cs) - 1) : ~Lt(cs[i + 1], cs[i])
Nothing == SumOf(Weights(cs)) = Len(added) /\ SumOf(Sums(cs)) = SumOf(added)
Precise == Cardinality(Distinct) <= N =>
             /\ Known(cs) /\ Len(cs) = Cardinality(Distinct)
             /\ \A v \in Distinct : \E i \in 1..Len(cs) : cs[i] = One(v, Cardinality({j \in 1..Len(added) : added[j] = v}))
Shares == Known(cs) /\ cs # <<>> => \A t \in {0, 25, 50, 75, 100} : Share(cs, t) \in Distinct
Rising == Known(cs) /\ cs # <<>> => \A t, u \in {0, 10, 25, 50, 75, 100} : t <= u => Share(cs, t) <= Share(cs, u)
Emit == PrintT("SCN " \o ToJson([n |-> N, added |-> added]))
\* the best split is at least as good as that of a sketch
Split == Len(added) >= Len(cs) /\ cs # <<>> => \E b \in Splits(Len(added), Len(cs)) : Best(Sorted(added), b) /\ Cost(Sorted(added), b) >= 0
===========================================================================
