----------------------------- MODULE DiffOrderMC -------------------------
(* Which component is summarized, whichever differ and in how many names.   *)
EXTENDS Diff, Json
VARIABLES k
vars == <<k>>
Comps == {"structure", "transform", "meta", "viz"}
Names(c) == CASE c = "structure" -> <<"checksum", "compression", "encoding">> [] c = "meta" -> <<"title", "description", "homeURL">>
              [] c = "transform" -> <<"text", "syntax", "syntaxVersion">> [] c = "viz" -> <<"format", "text", "scriptPath">>
Init == k \in [Comps -> 0..3]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Left == [c \in Comps |-> [qri |-> "x"]]
Right_ == [c \in Comps |-> [n \in {"qri"} \cup {Names(c)[i] : i \in 1..k[c]} |-> "x"]]
Laws ==
  LET m == Modified(Left, Right_) IN
  /\ \A c \in Comps : (k[c] > 0) = \E i \in 1..Len(m) : m[i] = c
  /\ \A i, j \in 1..Len(m) : i < j => \E a, b \in 1..4 : a < b /\ Order[a] = m[i] /\ Order[b] = m[j]
  /\ m = Modified(Right_, Left)
  /\ \A c \in Comps : Cardinality(Deltas(c, Left[c], Right_[c])) = k[c]
Emit == PrintT("SCN " \o ToJson([order |-> k]))
==========================================================================
