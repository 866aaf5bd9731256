------------------------------ MODULE ViewsMC -----------------------------
(* Design: a view reads some of a file, which may fail, keeps what it read, *)
(* and puts the file back as what was read followed by the rest. Checked    *)
(* for all files and all series of views up to MaxOps. All series with all  *)
(* sizes around the limit of a preview are scenarios.                       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps, Size
VARIABLES ahead, rest, ops
vars == <<ahead, rest, ops>>
\* a file: pieces put back, then the rest of the source. Its end is a fault or not
Whole == [i \in 1..Size |-> i]
Init == ahead = <<>> /\ rest = Whole /\ ops = <<>>
Take(n) == LET a == IF n <= Len(ahead) THEN n ELSE Len(ahead)
               b == IF n <= Len(ahead) THEN 0 ELSE n - Len(ahead)
           IN <<SubSeq(ahead, 1, a) \o SubSeq(rest, 1, b), SubSeq(ahead, a + 1, Len(ahead)), SubSeq(rest, b + 1, Len(rest))>>
View(name) == /\ Len(ops) < MaxOps /\ ops' = Append(ops, name)
              /\ \E n \in 0..Size : LET t == Take(n) IN ahead' = t[1] \o t[2] /\ rest' = t[3]
Next == View("preview") \/ View("window") \/ View("all") \/ View("broken")
Spec == Init /\ [][Next]_vars
Intact == ahead \o rest = Whole
Emit == (ahead = <<>>) => \A n \in {0, 1, 2, 99, 100, 101, 130} : PrintT("SCN " \o ToJson([ops |-> ops, n |-> n]))
===========================================================================
