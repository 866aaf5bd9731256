------------------------------- MODULE Steps -----------------------------
(* Step files: scripts of steps, separated by lines of three dashes. A text *)
(* is a sequence of characters.                                             *)
EXTENDS Naturals, Sequences
Separator == <<"\n", "-", "-", "-", "\n">>
At(t, s, i) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
\* where the first separator is, 0 if there is none
FirstSep(t) == LET P == {i \in 1..Len(t) : t[i] = "\n" /\ At(t, Separator, i)} IN
               IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
RECURSIVE Split(_)
Split(t) == LET i == FirstSep(t) IN IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + Len(Separator), Len(t)))
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o Separator \o Join(Tail(ss))
\* scripts that can be told apart once they are in a file
EndsLike(t) == Len(t) >= 4 /\ SubSeq(t, Len(t) - 3, Len(t)) = <<"\n", "-", "-", "-">>
Sound(ss) == ss # <<>> /\ \A i \in 1..Len(ss) : FirstSep(ss[i]) = 0 /\ (i < Len(ss) => ~EndsLike(ss[i]))

\* Writing scripts [kind, text, fail] (a text, bytes, a reader, a reader that is
\* closed, or something else; it may fail after some characters, -1 if not) to a
\* file that takes room characters (-1: any). What is written, whether it
\* succeeds, how many of the scripts are looked at
Good(s) == s.kind # "bad" /\ s.fail < 0
Gives(s) == IF s.kind = "bad" THEN <<>> ELSE IF s.fail >= 0 THEN SubSeq(s.text, 1, s.fail) ELSE s.text
RECURSIVE Outcome(_, _, _)
Outcome(ss, room, n) ==
  IF n = Len(ss) THEN [out |-> <<>>, ok |-> TRUE, seen |-> n]
  ELSE LET s == ss[n + 1]
           more == n + 1 < Len(ss)
           t == Gives(s) \o (IF Good(s) /\ more THEN Separator ELSE <<>>)
       IN IF room >= 0 /\ Len(t) > room THEN [out |-> SubSeq(t, 1, room), ok |-> FALSE, seen |-> n + 1]
          ELSE IF ~Good(s) THEN [out |-> t, ok |-> FALSE, seen |-> n + 1]
          ELSE LET r == Outcome(ss, IF room < 0 THEN room ELSE room - Len(t), n + 1)
               IN [r EXCEPT !.out = t \o r.out]
Closed(ss, seen) == {i \in 1..seen : ss[i].kind = "closer"}
==========================================================================
