---------------------------- MODULE StepsWriteMC -------------------------
(* Writing scripts a character at a time to a file that may fail, with      *)
(* scripts that may fail: what is written then is what Outcome says. Each   *)
(* beginning is a scenario.                                                 *)
EXTENDS Steps, Integers, FiniteSets, TLC, Json
CONSTANT MaxScripts
VARIABLES ss, room, i, j, out, closed, res
vars == <<ss, room, i, j, out, closed, res>>
Texts == {<<>>, <<"a">>, <<"\n", "-">>}
Script == [kind : {"string", "bytes"}, text : Texts, fail : {-1}]
     \cup {s \in [kind : {"reader", "closer"}, text : Texts, fail : {-1, 0, 1}] : s.fail <= Len(s.text)}
     \cup {[kind |-> "bad", text |-> <<>>, fail |-> -1]}
\* i is the script being written, j how far, counting the separator behind it
Init == /\ ss \in UNION {[1..k -> Script] : k \in 0..MaxScripts} /\ room \in {-1} \cup 0..8
        /\ i = 1 /\ j = 0 /\ out = <<>> /\ closed = {} /\ res = "none"
Sc == ss[i]
Wanted == Gives(Sc) \o (IF Good(Sc) /\ i < Len(ss) THEN Separator ELSE <<>>)
Rest == SubSeq(Wanted, j + 1, Len(Wanted))
Running == res = "none" /\ i <= Len(ss)
InScript == j < Len(Gives(Sc))
Close == closed' = IF Sc.kind = "closer" THEN closed \cup {i} ELSE closed
Put == /\ Running /\ Rest # <<>>
       /\ IF room = 0 THEN res' = "err" /\ Close /\ UNCHANGED <<out, room, j>>
          ELSE out' = Append(out, Rest[1]) /\ room' = (IF room < 0 THEN room ELSE room - 1) /\ j' = j + 1
               /\ (IF InScript THEN UNCHANGED closed ELSE Close) /\ UNCHANGED res
       /\ UNCHANGED <<ss, i>>
Break == Running /\ Rest = <<>> /\ ~Good(Sc) /\ res' = "err" /\ Close /\ UNCHANGED <<ss, room, i, j, out>>
Step == Running /\ Rest = <<>> /\ Good(Sc) /\ i' = i + 1 /\ j' = 0 /\ Close /\ UNCHANGED <<ss, room, out, res>>
Done == res = "none" /\ i > Len(ss) /\ res' = "ok" /\ UNCHANGED <<ss, room, i, j, out, closed>>
Next == Put \/ Break \/ Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(res # "none")
\* room the file had in the beginning
Room == IF room < 0 THEN room ELSE room + Len(out)
Whole == Join([k \in 1..Len(ss) |-> ss[k].text])
Laws ==
  LET o == Outcome(ss, Room, 0) IN
  /\ Len(out) <= Len(o.out) /\ out = SubSeq(o.out, 1, Len(out))
  /\ res # "none" => out = o.out /\ (res = "ok") = o.ok /\ closed = Closed(ss, o.seen)
  /\ out = SubSeq(Whole, 1, Len(out))
  /\ res = "ok" => out = Whole
Emit == (i = 1 /\ j = 0 /\ res = "none" /\ out = <<>>) => PrintT("SCN " \o ToJson([ss |-> ss, room |-> room]))
==========================================================================
