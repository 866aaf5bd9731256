------------------------------- MODULE StepsMC ---------------------------
(* Laws of step files, for all small texts and lists of scripts; each is a  *)
(* scenario.                                                                *)
EXTENDS Steps, FiniteSets, TLC, Json
CONSTANTS MaxText, MaxScript, MaxScripts
VARIABLES text, scripts
vars == <<text, scripts>>
Chars == {"\n", "-", "a"}
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
\* scripts that matter: dashes and line ends at their borders
Borders == {<<>>, <<"\n">>, <<"-", "-", "-">>, <<"\n", "-", "-", "-">>, <<"-", "-", "-", "\n">>, <<"-", "\n">>, Separator, Separator \o <<"-", "-", "-", "\n">>}
Pool == Texts(MaxScript) \cup Borders
Init == \/ text \in Texts(MaxText) /\ scripts = <<>>
        \/ text = <<>> /\ scripts \in UNION {[1..k -> Pool] : k \in 1..MaxScripts}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws ==
  \* reading loses nothing, and steps read can be told apart
  /\ Join(Split(text)) = text
  /\ Sound(Split(text))
  \* steps come back from a file exactly when they can be told apart
  /\ scripts # <<>> => ((Split(Join(scripts)) = scripts) = Sound(scripts))
  /\ scripts # <<>> => Len(Join(scripts)) >= 5 * (Len(scripts) - 1)
Emit == PrintT("SCN " \o ToJson([text |-> text, scripts |-> scripts]))
==========================================================================
