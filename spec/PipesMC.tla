------------------------------ MODULE PipesMC -----------------------------
(* Windows of windows of all short streams, and line ends of all short      *)
(* texts. Each is a scenario.                                               *)
EXTENDS Streams, TLC, Json
CONSTANTS MaxN, MaxText
VARIABLES k, n, end, ws, stop, text
vars == <<k, n, end, ws, stop, text>>
W == [off : 0..MaxN, lim : 0..MaxN]
Texts == UNION {[1..i -> {97, 10, 13}] : i \in 0..MaxText}
Init == \/ /\ k = "pipe" /\ n \in 0..MaxN /\ end \in {"eof", "err"} /\ stop \in 0..MaxN
           /\ ws \in {<<>>} \cup {<<w>> : w \in W} \cup {<<w, v>> : w \in W, v \in {x \in W : x.off < MaxN}} /\ text = <<>>
        \/ k = "lines" /\ n = 0 /\ end \in {"eof", "err"} /\ ws = <<>> /\ stop = 0 /\ text \in Texts
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
St == Stream([i \in 1..n |-> i], end)
R == Windows(St, ws)
Min(a, b) == IF a < b THEN a ELSE b
WindowLaws ==
  k = "pipe" =>
  /\ \A i \in 1..Len(R.l) : i > 1 => R.l[i] = R.l[i - 1] + 1
  /\ R.end = "err" => end = "err"
  /\ \A i \in 1..Len(ws) : Len(R.l) <= ws[i].lim
  /\ Len(ws) = 2 /\ ws[2].off <= ws[1].lim =>
       R.l = Window(St, [off |-> ws[1].off + ws[2].off, lim |-> Min(ws[2].lim, ws[1].lim - ws[2].off)]).l
  \* a stream that fails is never cut short without saying so
  /\ R.end = "eof" => end = "eof" \/ \E i \in 1..Len(ws) : ws[i].lim <= Len(R.l) + (IF i < Len(ws) THEN ws[2].off ELSE 0)
LineLaws ==
  k = "lines" =>
  /\ Lines(Lines(text)) = Lines(text)
  /\ SelectSeq(Lines(text), LAMBDA c : c # 10) = SelectSeq(text, LAMBDA c : c # 10)
  /\ \A i \in 1..Len(Lines(text)) : Lines(text)[i] = 13 => i < Len(Lines(text)) /\ Lines(text)[i + 1] = 10
  /\ Len(Lines(text)) = Len(text) + Cardinality({i \in 1..Len(text) : text[i] = 13 /\ (i = Len(text) \/ text[i + 1] # 10)})
Emit == PrintT("SCN " \o ToJson(IF k = "pipe" THEN [k |-> k, n |-> n, end |-> end, ws |-> ws, stop |-> stop]
                                ELSE [k |-> k, end |-> end, text |-> text]))
===========================================================================
