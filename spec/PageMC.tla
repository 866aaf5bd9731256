------------------------------- MODULE PageMC -----------------------------
(* A window on a reader, as a state machine: entries are skipped, then      *)
(* passed on until the limit is reached or the source ends.                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Max
VARIABLES n, limit, offset, lim, off, src, got, st
vars == <<n, limit, offset, lim, off, src, got, st>>
Init == /\ n \in 0..Max /\ limit \in 0..Max + 1 /\ offset \in 0..Max + 1
        /\ lim = limit /\ off = offset /\ src = 0 /\ got = <<>> /\ st = "reading"
const == UNCHANGED <<n, limit, offset>>
Skip == st = "reading" /\ off > 0 /\ const
        /\ IF src < n THEN src' = src + 1 /\ off' = off - 1 /\ UNCHANGED <<lim, got, st>>
           ELSE st' = "eof" /\ UNCHANGED <<src, off, lim, got>>
Stop == st = "reading" /\ off = 0 /\ lim = 0 /\ st' = "eof" /\ const /\ UNCHANGED <<lim, off, src, got>>
Pass == st = "reading" /\ off = 0 /\ lim > 0 /\ const
        /\ lim' = lim - 1 /\ UNCHANGED off
        /\ IF src < n THEN src' = src + 1 /\ got' = Append(got, src + 1) /\ UNCHANGED st
           ELSE st' = "eof" /\ UNCHANGED <<src, got>>
Next == Skip \/ Stop \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
cfg == [fmt |-> "json", tlt |-> "array", comp |-> "", types |-> <<>>]
doc == <<>>
wst == "closed"
full == TRUE
B == INSTANCE Body
Exact == st = "eof" => LET w == B!Window(n, limit, offset) IN
           Len(got) = w[2] /\ \A i \in 1..w[2] : got[i] = w[1] + i
Ends == <>(st = "eof")
Scenario == (st = "eof") => PrintT("SCN " \o ToJson([n |-> n, limit |-> limit, offset |-> offset]))
===========================================================================
