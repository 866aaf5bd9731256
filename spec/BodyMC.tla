------------------------------- MODULE BodyMC -----------------------------
(* A design that implements Body on a stream of symbols, as the JSON writer *)
(* and reader do: brackets around entries separated by commas. The store    *)
(* may fail while writing, the stored stream may be cut, and the reader may *)
(* fail to read it. Checked: it refines Body, nothing is lost silently, and *)
(* rejected entries leave no mark.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Vals, KeySet, Tlt
VARIABLES doc, out, wst, wfault, wrep, rdr, pos, got, rst, ops
vars == <<doc, out, wst, wfault, wrep, rdr, pos, got, rst, ops>>

Bad == "bad"
\* symbols of the stream; entries are pairs
LB == <<"[">>
RB == <<"]">>
CM == <<",">>
EOFSYM == <<"EOF">>
Keys == {doc[i][1] : i \in 1..Len(doc)}
Ok(k, v) == v # Bad /\ (Tlt = "object" => k # "" /\ k \notin Keys)

Init == /\ doc = <<>> /\ out = <<>> /\ wst = "open" /\ wfault = FALSE /\ wrep = FALSE
        /\ rdr = <<>> /\ pos = 0 /\ got = <<>> /\ rst = "none" /\ ops = <<>>

Kind(k, v) == IF v = Bad THEN "b" ELSE IF Tlt # "object" THEN "g"
              ELSE IF k = "" THEN "e" ELSE IF k \in Keys THEN "d" ELSE "g"

WriteOk == \E k \in KeySet, v \in Vals :
  /\ wst = "open" /\ Len(ops) < MaxOps /\ Ok(k, v)
  /\ doc' = Append(doc, <<k, v>>)
  /\ out' = out \o (IF doc = <<>> THEN <<LB>> ELSE <<CM>>) \o <<<<k, v>>>>
  /\ ops' = Append(ops, <<Kind(k, v), k>>)
  /\ UNCHANGED <<wst, wfault, wrep, rdr, pos, got, rst>>
\* the value is encoded before anything is written
WriteBad == \E k \in KeySet, v \in Vals \cup {Bad} :
  /\ wst = "open" /\ Len(ops) < MaxOps /\ ~Ok(k, v)
  /\ ops' = Append(ops, <<Kind(k, v), k>>)
  /\ UNCHANGED <<doc, out, wst, wfault, wrep, rdr, pos, got, rst>>
\* the store takes part of what is written, then fails; the writer reports it
WriteFault == \E k \in KeySet, v \in Vals : \E part \in 0..1 :
  /\ wst = "open" /\ Ok(k, v) /\ Len(ops) < MaxOps
  /\ out' = out \o SubSeq((IF doc = <<>> THEN <<LB>> ELSE <<CM>>) \o <<<<k, v>>>>, 1, part)
  /\ wfault' = TRUE /\ wrep' = TRUE /\ wst' = "failed"
  /\ UNCHANGED <<doc, rdr, pos, got, rst, ops>>
CloseOk == /\ wst = "open" /\ wst' = "closed"
           /\ out' = out \o (IF doc = <<>> THEN <<LB, RB>> ELSE <<RB>>)
           /\ UNCHANGED <<doc, wfault, wrep, rdr, pos, got, rst, ops>>
CloseFault == \E part \in 0..1 :
           /\ wst = "open" /\ wst' = "failed" /\ wfault' = TRUE /\ wrep' = TRUE
           /\ part < (IF doc = <<>> THEN 2 ELSE 1)
           /\ out' = out \o SubSeq(<<LB, RB>>, 1, part)
           /\ UNCHANGED <<doc, rdr, pos, got, rst, ops>>

\* the reader is given some part of what was stored
OpenR == /\ rst = "none" /\ wst # "open"
         /\ \E n \in 0..Len(out) : rdr' = SubSeq(out, 1, n)
         /\ rst' = "start" /\ UNCHANGED <<doc, out, wst, wfault, wrep, pos, got, ops>>
Sym == IF pos < Len(rdr) THEN rdr[pos + 1] ELSE EOFSYM
RStart == /\ rst = "start"
          /\ IF Sym = LB THEN rst' = "first" /\ pos' = pos + 1 ELSE rst' = "err" /\ UNCHANGED pos
          /\ UNCHANGED <<doc, out, wst, wfault, wrep, rdr, got, ops>>
RStep == /\ rst \in {"first", "more"}
         /\ IF Sym = RB THEN rst' = "eof" /\ pos' = pos + 1 /\ UNCHANGED got
            ELSE LET p == IF rst = "more" THEN pos + 1 ELSE pos IN
                 IF (rst = "more" => Sym = CM) /\ p < Len(rdr) /\ rdr[p + 1] \notin {LB, RB, CM}
                 THEN got' = Append(got, rdr[p + 1]) /\ pos' = p + 1 /\ rst' = "more"
                 ELSE rst' = "err" /\ UNCHANGED <<got, pos>>
         /\ UNCHANGED <<doc, out, wst, wfault, wrep, rdr, ops>>

Next == WriteOk \/ WriteBad \/ WriteFault \/ CloseOk \/ CloseFault \/ OpenR \/ RStart \/ RStep
Spec == Init /\ [][Next]_vars /\ WF_vars(RStart \/ RStep)

IsPre(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]
\* what a reader gave is a prefix of the document, and all of it when it says so
Prefix == IsPre(got, doc) \/ (wst = "failed" /\ Len(got) = Len(doc) + 1 /\ IsPre(doc, got))
Complete == rst = "eof" => got = doc /\ wst = "closed" /\ rdr = out
FaultReported == wfault => wrep
WellFormed == wst = "closed" =>
   /\ out[1] = LB /\ out[Len(out)] = RB
   /\ Len(out) = 2 * Len(doc) + 1 + (IF doc = <<>> THEN 1 ELSE 0)
Terminates == <>(rst \in {"none", "eof", "err"})

\* Body, with values that read as themselves
Entry(d) == [key |-> d[1], v |-> <<<<[k |-> "s", v |-> d[2], a |-> ""]>>>>, row |-> TRUE]
B == INSTANCE Body WITH cfg <- [fmt |-> "json", tlt |-> Tlt, comp |-> "", types |-> <<>>],
                        doc <- [i \in 1..Len(doc) |-> Entry(doc[i])],
                        wst <- wst, full <- TRUE
BNext == \/ \E k \in KeySet, v \in Vals : B!Write(Entry(<<k, v>>))
         \/ \E k \in KeySet, v \in Vals : B!Reject(Entry(<<k, v>>))
         \/ B!CloseW \/ B!WFail
Refines == [][BNext]_<<doc, wst>>
\* every reading of a complete body is one Body allows
ReadsOk == (rst = "eof" => B!ReadComplete([i \in 1..Len(got) |-> [Entry(got[i]) EXCEPT !.row = TRUE] @@ [idx |-> B!Index([fmt |-> "json", tlt |-> Tlt], i)]], "eof"))

\* scenarios for the implementation: all sequences of operations
Scenario == (wst = "closed" /\ rst = "none") => PrintT("SCN " \o ToJson([ops |-> ops]))
===========================================================================
