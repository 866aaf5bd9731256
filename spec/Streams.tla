------------------------------ MODULE Streams -----------------------------
(* Streams of entries and bytes within a process: entries of a value handed *)
(* out to concurrent readers, windows of streams, and bytes on their way.   *)
EXTENDS Naturals, Sequences, FiniteSets

\* ---- a feed hands out n entries, each once. It is observed by calls and
\* returns only: f.s[i] says what is known of entry i: it is "in" there still,
\* "given", or "owed": it has been taken, by one of the reads in by, or, when
\* sw holds, thrown away by closing. Entries of an ordered feed leave in order.
Feed(n, ord) == [n |-> n, ord |-> ord, pend |-> {}, closing |-> 0,
                 s |-> [i \in 1..n |-> [st |-> "in", by |-> {}, sw |-> FALSE]]]
CallRead(f, o) == [f EXCEPT !.pend = @ \cup {o}]
CallClose(f) == [f EXCEPT !.closing = @ + 1]
\* entries of S still in have been taken by now, by other operations than o
Owe(f, S, o) == [f EXCEPT !.s = [i \in 1..f.n |-> IF i \in S /\ f.s[i].st = "in"
                   THEN [st |-> "owed", by |-> f.pend \ {o}, sw |-> f.closing > 0] ELSE f.s[i]]]
Ends(f, o) == [f EXCEPT !.pend = @ \ {o}, !.s = [i \in 1..f.n |-> [f.s[i] EXCEPT !.by = @ \ {o}]]]
\* no entry is lost
Sound(f) == \A i \in 1..f.n : f.s[i].st = "owed" => f.s[i].by # {} \/ f.s[i].sw
MayGive(f, o, i) == i \in 1..f.n /\ o \in f.pend /\ (f.s[i].st = "in" \/ (f.s[i].st = "owed" /\ o \in f.s[i].by))
Give(f, o, i) ==
  LET g == IF f.s[i].st = "in" /\ f.ord THEN Owe(f, 1..(i - 1), o) ELSE f
  IN Ends([g EXCEPT !.s[i].st = "given", !.s[i].by = {}], o)
GiveEnd(f, o) == Ends(Owe(f, 1..f.n, o), o)
RetClose(f) == [Owe(f, 1..f.n, 0) EXCEPT !.closing = @ - 1]
AllGone(f) == \A i \in 1..f.n : f.s[i].st # "in"

\* ---- a stream is a list and how it ends, "eof" or "err", over and over
Stream(l, end) == [l |-> l, end |-> end]
Window(st, w) ==
  IF w.off > Len(st.l) THEN Stream(<<>>, st.end)
  ELSE IF w.off + w.lim <= Len(st.l) THEN Stream(SubSeq(st.l, w.off + 1, w.off + w.lim), "eof")
  ELSE Stream(SubSeq(st.l, w.off + 1, Len(st.l)), st.end)
RECURSIVE Windows(_, _)
Windows(st, ws) == IF ws = <<>> THEN st ELSE Windows(Window(st, ws[1]), Tail(ws))
\* the first n results of reading
Results(st, n) == [i \in 1..n |-> IF i <= Len(st.l) THEN [res |-> "ok", e |-> st.l[i]] ELSE [res |-> st.end, e |-> 0]]
\* a consumer that refuses the k-th entry it's given; 0: none
Upto(st, k) == IF k > 0 /\ k <= Len(st.l) THEN k ELSE Len(st.l)
Refused(st, k) == k > 0 /\ k <= Len(st.l)

\* ---- line ends: each lone \r becomes \r\n
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>>
            ELSE IF s[1] = 13 /\ Len(s) > 1 /\ s[2] = 10 THEN <<13, 10>> \o Lines(SubSeq(s, 3, Len(s)))
            ELSE (IF s[1] = 13 THEN <<13, 10>> ELSE <<s[1]>>) \o Lines(Tail(s))
\* when the source fails, a \r at the end has not seen what follows
LinesFailed(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN {Lines(s), Lines(SubSeq(s, 1, Len(s) - 1)) \o <<13>>} ELSE {Lines(s)}
===========================================================================
