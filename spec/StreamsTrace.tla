---------------------------- MODULE StreamsTrace --------------------------
(* Conformance of what readers of feeds, windows and byte streams were      *)
(* given. Calls and returns are in the order in which they happened.        *)
EXTENDS Streams, TraceBase
VARIABLES f, st
vars == <<f, st, l>>
Init == f = Feed(0, TRUE) /\ st = Stream(<<>>, "eof") /\ l = 1
TBegin == Is("begin") /\ f' = Feed(0, TRUE) /\ st' = Stream(<<>>, "eof")
\* ---- feeds
TFeed == Is("feed") /\ E.res = "ok" /\ f' = Feed(E.n, E.ord) /\ UNCHANGED st
TCall == Is("call") /\ f' = (IF E.kind = "r" THEN CallRead(f, E.op) ELSE CallClose(f)) /\ UNCHANGED st
TRet == /\ Is("ret") /\ UNCHANGED st
        /\ IF E.kind = "c" THEN E.res = "ok" /\ f' = RetClose(f)
           ELSE IF E.res = "eof" THEN f' = GiveEnd(f, E.op)
           ELSE E.res = "ok" /\ E.same /\ MayGive(f, E.op, E.i) /\ f' = Give(f, E.op, E.i)
        /\ Sound(f')
\* goroutines of the feed that are left after all of it was taken
TLeft == Is("left") /\ f.pend = {} /\ (AllGone(f) => E.n = 0) /\ UNCHANGED <<f, st>>
TNoFeed == Is("nofeed") /\ E.res = "err" /\ UNCHANGED <<f, st>>
\* ---- windows
Count(n) == [i \in 1..n |-> i]
TPipe == /\ Is("pipe") /\ UNCHANGED f
         /\ st' = Windows(Stream(Count(E.n), E.end), E.ws)
         /\ E.structure /\ E.closes = 1 /\ E.closed = E.closing
\* after an error nothing is stated
TReads == Is("reads") /\ UNCHANGED <<f, st>> /\ Len(E.got) > Len(st.l)
          /\ LET n == IF st.end = "err" THEN Len(st.l) + 1 ELSE Len(E.got)
             IN SubSeq(E.got, 1, n) = Results(st, n)
\* a window on a source that fails now and then, read on
TRetry == Is("retry") /\ UNCHANGED <<f, st>> /\ E.got = Windows(Stream(Count(E.n), "eof"), <<[off |-> E.off, lim |-> E.n + 1]>>).l
Ended == IF st.end = "eof" THEN "ok" ELSE "err"
TEach == /\ Is("each") /\ UNCHANGED <<f, st>>
         /\ E.got = SubSeq(st.l, 1, Upto(st, E.stop)) /\ E.nums = [i \in 1..Len(E.got) |-> i - 1]
         /\ E.res = IF Refused(st, E.stop) THEN E.how ELSE Ended
TCopy == /\ Is("copy") /\ UNCHANGED <<f, st>>
         /\ E.got = (IF Refused(st, E.stop) THEN SubSeq(st.l, 1, E.stop - 1) ELSE st.l)
         /\ E.res = (IF Refused(st, E.stop) THEN "err" ELSE Ended)
         /\ E.closes = 0
TAll == /\ Is("all") /\ UNCHANGED <<f, st>>
        /\ IF E.tlt \notin {"array", "object"} THEN E.res = "err" /\ E.reads = 0
           ELSE E.res = Ended /\ (E.res = "ok" => E.got = st.l /\ E.type = E.tlt) /\ (E.res = "err" => E.got = <<>> /\ E.type = "nothing")
\* ---- bytes
TLines == /\ Is("lines") /\ UNCHANGED <<f, st>> /\ E.fits
          /\ IF E.end = "eof" THEN E.res = "eof" /\ E.got = Lines(E.text)
             ELSE E.res = "err" /\ E.got \in LinesFailed(E.text)
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
TTracked == /\ Is("tracked") /\ UNCHANGED <<f, st>> /\ E.same /\ Len(E.counts) = Len(E.ns)
            /\ \A i \in 1..Len(E.ns) : E.counts[i] = SumTo(E.ns, i)
            /\ E.closes = (IF E.closer THEN 1 ELSE 0) /\ E.closed = (IF E.closer THEN E.closing ELSE "ok")
Compressions == {"gzip", "gz", "zst", "zstd"}
TComp == /\ Is("comp") /\ UNCHANGED <<f, st>>
         /\ IF E.name \notin Compressions THEN E.open = "err" /\ E.unopen = "err"
            ELSE /\ E.open = "ok"
                 \* a writer that fails is reported at some point
                 /\ E.wres = (IF E.wfault THEN "err" ELSE "ok")
                 /\ ~E.wfault /\ E.cut = "no" => E.rres = "eof" /\ E.same
                 /\ E.cut # "no" => E.rres = "err" /\ E.prefix
                 /\ E.kept /\ E.closes = 0
\* ---- readers, writers and buffers by format
TOpen == /\ Is("open") /\ UNCHANGED <<f, st>>
         /\ LET known == E.fmt \in {"json", "csv", "cbor", "ndjson"} /\ E.tlt \in {"array", "object"} /\ (E.fmt \in {"csv", "ndjson"} => E.tlt = "array")
            IN \A r \in {E.reader, E.writer, E.buffer} : r = (IF known THEN "same" ELSE "err")
Next == TBegin \/ TFeed \/ TCall \/ TRet \/ TLeft \/ TNoFeed \/ TPipe \/ TReads \/ TRetry \/ TEach \/ TCopy \/ TAll \/ TLines \/ TTracked \/ TComp \/ TOpen
Spec == Init /\ [][Next]_vars
===========================================================================
