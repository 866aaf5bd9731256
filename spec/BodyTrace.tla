------------------------------ MODULE BodyTrace ---------------------------
(* Conformance of recorded runs of the dsio package to Body.                *)
EXTENDS Body, TraceBase
VARIABLE ref  \* a reading other readings are compared to
vars == <<bodyVars, l, ref>>

NoCfg == [fmt |-> "", tlt |-> "", comp |-> "", types |-> <<>>]
Init == cfg = NoCfg /\ doc = <<>> /\ wst = "none" /\ full = FALSE /\ l = 1 /\ ref = <<>>

TBegin == Is("begin") /\ Begin(E) /\ ref' = <<>>

TWrite == Is("write") /\ UNCHANGED ref
          /\ \/ E.res = "ok"  /\ Write(E.e)
             \/ E.res = "err" /\ Reject(E.e)
\* many accepted writes at once
TWrites == Is("writes") /\ UNCHANGED ref
          /\ wst = "open" /\ E.res = "ok"
          /\ doc' = doc \o E.es /\ UNCHANGED <<cfg, wst, full>>

TClose == Is("close") /\ E.res = "ok" /\ CloseW /\ UNCHANGED ref

\* writing the same entries again gives the same bytes, if all were accepted
TAgain == /\ Is("again") /\ UNCHANGED <<bodyVars, ref>> /\ wst = "closed"
          /\ E.res \in {"ok", "err"} /\ (E.res = "ok" => E.same)

\* a complete read
TRead == Is("read") /\ ReadComplete(E.es, E.res) /\ UNCHANGED <<bodyVars, ref>>

\* decoding what was written with other software gives the same document
IndepCells(w, r) ==
  IF cfg.fmt = "csv"
  THEN Len(w) = Len(r) /\ \A i \in 1..Len(w) : CellText(w[i], r[i])
  ELSE Cells(cfg, w, r)
TIndep == /\ Is("indep") /\ UNCHANGED <<bodyVars, ref>>
          /\ wst = "closed" /\ E.res = "eof" /\ Len(E.es) = Len(doc)
          /\ IF Unordered(cfg) THEN ReadsAll(cfg, doc, E.es)
             ELSE \A i \in 1..Len(doc) : E.es[i].key = doc[i].key /\ IndepCells(doc[i].v, E.es[i].v)

\* a body other software wrote: the document it stands for is given
TGiven == Is("given") /\ UNCHANGED ref /\ cfg' = cfg /\ doc' = E.es /\ wst' = "closed" /\ full' = TRUE

\* a body no standard allows, after the entries of the document: these are
\* given, and then an error
TMalformed == /\ Is("malformed") /\ UNCHANGED <<bodyVars, ref>> /\ wst = "closed"
              /\ E.res \in {"err", "openerr"}
              /\ Len(E.es) >= Len(doc) /\ ReadsFrom(cfg, doc, 0, SubSeq(E.es, 1, Len(doc)))
              /\ Len(E.es) = Len(doc) \/ (Len(E.es) = Len(doc) + 1 /\ CutValue(cfg, E.es[Len(E.es)]))

\* damage
TCut == Is("cut") /\ ReadTruncated(E.es, E.res) /\ UNCHANGED <<bodyVars, ref>>

\* windows
TPage == /\ Is("page") /\ UNCHANGED <<bodyVars, ref>> /\ wst = "closed"
         /\ E.res = "eof" /\ ReadsWindow(cfg, doc, E.limit, E.offset, E.es)
\* Conversion to another format, complete or an error. Entries are compared as
\* flat values; integers written as text in a typed column are integers again.
InClass(c)  == IF Tabular(c) THEN "exact" ELSE Class(c)
OutClass(c) == IF Tabular(c) THEN "json" ELSE Class(c)
ConvEntry(w, r) == r.key = w.key /\ ValueReads2(InClass(cfg), OutClass(E.out), w.v[1], r.v[1])
TConvert == /\ Is("convert") /\ UNCHANGED <<bodyVars, ref>> /\ wst = "closed"
            /\ IF E.fault
               THEN E.res = "err" /\ E.n = 0
               ELSE /\ E.res = "ok" /\ E.end = "eof"
                    /\ LET w == IF E.all THEN <<0, Len(doc)>> ELSE Window(Len(doc), E.limit, E.offset)
                           d == SubSeq(doc, w[1] + 1, w[1] + w[2])
                       IN /\ Len(E.es) = w[2]
                          /\ E.lines > 0 => IF E.pretty THEN w[2] > 0 => E.lines > w[2] ELSE E.lines = 1
                          /\ IF Unordered(E.out) \/ Unordered(cfg)
                             THEN LET K == ByKey(E.es) IN
                                  IF E.all THEN \A i \in 1..Len(d) : d[i].key \in DOMAIN K /\ ConvEntry(d[i], K[d[i].key])
                                  ELSE \A i \in 1..Len(E.es) : \E j \in 1..Len(doc) : ConvEntry(doc[j], E.es[i])
                             ELSE \A i \in 1..w[2] : E.es[i].idx = Index(E.out, i) /\ ConvEntry(d[i], E.es[i])

\* the way bytes are delivered does not matter
TRef == Is("ref") /\ ref' = <<E.es, E.res>> /\ UNCHANGED bodyVars
TSame == Is("same") /\ <<E.es, E.res>> = ref /\ UNCHANGED <<bodyVars, ref>>
         /\ E.res \in {"eof", "err", "openerr"}
\* a tracked reader counts the bytes it passes on
TTracked == Is("tracked") /\ E.count = E.passed /\ UNCHANGED <<bodyVars, ref>>

\* arbitrary bytes: reading ends, with or without an error, and gives no more
\* than the input can hold
TRaw == /\ Is("raw") /\ UNCHANGED <<bodyVars, ref>>
        /\ \A i \in 1..Len(E.rs) : /\ E.rs[i].res \in {"eof", "err", "openerr"}
                                   /\ E.rs[i].cnt <= E.rs[i].n + 1
                                   /\ E.rs[i].toks <= 2 * E.rs[i].n + 2

\* faults of the store underneath. A write fault that happened is reported by
\* the write, or by close; nothing is reported that didn't happen
TWFault == /\ Is("wfault") /\ UNCHANGED <<bodyVars, ref>>
           /\ \A i \in 1..Len(E.rs) : E.rs[i] \in {"ok", "err"}
           /\ E.fired <=> (\E i \in 1..Len(E.rs) : E.rs[i] = "err")
\* A read fault that happened is never a clean end of data. Self delimiting and
\* compressed formats may not come to see it, once all data is there.
TRFault == /\ Is("rfault") /\ UNCHANGED <<bodyVars, ref>> /\ wst = "closed"
           /\ IF ~E.fired THEN E.res \in {"eof", "ok"}
              ELSE \/ E.res \in {"err", "openerr"}
                   \/ /\ E.res \in {"eof", "ok"} /\ (cfg.comp # "" \/ SelfDelimiting(cfg))
                      /\ (E.at >= E.size \/ cfg.comp # "") /\ E.whole
           /\ (E.op = "read") => IF Unordered(cfg) THEN Received(E.es) \subseteq Expected(cfg, doc)
                                 ELSE Len(E.es) <= Len(doc) /\ ReadsFrom(cfg, doc, 0, E.es)

Next == \/ TBegin \/ TWrite \/ TWrites \/ TClose \/ TAgain \/ TRead \/ TIndep \/ TGiven \/ TMalformed \/ TCut \/ TPage
        \/ TConvert \/ TRef \/ TSame \/ TTracked \/ TRaw \/ TWFault \/ TRFault
Spec == Init /\ [][Next]_vars
===========================================================================
