----------------------------- MODULE StatsTrace ---------------------------
(* Conformance of recorded statistics.                                      *)
EXTENDS Stats, TraceBase
VARIABLES body
vars == <<body, l>>
None == [fault |-> FALSE, vals |-> <<>>]
Init == body = None /\ l = 1
TBegin == Is("begin") /\ body' = None
TBody == Is("body") /\ body' = [fault |-> E.fault, vals |-> E.vals]

\* a list of frequencies, <<key, count>>: exact up to Exact values. Keys of
\* more than forty bytes are cut and told apart by their place in the order of
\* frequencies
Exact == 200
Ranks(c, counts) == {i \in 0..(Len(counts) - 1) : /\ i >= Cardinality({j \in 1..Len(counts) : counts[j] > c})
                                                  /\ i < Cardinality({j \in 1..Len(counts) : counts[j] >= c})}
KeysFor(v, c, counts) ==
  IF v.len <= 40 THEN {v.s}
  ELSE {v.h \o "... " \o ToString(v.len) \o " chars (" \o ToString(i) \o ")" : i \in Ranks(c, counts)}
Freqs(fs, q) ==
  LET strs == Strs(q)
      ds == SetToSeq(Distinct(strs))
      first == [i \in 1..Len(ds) |-> q[CHOOSE j \in 1..Len(q) : strs[j] = ds[i]]]
      counts == [i \in 1..Len(ds) |-> Times(ds[i], strs)]
  IN IF Len(ds) <= Exact
     THEN /\ Len(fs) = Len(ds)
          /\ Cardinality({fs[i][1] : i \in 1..Len(fs)}) = Len(fs)
          /\ \A i \in 1..Len(ds) : \E j \in 1..Len(fs) : fs[j][1] \in KeysFor(first[i], counts[i], counts) /\ fs[j][2] = counts[i]
     ELSE /\ Len(fs) <= Exact
          /\ \A i \in 1..Len(fs) : fs[i][2] <= Len(q)

\* numbers are recorded times a thousand
K == 1000
Histogram(g, q) ==
  LET d == SetToSortSeq(Distinct(q), LAMBDA a, b : a < b)
      n == Len(g.freqs)
  IN /\ Len(g.bins) = n + 1 /\ n <= 32
     /\ SumOf(g.freqs) = Len(q)
     /\ \A i \in 1..n : g.bins[i] <= g.bins[i + 1] /\ g.freqs[i] > 0
     /\ g.bins[1] >= LowOf(q) * K /\ g.bins[n + 1] = (HighOf(q) + 2) * K
     /\ (Len(d) <= 32 => /\ n = Len(d)
                         /\ \A i \in 1..n : g.bins[i] = d[i] * K /\ g.freqs[i] = Times(d[i], q)
                         /\ g.median = Median(q) * K)
     /\ g.median >= LowOf(q) * K /\ g.median <= HighOf(q) * K

RECURSIVE Shows(_, _)
Shows(g, d) ==
  /\ g.t = d.t
  /\ CASE d.t = "numeric" -> /\ g.count = d.count /\ g.min = d.min * K /\ g.max = d.max * K
                             /\ Near(g.mean * d.count, d.sum * K, d.count)
                             /\ Histogram(g, d.vals)
       [] d.t = "string"  -> /\ g.count = d.count /\ g.minlen = d.minlen /\ g.maxlen = d.maxlen
                             /\ Near(g.unique, Cardinality(Distinct(Strs(d.vals))), 1 + Len(d.vals) \div 50)
                             /\ Freqs(g.fs, d.vals)
       [] d.t = "boolean" -> g.count = d.count /\ g.true = d.true /\ g.false = d.false
       [] d.t = "null"    -> g.count = d.count
       [] d.t = "array"   -> Len(g.kids) = Len(d.kids) /\ \A i \in 1..Len(d.kids) : Shows(g.kids[i], d.kids[i])
       [] OTHER           -> /\ Len(g.kids) = Len(d.kids) /\ Len(g.keys) = Len(d.keys)
                             /\ \A i \in 1..Len(d.keys) : \E j \in 1..Len(g.keys) : g.keys[j] = d.keys[i] /\ Shows(g.kids[j], d.kids[i])

\* the statistics of a body: one for each column when entries are rows or
\* objects (E.order has the names in the order of their bytes), one otherwise
TStats ==
  /\ Is("stats") /\ UNCHANGED body
  /\ IF body.fault THEN E.res = "err" /\ E.none
     ELSE IF body.vals = <<>> THEN E.res = "ok" /\ E.kids = <<>>
     ELSE /\ E.res = "ok" /\ ~E.none /\ E.qri = "sa:0"
          /\ LET d == Describe(body.vals)
             IN CASE d.t = "array" -> Shows([t |-> "array", kids |-> E.kids], d)
                  [] d.t = "object" -> Shows([t |-> "object", kids |-> E.kids, keys |-> E.keys], d) /\ E.keys = E.order
                  [] OTHER -> Len(E.kids) = 1 /\ Shows(E.kids[1], d)
\* without a body, or without a structure, there is no way to calculate
TRefuse == Is("refuse") /\ E.res = "err" /\ E.none /\ UNCHANGED body
Next == TBegin \/ TBody \/ TStats \/ TRefuse
Spec == Init /\ [][Next]_vars
===========================================================================
