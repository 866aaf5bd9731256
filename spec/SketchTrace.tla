---------------------------- MODULE SketchTrace ---------------------------
(* Conformance of recorded histogram sketches. There are several sketches;  *)
(* each has N, its centroids, the least and greatest number added, and      *)
(* whether joined centroids of another were added.                          *)
EXTENDS Sketch, TraceBase
VARIABLES sk
vars == <<sk, l>>
Init == sk = <<>> /\ l = 1
TBegin == Is("begin") /\ sk' = <<>>
Blank(n) == [n |-> n, cs |-> <<>>, lo |-> <<>>, hi |-> <<>>, mixed |-> FALSE]
TNew == Is("new") /\ IF E.n < 1 THEN E.res = "panic" /\ UNCHANGED sk ELSE E.res = "ok" /\ sk' = Append(sk, Blank(E.n))
Low(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Min({a[1], b[1]})>>
High(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Max({a[1], b[1]})>>

\* E.bins are places times a thousand, E.freqs weights. What is read of a
\* sketch picks one of those that may have come about
K == 1000
Reads(cs) ==
  /\ Len(E.freqs) = Len(cs) /\ Len(E.bins) = Len(cs) + 1
  /\ \A i \in 1..Len(cs) : E.freqs[i] = cs[i][2] /\ E.bins[i] * cs[i][2] - cs[i][1] * K <= cs[i][2] /\ cs[i][1] * K - E.bins[i] * cs[i][2] <= cs[i][2]
Shown(s) == /\ Reads(s.cs)
            /\ E.count = SumOf(Weights(s.cs))
            /\ (s.cs # <<>> => E.min = s.lo[1] /\ E.max = s.hi[1] /\ E.bins[Len(s.cs) + 1] = (s.hi[1] + 1) * K)
TAdd == /\ Is("add")
        /\ \E cs \in Adding(sk[E.i].n, sk[E.i].cs, One(E.v, E.m)) :
             LET s == [sk[E.i] EXCEPT !.cs = cs, !.lo = Low(@, <<E.v>>), !.hi = High(@, <<E.v>>)]
             IN Shown(s) /\ sk' = [sk EXCEPT ![E.i] = s]
RECURSIVE AddAll(_, _, _)
AddAll(N, from, cs) == IF cs = <<>> THEN from ELSE AddAll(N, UNION {Adding(N, a, Head(cs)) : a \in from}, Tail(cs))
TMerge == /\ Is("merge")
          /\ \E cs \in AddAll(sk[E.i].n, {sk[E.i].cs}, sk[E.j].cs) :
               LET s == [sk[E.i] EXCEPT !.cs = cs, !.lo = Low(@, sk[E.j].lo), !.hi = High(@, sk[E.j].hi),
                                        !.mixed = @ \/ sk[E.j].mixed \/ ~Known(sk[E.j].cs)]
               IN Shown(s) /\ sk' = [sk EXCEPT ![E.i] = s]
\* a sketch made of the whole sample is the best there is
TSample ==
  /\ Is("sample")
  /\ IF E.n < 1 THEN E.res = "panic" /\ UNCHANGED sk
     ELSE /\ E.res = "ok"
          /\ LET q == Sorted(E.vals)
                 ds == SetToSortSeq({q[i] : i \in 1..Len(q)}, LAMBDA a, b : a < b)
                 cs == IF E.n > Len(q)
                       THEN [i \in 1..Len(ds) |-> One(ds[i], Cardinality({j \in 1..Len(q) : q[j] = ds[i]}))]
                       ELSE LET r == Runs(q, E.freqs) IN [i \in 1..Len(E.freqs) |-> <<SumOf(r[i]), Len(r[i]), Len(r[i]) = 1>>]
                 s == [n |-> E.n, cs |-> cs, lo |-> <<q[1]>>, hi |-> <<q[Len(q)]>>, mixed |-> FALSE]
             IN /\ (E.n <= Len(q) => SumOf(E.freqs) = Len(q) /\ Len(E.freqs) = E.n /\ (\A i \in 1..Len(E.freqs) : E.freqs[i] > 0) /\ Best(q, E.freqs))
                /\ Shown(s) /\ sk' = Append(sk, s)
\* a copy by way of bytes is the same sketch; it holds no more centroids
TCopy == Is("copy") /\ E.res = "ok" /\ Shown(sk[E.i]) /\ sk' = Append(sk, [sk[E.i] EXCEPT !.n = Len(sk[E.i].cs)])

\* numbers up to p
Upto(cs, p) == Cardinality({i \in 1..Len(cs) : cs[i][1] <= p * cs[i][2]})
WeightOf(cs, i) == IF i \in 1..Len(cs) THEN cs[i][2] ELSE 0
TSum == /\ Is("sum") /\ UNCHANGED sk
        /\ LET s == sk[E.i] n == SumOf(Weights(s.cs))
           IN /\ E.sum >= 0 /\ E.sum <= n * K
              /\ (s.cs = <<>> \/ E.p < s.lo[1] => E.sum = 0)
              /\ (s.cs # <<>> /\ E.p >= s.hi[1] => E.sum = n * K)
              /\ (Known(s.cs) => E.sum = UpTo(s.cs, E.p) * K)
              /\ (s.cs # <<>> /\ ~s.mixed /\ E.p >= s.lo[1] /\ E.p < s.hi[1] => SumFits(s.cs, s.lo[1], s.hi[1], E.p, E.sum))
              \* what lies whole centroids away counts in full
              /\ E.sum >= (UpTo(s.cs, E.p) - WeightOf(s.cs, Upto(s.cs, E.p))) * K
              /\ E.sum <= (UpTo(s.cs, E.p) + WeightOf(s.cs, Upto(s.cs, E.p) + 1)) * K
\* shares in hundredths, with rising t. They lie between the centroids around
\* the share
Around(cs, t) ==
  LET n == SumOf(Weights(cs))
      over == {i \in 1..Len(cs) : 100 * (2 * Before(cs, i) + cs[i][2]) > 2 * t * n}
  IN IF over = {} THEN Len(cs) + 1 ELSE Min(over)
TShares == /\ Is("shares") /\ UNCHANGED sk
           /\ LET s == sk[E.i]
              IN IF s.cs = <<>> THEN E.res = "panic"
                 ELSE /\ E.res = "ok"
                      /\ \A k \in 1..Len(E.ts) :
                           /\ E.at[k] >= s.lo[1] * K /\ E.at[k] <= s.hi[1] * K
                           /\ (k > 1 => E.at[k] + 1 >= E.at[k - 1])
                           /\ (Known(s.cs) => E.at[k] = Share(s.cs, E.ts[k]) * K)
                           /\ (s.mixed \/ ShareFits(s.cs, s.lo[1], s.hi[1], E.ts[k], E.at[k]))
                           /\ LET i == Around(s.cs, E.ts[k])
                              IN /\ (i > 1 => E.at[k] * s.cs[i - 1][2] >= s.cs[i - 1][1] * K - s.cs[i - 1][2])
                                 /\ (i <= Len(s.cs) => E.at[k] * s.cs[i][2] <= s.cs[i][1] * K + s.cs[i][2])
                      /\ (E.ts[1] = 0 /\ Known(s.cs) => E.at[1] = s.lo[1] * K)
\* estimates of a sketch and its copy
TAlike == Is("alike") /\ E.a = E.b /\ UNCHANGED sk
TBad == Is("bad") /\ E.res = "panic" /\ UNCHANGED sk
Next == TBegin \/ TNew \/ TAdd \/ TMerge \/ TSample \/ TCopy \/ TSum \/ TShares \/ TAlike \/ TBad
Spec == Init /\ [][Next]_vars
===========================================================================
