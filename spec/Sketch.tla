------------------------------- MODULE Sketch -----------------------------
(* Histogram sketches: streaming histograms of at most N centroids. A       *)
(* centroid is <<sum, m, x>>: m numbers whose sum is sum, x tells that they *)
(* are all the same number. Its place is sum/m. Numbers are integers.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

SumOf(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Weights(cs) == [i \in 1..Len(cs) |-> cs[i][2]]
Sums(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

\* comparing places, and gaps between neighbours
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
Gap(cs, i) == <<cs[i + 1][1] * cs[i][2] - cs[i][1] * cs[i + 1][2], cs[i][2] * cs[i + 1][2]>>
Closest(cs) == {i \in 1..(Len(cs) - 1) : \A j \in 1..(Len(cs) - 1) : ~Lt(Gap(cs, j), Gap(cs, i))}

Joined(cs, i) == SubSeq(cs, 1, i - 1) \o <<<<cs[i][1] + cs[i + 1][1], cs[i][2] + cs[i + 1][2], FALSE>>>> \o SubSeq(cs, i + 2, Len(cs))
\* c at its place: with one that has the same place, or as another
At(cs, c) == {i \in 1..Len(cs) : Eq(cs[i], c)}
Put(cs, c) == SelectSeq(cs, LAMBDA a : Lt(a, c)) \o <<c>> \o SelectSeq(cs, LAMBDA a : ~Lt(a, c))
Onto(cs, c) == {[cs EXCEPT ![i] = <<@[1] + c[1], @[2] + c[2], @[3] /\ c[3]>>] : i \in At(cs, c)}

\* all sketches that may come of adding c to cs. Places of centroids that were
\* joined are not exact: a number may miss the one it falls on
Adding(N, cs, c) ==
  LET room == Put(cs, c)
      apart == IF Len(room) <= N THEN {room} ELSE {Joined(room, i) : i \in Closest(room)}
  IN IF At(cs, c) = {} THEN apart
     ELSE Onto(cs, c) \cup (IF \E i \in At(cs, c) : ~cs[i][3] \/ ~c[3] THEN apart ELSE {})
One(v, m) == <<v * m, m, TRUE>>

\* the numbers up to p, where the sketch knows exactly
Known(cs) == \A i \in 1..Len(cs) : cs[i][3]
UpTo(cs, p) == SumOf([i \in 1..Len(cs) |-> IF cs[i][1] <= p * cs[i][2] THEN cs[i][2] ELSE 0])

\* the number at a share of t hundredths, where all is known: the first with
\* that share below its middle; the last when there is none
Before(cs, i) == SumOf([j \in 1..(i - 1) |-> cs[j][2]])
Share(cs, t) ==
  LET n == SumOf(Weights(cs))
      over == {i \in 1..Len(cs) : 100 * (2 * Before(cs, i) + cs[i][2]) > 2 * t * n}
      i == IF over = {} THEN Len(cs) ELSE Min(over)
  IN cs[i][1] \div cs[i][2]

\* where not all is known, numbers are spread between centroids like a trapezoid:
\* half of each centroid's numbers lie on either side of it. Places are in
\* thousands, rounded down; lo and hi end the sketch, with no numbers there.
\* Between i - 1 and i at x thousandths of the way there are, in 2 millions,
\* Area numbers right of i - 1
Mille(c) == (c[1] * 1000) \div c[2]
PlaceOf(cs, lo, hi, i) == IF i = 0 THEN lo * 1000 ELSE IF i > Len(cs) THEN hi * 1000 ELSE Mille(cs[i])
WeightAt(cs, i) == IF i \in 1..Len(cs) THEN cs[i][2] ELSE 0
Sharp(cs, i) == i \in 1..Len(cs) /\ cs[i][3]
Area(cs, i, x) == 2000 * WeightAt(cs, i - 1) * x + (WeightAt(cs, i) - WeightAt(cs, i - 1)) * x * x
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 1000 THEN 1000 ELSE x
\* how far p is on the way, at least and at most
WayLow(a, b, p) == Clamp(((p - a - 2) * 1000) \div (b - a + 1))
WayHigh(a, b, p) == Clamp((((p - a + 2) * 1000) \div Max({1, b - a - 1})) + 1)
\* sum, in thousands, is an estimate of the numbers up to p
SumFits(cs, lo, hi, p, sum) ==
  LET k == Cardinality({i \in 1..Len(cs) : cs[i][1] <= p * cs[i][2]})
      left == IF k = 0 THEN 0 ELSE Before(cs, k)
      a == PlaceOf(cs, lo, hi, k) b == PlaceOf(cs, lo, hi, k + 1)
      In(x) == (left * 2 + WeightAt(cs, k)) * 1000000 + Area(cs, k + 1, x)
  IN IF Sharp(cs, k) /\ (Sharp(cs, k + 1) \/ cs[k][1] = p * cs[k][2]) THEN sum = (left + cs[k][2]) * 1000
     ELSE In(WayLow(a, b, p * 1000)) <= (sum + 1) * 2000 /\ (sum - 1) * 2000 <= In(WayHigh(a, b, p * 1000))
\* at, in thousands, is an estimate of the number at a share of t hundredths
ShareFits(cs, lo, hi, t, at) ==
  LET n == SumOf(Weights(cs))
      over == {i \in 1..Len(cs) : 100 * (2 * Before(cs, i) + cs[i][2]) > 2 * t * n}
      i == IF over = {} THEN Len(cs) + 1 ELSE Min(over)
      a == PlaceOf(cs, lo, hi, i - 1) b == PlaceOf(cs, lo, hi, i)
      d == 10000 * (2 * t * n - (IF i = 1 THEN 0 ELSE 200 * Before(cs, i - 1) + 100 * cs[i - 1][2]))
  IN IF Sharp(cs, i - 1) /\ Sharp(cs, i) THEN at = b
     ELSE Area(cs, i, WayLow(a, b, at)) <= d + 2000 /\ d <= Area(cs, i, WayHigh(a, b, at)) + 2000

\* how well runs of sorted numbers are described by their means: the sum of
\* squares about the means, times Scale (a multiple of all lengths)
Scale == 840
Off(q) == Scale * SumOf([i \in 1..Len(q) |-> q[i] * q[i]]) - (Scale \div Len(q)) * (SumOf(q) * SumOf(q))
RECURSIVE Ends(_)
Ends(lens) == IF lens = <<>> THEN <<>> ELSE LET e == Ends(Front(lens)) IN Append(e, (IF e = <<>> THEN 0 ELSE Last(e)) + Last(lens))
Runs(q, lens) == LET e == Ends(lens) IN [i \in 1..Len(lens) |-> SubSeq(q, e[i] - lens[i] + 1, e[i])]
Cost(q, lens) == SumOf([i \in 1..Len(lens) |-> Off(Runs(q, lens)[i])])
RECURSIVE Splits(_, _)
Splits(n, k) == IF k = 1 THEN {<<n>>} ELSE UNION {{<<a>> \o r : r \in Splits(n - a, k - 1)} : a \in 1..(n - k + 1)}
Best(q, lens) == \A o \in Splits(Len(q), Len(lens)) : Cost(q, lens) <= Cost(q, o)
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
===========================================================================
