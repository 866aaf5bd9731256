------------------------------ MODULE Settings ----------------------------
(* Texts that settings of a dataset are given and stored in: data formats,  *)
(* compressions, kinds, options of formats, names of files and columns, and *)
(* the rules names, commits and structures have to meet.                    *)
(* An option value is [k, v, n]: its type (absent, nil, bool, str, num),    *)
(* its text, and the number of bytes of a string.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

\* ---- data formats and compressions; "" is unknown, or none
FormatNames == [csv |-> "csv", json |-> "json", xml |-> "xml", xlsx |-> "xlsx", cbor |-> "cbor", ndjson |-> "ndjson", jsonl |-> "ndjson"]
CompNames == [gzip |-> "gzip", gz |-> "gzip", zst |-> "zst", zstd |-> "zst"]
Lookup(table, s) == IF s \in DOMAIN table THEN table[s] ELSE ""
Supported == {"cbor", "json", "csv", "xlsx", "ndjson"}

\* a format may be given with a leading dot, and may be empty
ParseFormat(dot, s) == IF ~dot /\ s = "" THEN [res |-> "ok", fmt |-> ""]
                       ELSE IF s \in DOMAIN FormatNames THEN [res |-> "ok", fmt |-> FormatNames[s]]
                       ELSE [res |-> "err", fmt |-> ""]
ParseComp(s) == IF s \in DOMAIN CompNames THEN [res |-> "ok", comp |-> CompNames[s]] ELSE [res |-> "err", comp |-> ""]

\* the parts of a file name between dots tell format and compression
FromName(segs) ==
  LET n == Len(segs)
      last == IF n >= 2 THEN segs[n] ELSE ""
      comp == Lookup(CompNames, last)
      m == IF comp # "" THEN n - 1 ELSE n
      ext == IF m >= 2 THEN segs[m] ELSE ""
      fmt == Lookup(FormatNames, ext)
  IN [res |-> IF fmt = "" THEN "err" ELSE "ok", fmt |-> fmt, comp |-> comp]
WithExtensions(name, fmt, comp) == name \o (IF fmt # "" THEN "." \o fmt ELSE "") \o (IF comp # "" THEN "." \o comp ELSE "")

\* ---- kinds: two letters, a colon, a version
KindOk(bytes) == bytes >= 4

\* ---- options
Opt(k, v, n) == [k |-> k, v |-> v, n |-> n]
Absent == Opt("absent", "", 0)
Given(o) == o.k \notin {"absent", "nil"}
BoolOk(o) == ~Given(o) \/ o.k = "bool"
StrOk(o) == ~Given(o) \/ o.k = "str"
IsTrue(o) == o.k = "bool" /\ o.v = "true"
\* a separator is one byte
SepOk(o) == StrOk(o) /\ (Given(o) => o.n = 1)
\* parsing gives the settings, or an error and no settings
ParseCSV(m) ==
  IF BoolOk(m.headerRow) /\ BoolOk(m.lazyQuotes) /\ BoolOk(m.variadicFields) /\ SepOk(m.separator)
  THEN <<[head |-> IsTrue(m.headerRow), lazy |-> IsTrue(m.lazyQuotes), var |-> IsTrue(m.variadicFields), sep |-> IF Given(m.separator) THEN m.separator.v ELSE ""]>>
  ELSE <<>>
Flag(b) == IF b THEN Opt("bool", "true", 0) ELSE Absent
MapCSV(c) == [headerRow |-> Flag(c.head), lazyQuotes |-> Flag(c.lazy), variadicFields |-> Flag(c.var), separator |-> IF c.sep = "" THEN Absent ELSE Opt("str", c.sep, 1)]
ParseXLSX(m) == IF StrOk(m.sheetName) THEN <<[sheet |-> IF Given(m.sheetName) THEN m.sheetName ELSE Opt("str", "", 0)]>> ELSE <<>>
MapXLSX(c) == [sheetName |-> IF c.sheet.n = 0 THEN Absent ELSE c.sheet]

\* ---- column names: a, b, .. z, aa, ab, .. zz, aaa, ..: the digits of i
RECURSIVE ColumnDigits(_)
ColumnDigits(i) == IF i < 26 THEN <<i>> ELSE Append(ColumnDigits((i \div 26) - 1), i % 26)

\* ---- names, of codes of characters
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Word(c) == Letter(c) \/ (c >= 48 /\ c <= 57) \/ c = 95
ValidName(codes) == Len(codes) \in 1..144 /\ Letter(codes[1]) /\ \A i \in 1..Len(codes) : Word(codes[i])

\* ---- rules for documents
CommitOk(titleBytes) == titleBytes <= 100
\* fmt as parsed
StructureOk(fmt, schema) == fmt # "" /\ schema
DatasetOk(d) == d.commit # <<>> /\ CommitOk(d.commit[1]) /\ (d.structure = <<>> \/ StructureOk(d.structure[1].fmt, d.structure[1].schema))
RowsOk(lens) == Len(lens) > 0 /\ \A i \in 1..Len(lens) : lens[i] = lens[1]
\* ---- how often a dataset is updated; others have no duration. The codes
\* R/P2M, R/P3M, R/P4M and R/P3.5D are left out: what they give is locked by
\* tests, and isn't what they say
Day == 86400
AccrualSeconds(c) ==
  CASE c = "R/P10Y" -> 3650 * Day [] c = "R/P4Y" -> 1460 * Day [] c = "R/P3Y" -> 1095 * Day [] c = "R/P2Y" -> 730 * Day
    [] c = "R/P1Y" -> 365 * Day [] c = "R/P6M" -> 180 * Day [] c = "R/P1M" -> 30 * Day [] c = "R/P0.5M" -> 15 * Day
    [] c = "R/P0.33M" -> 10 * Day [] c = "R/P2W" -> 14 * Day [] c = "R/P1W" -> 7 * Day [] c = "R/P0.33W" -> (7 * Day) \div 3
    [] c = "R/P1D" -> Day [] c = "R/PT1H" -> 3600 [] c = "R/PT1S" -> 1 [] OTHER -> 0
===========================================================================
