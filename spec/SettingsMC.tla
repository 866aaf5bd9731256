---------------------------- MODULE SettingsMC ----------------------------
(* Laws of settings, and all small option maps as scenarios.                *)
EXTENDS Settings, TLC, Json
VARIABLE m
OptVals == {Absent, Opt("nil", "", 0), Opt("bool", "true", 0), Opt("bool", "false", 0), Opt("str", "", 0), Opt("str", ";", 1), Opt("str", "ab", 2), Opt("num", "1", 0)}
Maps == [headerRow : OptVals, lazyQuotes : OptVals, separator : OptVals, variadicFields : OptVals]
Settled == [head : BOOLEAN, lazy : BOOLEAN, var : BOOLEAN, sep : {"", ";", ","}]
\* settings survive being stored and parsed
ASSUME \A c \in Settled : ParseCSV(MapCSV(c)) = <<c>>
ASSUME \A c \in {[sheet |-> Opt("str", "", 0)], [sheet |-> Opt("str", "s", 1)]} : ParseXLSX(MapXLSX(c)) = <<c>>
\* names of formats and compressions are read back from file names
ASSUME \A f \in {FormatNames[x] : x \in DOMAIN FormatNames}, c \in {"", "gzip", "zst"} :
         FromName(<<"body", f>> \o (IF c = "" THEN <<>> ELSE <<c>>)) = [res |-> "ok", fmt |-> f, comp |-> c]
ASSUME \A f \in DOMAIN FormatNames : ParseFormat(FALSE, f) = ParseFormat(TRUE, f) /\ ParseFormat(FALSE, FormatNames[f]).fmt = FormatNames[f]
ASSUME Supported \subseteq {FormatNames[x] : x \in DOMAIN FormatNames}
\* no two columns have the same name; longer names come later
ASSUME \A i \in 0..1500 : ColumnDigits(i) # ColumnDigits(i + 1) /\ Len(ColumnDigits(i)) <= Len(ColumnDigits(i + 1))
ASSUME Cardinality({ColumnDigits(i) : i \in 0..1500}) = 1501
\* all maps, one by one
Init == m \in Maps
Next == FALSE /\ m' = m
Spec == Init /\ [][Next]_m
Idempotent == LET p == ParseCSV(m) IN p # <<>> => ParseCSV(MapCSV(p[1])) = p
Scenario == PrintT("SCN " \o ToJson(m))
===========================================================================
