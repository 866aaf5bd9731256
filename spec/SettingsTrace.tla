--------------------------- MODULE SettingsTrace --------------------------
(* Conformance of recorded parsing, printing and checking of settings.      *)
(* hashes: pairs of content and hash seen so far.                           *)
EXTENDS Settings, TraceBase
VARIABLE hashes
vars == <<hashes, l>>
Init == hashes = {} /\ l = 1
Same == UNCHANGED hashes
TBegin == Is("begin") /\ hashes' = {}
TFormat == /\ Is("format") /\ Same
           /\ LET p == ParseFormat(E.dot, E.name)
              IN E.res = p.res /\ E.fmt = p.fmt
                 \* in JSON, and in a structure
                 /\ E.jres = p.res /\ E.jfmt = p.fmt /\ E.stfmt = p.fmt
                 /\ (IF p.fmt = "" THEN E.out = "err" ELSE E.out = "\"" \o p.fmt \o "\"")
                 /\ E.tabular = (~E.dot /\ E.name \in {"csv", "xlsx"})
TSupported == Is("supported") /\ Same /\ ToSet(E.fmts) = Supported /\ Len(E.fmts) = Cardinality(Supported)
TComp == Is("comp") /\ Same /\ LET p == ParseComp(E.name) IN E.res = p.res /\ E.comp = p.comp /\ E.writer = p.res
\* what was compressed under one name decompresses under any name of the format
TUnpack == Is("unpack") /\ Same /\ (ParseComp(E.a).comp = ParseComp(E.b).comp => E.res = "ok" /\ E.same)
           /\ (ParseComp(E.a).comp # ParseComp(E.b).comp => E.res = "err")
TName == Is("name") /\ Same /\ LET p == FromName(E.segs) IN E.res = p.res /\ E.fmt = p.fmt /\ E.comp = p.comp
TExt == Is("ext") /\ Same /\ E.out = WithExtensions(E.name, E.fmt, E.comp) /\ E.body = WithExtensions("body", E.fmt, E.comp)
TKind == /\ Is("kind") /\ Same /\ E.res = (IF KindOk(E.bytes) THEN "ok" ELSE "err") /\ E.jres = E.res
         /\ (KindOk(E.bytes) => E.type = E.head /\ E.version = E.tail /\ E.prefixed = E.head \o ":x")
TCSV == /\ Is("csv") /\ Same
        /\ LET p == ParseCSV(E.map)
           IN IF p = <<>> THEN E.res = "err" ELSE E.res = "ok" /\ E.got = p[1] /\ E.out = MapCSV(p[1]) /\ E.fmt = "csv"
TXLSX == /\ Is("xlsx") /\ Same
         /\ LET p == ParseXLSX(E.map)
            IN IF p = <<>> THEN E.res = "err" ELSE E.res = "ok" /\ E.got = p[1] /\ E.out = MapXLSX(p[1]) /\ E.fmt = "xlsx"
TJSON == Is("jsonopt") /\ Same /\ E.res = "ok" /\ E.out = E.given /\ E.fmt = "json"
TNoOpt == Is("noopt") /\ Same /\ E.res = "err"
TColumn == Is("column") /\ Same /\ E.digits = ColumnDigits(E.i)
TValidName == Is("validname") /\ Same /\ E.res = (IF ValidName(E.codes) THEN "ok" ELSE "err")
TRules == /\ Is("rules") /\ Same /\ E.ds = (IF DatasetOk(E.d) THEN "ok" ELSE "err")
          /\ (E.d.commit # <<>> => E.cm = (IF CommitOk(E.d.commit[1]) THEN "ok" ELSE "err"))
          /\ (E.d.structure # <<>> => E.st = (IF StructureOk(E.d.structure[1].fmt, E.d.structure[1].schema) THEN "ok" ELSE "err"))
TNils == Is("nils") /\ Same /\ E.ds = "ok" /\ E.cm = "ok" /\ E.st = "ok"
TRows == Is("rows") /\ Same /\ E.res = (IF E.bad \/ ~RowsOk(E.lens) THEN "err" ELSE "ok")
TAbstract == Is("abstract") /\ Same /\ E.kept = <<TRUE, TRUE, TRUE, TRUE>> /\ E.rest
\* equal content has equal hashes, other content has others
THash == /\ Is("hash") /\ hashes' = hashes \cup {<<E.data, E.hash>>}
         /\ \A h \in hashes : (h[1] = E.data) = (h[2] = E.hash)
         /\ E.hash # "" /\ E.hash = E.own
TAccrual == Is("accrual") /\ Same /\ E.whole /\ E.sec = AccrualSeconds(E.code)
Next == TAccrual \/ TBegin \/ TFormat \/ TSupported \/ TComp \/ TUnpack \/ TName \/ TExt \/ TKind \/ TCSV \/ TXLSX \/ TJSON \/ TNoOpt \/ TColumn
        \/ TValidName \/ TRules \/ TNils \/ TRows \/ TAbstract \/ THash
Spec == Init /\ [][Next]_vars
===========================================================================
