# Source of properties.jsonl and MANIFEST.json: python3 meta/make.py
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe, state=state))


prop('C01', 'A dataset body reads back as the entries that were written',
     'Entries accepted by a body writer, in any supported format (JSON, NDJSON, CBOR, CSV, XLSX), compression and option setting, come back from the matching reader complete, in order, with the same keys and values, followed by a clean end of data. This holds through every way of reading (entry by entry, all at once, copying, iterating, paging), and other software that knows the format reads the same document. Writing does not change the entry given, and writing the same entries again gives the same bytes (in all formats but XLSX); entries that were read stay as they are while others are read. Values a format cannot tell apart (an integral float in JSON, any number in NDJSON) may come back as the equal number of the other type.',
     ['inputs', 'configurations'], 'every sequence of entries with values the format can carry, for every format, top level type, compression, separator, header and buffer size',
     'Tests write a few fixed files; they do not reach values at encoding boundaries (integers at 2^8..2^64, string lengths around buffer sizes, escapes, deep nesting) in every format and option.',
     ['dsio/json.go', 'dsio/ndjson.go', 'dsio/cbor.go', 'dsio/csv.go', 'dsio/xlsx.go', 'dsio/dsio.go', 'dsio/entry_buffer.go'],
     [('entry writers and readers of each format', 'dsio/*.go'), ('compression', 'compression/compression.go')],
     'Trace validation: TLC checks that every recorded run of the real writers and readers is a behaviour of Body.tla; the stream design is model checked exhaustively within bounds (BodyMC). Values are compared token by token inside TLC; texts longer than a bound by length and hash. Decoders of the Go standard library and ugorji/codec are the independent readers.')
prop('C02', 'Reading does not depend on how bytes are delivered',
     'What a body reader returns, entries and final result, depends only on the bytes of the body: not on how the underlying reader splits them over reads (single bytes, short reads, empty reads, data together with end of file), and not on the size of the reader\'s buffer. This is so for well-formed and for damaged bodies alike, and a tracked reader counts exactly the bytes that passed it.',
     ['inputs', 'schedules', 'configurations'], 'every body, every way of splitting it over reads, every buffer size',
     'Tests read from memory in one piece; a token that straddles two reads or the end of a buffer is never seen.',
     ['dsio/json.go', 'dsio/csv.go', 'dsio/replacecr/replace_cr.go', 'dsio/cbor.go', 'dsio/ndjson.go', 'dsio/tracked_reader.go'],
     [('buffer refill', 'dsio/json.go'), ('carriage return rewriting', 'dsio/replacecr/replace_cr.go')],
     'Trace validation against Body.tla: each reading is compared inside TLC with the reading of the same bytes delivered whole. Splits are enumerated by mode (one byte, halves, random, empty reads, data with EOF, all but the last byte) and nine buffer sizes. Empty reads are not tried with zstandard, whose library gives up on them.',
     )
prop('C03', 'A truncated body never passes for a complete one',
     'When the bytes of a JSON, CBOR or compressed body end early, reading reports an error; it never ends as if the data were complete, unless all entries were read. Entries given before the error are the ones that were written, but for the last of a JSON body when the cut is in a number or before a value.',
     ['inputs', 'crash_points'], 'every body, cut at every byte',
     'Tests cut no bodies; every one of the cut positions of every body is a different state of the parser.',
     ['dsio/json.go', 'dsio/cbor.go', 'compression/compression.go', 'dsio/dsio.go'],
     [('end of input handling', 'dsio/json.go, dsio/cbor.go')],
     'Trace validation against Body.tla: small bodies are cut at every byte, larger ones at ends and at random. Plain NDJSON and CSV have no end marker, and are only cut when compressed. Known findings: zstandard bodies cut at 4 to 6 bytes.')
prop('C04', 'A rejected entry leaves no mark on the body',
     'When a writer refuses an entry (a duplicate or empty key of an object, a value the format cannot encode, a value that is not a row), the body that results after closing is well-formed and holds exactly the entries that were accepted, in order, no matter where in the sequence the refusals happened.',
     ['histories', 'inputs'], 'every sequence of accepted and rejected entries, for every format that can refuse',
     'Tests write one bad entry at most; the position among good ones (first, last, adjacent, all) decides about separators and brackets.',
     ['dsio/json.go', 'dsio/ndjson.go', 'dsio/cbor.go', 'dsio/csv.go', 'dsio/xlsx.go'],
     [('encode before writing', 'dsio/json.go'), ('separator state', 'dsio/json.go')],
     'All sequences of up to 4 operations TLC enumerates from BodyMC are replayed against the real writers, with random longer ones; the result is checked against Body.tla by reading it back with the real reader and an independent decoder.')
prop('C05', 'Paging and conversion give exactly the window asked for, or an error',
     'Reading through a page with a limit and an offset gives exactly the entries at those positions, the rest of the body being ignored, and a page beyond the end is empty. Converting a body to another format or reading a page of it gives all entries of that window in order; when reading or writing any entry fails the conversion fails, and hands out no partial body. JSON is indented exactly when that is asked for.',
     ['inputs', 'configurations', 'fault_sequences'], 'every body, every limit and offset, every pair of formats, a fault at any entry',
     'Tests use one page and a few conversions; windows at or across the end and failures in the middle are not tried.',
     ['dsio/streams.go', 'dsio/dsio.go'],
     [('counting of limit and offset', 'dsio/streams.go'), ('copy loop', 'dsio/dsio.go')],
     'All windows up to 6 entries TLC enumerates from PageMC are replayed, with random larger ones, against every format pair; conversions with faulty inputs are checked to fail. Checked against Window in Body.tla.')
prop('C06', 'Readers survive arbitrary bytes',
     'Given any bytes at all as a body of any format, compression and structure, reading terminates with the end of data or an error. It does not panic, end the process, loop without end, or build more than the input can hold.',
     ['inputs'], 'all byte sequences as bodies of every format',
     'Tests hold a few malformed bodies; panics hide in particular combinations of bytes.',
     ['dsio/json.go', 'dsio/cbor.go', 'dsio/csv.go', 'dsio/ndjson.go', 'dsio/xlsx.go'],
     [('length checks', 'dsio/cbor.go'), ('nesting limit', 'dsio/json.go, dsio/cbor.go')],
     'All strings up to a length over small alphabets, all one and two byte CBOR heads, mutations of valid bodies, very deep and very long claims; the process runs under a memory limit and a watch dog, and a crash or hang is an event the specification has no step for.')
prop('C07', 'Faults of the store underneath are never silent',
     'When the writer underneath a body writer fails or takes only part of what it is given, some write or the close of the body writer reports an error. When the reader underneath a body reader fails, reading, copying, iterating or converting reports an error rather than a clean end of data, and the entries given before are the written ones.',
     ['fault_sequences', 'inputs', 'configurations'], 'every body and format, a fault at every byte and at every call, lasting or not, of every kind of error',
     'Tests inject no faults.',
     ['dsio/json.go', 'dsio/ndjson.go', 'dsio/cbor.go', 'dsio/csv.go', 'dsio/xlsx.go', 'dsio/dsio.go'],
     [('error returns of writers, flush and close', 'dsio/*.go')],
     'Faults are enumerated at every call and byte of small bodies. For compressed bodies only faults that last are tried: the compression libraries forget some that do not. Checked against TWFault/TRFault of BodyTrace.tla.')
prop('C08', 'Bodies written by other software are read as the standard says',
     'A JSON, NDJSON, CBOR or CSV body in any encoding the format\'s standard allows (any escapes, whitespace, number notation; any integer width, float width, definite or indefinite length; any quoting, line ending), compressed in any way that of its compression allows (several parts, any level, names and frames to skip), is read as the values it stands for; where a body has a part the standard has no reading for (a word that is no value, a missing or wrong separator, key, bracket, quote or head byte, an NDJSON line that is not one JSON value), the entries before it are given, and then an error.',
     ['inputs'], 'all documents and all standard encodings of them',
     'Tests read bodies this package or one tool wrote; the other encodings of the same values are not covered.',
     ['dsio/json.go', 'dsio/cbor.go', 'dsio/csv.go', 'dsio/ndjson.go', 'dsio/replacecr/replace_cr.go'],
     [('parsers', 'dsio/json.go, dsio/cbor.go')],
     'The harness writes documents with its own encoders, which pick encodings at random and by enumeration (every escape of the basic plane, half floats, every CBOR head width), and TLC compares what is read with what was meant, and for malformed parts put at any depth with what came before. JSON leniencies the existing tests lock (missing values read as null, data after the closing bracket) and CBOR containers declared empty are left out.')

DOCS = ['dataset.go', 'commit.go', 'meta.go', 'readme.go', 'structure.go', 'stats.go', 'transform.go', 'viz.go']
prop('C09', 'A dataset document survives JSON encoding and decoding',
     'Encoding a dataset or any of its components as JSON and decoding it again gives back every field that was set, with the same value, at every depth and for all additional metadata fields; only secrets of a transform, empty containers and the kind of a reference may be missing. A component of which only the location is known is encoded as a string, its location, and decodes to just that; so is one made from a location. A document asked for by way of a value of any type is the one pointed to, a copy of the one given, or the one its JSON encodes, and an error for anything else. JSON written by other software (any order of keys, any white space, nulls) decodes to the fields it states, replacing what the target held; text that is not such a document is refused and leaves the target as it was.',
     ['inputs', 'histories'], 'all documents, each combination of fields set or not, all values of open-ended fields, any JSON text',
     'Tests encode a handful of documents. There are thousands of combinations of set fields, and which one decides between reference and object form differs per component.',
     DOCS,
     [('MarshalJSON, MarshalJSONObject, UnmarshalJSON of components', 'dataset.go, commit.go, meta.go, readme.go, structure.go, stats.go, transform.go, viz.go')],
     'Doc.tla defines encoding and decoding of documents; TLC checks its round trip laws over all small documents (DocMC), and validates traces in which every event lists all documents of the session. Encoded bytes are read by encoding/json into plain values, not by the code under test. Additional metadata named like a field of Meta is out of scope.',
     observe=['MarshalJSON', 'MarshalJSONObject', 'json.Unmarshal', 'UnmarshalDataset'])
prop('C10', 'Encoding a document is deterministic and leaves it untouched',
     'Encoding a dataset or component changes neither it nor any other document, and gives the same bytes whenever it holds the same, however it came to hold that (built, decoded or merged), and different bytes when it differs in anything that is encoded. Secrets are never part of an encoding. Content addressed storage relies on this.',
     ['histories', 'inputs'], 'all documents and all histories of encoding, decoding, merging and setting fields before',
     'Tests encode once; that a second encoding differs or that a shared document changed shows only in a history.',
     DOCS,
     [('MarshalJSON of components', 'dataset.go, commit.go, meta.go, readme.go, structure.go, stats.go, transform.go, viz.go')],
     'Histories of operations TLC enumerates from DocMC, and random ones, are replayed; DocTrace.tla checks after each event that all documents are as the specification says, and that equal encodings have equal bytes and different ones do not.')
prop('C11', 'Merging documents takes set fields, and changes nothing else',
     'Assigning documents to a document, or components to a component, overwrites exactly the fields that are set in a source, in the order the sources are given, and leaves all others; maps of a transform are merged key by key, a dataset keeps its id once it has one, and nil sources are skipped. The sources do not change, then or by a later operation on the target. Setting a metadata field by name sets that field and no other, and an invalid value is refused without effect. Reading a person, license or citation from a loose value takes over exactly its fields, and refuses values of the wrong type.',
     ['histories', 'inputs'], 'all documents as targets and sources, all histories of merging and setting',
     'Tests merge one pair per type. A field left out of a merge, or storage shared with a source, shows only with particular fields and later operations.',
     DOCS,
     [('Assign', 'dataset.go, commit.go, meta.go, readme.go, structure.go, stats.go, transform.go, viz.go'), ('Meta.Set', 'meta.go')],
     'Doc.tla defines Assign; TLC proves it idempotent and associative on small documents (DocMC). Every field alone is merged over empty and full targets, histories from TLC and random ones over three documents are replayed, and DocTrace.tla checks all documents after each step.')
prop('C12', 'Dropping transient or derived values drops those and only those',
     'Dropping transient values of a dataset or component removes all that is not part of a stored version (locations, inline body, script text, secrets, names), dropping derived values all that is computed on saving, for a dataset in all its components, and nothing else is touched. A document or component is empty exactly when nothing but its location and kind is set.',
     ['inputs', 'histories'], 'all documents, every combination of fields, in any history',
     'Tests check one filled document per type; a field forgotten in IsEmpty makes a document that holds only that field vanish into a reference.',
     DOCS,
     [('DropTransientValues, DropDerivedValues, IsEmpty', 'dataset.go, commit.go, meta.go, readme.go, structure.go, stats.go, transform.go, viz.go')],
     'Every field alone, with and without locations, histories TLC enumerates from DocMC and random ones are replayed and checked against Doc.tla after each step.')
prop('C13', 'Signatures, path maps and comparison tell documents apart',
     'The bytes to sign for a dataset state its id, body path, commit time (to the second, in UTC) and the path of every component it has, in a fixed order and form: two datasets that agree on these have the same bytes and others do not. The older form of bytes to sign states commit time and checksum, and needs both components. The path map lists exactly the paths of body, dataset and components but for the ignored ones. Comparing readmes, visualisations or transforms says whether they are equal in all but location.',
     ['inputs', 'histories'], 'all pairs of documents, each combination of fields',
     'Tests sign one dataset; a component left out of the signed bytes makes two different versions share a signature.',
     ['dataset.go', 'readme.go', 'viz.go', 'transform.go'],
     [('SigningBytes, PathMap', 'dataset.go'), ('ShallowCompare', 'readme.go, viz.go, transform.go')],
     'SigningLines, PathMap and ShallowSame of Doc.tla are compared inside TLC with what the real code gives, for every field alone and for random histories. Ids and paths hold no line breaks.')
prop('C14', 'Opening and inlining component files gives the content stated, once',
     'Opening the file of a body, readme, visualisation or transform gives its inline text or bytes when it has any, and otherwise what its path holds, fetched once from the resolver; without either there is no file, a path without a resolver is an error, as is opening a body held as values. Inlining moves the content of the script into the text and clears the path; when opening or reading fails, text and path stay as they were. Merging carries files over as it carries fields.',
     ['inputs', 'histories', 'fault_sequences'], 'every combination of text, path and rendering, every sequence of opening, reading, inlining, merging and editing, failures to open or read at any of them',
     'Tests open each component once from a working resolver; repeated opening, failing files and empty content are not tried.',
     ['dataset.go', 'readme.go', 'viz.go', 'transform.go'],
     [('OpenBodyFile', 'dataset.go'), ('OpenScriptFile, OpenRenderedFile, InlineScriptFile, SetScriptFile', 'readme.go, viz.go, transform.go')],
     'All histories of up to 3 operations (4 thorough) that TLC enumerates from FilesMC, and random longer ones, are replayed against the real components with a store that records fetches and fails on demand; every step is checked against Files.tla.')
prop('C15', 'Validation reports exactly the errors of every entry, at its position',
     'Validating the entries of a reader against its schema reports every violation (types, bounds, lengths, required properties, nested items and properties) of every entry and no other, each with the path of the value it is about, counted from the start of the body; this does not depend on how many entries there are. If the reader fails before its end the validation fails, and reports no list that could pass for complete. A reader without a usable schema can not be validated.',
     ['inputs', 'fault_sequences', 'configurations'], 'every body of any length in any format, every schema that constrains entries, a read fault at any entry',
     'Tests validate four small files; entries are validated in batches of thousands, which no test fills, and paths depend on the batch.',
     ['validate/data.go', 'structure.go'],
     [('EntryReader, flushBatch, offsetPath', 'validate/data.go')],
     'Validate.tla states which errors a value has under a schema. TLC enumerates all small schemas with all small values; these, random nested ones, and bodies of up to 20001 entries with errors around 1000, 4096, 5000 and their multiples are validated by the real code, and the paths compared inside TLC as bags. Schemas constrain entries only: keywords about a whole array or object see one batch. Schemas of unnamed properties are kept flat, the schema library confuses nested ones.')
prop('C16', 'Settings, names and rules are read, stored and judged as stated',
     'Names of data formats, compressions and kinds parse to what they name, or to an error, with or without a leading dot, in file names of any shape, in JSON, and print as the canonical name; a file name made for a structure gives back its format and compression. CSV, XLSX and JSON options parse from a map, reject values of the wrong type, and store as a map that parses to the same options. Column names are distinct for distinct columns. Variable names, commit titles (up to 100 bytes), structures (a known format and a schema) and datasets (a commit) are accepted exactly when they meet the rules, CSV data when all rows have the same number of fields. Codes of update intervals give their duration, and unknown ones none. Hashes are equal exactly for equal bytes.',
     ['inputs', 'configurations'], 'every name, option map, column number, title, structure and CSV text',
     'Tests try a handful of names and maps; combinations of options and shapes of file names are unbounded.',
     ['data_format.go', 'data_format_config.go', 'kind.go', 'structure.go', 'hash.go', 'compression/compression.go', 'detect/detect.go', 'validate/dataset.go', 'validate/validate.go', 'validate/csv.go'],
     [('ParseDataFormatString, ParseFormatConfigMap, Map', 'data_format.go, data_format_config.go'), ('FormatFromFilename', 'detect/detect.go'), ('AbstractColumnName', 'structure.go'), ('ValidName, Commit, Structure, Dataset, CheckCsvRowLengths', 'validate/*.go')],
     'Settings.tla defines each of these as functions; TLC checks round trip laws and enumerates all 4096 small option maps, which are replayed with names of up to four parts, thousands of columns, all one-byte separators and name characters. Separators are ASCII.')
prop('C17', 'Detecting a structure fills what is missing and leaves the body whole',
     'Detecting the structure of a dataset from its body sets format, compression, options and schema where they are not set, and changes nothing that is. JSON and CBOR bodies are arrays or objects by their first value, anything else is an error; a CSV body has a header row when no cell of its first row is a number, empty, true or false, as many columns as its first row, each with the type most of its cells have, and is marked when rows differ in length. A spreadsheet is an array, its columns are not worked out. The body, its name, size and read errors are the same after detection as before, whether it succeeds or fails, and except for spreadsheets it reads with the structure found. The result depends only on the name and bytes of the file, not on how they are delivered; structures found share nothing.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every body and file name, every structure given beforehand, every way of delivering bytes, a read fault at any byte',
     'Tests detect fixed files with no structure given; they neither read the body afterwards nor deliver it in pieces or with faults.',
     ['detect/detect.go', 'detect/determineFields.go', 'detect/json.go', 'detect/cbor.go', 'vals/type.go'],
     [('Structure', 'detect/detect.go'), ('CSVSchema, possibleCsvHeaderRow', 'detect/determineFields.go'), ('JSONSchema', 'detect/json.go'), ('CBORSchema', 'detect/cbor.go'), ('ParseType', 'vals/type.go')],
     'Detect.tla states what is found; TLC enumerates all tables of two columns and up to 3 rows (4 thorough) and twelve structures given beforehand, which are replayed with random files. Types are only claimed for bodies of up to 1900 rows or with equal rows, the detection looks at the first two thousand. Titles are made by the varName library.')
prop('C18', 'Statistics of a body count every entry of every column, exactly',
     'The statistics calculated for a body have one entry per column of rows, one per key of objects in the order of their names, and one for bodies of single values; nested arrays and objects are described in the same way. A column is of the kind of its first value; values of other kinds are left out. Counts, least and greatest number, mean, shortest and longest string in bytes, and counts of true, false and null are exact for all bodies. Frequencies of strings are exact for up to 200 distinct values, with long keys cut but told apart; a histogram has one bin per number for up to 32 distinct numbers, and otherwise at most 32 rising bins whose frequencies add up to the count. The result does not depend on the format of the body, on how bytes are delivered, or on looking at statistics before the end. When reading fails there are no statistics but an error; an empty body has none; a dataset without body or usable structure is refused.',
     ['inputs', 'configurations', 'fault_sequences'], 'every body of any shape and length in any format, a read fault at any entry',
     'Tests calculate statistics of a few tables; values of mixed kinds, ragged rows, long or non-ASCII strings, limits of what is kept and failing readers are not tried.',
     ['dsstats/stats.go', 'dsstats/histosketch/histosketch.go'],
     [('Calculate, CalculateFromEntryReader', 'dsstats/stats.go'), ('accumulators: Write, Map, Close', 'dsstats/stats.go')],
     'Stats.tla describes a whole column; StatsMC checks exhaustively that an accumulator that sees one value at a time ends with the same, for all columns of up to 2 (thorough 3) of 13 values, and these are replayed with random nested bodies, sizes around 32 and 200, CSV and faulty readers. Numbers are halves of integers up to 10^5. The number of distinct strings is an estimate (hyperloglog), allowed to be off by one and 2%. Keys called "key" or "type" inside of objects, which the output format cannot tell from its own, are not used.')
prop('C19', 'A histogram sketch loses no number, stays small, and is exact when it can be',
     'A sketch of at most N centroids counts every number added to it, alone, many at once, by merging another sketch, or from a sample; it keeps the exact least and greatest number, and the mean of all numbers. It is exact for as long as there are at most N distinct numbers: bins are the numbers, sums and shares are those of the numbers. Beyond that the closest centroids are joined, never others; sums and shares then spread numbers between centroids like trapezoids, as the paper says, or at least stay within the centroids around them after joined sketches were merged; shares never fall. A sketch of a sample is the best there is by squared distance. A sketch and its copy by way of bytes show and answer the same. Impossible requests panic, as documented.',
     ['inputs', 'histories', 'configurations'], 'every history of adding, merging, sampling and copying, for every N',
     'Tests add a few fixed series; joining, merging of joined sketches and copies depend on the whole history.',
     ['dsstats/histosketch/histosketch.go'],
     [('AddMany, Merge', 'dsstats/histosketch/histosketch.go'), ('Sum, Quantile', 'dsstats/histosketch/histosketch.go'), ('NewFromSample', 'dsstats/histosketch/histosketch.go'), ('MarshalBinary, UnmarshalBinary', 'dsstats/histosketch/histosketch.go')],
     'Sketch.tla is the algorithm over exact fractions, with a free choice between equally close centroids; TLC checks the laws for all series of up to 4 of 4 numbers with N=2 (thorough 5 of 5, N=3), and replays them and random histories with N up to 32, reading the sketch after each step. Numbers are integers up to 50, at most 60 per sketch. Nothing is added to copies, whose N is that of their centroids.')
prop('C20', 'Previews and renderings show the dataset, and leave its files whole',
     'A preview of a dataset holds the first 100 entries of its body, of any format, in order, the start of its readme up to 997 bytes, marked when cut, and meta, commit, structure and statistics as they are. Rendering an HTML visualisation fills in title, name, file sizes, types and the entries of the body the template asks for, at any offset and limit, any number of times, with text escaped; a template the script defines goes before a predefined one of its name. After a preview or a rendering, whether it succeeds or fails, the files of body, readme and script are open, have their names, give no wrong size, and read from the start as before, down to their read errors; a failure gives no partial result. A view fails, and does not panic, when what it needs is missing, damaged or can not be read.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every dataset, template, window and sequence of previews and renderings; faults in any of the files',
     'Tests render and preview two fixed datasets once; looking twice, failing files and limits are not tried.',
     ['dsviz/render.go', 'preview/preview.go', 'dsio/paged_reader.go', 'dsio/value_reader.go'],
     [('Render and template functions', 'dsviz/render.go'), ('Create', 'preview/preview.go'), ('ReadAll, PagedReader', 'dsio')],
     'Views.tla states what is shown; ViewsMC checks that views which put back what they read leave a file whole in any series and gives all series of up to 3 (thorough 4) views with sizes around 100, which are replayed with random datasets of every format, templates, and files that are cut short or fail. A JSON body that stops right after a comma reads as one more null entry, which existing tests require, and is not used.')
prop('C21', 'Types, texts and trees of values agree with the values they stand for',
     'A text is of the type its characters say: null, true or false, an integer or a decimal number within the range of a double, an object or array by its first character, else a string. Parsing a text as a type gives the value it stands for or an error; its text parses to the same value. Texts compare as their numbers do for integers and numbers, as bytes for strings, and not at all for others. A value tree holds exactly what the JSON text or decoded data it was made from holds, down to blanks, escapes, integers of 64 bits and nested maps of any kind of key, or there is an error; data and values are converted without loss, and its JSON holds the same. Two values, or missing values, are equal exactly when kind and content are. Asking a value for something another kind has panics with a ValueError that names method and type.',
     ['inputs'], 'every text, pair of texts, JSON text and tree of values of any depth',
     'Tests try a few texts of each type; digits, signs, exponents, ranges, blanks and nesting are unbounded.',
     ['vals/type.go', 'vals/compare.go', 'vals/coding.go', 'vals/value.go', 'vals/object_value.go'],
     [('ParseType, IsInteger, IsFloat, Parse, ValueToString', 'vals/type.go'), ('CompareTypeBytes, Equal', 'vals/compare.go'), ('UnmarshalJSON, ConvertDecoded', 'vals/coding.go')],
     'Vals.tla states types, ranges and order over characters and exact decimals, not machine numbers. ValsMC checks its laws (an order, types partition texts, parse and print agree) on all texts of up to 3 of 10 characters (thorough 4), all of which are replayed, with random numbers of up to 25 digits around the limits of integers and doubles, words, and random trees. Texts like inf, hexadecimal numbers and underscores follow Go and are left out.')
prop('C22', 'Columns of a schema, and rows made for it, are what the schema says',
     'The columns of an array schema have, in order, the title, type or list of types, description and other keywords each item states; where one is missing there is a default and a problem that names the column, and a schema that does not describe a table is refused as invalid. Titles are judged usable exactly when they are names and differ from all earlier ones, a problem each. Columns survive encoding to JSON. Rows generated for a schema have a cell of a stated type for each column, of bounded length, vary, are numbered, stay as they are when more are made, are the same for the same seed, and can be stored in any format, read back and validated without error.',
     ['inputs', 'configurations', 'histories'], 'every schema and list of titles; every number of rows in every format',
     'Tests try two schemas and never look at rows made; missing titles or types, several types, repeated titles and rows made later are not tried.',
     ['tabular/tabular.go', 'generate/tabular.go', 'generate/value.go'],
     [('ColumnsFromJSONSchema, ValidMachineTitles, ColType', 'tabular/tabular.go'), ('NewTabularGenerator, ReadEntry', 'generate/tabular.go')],
     'Tabular.tla defines columns, problems and which rows fit. TabularMC checks laws (no column without types, defaults exactly where there are problems, columns described again are the same) on all lists of up to 2 (thorough 3) columns, which are replayed, with random schemas of up to 130 columns and lists of titles with every ASCII and Latin character. What random values look like beyond type and length is not stated.')
prop('C23', 'Streams in memory hand on every entry and byte once, in order',
     'A value held in memory is read as its entries, each exactly once and in order, by any number of concurrent readers, which may close it at any time: no read or close waits forever, the end is only reported once all has been taken, and after closing nothing is left running. A window of a stream, also of a window, gives exactly its entries, and the end or error of the stream when it runs into it. Visiting, copying and reading all see every entry once up to the first refusal or error, and report that. Lone carriage returns become line ends, counted bytes are those that passed, and compressed data come back whole or with an error, however bytes are split.',
     ['schedules', 'inputs', 'fault_sequences', 'histories'], 'every number of readers and schedule of calls, every stream, window and place of failure, every split of bytes',
     'Tests read with one reader from start to end; races at the end of data, closing early and failures in the middle are not tried.',
     ['dsio/identity.go', 'dsio/streams.go', 'dsio/entry.go', 'dsio/dsio.go', 'dsio/entry_buffer.go', 'dsio/tracked_reader.go', 'dsio/replacecr/replace_cr.go', 'compression/compression.go'],
     [('IdentityReader', 'dsio/identity.go'), ('PagedReader, Copy', 'dsio/streams.go'), ('EachEntry', 'dsio/entry.go'), ('ReadAll, NewEntryReader, NewEntryWriter', 'dsio/dsio.go'), ('Reader', 'dsio/replacecr/replace_cr.go'), ('Compressor, Decompressor', 'compression/compression.go')],
     'Streams.tla says what calls and returns an observer may see. StreamsMC checks that the design of a producer, a channel, readers and closers only shows such, in all interleavings of 2 threads of 3 operations (thorough 3 of 2) over up to 3 entries, that all operations end and nothing is left waiting; the programs run on the real code, with calls and returns recorded in order, as do random ones of up to 8 threads. Schedules of the real code are those the Go scheduler takes. PipesMC checks laws of windows and line ends. What a stream gives after an error is not stated.')
prop('C24', 'A diff of two versions says exactly what differs between them',
     'Comparing two versions of a structure, metadata, transform or viz names exactly the top level names of their JSON that were added, deleted or changed, with the old and the new value. Versions kept at the same place (not structures) do not differ, nor does metadata without content; where both name a script file, its place does not count. How many changes there are, their encoding and each summary (one line, names, delta, lines with plus and minus, in color or not) tell the same; without changes summaries are empty. Of several components that differ, the first in the order structure, transform, meta, viz is summarized. JSON that is not an object is refused. Comparing changes neither version.',
     ['inputs'], 'every pair of versions of each component, and every pair of JSON objects',
     'Tests compare a few stored datasets by their text; pairs with absent, equal, nested or many differing components, and all four at once, are not tried.',
     ['dsdiff/dsdiff.go'],
     [('DiffStructure, DiffMeta, DiffTransform, DiffViz, DiffJSON', 'dsdiff/dsdiff.go'), ('SummarizeToString', 'dsdiff/dsdiff.go'), ('DiffDatasets, MapDiffsToString', 'dsdiff/dsdiff.go')],
     'Diff.tla builds on Doc.tla. DiffMC checks that applying a diff to the left gives the right, that the other way round it is turned around, and that nothing is overlooked, for all pairs of components of three fields; DiffOrderMC which of four components is summarized for all numbers of changes up to three. All are replayed with values that nearly agree, with random documents. Differences inside of values are only counted, integers beyond 2^53 are not told apart, and body data cannot be given from outside of the package.')
prop('C25', 'Step files keep every step of a transform apart and whole',
     'Reading a step file gives, in order, the texts between its separator lines of three dashes and nothing else, an empty text for an empty step, and loses nothing: writing the steps again gives the same file. Steps that are written come back the same whenever they can be told apart at all: none contains a separator line, or ends like one. Texts, bytes and readers can be written; a reader is read to its end, and closed if it can be. Any failure, of a script, of the source read or of the file written, at any place, is reported; what is written up to there is the beginning of the whole file, and later scripts are not touched. Nothing else can be written. Steps given are not changed.',
     ['inputs', 'fault_sequences'], 'every text and list of scripts of each kind; failures after every character',
     'Tests read and write one file of steps; separators at borders or overlapping, empty steps and failures are not tried.',
     ['stepfile/stepfile.go'],
     [('Read, ReadFile', 'stepfile/stepfile.go'), ('Write, writeStepScript', 'stepfile/stepfile.go')],
     'Steps.tla defines splitting, joining and what is written when something fails. StepsMC checks that they are inverse, exactly for steps that can be told apart, for all texts of up to 7 (thorough 10) characters and pairs (triples) of scripts; StepsWriteMC that writing a character at a time with failing scripts and files ends as defined, always. All of them run on the real code, with random texts and scripts around the sizes of buffers. What a writer that breaks the io.Writer contract does is not stated.')
prop('C26', 'Test cases and comparisons say what is in their files and documents',
     'A test case made from a directory has its name, the documents of the input and expected files, the body of the first supported format there is a file of, and the scripts there are files of, all byte for byte, also in the input document, anew each time, whatever was loaded before, done with it or is loaded at the same time. A directory where one of the files can not be read, or without any, is refused, and left out when all directories are loaded. Documents compare as the same exactly when all that assignment takes over is the same, also without transient values where asked, in either order, and comparing changes neither; same documents have the same checksum, now and later. A golden file that differs fails the test, and is rewritten only then and when asked. Templates give their text or fail.',
     ['histories', 'inputs', 'configurations', 'schedules'], 'every directory and history of files and loads; every pair of documents or components and golden file; loads at the same time',
     'Tests load one complete directory and compare a few documents; absent, unreadable or changed files, several bodies, both arguments with transient values and loads at the same time are not tried.',
     ['dstest/dstest.go', 'dstest/compare.go', 'dstest/golden.go', 'dstest/template.go'],
     [('NewTestCaseFromDir, LoadTestCases, BodyFilepath, DatasetChecksum', 'dstest/dstest.go'), ('CompareDatasets, CompareCommits, CompareMetas, CompareStructures', 'dstest/compare.go'), ('CompareGoldenDatasetAndUpdateIfEnvVarSet', 'dstest/golden.go'), ('Template', 'dstest/template.go')],
     'Fixture.tla builds on Doc.tla. FixtureMC checks that at most one body is used, files that do not belong to a case do not matter, and loading is refused exactly when needed, for all directories with up to 2 (thorough 3) files, all of which are replayed, with random histories of files and loads in up to 4 directories, random pairs of documents that nearly agree, and golden files. Additional metadata is not compared, and test failures are those of the testing package.')
prop('C27', 'dsgen prints exactly the rows it is asked for, which fit the structure',
     'Whatever the order of its arguments and way to write the flag, dsgen prints as many rows as the last --rows says, 1000 without one and none for less than one, as CSV with the separator and header row of the structure; every row has a cell of the type of each column, "fixed" prints the four fixed columns with rows numbered from zero and data of 908 zeros after the number. With arguments it does not understand, without or with a structure that is missing, no document or no table, and when what it prints cannot be written, it exits with a failure.',
     ['inputs', 'configurations', 'fault_sequences'], 'every list of arguments, every structure of a table and number of rows; output that cannot be written',
     'There are no tests of the program.',
     ['generate/dsgen/main.go', 'generate/tabular.go', 'generate/value.go', 'dsio/csv.go'],
     [('main, generateFile, writeFixedFile', 'generate/dsgen/main.go')],
     'Dsgen.tla states what a list of arguments asks for, one at a time, and each row of fixed output; rows for structures are those of Tabular.tla. DsgenMC checks that places of arguments do not matter but for the order of flags, for all lists of up to 2 (thorough 3) arguments; the program is built and run with all of them, and with random structures, separators and numbers of rows. More than one structure at once is not stated.')
