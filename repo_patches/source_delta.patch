From 6e05b1ee4f19992ef7ed0cec3f8cd4730b1db0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:04 +0000
Subject: [PATCH 01/50] fix: keep JSON output well-formed when an entry is
 rejected

A rejected entry (empty or repeated key, unencodable value) left behind an
opening bracket and made the next entry start with a comma, or burned a key
that was never written. A failed newline write in pretty mode was ignored.
---
 dsio/json.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..b46c603 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -548,6 +548,14 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	// encode before writing anything, so an entry that can't be encoded leaves
+	// the output untouched
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -562,12 +570,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -599,7 +601,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -627,6 +628,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
@@ -650,15 +652,14 @@ func (w *JSONWriter) Close() error {
 		return nil
 	}
 
-	// If pretty, newline
-	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
-	}
-
 	cloze := []byte{']'}
 	if w.tlt == "object" {
 		cloze = []byte{'}'}
 	}
+	// If pretty, newline
+	if w.indent != "" {
+		cloze = append([]byte{'\n'}, cloze...)
+	}
 	_, err := w.wr.Write(cloze)
 	if err != nil {
 		log.Debug(err.Error())
-- 
2.43.0


From 98050290c0c53b1bb19f64db8c6e42db1cc04fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:27 +0000
Subject: [PATCH 02/50] fix: JSON reader mishandles large integers, surrogate
 pairs and short escapes

Integers beyond 64 bits failed to parse although the writer produces them,
\uD83D\uDE00 style escapes decoded to ??, a truncated escape sequence read or
indexed past the string, and an invalid first array element was dropped
without an error.
---
 dsio/json.go | 64 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index b46c603..30aef67 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -5,9 +5,12 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -302,10 +305,10 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
-				hexChars := srcBuff[s+1 : s+3]
-				s += 3
+				hexChars := srcBuff[s+1 : minInt(s+3, limit)]
+				s += 1 + len(hexChars)
 				bs, err := hex.DecodeString(string(hexChars))
-				if err == nil {
+				if err == nil && len(bs) == 1 {
 					dstBuff[d] = bs[0]
 				} else {
 					dstBuff[d] = '?'
@@ -314,14 +317,15 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
-				hexChars := srcBuff[s+1 : s+5]
-				s += 5
+				hexChars := srcBuff[s+1 : minInt(s+5, limit)]
+				s += 1 + len(hexChars)
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
 				if err == nil {
-					for _, b := range []byte(res) {
-						dstBuff[d] = b
-						d++
-					}
+					d += copy(dstBuff[d:], res)
+				} else if r, ok := surrogatePair(hexChars, srcBuff[s:limit]); ok {
+					// code point outside the basic multilingual plane
+					s += 6
+					d += utf8.EncodeRune(dstBuff[d:], r)
 				} else {
 					dstBuff[d] = '?'
 					d++
@@ -342,6 +346,31 @@ func unquoteJSONString(srcBuff []byte) string {
 	return string(dstBuff[:d])
 }
 
+// surrogatePair decodes a code point escaped as two utf-16 code units. hi is
+// the four hex digits of the first unit, rest is the text that follows them
+func surrogatePair(hi, rest []byte) (rune, bool) {
+	if len(hi) != 4 || len(rest) < 6 || rest[0] != '\\' || rest[1] != 'u' {
+		return 0, false
+	}
+	r1, err := strconv.ParseUint(string(hi), 16, 16)
+	if err != nil {
+		return 0, false
+	}
+	r2, err := strconv.ParseUint(string(rest[2:6]), 16, 16)
+	if err != nil {
+		return 0, false
+	}
+	r := utf16.DecodeRune(rune(r1), rune(r2))
+	return r, r != utf8.RuneError
+}
+
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 func (r *JSONReader) readString() (string, error) {
 	buff := r.currentBuffer()
 	i := 0
@@ -352,11 +381,12 @@ func (r *JSONReader) readString() (string, error) {
 	}
 
 	for {
-		if i >= len(buff) {
+		// an escape sequence may have moved i more than one byte past the end
+		for i >= len(buff) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
-				break
+				return "", fmt.Errorf("Expected: closing '\"' for string")
 			}
 		}
 		if buff[i] == '\\' {
@@ -372,7 +402,6 @@ func (r *JSONReader) readString() (string, error) {
 		}
 		i++
 	}
-	return "", fmt.Errorf("Expected: closing '\"' for string")
 }
 
 func (r *JSONReader) readNumber() (interface{}, error) {
@@ -402,11 +431,16 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			// integers that don't fit 64 bits are read as floats
+			return strconv.ParseFloat(text, 64)
+		}
 		if err != nil {
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
@@ -452,7 +486,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From e0f482fdf0ff58d89b286f0cea6503acb91ecc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 03/50] fix: CBOR reader decodes negative, unsigned and short
 float numbers

Integers below -24 failed as an unknown tag, unsigned integers above 63 bits
wrapped to negative values, and half & single precision floats were read as
if their bytes were a double.
---
 dsio/cbor.go | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..1733026 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -201,10 +201,22 @@ func (r *CBORReader) readValue() (interface{}, error) {
 		return nil, err
 	}
 
-	if b < 0x1c {
-		return r.getVarLenInt(b)
-	} else if b >= 0x20 && b < 0x38 {
-		return -int64(b - 0x1f), nil
+	if b < 0x1c || (b >= cborBaseNegInt && b < cborBaseNegInt|0x1c) {
+		num, err := r.getVarLenInt(b)
+		if err != nil {
+			return nil, err
+		}
+		// integers that don't fit 64 bits are read as floats
+		if b >= cborBaseNegInt {
+			if num < 0 {
+				return -1 - float64(uint64(num)), nil
+			}
+			return -1 - num, nil
+		}
+		if num < 0 {
+			return float64(uint64(num)), nil
+		}
+		return num, nil
 	}
 
 	switch b {
@@ -422,12 +434,36 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return float16frombits(binary.BigEndian.Uint16(data)), nil
+	case 4:
+		return float64(math.Float32frombits(binary.BigEndian.Uint32(data))), nil
 	}
 	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
 }
 
+// float16frombits gives the value of an IEEE 754 half-precision float
+func float16frombits(b uint16) float64 {
+	exp, frac := int(b>>10&0x1f), float64(b&0x3ff)
+	var f float64
+	switch exp {
+	case 0:
+		f = math.Ldexp(frac, -24)
+	case 0x1f:
+		f = math.Inf(1)
+		if frac != 0 {
+			f = math.NaN()
+		}
+	default:
+		f = math.Ldexp(1024+frac, exp-25)
+	}
+	if b&0x8000 != 0 {
+		f = -f
+	}
+	return f
+}
+
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
 	buff, err := r.rdr.Peek(num)
-- 
2.43.0


From 95decaaa9159c26e81e8228333e8bb0f59d2cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 04/50] fix: CBOR reader reports truncated input and bounds its
 reads

Running out of input inside a value or before a container's declared length
looked like a clean end of data. Strings and byte slices longer than the read
buffer could not be read, byte slices aliased that buffer, declared lengths
were allocated up front, and tags & two byte simple values were not consumed.
---
 dsio/cbor.go | 82 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 1733026..515477a 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -19,6 +19,7 @@ type CBORReader struct {
 	close    func() error // close func from wrapped reader
 	st       *dataset.Structure
 	topLevel byte
+	opened   bool
 	length   int
 }
 
@@ -68,7 +69,7 @@ func (r *CBORReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one CBOR record from the reader
 func (r *CBORReader) ReadEntry() (ent Entry, err error) {
-	if r.rowsRead == 0 {
+	if !r.opened {
 		top, length, err := r.readTopLevel()
 		if err != nil {
 			return ent, err
@@ -76,15 +77,25 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
 		r.length = length
+		r.opened = true
 	}
 
+	if r.length > 0 && r.rowsRead == r.length {
+		return ent, io.EOF
+	}
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
 		return ent, io.EOF
 	}
 
+	// when the container promises more entries, running out of input isn't the
+	// end of the data
+	defer func() {
+		if err == io.EOF && r.length != 0 {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
@@ -162,12 +173,12 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 		return t, indefiniteLength, err
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.readLength(b)
 	if err != nil {
 		return 0, 0, err
 	}
 
-	return t, int(length), nil
+	return t, length, nil
 }
 
 // readStringKey reads a key for a map from the input stream
@@ -181,12 +192,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 		return "", fmt.Errorf("expected string for key")
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.readLength(b)
 	if err != nil {
 		return "", err
 	}
 
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return "", err
 	}
@@ -294,30 +305,40 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return buff, nil
 		case cborBaseArray:
-			length, err := r.getVarLenInt(b)
+			length, err := r.readLength(b)
 			if err != nil {
 				return nil, err
 			}
-			array, err := r.readArray(int(length))
+			array, err := r.readArray(length)
 			if err != nil {
 				return nil, err
 			}
 			return array, nil
 		case cborBaseMap:
-			length, err := r.getVarLenInt(b)
+			length, err := r.readLength(b)
 			if err != nil {
 				return nil, err
 			}
-			assoc, err := r.readMap(int(length))
+			assoc, err := r.readMap(length)
 			if err != nil {
 				return nil, err
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
+			// tags annotate the value that follows, which is read as-is
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
+			return r.readValue()
 		case cborBaseSimple:
-			// TODO: Implement me
+			if b > cborBdFloat64 {
+				return nil, fmt.Errorf("unknown cbor tag: %v", b)
+			}
+			if b == cborBdExt {
+				if _, err := r.readBytes(1); err != nil {
+					return nil, err
+				}
+			}
 			return nil, nil
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
@@ -340,11 +361,11 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 
 // readLengthPrefixedBytes returns a number of bytes prefixed by the number of bytes to read
 func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
-	length, err := r.getVarLenInt(b)
+	length, err := r.readLength(b)
 	if err != nil {
 		return nil, err
 	}
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return nil, err
 	}
@@ -353,12 +374,7 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 
 // readArray reads an array of the given length
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
-	var array []interface{}
-	if length > 0 {
-		array = make([]interface{}, 0, length)
-	} else {
-		array = make([]interface{}, 0)
-	}
+	array := make([]interface{}, 0)
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
 			break
@@ -466,15 +482,27 @@ func float16frombits(b uint16) float64 {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
+	// grow as bytes arrive, the declared length can't be trusted
+	buff := bytes.Buffer{}
+	if _, err := io.CopyN(&buff, r.rdr, int64(num)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
-	_, err = r.rdr.Discard(num)
+	return buff.Bytes(), nil
+}
+
+// readLength reads the length of a string or container
+func (r *CBORReader) readLength(b byte) (int, error) {
+	length, err := r.getVarLenInt(b)
 	if err != nil {
-		return nil, err
+		return 0, err
 	}
-	return buff, nil
+	if length < 0 {
+		return 0, fmt.Errorf("length out of range: %d", uint64(length))
+	}
+	return int(length), nil
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From cf57f9b69eb7ee577f311f965da20bed4421f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 05/50] fix: limit nesting depth in JSON & CBOR readers

A few megabytes of opening brackets overflowed the stack, which ends the
process and can't be recovered.
---
 dsio/cbor.go | 7 +++++++
 dsio/dsio.go | 6 ++++++
 dsio/json.go | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 515477a..92221a0 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -20,6 +20,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	opened   bool
+	depth    int
 	length   int
 }
 
@@ -207,6 +208,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 
 // readValue reads a value of any type from the input stream
 func (r *CBORReader) readValue() (interface{}, error) {
+	r.depth++
+	defer func() { r.depth-- }()
+	if r.depth > maxDepth {
+		return nil, errMaxDepth
+	}
+
 	b, err := r.rdr.ReadByte()
 	if err != nil {
 		return nil, err
diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..17c371d 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -14,6 +14,12 @@ import (
 
 var log = logger.Logger("dsio")
 
+// maxDepth is the deepest nesting of values readers accept, the same limit
+// encoding/json uses
+const maxDepth = 10000
+
+var errMaxDepth = fmt.Errorf("exceeded max depth")
+
 // EntryWriter is a generalized interface for writing structured data
 type EntryWriter interface {
 	// Structure gives the structure being written
diff --git a/dsio/json.go b/dsio/json.go
index 30aef67..2cfdae1 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -25,6 +25,7 @@ type JSONReader struct {
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
+	depth       int          // nesting depth of the value being read
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -177,6 +178,12 @@ func (r *JSONReader) peekNextChar() byte {
 }
 
 func (r *JSONReader) readValue() (interface{}, error) {
+	r.depth++
+	defer func() { r.depth-- }()
+	if r.depth > maxDepth {
+		return nil, errMaxDepth
+	}
+
 	b := r.peekNextChar()
 	switch b {
 	case 'n':
-- 
2.43.0


From ca870d6f5d24699d4eae10fe981db0b763897cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:52 +0000
Subject: [PATCH 06/50] fix: NDJSON reader drops a last line that has no
 newline

---
 dsio/ndjson.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..64838a2 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -57,7 +57,8 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	// the last line may not end in a newline
+	if err != nil && !(err == io.EOF && len(line) > 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From ea1282cf22a0c408a389c5c4f427366165976a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 07/50] fix: ConvertFile returns partial data when reading or
 writing an entry fails

---
 dsio/dsio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 17c371d..bbb4f90 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -226,7 +226,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err = Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From cf8c92d173b9fcb26ab8ed14f62985febcee900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 08/50] fix: CSV writer reports failed writes and values it
 can't encode

A write error surfacing when buffered rows are flushed on Close was dropped,
and values with no CSV encoding were written as empty cells.
---
 dsio/csv.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..32b2dc1 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -261,13 +261,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -276,6 +280,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("unrecognized encoding type: %T", v)
 		}
 	}
 
@@ -286,6 +292,9 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
 	if w.close != nil {
 		return w.close()
 	}
-- 
2.43.0


From ce4483a47a0f28e810315ca42ff6b6a77fd01453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 09/50] fix: CSV writer loses rows made of a single empty cell

---
 dsio/csv.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dsio/csv.go b/dsio/csv.go
index 32b2dc1..e524c92 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -177,6 +177,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	dst         io.Writer // destination of w
 	st          *dataset.Structure
 	close       func() error
 
@@ -214,6 +215,7 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		dst:   cw,
 		types: types,
 		close: close,
 	}
@@ -240,6 +242,16 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		if len(strs) == 1 && strs[0] == "" {
+			// encoding/csv writes a single empty field as a blank line, which
+			// readers skip. quote it to keep the row
+			w.w.Flush()
+			if err := w.w.Error(); err != nil {
+				return err
+			}
+			_, err := io.WriteString(w.dst, "\"\"\n")
+			return err
+		}
 		return w.w.Write(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
-- 
2.43.0


From abcbeb9b924e7a0b19a40d82b0d540814c5e4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 10/50] fix: AbstractColumnName gives two columns the same name

Columns 676 and 702 were both named "aaa", as were other pairs above 676.
---
 structure.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/structure.go b/structure.go
index f441ebf..a96f8f7 100644
--- a/structure.go
+++ b/structure.go
@@ -344,21 +344,8 @@ const b26chars = "abcdefghijklmnopqrstuvwxyz"
 // to letters, using repeating characters to handle values
 // greater than 26
 func base26(d int) (s string) {
-	var cols []int
-	if d == 0 {
-		return "a"
-	}
-
-	for d != 0 {
-		cols = append(cols, d%26)
-		d = d / 26
-	}
-	for i := len(cols) - 1; i >= 0; i-- {
-		if i != 0 && cols[i] > 0 {
-			s += string(b26chars[cols[i]-1])
-		} else {
-			s += string(b26chars[cols[i]])
-		}
+	for ; d >= 0; d = d/26 - 1 {
+		s = string(b26chars[d%26]) + s
 	}
 	return s
 }
-- 
2.43.0


From 0907eddb88dd804378712ada7f8832fd7502185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 11/50] fix: replacecr misses a lone carriage return at the end
 of a read

A CSV body with \r line endings lost the row break wherever a \r fell on the
last byte of the caller's buffer.
---
 dsio/replacecr/replace_cr.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..5ac3b0a 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,10 +32,12 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// a \n that didn't fit in the last read
+	pending bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
@@ -46,17 +48,23 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		if c.pending {
+			c.pending = false
+			p[n] = '\n'
+			n++
+			continue
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
+		// any time we encounter \r, check to see if \n follows
+		// if next char is not \n, add it in manually
+		if p[n] == '\r' {
 			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+				c.pending = true
 			}
 		}
 
-- 
2.43.0


From ac6e0f65927ee79cafe5f53e8b9ae12054d04442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 12/50] fix: CSVOptions.Map gives a separator NewCSVOptions
 can't read back

---
 data_format_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..ae265ef 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -111,7 +111,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From 8f79d35e6a5d2506b5721e0a50d85165116ef509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 13/50] fix: a column with an empty list of types panics CSV &
 XLSX readers and writers

Such a column has no usable type, so it now defaults to string like a column
with no type at all.
---
 tabular/tabular.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..4627d53 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -175,9 +175,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 					cols[i].Title = title
 				}
 			case "type":
-				setType = true
 				switch x := val.(type) {
 				case string:
+					setType = true
 					cols[i].Type = &ColType{x}
 				case []interface{}:
 					types := ColType{}
@@ -186,7 +186,10 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
-					cols[i].Type = &types
+					if len(types) > 0 {
+						setType = true
+						cols[i].Type = &types
+					}
 				}
 			case "description":
 				if d, ok := val.(string); ok {
-- 
2.43.0


From fd0fd8b95c362bb7ddc291d7debb9d6c74dfe009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 14/50] fix: IdentityReader can block forever or yield an extra
 entry at the end

The end of data was signalled with an unsynchronized flag, racing with readers
already waiting for the next entry. Close the channel instead.
---
 dsio/identity.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..c87c378 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,17 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
-
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +60,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +73,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From 10e0450a8a3981f53edad122c46e27f4084595db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 15/50] fix: structure with a path but no schema or encoding
 loses its other fields in JSON

Format, compression, entry count & the rest were dropped in favour of the path.
---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index a96f8f7..7f25c30 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From f9de8bbb2c0deacf4f0af801837a481c6df74c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 16/50] fix: arbitrary metadata is lost or duplicated by JSON
 encoding

A meta component holding only a path and arbitrary fields encoded to its path,
keys named data, image, keyword, length & timestamp were dropped on decoding,
and keywords were kept twice, so removing them later had no effect.
---
 meta.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/meta.go b/meta.go
index e648efc..635a1f6 100644
--- a/meta.go
+++ b/meta.go
@@ -91,7 +91,8 @@ func (md *Meta) IsEmpty() bool {
 		md.ReadmeURL == "" &&
 		md.Title == "" &&
 		md.Theme == nil &&
-		md.Version == ""
+		md.Version == "" &&
+		len(md.meta) == 0
 }
 
 // NewMetaRef creates a Meta pointer with the internal
@@ -399,21 +400,17 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"accrualPeriodicity",
 		"citations",
 		"contributors",
-		"data",
 		"description",
 		"downloadURL",
 		"homeURL",
 		"identifier",
-		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-		"length",
 		"license",
 		"readmeURL",
 		"theme",
-		"timestamp",
 		"title",
 		"version",
 	} {
-- 
2.43.0


From 58e94c0358a45c36a5e69fa4b5cd86457806d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 17/50] fix: JSON encoding modifies the encoded document and
 drops fields

Encoding a dataset, readme or viz set the document's qri field, a data race
when the same document is encoded concurrently. Encoded readme & viz objects
had no path, and a dataset with a path and a version count encoded to its path.
---
 dataset.go |  8 +++++---
 readme.go  | 13 ++++++++-----
 viz.go     | 13 ++++++++-----
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..babe7bd 100644
--- a/dataset.go
+++ b/dataset.go
@@ -102,6 +102,7 @@ func (ds *Dataset) IsEmpty() bool {
 		ds.ID == "" &&
 		ds.Meta == nil &&
 		ds.Name == "" &&
+		ds.NumVersions == 0 &&
 		ds.Peername == "" &&
 		ds.PreviousPath == "" &&
 		ds.ProfileID == "" &&
@@ -436,11 +437,12 @@ func (ds *Dataset) MarshalJSON() ([]byte, error) {
 	if ds.Path != "" && ds.IsEmpty() {
 		return json.Marshal(ds.Path)
 	}
-	if ds.Qri == "" {
-		ds.Qri = KindDataset.String()
+	d := _dataset(*ds)
+	if d.Qri == "" {
+		d.Qri = KindDataset.String()
 	}
 
-	return json.Marshal(_dataset(*ds))
+	return json.Marshal(d)
 }
 
 // internal struct for json unmarshaling
diff --git a/readme.go b/readme.go
index e8a4685..ce4c97e 100644
--- a/readme.go
+++ b/readme.go
@@ -197,10 +197,6 @@ func (r *Readme) MarshalJSON() ([]byte, error) {
 	if r.Path != "" && r.IsEmpty() {
 		return json.Marshal(r.Path)
 	}
-	if r.Qri == "" {
-		r.Qri = KindReadme.String()
-	}
-
 	return r.MarshalJSONObject()
 }
 
@@ -246,8 +242,15 @@ func UnmarshalReadme(v interface{}) (*Readme, error) {
 // MarshalJSONObject always marshals to a json Object, even if Readme is empty or
 // a reference
 func (r *Readme) MarshalJSONObject() ([]byte, error) {
+	kind := r.Qri
+	if kind == "" {
+		kind = KindReadme.String()
+	}
 	data := map[string]interface{}{
-		"qri": r.Qri,
+		"qri": kind,
+	}
+	if r.Path != "" {
+		data["path"] = r.Path
 	}
 
 	if r.Format != "" {
diff --git a/viz.go b/viz.go
index 13d34d1..216dbc4 100644
--- a/viz.go
+++ b/viz.go
@@ -200,10 +200,6 @@ func (v *Viz) MarshalJSON() ([]byte, error) {
 	if v.Path != "" && v.IsEmpty() {
 		return json.Marshal(v.Path)
 	}
-	if v.Qri == "" {
-		v.Qri = KindViz.String()
-	}
-
 	return v.MarshalJSONObject()
 }
 
@@ -248,8 +244,15 @@ func UnmarshalViz(v interface{}) (*Viz, error) {
 // MarshalJSONObject always marshals to a json Object, even if Viz is empty or
 // a reference
 func (v *Viz) MarshalJSONObject() ([]byte, error) {
+	kind := v.Qri
+	if kind == "" {
+		kind = KindViz.String()
+	}
 	data := map[string]interface{}{
-		"qri": v.Qri,
+		"qri": kind,
+	}
+	if v.Path != "" {
+		data["path"] = v.Path
 	}
 
 	if v.Format != "" {
-- 
2.43.0


From 38d5503d81244dd6636664640117c78ef843184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 18/50] fix: Dataset.Assign modifies the datasets it merges
 from

Assigning two datasets onto an empty one shared the first's components with
the receiver, so merging the second wrote into the first.
---
 dataset.go | 52 ++++++++++++++++++++++++++++------------------------
 readme.go  |  3 +++
 viz.go     |  3 +++
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/dataset.go b/dataset.go
index babe7bd..541b857 100644
--- a/dataset.go
+++ b/dataset.go
@@ -370,17 +370,19 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.BodyPath = d.BodyPath
 		}
 
-		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
+		if d.Commit != nil {
+			if ds.Commit == nil {
+				ds.Commit = &Commit{}
+			}
 			ds.Commit.Assign(d.Commit)
 		}
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
-		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
+		if d.Meta != nil {
+			if ds.Meta == nil {
+				ds.Meta = &Meta{}
+			}
 			ds.Meta.Assign(d.Meta)
 		}
 		if d.Name != "" {
@@ -398,34 +400,36 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
-		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
+		if d.Stats != nil {
+			if ds.Stats == nil {
+				ds.Stats = &Stats{}
+			}
 			ds.Stats.Assign(d.Stats)
 		}
-		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
+		if d.Structure != nil {
+			if ds.Structure == nil {
+				ds.Structure = &Structure{}
+			}
 			ds.Structure.Assign(d.Structure)
 		}
-		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
+		if d.Transform != nil {
+			if ds.Transform == nil {
+				ds.Transform = &Transform{}
+			}
 			ds.Transform.Assign(d.Transform)
 		}
-		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
+		if d.Viz != nil {
+			if ds.Viz == nil {
+				ds.Viz = &Viz{}
+			}
 			ds.Viz.Assign(d.Viz)
 		}
-		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
+		if d.Readme != nil {
+			if ds.Readme == nil {
+				ds.Readme = &Readme{}
+			}
 			ds.Readme.Assign(d.Readme)
 		}
-
-		// TODO - wut dis?
-		ds.Commit.Assign(d.Commit)
 	}
 }
 
diff --git a/readme.go b/readme.go
index ce4c97e..00cf126 100644
--- a/readme.go
+++ b/readme.go
@@ -187,6 +187,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.RenderedPath != "" {
 			r.RenderedPath = rs.RenderedPath
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 	}
 }
 
diff --git a/viz.go b/viz.go
index 216dbc4..8fc4301 100644
--- a/viz.go
+++ b/viz.go
@@ -187,6 +187,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.RenderedPath != "" {
 			v.RenderedPath = vs.RenderedPath
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 	}
 }
 
-- 
2.43.0


From 40fcbdb228b63dff2b3906772cc2e6c0c3d9ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 19/50] fix: numeric stats report wrong min or max for values
 beyond 64 bit integers

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..c3ab674 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -313,8 +314,8 @@ var _ accumulator = (*numericAcc)(nil)
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
 		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
+		max:    math.Inf(-1),
+		min:    math.Inf(1),
 		median: maxFloat,
 		// use histogram to accumulate values
 		histogram: []float64{},
-- 
2.43.0


From 0b19e6c01fa7bca9903f604703e1e6d2ffdac052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 20/50] fix: histogram sketch miscounts merged centroids

Merged centroids are flagged with a negative count, which leaked into the
frequencies of a histogram and the total of a decoded sketch. Merging two
sketches took min & max from centroids instead of the sketches.
---
 dsstats/histosketch/histosketch.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..4e10b2d 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,8 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
@@ -272,7 +274,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
@@ -403,7 +405,7 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From cbe0eef7aab1ddb09ac0ba1494cdda81acf55130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 21/50] fix: JSON schema detection examines bytes that were
 never read

A read shorter than the buffer was scanned with its zeroed or stale tail, so
leading whitespace delivered in small reads failed as invalid JSON.
---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index e94d5e9..83a4e12 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return dataset.BaseSchemaArray, n, nil
-- 
2.43.0


From 30c27557c875f4789c01ec9310da4c7046348194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 22/50] fix: detected structures share one global schema

Changing the schema of one detected structure changed dataset.BaseSchemaArray,
and with it every structure detected before or after.
---
 detect/cbor.go | 4 ++--
 detect/json.go | 6 +++---
 detect/xlsx.go | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/detect/cbor.go b/detect/cbor.go
index 278cab5..4a5b836 100644
--- a/detect/cbor.go
+++ b/detect/cbor.go
@@ -29,9 +29,9 @@ func CBORSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 	switch {
 	case bd >= cborBaseArray && bd < cborBaseMap, bd == cborBdIndefiniteArray:
-		return dataset.BaseSchemaArray, n, nil
+		return map[string]interface{}{"type": "array"}, n, nil
 	case bd >= cborBaseMap && bd < cborBaseTag, bd == cborBdIndefiniteMap:
-		return dataset.BaseSchemaObject, n, nil
+		return map[string]interface{}{"type": "object"}, n, nil
 	default:
 		err = fmt.Errorf("invalid top-level type for CBOR data. cbor datasets must begin with either an array or map")
 		log.Debugf(err.Error())
diff --git a/detect/json.go b/detect/json.go
index 83a4e12..a1ad034 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -40,9 +40,9 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 		for _, b := range buf[:count] {
 			switch b {
 			case '[':
-				return dataset.BaseSchemaArray, n, nil
+				return map[string]interface{}{"type": "array"}, n, nil
 			case '{':
-				return dataset.BaseSchemaObject, n, nil
+				return map[string]interface{}{"type": "object"}, n, nil
 			case ' ', '\t', '\n', '\r':
 				continue
 			default:
@@ -55,5 +55,5 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 // NDJSONSchema returns an array identity schema
 func NDJSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return map[string]interface{}{"type": "array"}, 0, nil
 }
diff --git a/detect/xlsx.go b/detect/xlsx.go
index 3c0310a..b1193d0 100644
--- a/detect/xlsx.go
+++ b/detect/xlsx.go
@@ -9,5 +9,5 @@ import (
 // XLSXSchema determines any schema information for an excel spreadsheet
 // TODO (b5): currently unimplemented
 func XLSXSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return map[string]interface{}{"type": "array"}, 0, nil
 }
-- 
2.43.0


From 8d9ad6e7b062db4074be1245bced441ec513341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 23/50] fix: structure detection reads compressed bodies
 without decompressing them

---
 detect/determineFields.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 3f8b3fd..820b004 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/qri-io/dataset"
+	"github.com/qri-io/dataset/compression"
 	"github.com/qri-io/dataset/dsio"
 	"github.com/qri-io/dataset/dsio/replacecr"
 	"github.com/qri-io/dataset/vals"
@@ -28,6 +29,15 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 		return
 	}
 
+	if r.Compression != "" && r.DataFormat() != dataset.XLSXDataFormat && r.DataFormat() != dataset.NDJSONDataFormat {
+		rc, err := compression.Decompressor(r.Compression, data)
+		if err != nil {
+			return nil, 0, err
+		}
+		defer rc.Close()
+		data = rc
+	}
+
 	switch r.DataFormat() {
 	case dataset.CBORDataFormat:
 		return CBORSchema(r, data)
-- 
2.43.0


From 41fb365958f5380a8ee0b094f294e89ae6596620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 24/50] fix: failed structure detection loses the start of the
 dataset body

---
 detect/detect.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..bd7f739 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -55,6 +55,16 @@ func Structure(ds *dataset.Dataset) error {
 	}
 
 	guessedStructure, _, err := FromReader(df, comp, tr)
+
+	// glue whatever we just read back onto the reader
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	size := int64(-1)
+	if sizef, ok := body.(qfs.SizeFile); ok {
+		size = sizef.Size()
+	}
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+
 	if err != nil {
 		log.Debug(err.Error())
 		return fmt.Errorf("determining dataset structure: %w", err)
@@ -77,14 +87,6 @@ func Structure(ds *dataset.Dataset) error {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
 
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From 5670be662414adbff11952f357c0fcb5f418c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 25/50] fix: rendering body entries loses the rest of the body

The body file was restored from only the bytes read so far, cutting off bodies
larger than the read buffer when fewer entries than the whole body were asked
for, and was not restored at all when an entry failed to read.
---
 dsviz/render.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..67e16d6 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -161,8 +161,17 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, dataset.ErrNoBody
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+
+	defer func() {
+		// restore body file, which may not have been read to the end
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
+
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
@@ -176,17 +185,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		}
 	}
 
-	bodyEntries, err := readEntries(rr)
-	if err != nil {
-		return nil, err
-	}
-
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
-	return bodyEntries, nil
+	return readEntries(rr)
 }
 
 // readEntries reads entries and returns them as a native go array or map
-- 
2.43.0


From ed1e0d34d4819916d365661f9279906c6173483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:47 +0000
Subject: [PATCH 26/50] fix: a failed preview loses the start of the body, or
 panics without a structure

---
 preview/preview.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..78a19fb 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -77,6 +77,10 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: body without a structure")
+			return nil, fmt.Errorf("structure is required to preview a body")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
@@ -92,13 +96,13 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		}
 
 		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 		if err != nil {
 			log.Debugw("converting body file", "err", err.Error())
 			return nil, err
 		}
 
 		ds.Body = json.RawMessage(data)
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
-- 
2.43.0


From 457aa91af48fa7e363ce739636b3bb7cdbb320de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 27/50] fix: stepfile.Write ignores a failure to write a step
 separator

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 3d94b360d017342e31a97acc74eb42b7d32c3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 28/50] fix: validation error paths restart from zero every
 5000 entries

---
 validate/data.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..891a4e0 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,9 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+// flushBatch validates buffered entries, offset is the number of entries that
+// came before this batch
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, offset int, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
 	if len(buf.Bytes()) == 0 {
 		return nil
 	}
@@ -26,11 +30,31 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
-	*errs = append(*errs, *validationState.Errs...)
+	_, isArray := doc.([]interface{})
+	for _, keyErr := range *validationState.Errs {
+		if isArray {
+			keyErr.PropertyPath = offsetPath(keyErr.PropertyPath, offset)
+		}
+		*errs = append(*errs, keyErr)
+	}
 
 	return nil
 }
 
+// offsetPath adds offset to the array index a property path starts with
+func offsetPath(path string, offset int) string {
+	segs := strings.SplitN(path, "/", 3)
+	if len(segs) < 2 || segs[0] != "" {
+		return path
+	}
+	i, err := strconv.Atoi(segs[1])
+	if err != nil {
+		return path
+	}
+	segs[1] = strconv.Itoa(i + offset)
+	return strings.Join(segs, "/")
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -53,16 +77,20 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error allocating data buffer: %s", err.Error())
 	}
 
+	// number of entries in batches that have already been validated
+	offset := 0
+
 	err = dsio.EachEntry(r, func(i int, ent dsio.Entry, err error) error {
 		if err != nil {
 			return fmt.Errorf("error reading row %d: %s", i, err.Error())
 		}
 
 		if i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, offset, jsch, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
+			offset = i
 			var bufErr error
 			buf, bufErr = dsio.NewEntryBuffer(&dataset.Structure{
 				Format: "json",
@@ -85,7 +113,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, offset, jsch, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 713e48f0d0ae1657f591522beb20b7201826bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 29/50] fix: corrupt XLSX body exits the process

---
 dsio/xlsx.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index b0a2117..2b1c9eb 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -1,9 +1,12 @@
 package dsio
 
 import (
+	"archive/zip"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strconv"
 
 	"github.com/360EntSecGroup-Skylar/excelize"
@@ -44,7 +47,7 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 		types: types,
 	}
 
-	rdr.file, rdr.err = excelize.OpenReader(r)
+	rdr.file, rdr.err = openXLSX(r)
 	if rdr.err != nil {
 		return rdr, rdr.err
 	}
@@ -65,6 +68,32 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 	return rdr, rdr.err
 }
 
+// openXLSX opens a spreadsheet, checking the zip archive it's made of first:
+// excelize exits the process when a file in the archive can't be opened, and
+// ignores errors reading it
+func openXLSX(r io.Reader) (*excelize.File, error) {
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
+	if err != nil {
+		return nil, err
+	}
+	for _, f := range zr.File {
+		rc, err := f.Open()
+		if err != nil {
+			return nil, fmt.Errorf("opening %q: %w", f.Name, err)
+		}
+		_, err = io.Copy(ioutil.Discard, rc)
+		rc.Close()
+		if err != nil {
+			return nil, fmt.Errorf("reading %q: %w", f.Name, err)
+		}
+	}
+	return excelize.OpenReader(bytes.NewReader(data))
+}
+
 // Structure gives this reader's structure
 func (r *XLSXReader) Structure() *dataset.Structure {
 	return r.st
-- 
2.43.0


From 1f4ffe75f2a044953e8e9fb7fb495701b7ec3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:00 +0000
Subject: [PATCH 30/50] fix: XLSX reader panics on a cell outside of its row

excelize indexes past the end of a row when a cell's reference names a
column beyond it. Report damaged sheets as errors.
---
 dsio/xlsx.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index 2b1c9eb..b211931 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -62,7 +62,10 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 	}
 
 	if rdr.err == nil {
-		rdr.r, rdr.err = rdr.file.Rows(rdr.sheetName)
+		rdr.err = catchXLSX(func() (err error) {
+			rdr.r, err = rdr.file.Rows(rdr.sheetName)
+			return err
+		})
 	}
 
 	return rdr, rdr.err
@@ -91,7 +94,23 @@ func openXLSX(r io.Reader) (*excelize.File, error) {
 			return nil, fmt.Errorf("reading %q: %w", f.Name, err)
 		}
 	}
-	return excelize.OpenReader(bytes.NewReader(data))
+	var file *excelize.File
+	err = catchXLSX(func() (err error) {
+		file, err = excelize.OpenReader(bytes.NewReader(data))
+		return err
+	})
+	return file, err
+}
+
+// catchXLSX calls into excelize, which panics on sheets that don't make sense,
+// giving an error instead
+func catchXLSX(f func() error) (err error) {
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("invalid xlsx data: %v", p)
+		}
+	}()
+	return f()
 }
 
 // Structure gives this reader's structure
@@ -107,7 +126,14 @@ func (r *XLSXReader) ReadEntry() (Entry, error) {
 	if !r.r.Next() {
 		return Entry{}, io.EOF
 	}
-	cols := r.r.Columns()
+	var cols []string
+	r.err = catchXLSX(func() error {
+		cols = r.r.Columns()
+		return nil
+	})
+	if r.err != nil {
+		return Entry{}, r.err
+	}
 	vals, err := r.decode(cols)
 	if err != nil {
 		return Entry{}, err
-- 
2.43.0


From 49cd708a554af7e319eae577eb1f8af9bc5eecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 31/50] fix: Meta.Assign shares or wipes additional fields

Assign took over the map of additional fields of its argument, so that a
later Set on the result changed the argument as well. An argument without
additional fields removed those of the receiver, but only if it had been
encoded before.
---
 meta.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta.go b/meta.go
index 635a1f6..101c93b 100644
--- a/meta.go
+++ b/meta.go
@@ -244,8 +244,8 @@ func (md *Meta) Assign(metas ...*Meta) {
 			continue
 		}
 
-		if m.meta != nil {
-			md.meta = m.meta
+		if len(m.meta) > 0 {
+			md.meta = m.Meta()
 		}
 
 		if m.AccessURL != "" {
-- 
2.43.0


From f7591d87634f62b6c8f5fb4cd13838bbb1bedb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 32/50] fix: Meta.Set clears a field when it's given an invalid
 value

---
 meta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/meta.go b/meta.go
index 101c93b..9e48abd 100644
--- a/meta.go
+++ b/meta.go
@@ -151,6 +151,13 @@ func strSliceVal(val interface{}) (s []string, err error) {
 // Set writes value to key in metadata, erroring if the type is invalid
 // input values are expected to be json.Unmarshal types
 func (md *Meta) Set(key string, val interface{}) (err error) {
+	// a value that isn't valid leaves meta as it was
+	prev := *md
+	defer func() {
+		if err != nil {
+			*md = prev
+		}
+	}()
 
 	switch strings.TrimSpace(strings.ToLower(key)) {
 	// string meta fields
-- 
2.43.0


From 51176a6487107b64eb5d064ea0a8b50c9f267fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:43 +0000
Subject: [PATCH 33/50] fix: vals.ParseType treats numbers beyond float32 as
 numbers

---
 vals/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 8b7fbee..efeadef 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,7 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 32); e != nil {
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From 45b8b84263e8c85689d7cbdf1bad877d9d460005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:22 +0000
Subject: [PATCH 34/50] fix: dsviz.Render panics without a script file and
 loses file paths

A viz component without an open script file ended in a nil dereference. The
script and body files put back in place had lost the directories of their
path, and a script that could not be read to its end was not put back.
---
 dsviz/render.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 67e16d6..3dc2aac 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,19 +37,23 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("viz component has no script file")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-	teedVizScriptFile := qfs.NewMemfileReader(script.FileName(), tr)
+	teedVizScriptFile := qfs.NewMemfileReader(script.FullPath(), tr)
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
+
+	// restore consumed script file
+	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FullPath(), io.MultiReader(vizScriptBuf, script)))
+
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
 
-	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))
-
 	vizDs, err := vizDataset(ds)
 	if err != nil {
 		return nil, err
@@ -169,7 +173,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	defer func() {
 		// restore body file, which may not have been read to the end
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FullPath(), io.MultiReader(bodyBytesBuf, bodyFile)))
 	}()
 
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
-- 
2.43.0


From 1fdddddab5f916f45808cd5c5fca3e4b81071696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:22 +0000
Subject: [PATCH 35/50] fix: preview.Create loses the start of a readme that
 fails to read

---
 preview/preview.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 78a19fb..5a1ec02 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -64,6 +64,7 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		tr := io.TeeReader(f, buf)
 
 		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
@@ -72,8 +73,6 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 			content = append(content, []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
-
-		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 	}
 
 	if ds.BodyFile() != nil {
-- 
2.43.0


From 80955b19c61ef310ffd53e496bb45e8e241383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:39 +0000
Subject: [PATCH 36/50] fix: vals.Equal tells arrays & objects apart that hold
 the same values

---
 vals/compare.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/vals/compare.go b/vals/compare.go
index e5996a2..caf76d3 100644
--- a/vals/compare.go
+++ b/vals/compare.go
@@ -3,17 +3,41 @@ package vals
 import (
 	"bytes"
 	"fmt"
-	"reflect"
 )
 
 // Equal checks if two Values are the same
 func Equal(a, b Value) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
 	if a.Type() != b.Type() {
 		return false
 	}
 	switch a.Type() {
-	case TypeObject, TypeArray:
-		return reflect.DeepEqual(a, b)
+	case TypeObject:
+		if len(a.Keys()) != len(b.Keys()) {
+			return false
+		}
+		keys := map[string]struct{}{}
+		for _, key := range b.Keys() {
+			keys[key] = struct{}{}
+		}
+		for _, key := range a.Keys() {
+			if _, ok := keys[key]; !ok || !Equal(a.MapIndex(key), b.MapIndex(key)) {
+				return false
+			}
+		}
+		return true
+	case TypeArray:
+		if a.Len() != b.Len() {
+			return false
+		}
+		for i := 0; i < a.Len(); i++ {
+			if !Equal(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
 	case TypeNumber:
 		return a.Number() == b.Number()
 	case TypeInteger:
-- 
2.43.0


From 912599da1c04a71a9129aacbf6eb58790d230101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:43 +0000
Subject: [PATCH 37/50] fix: vals.ValueToString rejects integers that
 Type.Parse gives

---
 vals/type.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index efeadef..870c632 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -167,12 +167,15 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 		}
 		str = s
 	case TypeInteger:
-		num, ok := value.(int)
-		if !ok {
+		switch num := value.(type) {
+		case int:
+			str = strconv.FormatInt(int64(num), 10)
+		case int64:
+			str = strconv.FormatInt(num, 10)
+		default:
 			err = fmt.Errorf("%v is not an %s value", value, dt.String())
 			return
 		}
-		str = strconv.FormatInt(int64(num), 10)
 	case TypeNumber:
 		num, ok := value.(float64)
 		if !ok {
-- 
2.43.0


From 4b866d3abf5f74f4b614fc1d72779df3275109ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 38/50] fix: vals decode null, numbers & booleans with
 whitespace around, and integers beyond 64 bits

---
 vals/coding.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index cda5509..1b57232 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -1,8 +1,10 @@
 package vals
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 )
 
 // ConvertDecoded converts an interface that has been decoded into standard go types to a Value
@@ -19,6 +21,9 @@ func ConvertDecoded(d interface{}) (Value, error) {
 	case uint32:
 		return Integer(v), nil
 	case uint64:
+		if v > math.MaxInt64 {
+			return Number(v), nil
+		}
 		return Integer(v), nil
 	case float64:
 		return Number(v), nil
@@ -70,6 +75,7 @@ func ConvertDecoded(d interface{}) (Value, error) {
 
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
+	data = bytes.Trim(data, " \t\r\n")
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
@@ -79,6 +85,12 @@ func UnmarshalJSON(data []byte) (v Value, err error) {
 		s := String("")
 		v = &s
 	case TypeInteger:
+		if _, err := ParseInteger(data); err != nil {
+			// integers that don't fit 64 bits are read as numbers
+			n := Number(0)
+			v = &n
+			break
+		}
 		i := Integer(0)
 		v = &i
 	case TypeNumber:
-- 
2.43.0


From 5832faeff146d8d364f1f3227e379e8c36aa1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:54 +0000
Subject: [PATCH 39/50] fix: vals.IsInteger accepts anything that starts with
 more digits than an integer can have

---
 vals/type.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 870c632..0b9cd97 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -278,8 +278,11 @@ func IsInteger(value []byte) bool {
 	if value[0] == '[' || value[0] == '{' || !bytes.ContainsAny(value[0:1], "-+0123456789") {
 		return false
 	}
-	if _, err := ParseInteger(value); err == nil || err.(*strconv.NumError).Err == strconv.ErrRange {
+	if _, err := ParseInteger(value); err == nil {
 		return true
+	} else if err.(*strconv.NumError).Err == strconv.ErrRange {
+		// the range is exceeded before all of value is looked at
+		return len(bytes.Trim(value[1:], "0123456789")) == 0
 	}
 	return false
 }
-- 
2.43.0


From 22c7ba4fe7f4a94ad0786b07dd68262f6278da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 40/50] fix: generated booleans are always true

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From d81ed64f00a830527397d11262f7a62b38e9fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:07 +0000
Subject: [PATCH 41/50] fix: a column with an empty list of types fails to
 encode

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index 4627d53..79cc0f5 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -91,7 +91,7 @@ func (ct ColType) HasType(t string) bool {
 func (ct ColType) MarshalJSON() ([]byte, error) {
 	switch len(ct) {
 	case 0:
-		return nil, nil
+		return []byte("[]"), nil
 	case 1:
 		return json.Marshal(ct[0])
 	default:
-- 
2.43.0


From f589d475585cba19779acdeb0095bb6d6e193d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:37 +0000
Subject: [PATCH 42/50] fix: the error for object-wrapped columns is not an
 ErrInvalidTabularSchema

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index 79cc0f5..fdae3c8 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -215,5 +215,5 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 }
 
 func objectWrapperColumns(sch map[string]interface{}) (Columns, []string, error) {
-	return nil, nil, fmt.Errorf("unfinished")
+	return nil, nil, fmt.Errorf("%w: unfinished", ErrInvalidTabularSchema)
 }
-- 
2.43.0


From 9db6ed5de6a48a6366b2bcc64486f03496096178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:51 +0000
Subject: [PATCH 43/50] fix: a diff of equal components panics when it is
 summarized or encoded

---
 dsdiff/dsdiff.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dsdiff/dsdiff.go b/dsdiff/dsdiff.go
index 8acbe3f..f7a647e 100644
--- a/dsdiff/dsdiff.go
+++ b/dsdiff/dsdiff.go
@@ -17,9 +17,22 @@ type SubDiff struct {
 	a, b []byte
 }
 
+// Deltas gives the differences, there are none when nothing was compared
+func (d *SubDiff) Deltas() []jdiff.Delta {
+	if d == nil || d.Diff == nil {
+		return []jdiff.Delta{}
+	}
+	return d.Diff.Deltas()
+}
+
+// Modified returns true if there is at least one difference
+func (d *SubDiff) Modified() bool {
+	return len(d.Deltas()) > 0
+}
+
 // MarshalJSON marshals the slice of diffs from the SubDiff
 func (d *SubDiff) MarshalJSON() ([]byte, error) {
-	return json.Marshal(d.Diff.Deltas())
+	return json.Marshal(d.Deltas())
 }
 
 // SummarizeToString outputs a substring in a one of a few formats
@@ -34,7 +47,7 @@ func (d *SubDiff) SummarizeToString(how string) (string, error) {
 		color = true
 	}
 	pluralS := ""
-	if d != nil && d.Deltas() != nil && len(d.Deltas()) > 1 {
+	if len(d.Deltas()) > 1 {
 		pluralS = "s"
 	}
 	switch how {
-- 
2.43.0


From 343f12ab83ed2f2b5d479c4609e494a1e238bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 44/50] fix: JSON reader took a value cut by a read error for
 an entry

---
 dsio/json.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 2cfdae1..63ffce1 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -26,6 +26,7 @@ type JSONReader struct {
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
 	depth       int          // nesting depth of the value being read
+	err         error        // error other than io.EOF that ended the data
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -210,6 +211,9 @@ func (r *JSONReader) readValue() (interface{}, error) {
 	case '[':
 		return r.readArray()
 	default:
+		if b == 0 && r.err != nil {
+			return nil, r.err
+		}
 		return nil, nil
 	}
 }
@@ -250,13 +254,20 @@ func (r *JSONReader) extendBuffer(orig []byte) ([]byte, bool) {
 	r.prevSize += size
 	// Clear the reader's buffer, fill it back up.
 	_, _ = r.reader.Discard(size)
-	_, _ = r.reader.Peek(blockSize)
+	_, err := r.reader.Peek(blockSize)
 	size = r.reader.Buffered()
 	if size > 0 {
 		// If successful, append buffers.
 		extend, _ := r.reader.Peek(size)
 		return append(preserve, extend...), true
 	}
+	if err == bufio.ErrBufferFull {
+		// the buffer is smaller than a block
+		_, err = r.reader.Peek(1)
+	}
+	if err != io.EOF {
+		r.err = err
+	}
 	return orig, false
 }
 
@@ -420,6 +431,10 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
+				if r.err != nil {
+					// the number may go on in the data that couldn't be read
+					return nil, r.err
+				}
 				break
 			}
 		}
-- 
2.43.0


From df335d4ea2e0b897dd6f7fd7b798876d14df80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 45/50] fix: loading test cases at the same time crashes

---
 dstest/dstest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 768e5cf..0364d71 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sync"
 
 	logger "github.com/ipfs/go-log"
 	"github.com/jinzhu/copier"
@@ -77,7 +78,10 @@ func DatasetChecksum(ds *dataset.Dataset) string {
 	return hex.EncodeToString(sum[:])
 }
 
-var testCaseCache = make(map[string]TestCase)
+var (
+	testCaseCache   = make(map[string]TestCase)
+	testCaseCacheMu sync.Mutex
+)
 
 // BodyFile creates a new in-memory file from data & filename properties
 func (t TestCase) BodyFile() qfs.File {
@@ -255,7 +259,9 @@ func NewTestCaseFromDir(dir string) (tc TestCase, err error) {
 
 	preserve := TestCase{}
 	copier.Copy(&preserve, &tc)
+	testCaseCacheMu.Lock()
 	testCaseCache[dir] = preserve
+	testCaseCacheMu.Unlock()
 	return
 }
 
-- 
2.43.0


From 98680f0c21d7dc9250b62b6cb92a497f70dd532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 46/50] fix: comparing without transient values kept those of
 the second argument

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From 0d73ad9da62b63493a243695fd986adfcf94e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 47/50] fix: dsgen ignored --rows after its first argument

---
 generate/dsgen/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index 1f1c1b4..3634702 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -32,6 +32,10 @@ func init() {
 func main() {
 	flag.Parse()
 	args := flag.Args()
+	if len(args) > 1 {
+		// the flag package stops at the first argument that isn't a flag
+		flag.CommandLine.Parse(args[1:])
+	}
 
 	if len(args) < 1 {
 		fmt.Println(help)
-- 
2.43.0


From b8af53db72bbaddf374605921598c2947daf98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 48/50] fix: dsgen ignored failures to write

---
 generate/dsgen/main.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index 3634702..3a2562a 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -79,11 +79,14 @@ func generateFile(structurePath string, lines int) error {
 		if err != nil {
 			return err
 		}
-		w.WriteEntry(ent)
+		if err := w.WriteEntry(ent); err != nil {
+			return err
+		}
+	}
+	if err := w.Close(); err != nil {
+		return err
 	}
-	w.Close()
-	gen.Close()
-	return nil
+	return gen.Close()
 }
 
 func writeFixedFile(lines, diffStart int) error {
@@ -109,5 +112,5 @@ func writeFixedFile(lines, diffStart int) error {
 	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From e01e8b9b4d071a56d1a0779edad30ad92bab42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 49/50] fix: replacecr keeps an error met while looking past a
 carriage return

Peek takes the error out of the buffered reader. When the underlying reader
reports it once, and then the end of its data, text cut after a carriage
return read as complete.
---
 dsio/replacecr/replace_cr.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index 5ac3b0a..d58beba 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -34,6 +34,8 @@ type crlfReplaceReader struct {
 	rdr *bufio.Reader
 	// a \n that didn't fit in the last read
 	pending bool
+	// an error met while looking past a \r, given once what precedes it is read
+	err error
 }
 
 // Read implements io.Reader for crlfReplaceReader
@@ -55,6 +57,11 @@ func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 			continue
 		}
 
+		if c.err != nil {
+			err, c.err = c.err, nil
+			return
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
@@ -63,9 +70,14 @@ func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 		// any time we encounter \r, check to see if \n follows
 		// if next char is not \n, add it in manually
 		if p[n] == '\r' {
-			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
+			pk, err := c.rdr.Peek(1)
+			if (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
 				c.pending = true
 			}
+			if err != nil {
+				// Peek has taken the error from the underlying reader
+				c.err = err
+			}
 		}
 
 		n++
-- 
2.43.0


From db5c5eef0c022cf02f6fd3531f18d3f66182e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:55 +0000
Subject: [PATCH 50/50] fix: JSON reader keeps an error its source reports once

Filling the buffer drops the error. When the end of data followed it, a value
that was cut read as null.
---
 dsio/json.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 63ffce1..e642242 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -57,13 +57,32 @@ func NewJSONReaderSize(st *dataset.Structure, r io.Reader, size int) (*JSONReade
 
 	jr := &JSONReader{
 		st:     st,
-		reader: bufio.NewReaderSize(r, size),
+		reader: bufio.NewReaderSize(&failedReader{r: r}, size),
 		close:  close,
 		tlt:    tlt,
 	}
 	return jr, nil
 }
 
+// failedReader stays failed once the reader it wraps has, peeking at a buffered
+// reader drops errors
+type failedReader struct {
+	r   io.Reader
+	err error
+}
+
+// Read implements the io.Reader interface
+func (f *failedReader) Read(p []byte) (n int, err error) {
+	if f.err != nil {
+		return 0, f.err
+	}
+	n, err = f.r.Read(p)
+	if err != io.EOF {
+		f.err = err
+	}
+	return n, err
+}
+
 // Structure gives this writer's structure
 func (r *JSONReader) Structure() *dataset.Structure {
 	return r.st
-- 
2.43.0

