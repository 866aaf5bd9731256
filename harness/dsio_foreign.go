package main

import (
	"bytes"
	stdgzip "compress/gzip"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/klauspost/compress/zstd"
	"github.com/qri-io/dataset/dsio"
)

func init() { runners["C08"] = runForeign }

// exactToks are tokens of a value that is read exactly as given
func exactToks(v interface{}) []M {
	ts := toks(v)
	for _, t := range ts {
		if t["k"] == "f" {
			t["a"] = ""
		}
	}
	return ts
}

func ws(r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return ""
	}
	b := make([]byte, r.Intn(4))
	for i := range b {
		b[i] = " \n\r\t"[r.Intn(4)]
	}
	if r.Intn(60) == 0 {
		return strings.Repeat(" ", []int{15, 16, 17, 100, 4095, 4096, 4097}[r.Intn(7)])
	}
	return string(b)
}

func ws1(r *rand.Rand) string { return strings.Map(func(c rune) rune { return ' ' }, clip(ws(r), 20)) }

// jsonText writes s as JSON, escaping at random
func jsonText(r *rand.Rand, s string) string {
	b := &strings.Builder{}
	b.WriteByte('"')
	esc := r.Intn(4)
	for _, c := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
		switch {
		case short != "" && (c != '/' || r.Intn(2) == 0) && r.Intn(4) > 0:
			b.WriteString(short)
		case c < 32 || c == '"' || c == '\\' || r.Intn(10) < esc*2:
			if c > 0xffff {
				a, z := utf16.EncodeRune(c)
				f := []string{"\\u%04x\\u%04x", "\\u%04X\\u%04X"}[r.Intn(2)]
				fmt.Fprintf(b, f, a, z)
			} else {
				fmt.Fprintf(b, []string{"\\u%04x", "\\u%04X"}[r.Intn(2)], c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// genJSON writes a random value, sp writes white space. all numbers are floats
// if flt is true
func genJSON(r *rand.Rand, depth int, flt bool, sp func(*rand.Rand) string) (string, interface{}) {
	k := r.Intn(10)
	if depth <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return "null", nil
	case 1:
		return "true", true
	case 2:
		return "false", false
	case 3, 4:
		s := genString(r, prof{long: 3})
		return jsonText(r, s), s
	case 5:
		i := genInt(r)
		t := strconv.FormatInt(i, 10)
		if r.Intn(8) == 0 {
			// integers of any size
			n := 1 + r.Intn(40)
			d := make([]byte, n)
			for j := range d {
				d[j] = byte('0' + r.Intn(10))
			}
			d[0] = byte('1' + r.Intn(9))
			t = string(d)
			if r.Intn(2) == 0 {
				t = "-" + t
			}
		}
		if v, err := strconv.ParseInt(t, 10, 64); err == nil && !flt {
			return t, v
		}
		f, _ := strconv.ParseFloat(t, 64)
		return t, f
	case 6:
		f := genFloat(r)
		t := ""
		switch r.Intn(5) {
		case 0:
			t = strconv.FormatFloat(f, 'e', -1, 64)
		case 1:
			t = strconv.FormatFloat(f, 'E', -1, 64)
		case 2:
			t = fmt.Sprintf("%d.%de%d", r.Intn(100), r.Intn(1000), r.Intn(40)-20)
		case 3:
			t = fmt.Sprintf("-%d.%03dE+%d", r.Intn(10), r.Intn(1000), r.Intn(20))
		default:
			t = strconv.FormatFloat(f, 'f', 3+r.Intn(4), 64)
			if len(t) > 60 {
				t = "1.500"
			}
		}
		v, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return "2.5", 2.5
		}
		return t, v
	case 7, 8:
		n := r.Intn(4)
		b := &strings.Builder{}
		a := []interface{}{}
		b.WriteString("[" + sp(r))
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + sp(r))
			}
			t, v := genJSON(r, depth-1, flt, sp)
			b.WriteString(t + sp(r))
			a = append(a, v)
		}
		b.WriteString("]")
		return b.String(), a
	default:
		n := r.Intn(4)
		b := &strings.Builder{}
		m := map[string]interface{}{}
		b.WriteString("{" + sp(r))
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + sp(r))
			}
			t, v := genJSON(r, depth-1, flt, sp)
			k := genString(r, prof{long: 2})
			b.WriteString(jsonText(r, k) + sp(r) + ":" + sp(r) + t + sp(r))
			m[k] = v // of keys given twice, the last counts
		}
		b.WriteString("}")
		return b.String(), m
	}
}

func cborHead(r *rand.Rand, major byte, n uint64) []byte {
	min := 0
	switch {
	case n < 24:
	case n < 1<<8:
		min = 1
	case n < 1<<16:
		min = 2
	case n < 1<<32:
		min = 3
	default:
		min = 4
	}
	w := min
	if r.Intn(6) == 0 {
		w = min + r.Intn(5-min)
	}
	b := make([]byte, 9)
	switch w {
	case 0:
		return []byte{major<<5 | byte(n)}
	case 1:
		return []byte{major<<5 | 24, byte(n)}
	case 2:
		b[0] = major<<5 | 25
		binary.BigEndian.PutUint16(b[1:], uint16(n))
		return b[:3]
	case 3:
		b[0] = major<<5 | 26
		binary.BigEndian.PutUint32(b[1:], uint32(n))
		return b[:5]
	default:
		b[0] = major<<5 | 27
		binary.BigEndian.PutUint64(b[1:], n)
		return b
	}
}

// half gives the value of a half precision float
func half(h uint16) float64 {
	e, f := int(h>>10)&31, float64(h&1023)
	v := 0.0
	switch e {
	case 0:
		v = f * math.Pow(2, -24)
	case 31:
		v = math.Inf(1)
		if f != 0 {
			v = math.NaN()
		}
	default:
		v = (1 + f/1024) * math.Pow(2, float64(e-15))
	}
	if h>>15 == 1 {
		v = -v
	}
	return v
}

func genCBOR(r *rand.Rand, depth int) ([]byte, interface{}) {
	k := r.Intn(16)
	if depth <= 0 && k >= 11 {
		k = r.Intn(11)
	}
	switch k {
	case 0:
		// null, undefined and simple values without a meaning
		return [][]byte{{0xf6}, {0xf6}, {0xf7}, {0xf8, byte(32 + r.Intn(224))}, {byte(0xe0 + r.Intn(20))}}[r.Intn(5)], nil
	case 1:
		return []byte{[]byte{0xf4, 0xf5}[r.Intn(2)]}, nil // replaced below
	case 2, 3:
		u := uint64(genInt(r))
		if r.Intn(4) > 0 {
			u &= math.MaxInt64
		}
		if u > math.MaxInt64 {
			return cborHead(r, 0, u), float64(u)
		}
		return cborHead(r, 0, u), int64(u)
	case 4:
		u := uint64(genInt(r))
		if r.Intn(4) > 0 {
			u &= math.MaxInt64
		}
		if u > math.MaxInt64 {
			return cborHead(r, 1, u), -1 - float64(u)
		}
		return cborHead(r, 1, u), -1 - int64(u)
	case 5:
		h := uint16(r.Intn(65536))
		return []byte{0xf9, byte(h >> 8), byte(h)}, half(h)
	case 6:
		b := make([]byte, 5)
		b[0] = 0xfa
		f := float32(genFloat(r))
		binary.BigEndian.PutUint32(b[1:], math.Float32bits(f))
		return b, float64(f)
	case 7:
		b := make([]byte, 9)
		b[0] = 0xfb
		f := genFloat(r)
		binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
		return b, f
	case 8, 9:
		s := genString(r, prof{long: 5})
		if r.Intn(4) == 0 { // in pieces
			b := []byte{0x7f}
			for rest := s; len(rest) > 0; {
				n := 1 + r.Intn(len(rest))
				b = append(b, cborHead(r, 3, uint64(n))...)
				b = append(b, rest[:n]...)
				rest = rest[n:]
			}
			return append(b, 0xff), s
		}
		return append(cborHead(r, 3, uint64(len(s))), s...), s
	case 10:
		d := make([]byte, r.Intn(40))
		r.Read(d)
		if r.Intn(4) == 0 {
			n := r.Intn(len(d) + 1)
			b := []byte{0x5f}
			b = append(append(b, cborHead(r, 2, uint64(n))...), d[:n]...)
			b = append(append(b, cborHead(r, 2, uint64(len(d)-n))...), d[n:]...)
			return append(b, 0xff), d
		}
		return append(cborHead(r, 2, uint64(len(d))), d...), d
	case 11: // a tagged value
		t := cborHead(r, 6, uint64([]int{0, 1, 2, 23, 24, 32, 55799}[r.Intn(7)]))
		b, v := genCBOR1(r, depth-1)
		return append(t, b...), v
	case 12, 13:
		n := r.Intn(4)
		a := []interface{}{}
		b := cborHead(r, 4, uint64(n))
		indef := r.Intn(3) == 0
		if indef {
			b = []byte{0x9f}
		}
		for i := 0; i < n; i++ {
			d, v := genCBOR1(r, depth-1)
			b = append(b, d...)
			a = append(a, v)
		}
		if indef {
			b = append(b, 0xff)
		}
		return b, a
	default:
		n := r.Intn(4)
		m := map[string]interface{}{}
		b := cborHead(r, 5, uint64(n))
		indef := r.Intn(3) == 0
		if indef {
			b = []byte{0xbf}
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("%d%s", i, genString(r, prof{long: 3}))
			d, v := genCBOR1(r, depth-1)
			b = append(b, cborHead(r, 3, uint64(len(k)))...)
			b = append(b, k...)
			b = append(b, d...)
			m[k] = v
		}
		if indef {
			b = append(b, 0xff)
		}
		return b, m
	}
}

func genCBOR1(r *rand.Rand, depth int) ([]byte, interface{}) {
	b, v := genCBOR(r, depth)
	if len(b) == 1 && b[0] == 0xf4 {
		v = false
	} else if len(b) == 1 && b[0] == 0xf5 {
		v = true
	}
	return b, v
}

// csvCell writes a cell of a column type, and the value that it stands for
func csvCell(r *rand.Rand, t string) (string, interface{}) {
	if r.Intn(8) == 0 {
		// not of the type of the column: stays text
		l := []string{"abc", "", "n/a", "-", "1.2.3", "yes please", "12a", "--1", "{", "[1"}
		l = append(l, map[string][]string{
			"integer": {"1.5", "1e3", "-0.0", "1,000", "9223372036854775808", "-9223372036854775809", "1_000", "0x1f", " 1", "1 ", "true", "NaN", "12345678901234567890.5"},
			"number":  {"1,5", "1e999", "1 000", "true", " 2.5", "1.5 ", "1e", "e5", "$3", "3%"},
			"boolean": {"yes", "no", "on", "tRuE", "2", "01", "true ", "null"},
			"array":   {`{"a":1}`, `"x"`, "12", "[1,]", "[1] 2", "true", "[nul]"},
			"object":  {"[1]", `"x"`, "12", `{"a":1,}`, `{a:1}`, "{} {}", "false"},
			"string":  {"1", "true", "null", "[1]", "1.50", "007", " x", "x "},
		}[t]...)
		s := l[r.Intn(len(l))]
		if t == "null" {
			return s, nil
		}
		return s, s
	}
	switch t {
	case "integer":
		i := genInt(r)
		return strconv.FormatInt(i, 10), i
	case "number":
		f := genFloat(r)
		s := strconv.FormatFloat(f, []byte{'e', 'f', 'g', 'E'}[r.Intn(4)], -1, 64)
		return s, f
	case "boolean":
		b := r.Intn(2) == 0
		return strconv.FormatBool(b), b
	case "null":
		return "x", nil
	case "array":
		for {
			t, v := genJSON(r, 2, true, ws1)
			if a, ok := v.([]interface{}); ok {
				return csvText(t), a
			}
		}
	case "object":
		for {
			t, v := genJSON(r, 2, true, ws1)
			if m, ok := v.(map[string]interface{}); ok {
				return csvText(t), m
			}
		}
	}
	s := strings.ReplaceAll(genString(r, prof{long: 3}), "\r", "")
	for k := r.Intn(8) - 4; k > 0 && len(s) < 1000; k-- {
		i := r.Intn(len(s) + 1)
		s = s[:i] + "\n" + s[i:]
	}
	return s, s
}

// genForeign makes a body as other software might, with the entries it stands
// for
func genForeign(r *rand.Rand) (cfg, []byte, []M) {
	c, d, es := genForeignText(r)
	return c, foreignCompress(r, c.Comp, d), es
}

// genForeignText is genForeign before it is compressed
func genForeignText(r *rand.Rand) (cfg, []byte, []M) {
	c := genCfg(r, []string{"json", "json", "ndjson", "cbor", "cbor", "csv", "csv"})
	c.Pretty = ""
	n := genCount(r)
	es := []M{}
	add := func(key string, v interface{}) {
		m := M{"key": txt(key), "row": true}
		if c.tabular() {
			cells := [][]M{}
			for _, x := range v.([]interface{}) {
				cells = append(cells, exactToks(x))
			}
			m["v"] = cells
		} else {
			m["v"] = [][]M{exactToks(v)}
		}
		es = append(es, m)
	}
	b := &bytes.Buffer{}
	switch c.Fmt {
	case "json":
		sp := ws
		if r.Intn(3) == 0 {
			sp = func(*rand.Rand) string { return "" }
		}
		b.WriteString(sp(r))
		b.WriteByte(map[string]byte{"array": '[', "object": '{'}[c.Tlt])
		b.WriteString(sp(r))
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + sp(r))
			}
			key := ""
			if c.Tlt == "object" {
				key = fmt.Sprintf("%s%d", genString(r, prof{long: 3}), i)
				b.WriteString(jsonText(r, key) + sp(r) + ":" + sp(r))
			}
			t, v := genJSON(r, 3, false, sp)
			b.WriteString(t + sp(r))
			add(key, v)
		}
		b.WriteByte(map[string]byte{"array": ']', "object": '}'}[c.Tlt])
		b.WriteString(sp(r))
	case "ndjson":
		nl := []string{"\n", "\r\n"}[r.Intn(2)]
		for i := 0; i < n; i++ {
			t, v := genJSON(r, 3, true, ws1)
			b.WriteString(ws1(r) + t + ws1(r))
			if i < n-1 || r.Intn(2) == 0 {
				b.WriteString(nl)
			}
			add("", v)
		}
	case "cbor":
		major := byte(4)
		if c.Tlt == "object" {
			major = 5
		}
		indef := r.Intn(3) == 0
		if indef {
			b.WriteByte(major<<5 | 31)
		} else {
			b.Write(cborHead(r, major, uint64(n)))
		}
		for i := 0; i < n; i++ {
			key := ""
			if c.Tlt == "object" {
				key = fmt.Sprintf("%s%d", genString(r, prof{long: 3}), i)
				b.Write(cborHead(r, 3, uint64(len(key))))
				b.WriteString(key)
			}
			d, v := genCBOR1(r, 3)
			b.Write(d)
			add(key, v)
		}
		if indef {
			b.WriteByte(0xff)
		}
	case "csv":
		sep := c.Sep
		if sep == "" {
			sep = ","
		}
		nls := [][]string{{"\n"}, {"\r\n"}, {"\r"}, {"\n", "\r\n", "\r"}}[r.Intn(4)]
		// line ends inside of a cell read as a newline, whatever they are
		ends := func(s string) string {
			out := ""
			for i := range []byte(s) {
				switch {
				case s[i] != '\n':
					out += s[i : i+1]
				case i+1 < len(s) && s[i+1] == '\n':
					out += []string{"\n", "\r\n"}[r.Intn(2)]
				default:
					out += nls[r.Intn(len(nls))]
				}
			}
			return out
		}
		cell := func(s string, alone bool) string {
			s = ends(s)
			if strings.ContainsAny(s, "\"\n\r"+sep) || (s != "" && (s[0] == ' ' || s[0] == '\t')) || r.Intn(4) == 0 || (alone && s == "") {
				return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
			}
			return s
		}
		row := func(ss []string, last bool) {
			for i, s := range ss {
				if i > 0 {
					b.WriteString(sep)
				}
				b.WriteString(cell(s, len(ss) == 1))
			}
			if !last || r.Intn(2) == 0 {
				b.WriteString(nls[r.Intn(len(nls))])
				if r.Intn(10) == 0 {
					b.WriteString(nls[0]) // blank lines are not rows
				}
			}
		}
		if c.Head {
			ss := []string{}
			for i := range c.Types {
				ss = append(ss, fmt.Sprintf("column %d", i))
			}
			row(ss, n == 0)
		}
		for i := 0; i < n; i++ {
			ss := []string{}
			vs := []interface{}{}
			types := c.Types
			if c.Var && r.Intn(3) == 0 {
				// a row that lacks its last cells
				types = types[:1+r.Intn(len(types))]
			}
			for _, t := range types {
				s, v := csvCell(r, t)
				ss = append(ss, s)
				vs = append(vs, v)
			}
			row(ss, i == n-1)
			add("", vs)
		}
	}
	return c, b.Bytes(), es
}

// values that JSON doesn't know
var badJSON = []string{"nul", "nulL", "truE", "tru", "fals", "falsE", "nan", "1.2.3", "1-2", "-", "--1", "1e", "1e+", "1e5e", "-x",
	`{a:1}`, `{1:2}`, `{"a" 1}`, `{"a":1 "b":2}`, `{"a":1]`, `{"a":1,}`, `{"a"}`, `{"a":1,"b"}`, `{,}`, `{null:1}`, `{"a"=1}`,
	`[1 2]`, `[1}`, `["a" "b"]`, `[{]`, `[tru]`, `["a":1]`, `[1;2]`, `{"a":[1}`}

// malformed CBOR: no value, or one that can't be in a container
var badCBOR = []string{"\x1c", "\x1d", "\x1e", "\x3c", "\x5c\x00", "\x7d\x00", "\x9c", "\xbe", "\xf9\x00", "\xfa\x00\x00", "\xfb\x00\x00\x00",
	"\xfc", "\xfd", "\xfe", "\x82\xff\x01", "\xa1\x01\x02", "\xa1\xf6\x01", "\xbf\x61\x61\xff", "\xbf\x80\x01\xff", "\xa2\x61\x61\x01\x80\x01", "\xa1\x41\x61\x01"}

// genMalformed makes a body with a part the standard of its format doesn't
// allow, with the entries before it
func genMalformed(r *rand.Rand) (cfg, []byte, []M) {
	c := genCfg(r, []string{"json", "json", "json", "ndjson", "ndjson", "cbor", "cbor", "csv"})
	c.Pretty = ""
	n := 1 + r.Intn(6)
	if r.Intn(10) == 0 {
		n = 50 + r.Intn(300)
	}
	at := r.Intn(n)
	es := []M{}
	b := &bytes.Buffer{}
	add := func(key string, v interface{}) {
		es = append(es, M{"key": txt(key), "row": true, "v": [][]M{exactToks(v)}})
	}
	// deep puts a text within others
	deep := func(t string) string {
		for k := r.Intn(6) - 3; k > 0; k-- {
			t = []string{"[" + t + "]", `[1,` + t + `]`, `{"k":` + t + `}`, `{"a":"b","k":` + t + `,"z":null}`, `["x",` + t + `,"y"]`}[r.Intn(5)]
		}
		return t
	}
	switch c.Fmt {
	case "json":
		open, end := "[", "]"
		if c.Tlt == "object" {
			open, end = "{", "}"
		}
		how := r.Intn(8)
		if how == 0 { // begins as another container, or none
			b.WriteString([]string{map[string]string{"[": "{", "{": "["}[open], "x", `"`, "(", "]", "}", ","}[r.Intn(7)])
			at = 0
			n = 1
		} else {
			b.WriteString(ws(r) + open + ws(r))
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				sep := ","
				if how == 1 && i == at {
					sep = []string{" ", ";", ":", "\n", "\"", "|", "\x00"}[r.Intn(7)]
				}
				b.WriteString(ws(r) + sep + ws(r))
			}
			key := ""
			bad := i == at && how != 1 && how != 2
			if c.Tlt == "object" {
				key = fmt.Sprintf("%s%d", genString(r, prof{long: 3}), i)
				k := jsonText(r, key) + ws(r) + ":" + ws(r)
				if bad && r.Intn(2) == 0 {
					k = []string{jsonText(r, key) + " ", "k: ", "'k': ", "1: ", "null: ", ": ", jsonText(r, key) + "=", jsonText(r, key) + ",", "[1]:", `"k`}[r.Intn(10)]
				}
				b.WriteString(k)
			}
			t, v := genJSON(r, 3, false, ws)
			if bad {
				t = deep(badJSON[r.Intn(len(badJSON))])
			}
			b.WriteString(t)
			if i < at || (how == 2 && i < n) || (how == 1 && at == 0) {
				add(key, v)
			}
		}
		if how == 2 || (how == 1 && at == 0) { // ends as another container
			end = []string{map[string]string{"]": "}", "}": "]"}[end], ")", ":", `"`, ";", " ", ""}[r.Intn(7)]
		}
		b.WriteString(end + ws(r))
	case "ndjson":
		nl := []string{"\n", "\r\n"}[r.Intn(2)]
		for i := 0; i < n; i++ {
			t, v := genJSON(r, 3, true, ws1)
			if i == at {
				switch r.Intn(6) {
				case 0:
					t = "" // a blank line
				case 1:
					t += []string{" 1", ",", "]", "}", " null", " []", "x", "\"", ";"}[r.Intn(9)]
				case 2:
					t = []string{"foo", "'a'", "01", "+1", ".5", "1.", "0x1f", "[1,]", "[,1]", "undefined", "NaN", "\"\t\"", `"\q"`, `"\x41"`, `"\u12"`, "#", "[", "[[1]", `["a`}[r.Intn(19)]
				default:
					t = deep(badJSON[r.Intn(len(badJSON))])
				}
			}
			b.WriteString(t)
			if i < n-1 || t == "" || r.Intn(2) == 0 {
				b.WriteString(nl)
			}
			if i < at {
				add("", v)
			}
		}
	case "cbor":
		major := byte(4)
		if c.Tlt == "object" {
			major = 5
		}
		indef := r.Intn(2) == 0
		how := r.Intn(6)
		switch {
		case how == 0: // begins as another value
			o := cborHead(r, 9-major, uint64(n))
			b.Write([][]byte{o, {(9-major)<<5 | 31}, {0x01}, {0xf6}, {0x61, 'a'}, {0x41, 'a'}, {0xff}, {major<<5 | 28}, {major<<5 | 30}, {0xc1}}[r.Intn(10)])
			at = 0
		case indef:
			b.WriteByte(major<<5 | 31)
		default:
			b.Write(cborHead(r, major, uint64(n)))
		}
		for i := 0; i < n; i++ {
			bad := i == at && how != 0
			key := ""
			if c.Tlt == "object" {
				key = fmt.Sprintf("%s%d", genString(r, prof{long: 3}), i)
				if bad && r.Intn(2) == 0 {
					b.WriteString([]string{"\x01", "\xf6", "\x41k", "\x80", "\xa0", "\xc1\x61k", "\x7c", "\xf5", "\x20"}[r.Intn(9)])
				} else {
					b.Write(cborHead(r, 3, uint64(len(key))))
					b.WriteString(key)
				}
			}
			d, v := genCBOR1(r, 3)
			if bad {
				d = []byte(badCBOR[r.Intn(len(badCBOR))])
				short := d[0] >= 0xf9 && d[0] <= 0xfb
				if r.Intn(3) == 0 {
					d = append([]byte{0x81}, d...)
				}
				if short {
					b.Write(d) // ends within a number
					return c, foreignCompress(r, c.Comp, b.Bytes()), es
				}
			}
			b.Write(d)
			if i < at {
				add(key, v)
			}
		}
		if indef {
			b.WriteByte(0xff)
		}
	case "csv":
		sep := c.Sep
		if sep == "" {
			sep = ","
		}
		c.Types = []string{"string", "string"}
		c.Head, c.Lazy = false, false
		for i := 0; i < n; i++ {
			if i == at {
				b.WriteString([]string{"\"a\" b" + sep + "c\n", "a" + sep + "\"b\"c\n", "\"a" + sep + "b\n", "a" + sep + "\"b", "\"a\"\"" + sep + "b\n"}[r.Intn(5)])
				break
			}
			s := fmt.Sprintf("c%d", r.Intn(100))
			b.WriteString(s + sep + "x\n")
			es = append(es, M{"key": "", "row": true, "v": [][]M{exactToks(s), exactToks("x")}})
		}
	}
	return c, foreignCompress(r, c.Comp, b.Bytes()), es
}

// foreignCompress packs data in one of the ways other software does: in several
// parts one after another, some of them empty, of any level, with names and
// comments, or with frames that are to be skipped
func foreignCompress(r *rand.Rand, comp string, d []byte) []byte {
	if comp == "" || r.Intn(4) == 0 {
		return compress(comp, d)
	}
	parts := [][]byte{}
	rest := d
	for k := r.Intn(4); k > 0; k-- {
		n := r.Intn(len(rest) + 1)
		parts = append(parts, rest[:n])
		rest = rest[n:]
	}
	parts = append(parts, rest)
	buf := &bytes.Buffer{}
	for _, p := range parts {
		if comp == "gzip" {
			w, err := stdgzip.NewWriterLevel(buf, r.Intn(12)-2)
			if err != nil {
				fail(err)
			}
			if r.Intn(2) == 0 {
				w.Name, w.Comment = "body.csv", []string{"", "made elsewhere"}[r.Intn(2)]
			}
			if r.Intn(4) == 0 {
				w.Extra = []byte{'A', 'B', 2, 0, 1, 2}
			}
			w.Write(p)
			w.Close()
			continue
		}
		if r.Intn(4) == 0 {
			skip := []byte{byte(0x50 + r.Intn(16)), 0x2a, 0x4d, 0x18, 3, 0, 0, 0, 'x', 'y', 'z'}
			buf.Write(skip)
		}
		w, err := zstd.NewWriter(buf, zstd.WithEncoderLevel([]zstd.EncoderLevel{zstd.SpeedFastest, zstd.SpeedDefault, zstd.SpeedBetterCompression}[r.Intn(3)]), zstd.WithEncoderCRC(r.Intn(2) == 0), zstd.WithZeroFrames(true))
		if err != nil {
			fail(err)
		}
		w.Write(p)
		w.Close()
	}
	return buf.Bytes()
}

func runForeign(h *H) {
	for i := 0; i < h.N(1500, 15000); i++ {
		h.Add("malformed", func(s *Sess) {
			c, d, es := genMalformed(s.R)
			s.Ev("begin", c.begin())
			s.Ev("given", M{"es": es})
			got, res := c.readAll(bytes.NewReader(d), len(d)+10)
			s.Ev("malformed", M{"es": got, "res": res, "body": fmt.Sprintf("%q", clip(string(d), 300))})
		})
	}
	sess := func(s *Sess, c cfg, d []byte, es []M) {
		s.Ev("begin", c.begin())
		s.Ev("given", M{"es": es})
		// CBOR objects of other software keep their order
		got, res := c.readAll(bytes.NewReader(d), len(d)+10)
		s.Ev("read", M{"es": got, "res": res, "via": "ReadEntry"})
		if c.Tlt != "object" && c.Fmt != "csv" {
			c.readVia(s, d, []int{0, 1, 3}[s.R.Intn(3)]) // copying would write it anew
		}
	}
	for i := 0; i < h.N(2500, 25000); i++ {
		h.Add("foreign", func(s *Sess) {
			c, d, es := genForeign(s.R)
			sess(s, c, d, es)
		})
	}
	// all half precision floats, and all one byte CBOR heads
	h.Add("half", func(s *Sess) {
		c := cfg{Fmt: "cbor", Tlt: "array"}
		b := []byte{0x9f}
		es := []M{}
		for i := 0; i < 65536; i += 7 {
			b = append(b, 0xf9, byte(i>>8), byte(i))
			es = append(es, M{"key": "", "row": true, "v": [][]M{exactToks(half(uint16(i)))}})
		}
		s.Ev("begin", c.begin())
		s.Ev("given", M{"es": es})
		d := append(b, 0xff)
		got, res := c.readAll(bytes.NewReader(d), len(d))
		s.Ev("read", M{"es": got, "res": res})
	})
	// every \u escape of the basic plane, in blocks
	h.Add("escapes", func(s *Sess) {
		c := cfg{Fmt: "json", Tlt: "array"}
		b := []string{}
		es := []M{}
		for i := 0; i < 0x10000; i += 16 {
			if i >= 0xd800 && i < 0xe000 {
				continue
			}
			t, v := "", ""
			for j := i; j < i+16; j++ {
				t += fmt.Sprintf("\\u%04x", j)
				v += string(rune(j))
			}
			b = append(b, `"`+t+`"`)
			es = append(es, M{"key": "", "row": true, "v": [][]M{exactToks(v)}})
		}
		for i := 0x10000; i < 0x110000; i += 997 {
			a, z := utf16.EncodeRune(rune(i))
			b = append(b, fmt.Sprintf(`"\u%04x\u%04X"`, a, z))
			es = append(es, M{"key": "", "row": true, "v": [][]M{exactToks(string(rune(i)))}})
		}
		s.Ev("begin", c.begin())
		s.Ev("given", M{"es": es})
		d := []byte("[" + strings.Join(b, ",") + "]")
		got, res := c.readAll(bytes.NewReader(d), len(d))
		s.Ev("read", M{"es": got, "res": res})
	})
	// a value at every position around the ends of buffers
	for _, f := range []string{"json", "csv", "ndjson", "cbor"} {
		f := f
		for _, edge := range []int{16, 4096, 8192, 262144} {
			edge := edge
			h.Add(fmt.Sprintf("align/%s/%d", f, edge), func(s *Sess) {
				if f == "csv" && edge != 4096 && edge != 262144 {
					return
				}
				first := true
				for off := edge - 14; off <= edge+2; off++ {
					c := cfg{Fmt: f, Tlt: "array"}
					if edge == 16 {
						c.Size = 16
					}
					pad := off
					var d []byte
					es := []M{}
					vals := []interface{}{true, nil, false, int64(-123456), 12.5, "é\"\\x", []interface{}{int64(1)}, map[string]interface{}{"k": "v"}}
					v := vals[s.R.Intn(len(vals))]
					if off%2 == 0 {
						v = vals[off%len(vals)]
					}
					p := strings.Repeat("p", max(pad-3, 0))
					switch f {
					case "json":
						d = []byte(`["` + p + `",` + compact(v) + `,` + compact(v) + `]`)
					case "ndjson":
						d = []byte(`"` + p + "\"\n" + compact(v) + "\n" + compact(v))
					case "cbor":
						cc := cfg{Fmt: "cbor", Tlt: "array"}
						d, _ = cc.encode([]dsio.Entry{{Value: p}, {Value: v}, {Value: v}})
					case "csv":
						c.Types = []string{"string"}
						v = []string{"a\"b", "x\ny", "plain", "é"}[off%4]
						q := `"` + strings.ReplaceAll(v.(string), `"`, `""`) + `"`
						d = []byte(p + "\r" + q + "\r\n" + q + "\r")
					}
					for _, x := range []interface{}{p, v, v} {
						if f == "ndjson" {
							x = floatify(x)
						}
						es = append(es, M{"key": "", "row": true, "v": [][]M{exactToks(x)}})
					}
					_ = first
					s.Ev("begin", c.begin())
					s.Ev("given", M{"es": es})
					got, res := c.readAll(bytes.NewReader(d), len(d)+10)
					s.Ev("read", M{"es": got, "res": res, "off": off})
				}
			})
		}
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func floatify(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case []interface{}:
		a := []interface{}{}
		for _, e := range x {
			a = append(a, floatify(e))
		}
		return a
	}
	return v
}
