package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// tok is one token of a flattened value. k is the kind, v the canonical text,
// a the text of the value as the other kind of number, when there is one
func tok(k, v, a string) M { return M{"k": k, "v": v, "a": a} }

// txt projects text to a short faithful form
func txt(s string) string {
	if len(s) <= 48 && utf8.ValidString(s) {
		ok := true
		for _, r := range s {
			if !unicode.IsPrint(r) || r > 126 {
				ok = false
				break
			}
		}
		if ok && !strings.HasPrefix(s, "#") {
			return s
		}
	}
	return fmt.Sprintf("#%d:%s", len(s), digest(s))
}

func ftxt(f float64) string {
	if f == 0 {
		return "0" // zero has one meaning, with or without sign
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func fint(f float64) string {
	if f == math.Trunc(f) && f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
		// the integer as JSON text has it: the shortest digits for the float
		t := strconv.FormatFloat(f, 'f', -1, 64)
		if _, err := strconv.ParseInt(t, 10, 64); err == nil {
			if t == "-0" {
				t = "0"
			}
			return t
		}
	}
	return ""
}

func toks(v interface{}) []M {
	t := appendToks([]M{}, v)
	if len(t) > 2000 {
		// huge values of kinds that read the same in all formats are digested
		b := &strings.Builder{}
		for _, x := range t {
			k := x["k"].(string)
			if k == "i" || k == "f" || k == "u" {
				return t
			}
			b.WriteString(k + ":" + x["v"].(string) + ";")
		}
		return []M{tok("#", fmt.Sprintf("%d:%s", len(t), digest(b.String())), "")}
	}
	return t
}

func appendToks(t []M, v interface{}) []M {
	switch x := v.(type) {
	case nil:
		return append(t, tok("n", "", ""))
	case bool:
		return append(t, tok("b", strconv.FormatBool(x), ""))
	case string:
		return append(t, tok("s", txt(x), ""))
	case []byte:
		return append(t, tok("y", txt(string(x)), ""))
	case int:
		return append(t, tok("i", strconv.Itoa(x), ftxt(float64(x))))
	case int8:
		return appendToks(t, int64(x))
	case int16:
		return appendToks(t, int64(x))
	case int32:
		return appendToks(t, int64(x))
	case int64:
		return append(t, tok("i", strconv.FormatInt(x, 10), ftxt(float64(x))))
	case uint:
		return appendToks(t, uint64(x))
	case uint8:
		return appendToks(t, int64(x))
	case uint16:
		return appendToks(t, int64(x))
	case uint32:
		return appendToks(t, int64(x))
	case uint64:
		if x <= math.MaxInt64 {
			return appendToks(t, int64(x))
		}
		return append(t, tok("u", strconv.FormatUint(x, 10), ftxt(float64(x))))
	case float32:
		return appendToks(t, float64(x))
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return append(t, tok("z", ftxt(x), ""))
		}
		return append(t, tok("f", ftxt(x), fint(x)))
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return appendToks(t, i)
		}
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			return append(t, tok("x", string(x), ""))
		}
		return append(t, tok("f", ftxt(f), fint(f)))
	case []interface{}:
		t = append(t, tok("[", strconv.Itoa(len(x)), ""))
		for _, e := range x {
			t = appendToks(t, e)
		}
		return t
	case map[string]interface{}:
		t = append(t, tok("{", strconv.Itoa(len(x)), ""))
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			t = append(t, tok("k", txt(k), ""))
			t = appendToks(t, x[k])
		}
		return t
	default:
		return append(t, tok("x", fmt.Sprintf("%T", v), ""))
	}
}

// profile of generated values
type prof struct {
	bytes  bool // raw bytes
	naninf bool
	exotic bool // unusual go number types
	depth  int
	long   int // chance (percent) of long strings
}

var edgeInts = []int64{0, 1, -1, 2, 7, 10, 22, 23, 24, 25, -23, -24, -25, 99, 100, 127, 128, 254, 255, 256, 257, -255, -256, -257, 1000, 32767, 32768,
	65534, 65535, 65536, 65537, -65535, -65536, -65537, 1<<31 - 1, 1 << 31, 1<<31 + 1, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, -1 << 32, -1<<32 - 1,
	1<<53 - 1, 1 << 53, 1<<53 + 1, -1<<53 - 1, 1 << 62, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 999999999999999999, 1000000000000000000}

var edgeFloats = []float64{0.5, -0.5, 0.1, 1.5, -2.25, 3.0, -7.0, 1e20, 1e21, 1e22, 123456789012345678901234567890, 1e-6, 1e-7, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
	9007199254740993, 9223372036854775807, -9223372036854775808, 18446744073709551616, 0.1 + 0.2, 1.0 / 3, 6.02214076e23, 1e300, -1e-300, 65504, 65505.5, 3.4028234663852886e38, 100000.0, 1e6, 16777217}

var strPieces = []string{"", "a", "b", "abc", "hello world", " ", "  lead", "trail  ", "\"", "\\", "\\\"", "/", "'", "a,b", "a;b", "a\tb", "a\nb", "\n", "\x00", "\x01", "\x1f", "\x7f", "é", "ü", "日本語", "😀", "𝄞x", "\u2028", "\u2029", "\ufeff", "\ufffd", "<b>&amp;</b>", "null", "true", "false", "123", "-1", "1e5", "[]", "{}", "[1,2", "{\"a\":", "]", "}", ",", ":", "\\u0041", "\\n", "\\x41", "NaN", "0x10", "007", "%s%d", "ﬁ", "e\u0301", "\U0010ffff", "key", "Type", "=1+1", "''", "\"\"", "a\"b\"c", "--", "#x", "\u0080"}

// longLens are lengths at which encodings and buffers change
var longLens = []int{15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4000, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288}

func genString(r *rand.Rand, p prof) string {
	if r.Intn(100) < p.long {
		n := longLens[r.Intn(len(longLens))]
		b := &strings.Builder{}
		switch r.Intn(3) {
		case 0:
			for b.Len() < n {
				b.WriteByte(byte('a' + b.Len()%26))
			}
			return b.String()
		case 1:
			for b.Len() < n {
				b.WriteString(strPieces[r.Intn(len(strPieces))])
			}
			return b.String()
		default:
			q := []string{"\"", "\\", "é", "😀", "\n", "x"}[r.Intn(6)]
			for b.Len() < n {
				b.WriteString(q)
			}
			return b.String()
		}
	}
	switch r.Intn(4) {
	case 0:
		return strPieces[r.Intn(len(strPieces))]
	case 1:
		n := r.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + r.Intn(95))
		}
		return string(b)
	case 2:
		b := &strings.Builder{}
		for i := r.Intn(5); i >= 0; i-- {
			b.WriteString(strPieces[r.Intn(len(strPieces))])
		}
		return b.String()
	default:
		b := &strings.Builder{}
		for i := r.Intn(6); i >= 0; i-- {
			c := rune(r.Intn(0x11000))
			if r.Intn(8) == 0 {
				c = rune(0x10000 + r.Intn(0x100000))
			}
			if c >= 0xd800 && c < 0xe000 {
				c = 'x'
			}
			b.WriteRune(c)
		}
		return b.String()
	}
}

func genInt(r *rand.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return edgeInts[r.Intn(len(edgeInts))]
	case 1:
		return int64(r.Intn(2000) - 1000)
	default:
		v := int64(r.Uint64() >> uint(r.Intn(64)))
		if r.Intn(2) == 0 {
			return -v
		}
		return v
	}
}

func genFloat(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		f := edgeFloats[r.Intn(len(edgeFloats))]
		if r.Intn(2) == 0 {
			return -f
		}
		return f
	case 1:
		return float64(r.Intn(20000)-10000) / float64([]int{1, 2, 4, 10, 100, 1000}[r.Intn(6)])
	case 2:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
	default:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

func genScalar(r *rand.Rand, p prof) interface{} {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1, 2:
		return r.Intn(2) == 0
	case 3, 4, 5:
		i := genInt(r)
		if r.Intn(3) == 0 {
			return int(i)
		}
		if p.exotic && r.Intn(4) == 0 {
			switch r.Intn(8) {
			case 0:
				return int8(i)
			case 1:
				return int16(i)
			case 2:
				return int32(i)
			case 3:
				return uint8(i)
			case 4:
				return uint16(i)
			case 5:
				return uint32(i)
			case 6:
				return uint64(i)
			default:
				return float32(i % 1000)
			}
		}
		return i
	case 6, 7:
		if p.naninf && r.Intn(10) == 0 {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
		}
		return genFloat(r)
	case 8:
		if p.bytes {
			b := make([]byte, r.Intn(30))
			r.Read(b)
			return b
		}
		return genString(r, p)
	default:
		return genString(r, p)
	}
}

func genValue(r *rand.Rand, p prof) interface{} {
	if p.depth <= 0 || r.Intn(3) > 0 {
		return genScalar(r, p)
	}
	p.depth--
	n := r.Intn(5)
	if r.Intn(20) == 0 {
		n = []int{23, 24, 25}[r.Intn(3)]
		p.depth = 0
		p.long = 0
	}
	if r.Intn(2) == 0 {
		a := make([]interface{}, n)
		for i := range a {
			a[i] = genValue(r, p)
		}
		return a
	}
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[genString(r, p)] = genValue(r, p)
	}
	return m
}

func deepValue(r *rand.Rand, n int) interface{} {
	var v interface{} = int64(1)
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			v = map[string]interface{}{"d": v}
		} else {
			v = []interface{}{v}
		}
	}
	return v
}
