package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/qri-io/dataset/vals"
)

func init() { runners["C21"] = runVals }

func chars(s string) []string {
	t := []string{}
	for _, r := range s {
		t = append(t, string(r))
	}
	return t
}

func codes(s string) []int {
	t := []int{}
	for i := 0; i < len(s); i++ {
		t = append(t, int(s[i]))
	}
	return t
}

func expForm(f float64) []string { return chars(strconv.FormatFloat(f, 'e', -1, 64)) }

// printed gives the text of a parsed value, by both ways there are
func printed(t vals.Type, v interface{}) string {
	s, err := t.ValueToString(v)
	if err != nil {
		return "error"
	}
	b, err := t.ValueToBytes(v)
	if err != nil || string(b) != s {
		return "other bytes"
	}
	return s
}

// valText shows everything the package says about a text
func valText(s *Sess, t string) {
	m := M{"t": chars(t), "w": t, "type": vals.ParseType([]byte(t)).String(),
		"isint": vals.IsInteger([]byte(t)), "isfloat": vals.IsFloat([]byte(t)), "isbool": vals.IsBoolean([]byte(t))}
	parse := func(ty vals.Type) (interface{}, string) {
		var v interface{}
		res := call(func() (err error) { v, err = ty.Parse([]byte(t)); return })
		return v, res
	}
	v, res := parse(vals.TypeString)
	str, _ := v.(string)
	m["str"] = M{"res": res, "text": str, "back": printed(vals.TypeString, v)}
	v, res = parse(vals.TypeInteger)
	im := M{"res": res, "t": []string{}, "back": []string{}}
	if i, ok := v.(int64); ok && res == "ok" {
		im["t"] = chars(strconv.FormatInt(i, 10))
		im["back"] = chars(printed(vals.TypeInteger, v))
	}
	m["int"] = im
	v, res = parse(vals.TypeNumber)
	nm := M{"res": res, "t": []string{}, "back": []string{}, "again": false}
	if f, ok := v.(float64); ok && res == "ok" {
		nm["t"] = expForm(f)
		p := printed(vals.TypeNumber, v)
		nm["back"] = chars(p)
		g, err := vals.ParseNumber([]byte(p))
		nm["again"] = err == nil && g == f
	}
	m["num"] = nm
	v, res = parse(vals.TypeBoolean)
	m["bool"] = M{"res": res, "back": printed(vals.TypeBoolean, v)}
	_, m["null"] = parse(vals.TypeNull)
	_, m["unknown"] = parse(vals.TypeUnknown)
	s.Ev("text", m)
}

func valCompare(s *Sess, a, b string, ty string) {
	var c int
	res := call(func() (err error) {
		c, err = vals.CompareTypeBytes([]byte(a), []byte(b), vals.TypeFromString(ty))
		return
	})
	direct := 9
	f := map[string]func(a, b []byte) (int, error){"integer": vals.CompareIntegerBytes, "number": vals.CompareNumberBytes}[ty]
	if f != nil {
		call(func() error {
			d, err := f([]byte(a), []byte(b))
			if err == nil {
				direct = d
			}
			return err
		})
	}
	s.Ev("compare", M{"a": chars(a), "b": chars(b), "ca": codes(a), "cb": codes(b), "type": ty, "res": res, "cmp": c, "direct": direct})
}

// plainVal turns a value into plain data by way of its methods
func plainVal(v vals.Value) interface{} {
	if v == nil {
		return struct{}{}
	}
	switch v.Type() {
	case vals.TypeObject:
		m := map[string]interface{}{}
		for _, k := range v.Keys() {
			m[k] = plainVal(v.MapIndex(k))
		}
		return m
	case vals.TypeArray:
		a := make([]interface{}, v.Len())
		for i := range a {
			a[i] = plainVal(v.Index(i))
		}
		return a
	case vals.TypeString:
		return v.String()
	case vals.TypeInteger:
		if v.Number() != float64(v.Integer()) {
			return struct{}{}
		}
		return int64(v.Integer())
	case vals.TypeNumber:
		return v.Number()
	case vals.TypeBoolean:
		return v.Boolean()
	case vals.TypeNull:
		if v.IsNull() {
			return nil
		}
	}
	return struct{}{}
}

func valToks(v vals.Value) []M { return toks(plainVal(v)) }

// anyJSON gives JSON for v, with blanks and escapes here and there
func anyJSON(r *rand.Rand, v interface{}) string {
	d, err := json.Marshal(v)
	if err != nil {
		fail(err)
	}
	if r.Intn(3) == 0 {
		b := &bytes.Buffer{}
		json.Indent(b, d, "", []string{" ", "\t", "\r\n"}[r.Intn(3)])
		d = b.Bytes()
	}
	blank := []string{"", "", " ", "\n", "\t", "\r\n", "  \n\t"}
	return blank[r.Intn(7)] + string(d) + blank[r.Intn(7)]
}

// spoil breaks JSON text
func spoil(r *rand.Rand, t string) (string, bool) {
	for i := 0; i < 20; i++ {
		b := []byte(t)
		switch r.Intn(4) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			k := r.Intn(len(b))
			b = append(b[:k:k], b[k+1:]...)
		case 2:
			k := r.Intn(len(b) + 1)
			b = append(b[:k:k], append([]byte{`,:]}{["x1-`[r.Intn(10)]}, b[k:]...)...)
		case 3:
			b = append(b, []string{"x", "1", "]", ",", "null"}[r.Intn(5)]...)
		}
		if !json.Valid(b) {
			return string(b), true
		}
	}
	return t, false
}

func valJSON(s *Sess, v interface{}, bad bool) {
	t := anyJSON(s.R, v)
	if bad {
		t, bad = spoil(s.R, t)
		if !bad {
			return
		}
	}
	var got vals.Value
	res := call(func() (err error) { got, err = vals.UnmarshalJSON([]byte(t)); return })
	g, back := []M{}, []M{}
	if res == "ok" {
		g = valToks(got)
		d, err := json.Marshal(got)
		if err != nil {
			fail(err)
		}
		again, err := vals.UnmarshalJSON(d)
		if err == nil {
			back = valToks(again)
		}
	}
	s.Ev("json", M{"bad": bad, "sent": toks(v), "res": res, "got": g, "back": back})
}

func valParse(s *Sess, v interface{}, bad bool) {
	t := anyJSON(s.R, v)
	if bad {
		t, bad = spoil(s.R, t)
		if !bad {
			return
		}
	}
	ty := []vals.Type{vals.TypeArray, vals.TypeObject}[s.R.Intn(2)]
	var got interface{}
	res := call(func() (err error) { got, err = ty.Parse([]byte(t)); return })
	g, back := []M{}, []M{}
	if res == "ok" {
		g = toks(got)
		p := printed(ty, got)
		again, err := ty.Parse([]byte(p))
		if err == nil {
			back = toks(again)
		}
	}
	s.Ev("parse", M{"bad": bad, "sent": toks(v), "res": res, "got": g, "back": back})
}

// decoded gives v as some decoder could have, with other types of maps and numbers
func decoded(r *rand.Rand, v interface{}, bad *bool) interface{} {
	if *bad && r.Intn(6) == 0 {
		*bad = false
		return []interface{}{struct{}{}, []string{"a"}, map[interface{}]interface{}{3: "x"}, make(chan int), []byte("x")}[r.Intn(5)]
	}
	switch x := v.(type) {
	case int64:
		if x >= 0 && r.Intn(3) == 0 {
			if x < 256 && r.Intn(2) == 0 {
				return uint8(x)
			}
			if x < 65536 && r.Intn(2) == 0 {
				return uint16(x)
			}
			if x < 1<<32 && r.Intn(3) > 0 {
				return uint32(x)
			}
			return uint64(x)
		}
		if int64(int32(x)) == x && r.Intn(3) == 0 {
			return int32(x)
		}
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, y := range x {
			a[i] = decoded(r, y, bad)
		}
		return a
	case map[string]interface{}:
		if r.Intn(2) == 0 {
			m := map[interface{}]interface{}{}
			for k, y := range x {
				m[k] = decoded(r, y, bad)
			}
			if *bad && r.Intn(2) == 0 {
				*bad = false
				key := []interface{}{nil, 5, int64(0), true, 1.5, struct{}{}}[r.Intn(6)]
				m[key] = []interface{}{nil, "x", false, 0, []interface{}{}, map[string]interface{}{}}[r.Intn(6)]
			}
			return m
		}
		m := map[string]interface{}{}
		for k, y := range x {
			m[k] = decoded(r, y, bad)
		}
		return m
	}
	return v
}

func genTree(r *rand.Rand, depth int) interface{} {
	v := genValue(r, prof{depth: depth, long: 2})
	return uints(r, v)
}

// uints puts some integers beyond 63 bits
func uints(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		if r.Intn(12) == 0 {
			return uint64(1<<63) + uint64(r.Int63())
		}
		if r.Intn(6) == 0 {
			// around the bounds of types of integers
			n := int64(1)<<uint([]int{7, 8, 15, 16, 31, 32, 53, 62}[r.Intn(8)]) + int64(r.Intn(3)-1)
			if r.Intn(3) == 0 {
				n = -n
			}
			return n
		}
	case []interface{}:
		for i := range x {
			x[i] = uints(r, x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = uints(r, x[k])
		}
	}
	return v
}

func valConvert(s *Sess, v interface{}, bad bool) {
	left := bad
	d := decoded(s.R, v, &left)
	if bad && left {
		d = []interface{}{struct{}{}, map[interface{}]interface{}{nil: nil}, map[interface{}]interface{}{"a": 1, 3: nil}, []byte{}}[s.R.Intn(4)]
	}
	var got vals.Value
	res := call(func() (err error) { got, err = vals.ConvertDecoded(d); return })
	g := []M{}
	if res == "ok" {
		g = valToks(got)
	}
	s.Ev("convert", M{"bad": bad, "sent": toks(v), "res": res, "got": g})
}

// someVal makes a value of v in one of the ways there are
func someVal(r *rand.Rand, v interface{}) vals.Value {
	switch r.Intn(3) {
	case 0:
		x, err := vals.UnmarshalJSON([]byte(anyJSON(r, v)))
		if err != nil {
			fail(err)
		}
		return x
	case 1:
		no := false
		x, err := vals.ConvertDecoded(decoded(r, v, &no))
		if err != nil {
			fail(err)
		}
		return x
	}
	return literalVal(r, v)
}

func literalVal(r *rand.Rand, v interface{}) vals.Value {
	ptr := r.Intn(3) == 0
	switch x := v.(type) {
	case string:
		y := vals.String(x)
		if ptr {
			return &y
		}
		return y
	case bool:
		y := vals.Boolean(x)
		if ptr {
			return &y
		}
		return y
	case int64:
		y := vals.Integer(x)
		if ptr {
			return &y
		}
		return y
	case int:
		return vals.Integer(x)
	case uint64:
		return vals.Number(float64(x))
	case float64:
		y := vals.Number(x)
		if ptr {
			return &y
		}
		return y
	case []interface{}:
		a := vals.Array{}
		for _, e := range x {
			a = append(a, literalVal(r, e))
		}
		if ptr {
			return &a
		}
		return a
	case map[string]interface{}:
		o := vals.Object{}
		for k, e := range x {
			o[k] = literalVal(r, e)
		}
		if ptr {
			return &o
		}
		return o
	}
	n := vals.Null(r.Intn(2) == 0)
	if ptr {
		return &n
	}
	return n
}

// alter changes one thing in a copy of v
func alter(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		a := append([]interface{}{}, x...)
		switch {
		case len(a) == 0 || r.Intn(6) == 0:
			return append(a, nil)
		case r.Intn(6) == 0:
			return a[1:]
		case len(a) > 1 && r.Intn(4) == 0:
			a[0], a[1] = a[1], a[0]
			return a
		}
		i := r.Intn(len(a))
		a[i] = alter(r, a[i])
		return a
	case map[string]interface{}:
		m := map[string]interface{}{}
		ks := []string{}
		for k, e := range x {
			m[k] = e
			ks = append(ks, k)
		}
		if len(ks) == 0 || r.Intn(6) == 0 {
			m["new"] = nil
			return m
		}
		k := ks[r.Intn(len(ks))]
		switch r.Intn(5) {
		case 0:
			delete(m, k)
		case 1:
			e := m[k]
			delete(m, k)
			m[k+"x"] = e
		default:
			m[k] = alter(r, m[k])
		}
		return m
	case bool:
		return !x
	case int64:
		if r.Intn(2) == 0 {
			return float64(x)
		}
		return x + 1
	case float64:
		return -x
	case string:
		return x + "x"
	}
	return []interface{}{}
}

func valEqual(s *Sess, v, w interface{}) {
	a, b := someVal(s.R, v), someVal(s.R, w)
	same := false
	res := call(func() error { same = vals.Equal(a, b); return nil })
	s.Ev("equal", M{"res": res, "same": same, "a": valToks(a), "b": valToks(b)})
}

// valNil compares values, some of them missing
func valNil(s *Sess, v, w interface{}) {
	none := []M{{"k": "-", "v": "", "a": ""}}
	a, b := someVal(s.R, v), someVal(s.R, w)
	list := func(x []M, y ...M) []M { return append(append([]M{{"k": "[", "v": "2", "a": ""}}, x...), y...) }
	obj := func(x ...M) []M { return append([]M{{"k": "{", "v": "1", "a": ""}}, x...) }
	ta, tb := valToks(a), valToks(b)
	for _, x := range []struct {
		a, b   vals.Value
		ta, tb []M
	}{
		{nil, nil, none, none}, {nil, b, none, tb}, {a, nil, ta, none}, {nil, vals.Null(true), none, valToks(vals.Null(true))},
		{vals.Array{a, nil}, vals.Array{a, nil}, list(ta, none...), list(ta, none...)},
		{vals.Array{nil, a}, vals.Array{b, a}, list(none, ta...), list(tb, ta...)},
		{vals.Array{a, b}, vals.Array{a, nil}, list(ta, tb...), list(ta, none...)},
		{vals.Object{"k": nil}, vals.Object{"k": a}, obj(none...), obj(ta...)},
		{vals.Object{"k": a}, vals.Object{"k": nil}, obj(ta...), obj(none...)},
		{vals.Object{"k": nil}, vals.Object{"k": nil}, obj(none...), obj(none...)},
	} {
		same := false
		res := call(func() error { same = vals.Equal(x.a, x.b); return nil })
		s.Ev("equal", M{"res": res, "same": same, "a": x.ta, "b": x.tb})
	}
}

var valMethods = map[string]func(v vals.Value){
	"Type": func(v vals.Value) { v.Type() }, "Len": func(v vals.Value) { v.Len() }, "Index": func(v vals.Value) { v.Index(0) },
	"Keys": func(v vals.Value) { v.Keys() }, "MapIndex": func(v vals.Value) { v.MapIndex("a") }, "Boolean": func(v vals.Value) { v.Boolean() },
	"String": func(v vals.Value) { _ = v.String() }, "Integer": func(v vals.Value) { v.Integer() }, "Number": func(v vals.Value) { v.Number() },
	"IsNull": func(v vals.Value) { v.IsNull() },
}

func valAnswers(s *Sess, v vals.Value, ty string) {
	ok, wrong := []string{}, []string{}
	for name, f := range valMethods {
		func() {
			defer func() {
				p := recover()
				if p == nil {
					ok = append(ok, name)
					return
				}
				e, is := p.(*vals.ValueError)
				if !is || e.Method != name || e.Type.String() != ty || !strings.Contains(e.Error(), name) || !strings.Contains(e.Error(), ty) {
					wrong = append(wrong, name)
				}
			}()
			f(v)
		}()
	}
	s.Ev("answers", M{"type": ty, "answers": ok, "wrong": wrong})
}

func genNumText(r *rand.Rand, max int) string {
	b := &strings.Builder{}
	b.WriteString([]string{"", "", "", "-", "+"}[r.Intn(5)])
	digits := func(n int) {
		for i := 0; i < n; i++ {
			b.WriteByte("0012345678999"[r.Intn(13)])
		}
	}
	digits(r.Intn(max))
	if r.Intn(2) == 0 {
		b.WriteString(".")
		digits(r.Intn(max))
	}
	if r.Intn(3) == 0 {
		b.WriteString([]string{"e", "E"}[r.Intn(2)] + []string{"", "-", "+"}[r.Intn(3)])
		digits(r.Intn(3))
	}
	return b.String()
}

var valWords = []string{"", " ", "\n", "true", "True", "tRUE", "t", "T", "f", "F", "FALSE", "False", " true", "true ", "null", "NULL", "Null", " null", "nul", "1", "0", "01", "e", "e5", "-", "+", "-e", "--1", "1-", "5e", "1e5", "1E5", "-0", "+0", "0.0", "-0.0",
	".5", "5.", ".", "-.5", "-5.", "1.5.5", "1,5", "2020-01-01", "12:30", " 5", "5 ", "\n5", "\t5", " -5", "\"a\"", " \"a\"", "{}", " {", "[1]", "\n[", "a{", "x\"", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"+9223372036854775807", "009223372036854775807", "18446744073709551616", "99999999999999999999999999", "1e308", "1e310", "-1e310", "1e-400", "0e999", "0.00001e312", "1.7976931348623157e308", "1.9e308", "123456789012345", "0.1", "é", "日本", "１", "٣", "−5"}

func runVals(h *H) {
	for k, sc := range h.Scens {
		if k%100 != 0 {
			continue
		}
		k := k
		_ = sc
		h.Add("texts", func(s *Sess) {
			s.Ev("begin", M{})
			for i := k; i < k+100 && i < len(h.Scens); i++ {
				t := ""
				l, _ := h.Scens[i]["t"].([]interface{})
				for _, c := range l {
					t += c.(string)
				}
				valText(s, t)
			}
		})
	}
	h.Add("words", func(s *Sess) {
		s.Ev("begin", M{})
		for _, w := range valWords {
			valText(s, w)
		}
		for _, n := range []string{"null", "integer", "number", "boolean", "string", "object", "array", "", "bytes", "unknown", "Integer", "int", " string", "text", "nul"} {
			t := vals.TypeFromString(n)
			m := M{"name": n, "print": t.String(), "back": "", "json": ""}
			var u vals.Type
			q, _ := json.Marshal(n)
			m["res"] = call(func() error { return json.Unmarshal(q, &u) })
			if m["res"] == "ok" {
				m["back"] = u.String()
				d, err := json.Marshal(u)
				var text string
				if err == nil && json.Unmarshal(d, &text) == nil {
					m["json"] = text
				}
			}
			s.Ev("name", m)
		}
	})
	for i := 0; i < h.N(30, 600); i++ {
		h.Add("numbers", func(s *Sess) {
			s.Ev("begin", M{})
			for k := 0; k < 20; k++ {
				valText(s, genNumText(s.R, []int{3, 8, 25}[s.R.Intn(3)]))
			}
		})
		h.Add("compare", func(s *Sess) {
			s.Ev("begin", M{})
			for k := 0; k < 20; k++ {
				switch s.R.Intn(4) {
				case 0:
					a, b := genString(s.R, prof{}), genString(s.R, prof{})
					switch s.R.Intn(4) {
					case 0:
						b = a + b
					case 1:
						// the same at first, for long
						p := strings.Repeat(string("ab é日"[s.R.Intn(3)]), 20+s.R.Intn(300))
						a, b = p+a, p+b
						if s.R.Intn(2) == 0 {
							b = a[:len(a)-1] + string(rune('a'+s.R.Intn(26)))
						}
					}
					valCompare(s, a, b, []string{"string", "string", "string", "boolean", "null", "object", "array", "other"}[s.R.Intn(8)])
				case 1:
					a := []string{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "9223372036854775806", "-9223372036854775807", "0", "-0", "+1", "01", "", "x"}
					valCompare(s, a[s.R.Intn(len(a))], a[s.R.Intn(len(a))], "integer")
				default:
					n := 1 + s.R.Intn(7)
					a, b := genNumText(s.R, n), genNumText(s.R, n)
					switch s.R.Intn(5) {
					case 0:
						b = a + "0"
					case 1:
						b = "0" + a
					case 2:
						b = "-" + a
					}
					valCompare(s, a, b, []string{"integer", "number", "number"}[s.R.Intn(3)])
				}
			}
		})
	}
	for i := 0; i < h.N(250, 5000); i++ {
		h.Add("values", func(s *Sess) {
			s.Ev("begin", M{})
			v := genTree(s.R, 1+s.R.Intn(4))
			valJSON(s, v, false)
			valJSON(s, v, true)
			valParse(s, v, false)
			valParse(s, v, true)
			valConvert(s, v, false)
			valConvert(s, v, true)
			// equality is by what values are, which differs between JSON and data
			// that is decoded only where numbers do
			w := genValue(s.R, prof{depth: 1 + s.R.Intn(4)})
			valEqual(s, w, w)
			valEqual(s, w, alter(s.R, w))
			valEqual(s, w, v)
			valNil(s, v, w)
		})
	}
	h.Add("deep", func(s *Sess) {
		s.Ev("begin", M{})
		for _, n := range []int{50, 500} {
			v := deepValue(s.R, n)
			valJSON(s, v, false)
			valConvert(s, v, false)
			valEqual(s, v, v)
			valEqual(s, v, deepValue(s.R, n+1))
		}
	})
	h.Add("answers", func(s *Sess) {
		s.Ev("begin", M{})
		for k := 0; k < 6; k++ {
			for _, v := range []interface{}{nil, true, "x", int64(4), 4.5, []interface{}{nil, int64(1)}, map[string]interface{}{"a": nil}} {
				x := literalVal(s.R, v)
				if k == 5 {
					o := vals.NewObjectValue("key", x)
					if ov, ok := o.(vals.ObjectValue); !ok || ov.Key != "key" || !reflect.DeepEqual(ov.Value, x) {
						s.Ev("answers", M{"type": "", "answers": []string{}, "wrong": []string{fmt.Sprintf("%T", o)}})
					}
					x = o
				}
				valAnswers(s, x, x.Type().String())
			}
		}
	})
}
