package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/jsonschema"
	"github.com/ugorji/go/codec"
)

func init() {
	runners["C15"] = runValidate
}

// vnode is a value as Validate.tla has it. N is twice the number
type vnode struct {
	K     string   `json:"k"`
	N     int      `json:"n"`
	Len   int      `json:"len"`
	Items []vnode  `json:"items"`
	Keys  []string `json:"keys"`
	str   string
}

func vscalar(k string, n int) vnode { return vnode{K: k, N: n, Items: []vnode{}, Keys: []string{}} }
func vstr(s string) vnode {
	v := vscalar("s", 0)
	v.str, v.Len = s, utf8.RuneCountInString(s)
	return v
}

// goval gives the Go value of a node. asFloat gives whole numbers as floats
func (v vnode) goval(asFloat bool) interface{} {
	switch v.K {
	case "n":
		return nil
	case "b":
		return v.N > 0
	case "num":
		if v.N%2 != 0 || asFloat {
			return float64(v.N) / 2
		}
		return int64(v.N / 2)
	case "s":
		if v.str == "" && v.Len > 0 {
			return strings.Repeat("é", v.Len)
		}
		return v.str
	case "arr":
		a := make([]interface{}, len(v.Items))
		for i, x := range v.Items {
			a[i] = x.goval(asFloat)
		}
		return a
	}
	m := map[string]interface{}{}
	for i, k := range v.Keys {
		m[k] = v.Items[i].goval(asFloat)
	}
	return m
}

type vprop struct {
	name string
	s    *vschema
}

func (p vprop) MarshalJSON() ([]byte, error) { return json.Marshal([]interface{}{p.name, p.s}) }
func (p *vprop) UnmarshalJSON(d []byte) error {
	parts := []json.RawMessage{}
	if err := json.Unmarshal(d, &parts); err != nil {
		return err
	}
	p.s = &vschema{}
	if err := json.Unmarshal(parts[0], &p.name); err != nil {
		return err
	}
	return json.Unmarshal(parts[1], p.s)
}

// vschema is a schema as Validate.tla has it
type vschema struct {
	Types  []string   `json:"types"`
	Min    []int      `json:"min"`
	Max    []int      `json:"max"`
	MinLen []int      `json:"minlen"`
	MaxLen []int      `json:"maxlen"`
	Req    []string   `json:"req"`
	Tuple  []*vschema `json:"tuple"`
	Each   []*vschema `json:"each"`
	Props  []vprop    `json:"props"`
	Other  []*vschema `json:"other"`
}

func freeSchema(types ...string) *vschema {
	if types == nil {
		types = []string{}
	}
	return &vschema{Types: types, Min: []int{}, Max: []int{}, MinLen: []int{}, MaxLen: []int{}, Req: []string{}, Tuple: []*vschema{}, Each: []*vschema{}, Props: []vprop{}, Other: []*vschema{}}
}

// jsonSchema gives the JSON schema
func (s *vschema) jsonSchema() map[string]interface{} {
	m := map[string]interface{}{}
	switch len(s.Types) {
	case 0:
	case 1:
		m["type"] = s.Types[0]
	default:
		ts := []interface{}{}
		for _, t := range s.Types {
			ts = append(ts, t)
		}
		m["type"] = ts
	}
	num := func(n int) interface{} { return float64(n) / 2 }
	if len(s.Min) > 0 {
		m["minimum"] = num(s.Min[0])
	}
	if len(s.Max) > 0 {
		m["maximum"] = num(s.Max[0])
	}
	if len(s.MinLen) > 0 {
		m["minLength"] = s.MinLen[0]
	}
	if len(s.MaxLen) > 0 {
		m["maxLength"] = s.MaxLen[0]
	}
	if len(s.Req) > 0 {
		r := []interface{}{}
		for _, x := range s.Req {
			r = append(r, x)
		}
		m["required"] = r
	}
	if len(s.Tuple) > 0 {
		a := []interface{}{}
		for _, x := range s.Tuple {
			a = append(a, x.jsonSchema())
		}
		m["items"] = a
	} else if len(s.Each) > 0 {
		m["items"] = s.Each[0].jsonSchema()
	}
	if len(s.Props) > 0 {
		p := map[string]interface{}{}
		for _, x := range s.Props {
			p[x.name] = x.s.jsonSchema()
		}
		m["properties"] = p
	}
	if len(s.Other) > 0 {
		m["additionalProperties"] = s.Other[0].jsonSchema()
	}
	return m
}

var vtypes = []string{"null", "boolean", "integer", "number", "string", "array", "object"}

func genVNode(r *rand.Rand, depth int) vnode {
	n := 8
	if depth <= 0 {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		return vscalar("n", 0)
	case 1:
		return vscalar("b", r.Intn(2))
	case 2, 3:
		return vscalar("num", r.Intn(40)-20)
	case 4:
		return vstr(strings.Repeat([]string{"a", "é", "日", "😀"}[r.Intn(4)], r.Intn(5)))
	case 5, 6:
		v := vscalar("arr", 0)
		for i := r.Intn(4); i > 0; i-- {
			v.Items = append(v.Items, genVNode(r, depth-1))
		}
		return v
	default:
		v := vscalar("obj", 0)
		for _, k := range []string{"a", "b", "c", "0", "12"} {
			if r.Intn(3) == 0 {
				v.Keys = append(v.Keys, k)
				v.Items = append(v.Items, genVNode(r, depth-1))
			}
		}
		return v
	}
}

func genVSchema(r *rand.Rand, depth int) *vschema {
	s := freeSchema()
	switch r.Intn(4) {
	case 0:
		s.Types = []string{vtypes[r.Intn(7)]}
	case 1:
		i := r.Intn(7)
		s.Types = []string{vtypes[i], vtypes[(i+1+r.Intn(6))%7]}
	}
	for i := r.Intn(3); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			s.Min = []int{r.Intn(20) - 10}
		case 1:
			s.Max = []int{r.Intn(20) - 10}
		case 2:
			s.MinLen = []int{r.Intn(4)}
		case 3:
			s.MaxLen = []int{r.Intn(4)}
		}
	}
	if depth > 0 {
		switch r.Intn(3) {
		case 0:
			s.Each = []*vschema{genVSchema(r, depth-1)}
		case 1:
			for i := r.Intn(4); i > 0; i-- {
				s.Tuple = append(s.Tuple, genVSchema(r, depth-1))
			}
		}
		// the schema library confuses names of nested objects when properties
		// that are not named have a schema: such schemas are kept flat
		if r.Intn(4) == 0 {
			s.Other = []*vschema{genVSchema(r, 0)}
			depth = 1
		}
		for _, k := range []string{"a", "b", "0"} {
			if r.Intn(3) == 0 {
				s.Props = append(s.Props, vprop{k, genVSchema(r, depth-1)})
			}
			if r.Intn(4) == 0 {
				s.Req = append(s.Req, k)
			}
		}
	}
	return s
}

// topSchema is the schema of a body whose entries have schema s
func topSchema(tlt string, s *vschema) *vschema {
	t := freeSchema(tlt)
	if tlt == "array" {
		t.Each = []*vschema{s}
	} else {
		t.Other = []*vschema{s}
	}
	return t
}

// memReader is an entry reader of a body in memory that may fail
type memReader struct {
	st      *dataset.Structure
	n       int
	at      func(i int) dsio.Entry
	fail    int // entry at which reading fails, -1 for none
	failEnd bool
	i       int
}

var errMem = errors.New("reader fault")

// readFaults are errors readers end with, none of which is the end of a body
var readFaults = []error{errMem, io.ErrUnexpectedEOF, errors.New("read body: unexpected EOF"), bufio.ErrFinalToken, errors.New("")}

func (m *memReader) Structure() *dataset.Structure { return m.st }
func (m *memReader) Close() error                  { return nil }
func (m *memReader) ReadEntry() (dsio.Entry, error) {
	if m.i == m.fail {
		return dsio.Entry{}, readFaults[m.fail%len(readFaults)]
	}
	if m.i >= m.n {
		return dsio.Entry{}, io.EOF
	}
	m.i++
	return m.at(m.i - 1), nil
}

// vbody is a body to validate
type vbody struct {
	n       int
	rest    vnode
	restkey string // key pattern of entries not listed, "" for arrays
	some    map[int]vnode
	keys    map[int]string
}

func (b *vbody) val(i int) vnode {
	if v, ok := b.some[i]; ok {
		return v
	}
	return b.rest
}

func (b *vbody) key(i int) string {
	if b.restkey == "" {
		return ""
	}
	if k, ok := b.keys[i]; ok {
		return k
	}
	return fmt.Sprintf("%s%d", b.restkey, i)
}

func (b *vbody) ev(s *Sess, fault bool) {
	some := []M{}
	at := []int{}
	for i := range b.some {
		at = append(at, i)
	}
	sort.Ints(at)
	for _, i := range at {
		some = append(some, M{"at": i, "key": b.key(i), "val": b.some[i]})
	}
	s.Ev("body", M{"n": b.n, "rest": b.rest, "restkey": b.restkey, "some": some, "fault": fault})
}

func (b *vbody) bytes(format string, asFloat bool) []byte {
	buf := &bytes.Buffer{}
	switch format {
	case "ndjson":
		for i := 0; i < b.n; i++ {
			d, _ := json.Marshal(b.val(i).goval(asFloat))
			buf.Write(d)
			buf.WriteByte('\n')
		}
	case "json":
		open, shut := byte('['), byte(']')
		if b.restkey != "" {
			open, shut = '{', '}'
		}
		buf.WriteByte(open)
		for i := 0; i < b.n; i++ {
			if i > 0 {
				buf.WriteByte(',')
			}
			if b.restkey != "" {
				fmt.Fprintf(buf, "%q:", b.key(i))
			}
			d, _ := json.Marshal(b.val(i).goval(asFloat))
			buf.Write(d)
		}
		buf.WriteByte(shut)
	case "cbor":
		var v interface{}
		if b.restkey != "" {
			m := map[string]interface{}{}
			for i := 0; i < b.n; i++ {
				m[b.key(i)] = b.val(i).goval(asFloat)
			}
			v = m
		} else {
			a := []interface{}{}
			for i := 0; i < b.n; i++ {
				a = append(a, b.val(i).goval(asFloat))
			}
			v = a
		}
		if err := codec.NewEncoder(buf, &codec.CborHandle{}).Encode(v); err != nil {
			panic(err)
		}
	}
	return buf.Bytes()
}

func validateEv(s *Sess, r dsio.EntryReader) {
	var errs []jsonschema.KeyError
	res := call(func() (err error) { errs, err = validate.EntryReader(r); return })
	paths := []string{}
	for _, e := range errs {
		paths = append(paths, e.PropertyPath)
	}
	s.Ev("result", M{"res": res, "paths": paths})
}

// validateBody validates a body in a format, "mem" for a reader in memory
func validateBody(s *Sess, b *vbody, top *vschema, format string, asFloat bool) {
	st := &dataset.Structure{Format: format, Schema: top.jsonSchema()}
	b.ev(s, false)
	if format == "mem" {
		st.Format = "json"
		validateEv(s, b.mem(st, asFloat, -1))
		return
	}
	r, err := dsio.NewEntryReader(st, bytes.NewReader(b.bytes(format, asFloat)))
	if err != nil {
		s.Ev("result", M{"res": "noreader", "paths": []string{}})
		return
	}
	validateEv(s, r)
}

func (b *vbody) mem(st *dataset.Structure, asFloat bool, fail int) *memReader {
	return &memReader{st: st, n: b.n, fail: fail, at: func(i int) dsio.Entry {
		return dsio.Entry{Index: i, Key: b.key(i), Value: b.val(i).goval(asFloat)}
	}}
}

func runValidate(h *H) {
	// every small schema with every small value
	for _, sc := range h.Scens {
		d, _ := json.Marshal(sc)
		x := struct {
			Schema *vschema `json:"schema"`
			Val    vnode    `json:"val"`
		}{}
		if err := json.Unmarshal(d, &x); err != nil {
			fail(err)
		}
		h.Add("scen", func(s *Sess) {
			tlt := []string{"array", "object"}[s.R.Intn(2)]
			top := topSchema(tlt, x.Schema)
			s.Ev("begin", M{"schema": top})
			b := &vbody{n: 1, rest: vscalar("n", 0), some: map[int]vnode{0: x.Val}}
			if tlt == "object" {
				b.restkey = "k"
			}
			for _, f := range []string{"mem", "json", "cbor"} {
				validateBody(s, b, top, f, s.R.Intn(2) == 0)
			}
		})
	}
	// random
	for i := 0; i < h.N(600, 12000); i++ {
		h.Add("random", func(s *Sess) {
			es := genVSchema(s.R, 2)
			tlt := []string{"array", "array", "object"}[s.R.Intn(3)]
			top := topSchema(tlt, es)
			if tlt == "array" && s.R.Intn(4) == 0 {
				top.Each, top.Tuple = []*vschema{}, []*vschema{genVSchema(s.R, 1), genVSchema(s.R, 1)}
			}
			if tlt == "object" && s.R.Intn(2) == 0 {
				top.Props = append(top.Props, vprop{"k0", genVSchema(s.R, 2)}, vprop{"7", genVSchema(s.R, 1)})
			}
			s.Ev("begin", M{"schema": top})
			for k := 0; k < 2; k++ {
				b := &vbody{n: s.R.Intn(7), rest: vscalar("n", 0), some: map[int]vnode{}, keys: map[int]string{}}
				if tlt == "object" {
					b.restkey = "k"
					b.keys[s.R.Intn(7)] = "7"
				}
				for i := 0; i < b.n; i++ {
					b.some[i] = genVNode(s.R, 2)
				}
				fs := []string{"mem", "json", "cbor"}
				if tlt == "array" {
					fs = append(fs, "ndjson")
				}
				validateBody(s, b, top, fs[s.R.Intn(len(fs))], s.R.Intn(2) == 0)
			}
		})
	}
	// deep values: the errors of the innermost part, and the path to it
	for i := 0; i < h.N(60, 600); i++ {
		h.Add("deep", func(s *Sess) {
			es := freeSchema("integer")
			good, bad := vscalar("num", 2), []vnode{vstr("x"), vscalar("num", 3), vscalar("n", 0)}[s.R.Intn(3)]
			for k := 1 + s.R.Intn(7); k > 0; k-- {
				up := freeSchema()
				switch s.R.Intn(3) {
				case 0:
					up.Types, up.Each = []string{"array"}, []*vschema{es}
					wrap := func(v vnode) vnode {
						a := vscalar("arr", 0)
						a.Items = append(a.Items, good, good, v)
						return a
					}
					good, bad = wrap(good), wrap(bad)
				case 1:
					up.Tuple = []*vschema{freeSchema(), es}
					wrap := func(v vnode) vnode {
						a := vscalar("arr", 0)
						a.Items = append(a.Items, vscalar("n", 0), v)
						return a
					}
					good, bad = wrap(good), wrap(bad)
				default:
					key := []string{"a", "b", "0"}[s.R.Intn(3)]
					up.Props = append(up.Props, vprop{key, es})
					wrap := func(v vnode) vnode {
						o := vscalar("obj", 0)
						o.Keys, o.Items = append(o.Keys, key), append(o.Items, v)
						return o
					}
					good, bad = wrap(good), wrap(bad)
				}
				es = up
			}
			top := topSchema("array", es)
			s.Ev("begin", M{"schema": top})
			b := &vbody{n: 1 + s.R.Intn(5), rest: good, some: map[int]vnode{}, keys: map[int]string{}}
			for i := 0; i < b.n; i++ {
				if s.R.Intn(2) == 0 {
					b.some[i] = bad
				}
			}
			validateBody(s, b, top, []string{"mem", "json", "cbor", "ndjson"}[s.R.Intn(4)], false)
		})
	}
	// many entries: the places of errors around sizes at which work is split
	sizes := []int{999, 1000, 1001, 4095, 4096, 4097, 4999, 5000, 5001, 9999, 10000, 10001, 12345, 15000, 20001}
	for _, n := range sizes {
		for rep := 0; rep < h.N(4, 24); rep++ {
			n, rep := n, rep
			h.Add("large", func(s *Sess) {
				es := freeSchema("integer")
				es.Min = []int{0}
				tlt := "array"
				if rep%2 == 1 {
					tlt = "object"
				}
				top := topSchema(tlt, es)
				s.Ev("begin", M{"schema": top})
				b := &vbody{n: n, rest: vscalar("num", 2), some: map[int]vnode{}, keys: map[int]string{}}
				if tlt == "object" {
					b.restkey = []string{"", "k"}[s.R.Intn(2)] + "1"
				}
				bad := func(i int) {
					if i >= 0 && i < n && len(b.some) < 40 {
						b.some[i] = []vnode{vstr("x"), vscalar("num", 3), vscalar("num", -1), vscalar("num", -2), vscalar("n", 0)}[s.R.Intn(5)]
					}
				}
				for _, i := range []int{0, 1, n - 2, n - 1} {
					bad(i)
				}
				for _, c := range sizes {
					if s.R.Intn(3) == 0 {
						bad(c - 1)
						bad(c)
						bad(c + 1)
					}
				}
				for k := 0; k < 5; k++ {
					bad(s.R.Intn(n))
				}
				fs := []string{"mem", "json", "cbor"}
				if tlt == "array" {
					fs = append(fs, "ndjson")
				}
				validateBody(s, b, top, fs[s.R.Intn(len(fs))], s.R.Intn(2) == 0)
			})
		}
	}
	// bodies all of whose entries are in error
	for _, n := range []int{1, 100, 1001, 5000, 6001, 10001, 15002} {
		for rep := 0; rep < h.N(2, 8); rep++ {
			n := n
			h.Add("flood", func(s *Sess) {
				es := genVSchema(s.R, 1)
				v := genVNode(s.R, 1)
				if s.R.Intn(2) == 0 {
					es, v = freeSchema("integer"), vstr("x")
				}
				top := topSchema("array", es)
				s.Ev("begin", M{"schema": top})
				b := &vbody{n: n, rest: v, some: map[int]vnode{}}
				st := &dataset.Structure{Format: "json", Schema: top.jsonSchema()}
				var errs []jsonschema.KeyError
				res := call(func() (err error) { errs, err = validate.EntryReader(b.mem(st, false, -1)); return })
				// errors by entry, as long as all entries have the same
				by := map[string][]string{}
				for _, e := range errs {
					p := strings.SplitN(e.PropertyPath, "/", 3)
					sub := ""
					if len(p) > 2 {
						sub = "/" + p[2]
					}
					if len(p) > 1 {
						by[p[1]] = append(by[p[1]], sub)
					}
				}
				same := true
				first := by["0"]
				if first == nil {
					first = []string{}
				}
				sort.Strings(first)
				for i := 0; i < n; i++ {
					x := by[fmt.Sprint(i)]
					sort.Strings(x)
					same = same && strings.Join(x, " ") == strings.Join(first, " ")
				}
				s.Ev("flood", M{"val": v, "res": res, "same": same, "count": len(errs), "n": n, "sub": first})
			})
		}
	}
	// rows of csv: cells that are not of the type of their column
	for rep := 0; rep < h.N(60, 1000); rep++ {
		rep := rep
		h.Add("csv", func(s *Sess) { validateCSV(s, rep) })
	}
	// readers that fail
	for rep := 0; rep < h.N(60, 600); rep++ {
		h.Add("fault", func(s *Sess) {
			es := genVSchema(s.R, 1)
			tlt := []string{"array", "object"}[s.R.Intn(2)]
			top := topSchema(tlt, es)
			s.Ev("begin", M{"schema": top})
			b := &vbody{n: s.R.Intn(6), rest: vscalar("n", 0), some: map[int]vnode{}}
			if s.R.Intn(3) == 0 {
				b.n = []int{4999, 5000, 5001, 7000, 10000}[s.R.Intn(5)]
				es2 := freeSchema("integer")
				top = topSchema(tlt, es2)
				s.Ev("begin", M{"schema": top})
				b.rest = vscalar("num", 2)
				for i := s.R.Intn(3); i > 0; i-- {
					b.some[s.R.Intn(b.n)] = vstr("x")
				}
			} else {
				for i := 0; i < b.n; i++ {
					b.some[i] = genVNode(s.R, 1)
				}
			}
			if tlt == "object" {
				b.restkey = "k"
			}
			at := s.R.Intn(b.n + 1)
			if s.R.Intn(3) == 0 {
				at = b.n
			}
			b.ev(s, true)
			st := &dataset.Structure{Format: "json", Schema: top.jsonSchema()}
			if s.R.Intn(3) > 0 || b.n == 0 {
				validateEv(s, b.mem(st, false, at))
				return
			}
			d := b.bytes("json", false)
			r, err := dsio.NewEntryReader(st, bytes.NewReader(d[:1+s.R.Intn(len(d)-1)]))
			if err != nil {
				fail(err)
			}
			validateEv(s, r)
		})
	}
	h.Add("noschema", func(s *Sess) {
		s.Ev("begin", M{"schema": freeSchema()})
		for _, sch := range []map[string]interface{}{nil, {"type": "nonsense"}, {"type": 5}} {
			r := &memReader{st: &dataset.Structure{Format: "json", Schema: sch}, fail: -1}
			res := call(func() error { _, err := validate.EntryReader(r); return err })
			s.Ev("noschema", M{"res": res})
		}
	})
}

func validateCSV(s *Sess, rep int) {
	r := s.R
	row := freeSchema("array")
	ncol := 1 + r.Intn(5)
	for i := 0; i < ncol; i++ {
		c := freeSchema([]string{"integer", "number", "boolean", "string"}[r.Intn(4)])
		switch {
		case c.Types[0] == "string" && r.Intn(2) == 0:
			c.MaxLen = []int{3}
		case c.Types[0] != "boolean" && r.Intn(2) == 0:
			c.Min = []int{2}
		}
		row.Tuple = append(row.Tuple, c)
	}
	top := topSchema("array", row)
	s.Ev("begin", M{"schema": top})
	cell := func(t string, good bool) (string, vnode) {
		bad := func() (string, vnode) {
			x := []string{"abc", "1.x", "--", "日本", "maybe"}[r.Intn(5)]
			return x, vstr(x)
		}
		switch t {
		case "integer":
			if !good && r.Intn(3) == 0 {
				return bad()
			}
			if !good && r.Intn(3) == 0 {
				return "1.5", vstr("1.5")
			}
			n := 1 + r.Intn(9)
			if !good {
				n -= 5
			}
			return fmt.Sprint(n), vscalar("num", 2*n)
		case "number":
			if !good && r.Intn(3) == 0 {
				return bad()
			}
			n := 2 + r.Intn(9)
			if !good {
				n -= 5
			}
			return fmt.Sprint(float64(n) / 2), vscalar("num", n)
		case "boolean":
			if !good && r.Intn(2) == 0 {
				return bad()
			}
			b := r.Intn(2)
			return fmt.Sprint(b > 0), vscalar("b", b)
		}
		x := []string{"a", "bc", "12", "xyz"}[r.Intn(4)]
		if !good {
			x = []string{"four", "日本語", "日本語x", "true", "1.5"}[r.Intn(5)]
		}
		return x, vstr(x)
	}
	n := r.Intn(8)
	if rep%10 == 0 {
		n = []int{4999, 5000, 5001, 10001}[r.Intn(4)]
	}
	b := &vbody{n: n, some: map[int]vnode{}}
	rest := []string{}
	b.rest = vscalar("arr", 0)
	for _, c := range row.Tuple {
		t, v := cell(c.Types[0], true)
		rest = append(rest, t)
		b.rest.Items = append(b.rest.Items, v)
	}
	sep := []string{"", ";", "\t"}[r.Intn(3)]
	head := r.Intn(2) == 0
	comma := ","
	if sep != "" {
		comma = sep
	}
	buf := &bytes.Buffer{}
	if head {
		for i := range row.Tuple {
			if i > 0 {
				buf.WriteString(comma)
			}
			fmt.Fprintf(buf, "col%d", i)
		}
		buf.WriteByte('\n')
	}
	for i := 0; i < n; i++ {
		cells := rest
		if n < 10 || i == 0 || i == n-1 || i == 4999 || i == 5000 || r.Intn(2000) == 0 {
			cells = []string{}
			v := vscalar("arr", 0)
			for _, c := range row.Tuple {
				t, x := cell(c.Types[0], r.Intn(2) == 0)
				cells = append(cells, t)
				v.Items = append(v.Items, x)
			}
			b.some[i] = v
		}
		buf.WriteString(strings.Join(cells, comma) + "\n")
	}
	b.ev(s, false)
	st := &dataset.Structure{Format: "csv", Schema: top.jsonSchema(), FormatConfig: map[string]interface{}{"headerRow": head}}
	if sep != "" {
		st.FormatConfig["separator"] = sep
	}
	rd, err := dsio.NewEntryReader(st, bytes.NewReader(buf.Bytes()))
	if err != nil {
		fail(err)
	}
	validateEv(s, rd)
}
