package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/qfs"
	"github.com/ugorji/go/codec"
)

func init() {
	runners["C18"] = runStats
}

// snode is a value as Stats.tla has it. N is twice the number
type snode struct {
	K     string   `json:"k"`
	N     int      `json:"n"`
	S     string   `json:"s"`
	H     string   `json:"h"`
	Len   int      `json:"len"`
	Items []snode  `json:"items"`
	Keys  []string `json:"keys"`
}

func snew(k string) snode { return snode{K: k, Items: []snode{}, Keys: []string{}} }
func snum(n int) snode {
	v := snew("num")
	v.N = n
	return v
}
func sstr(s string) snode {
	v := snew("s")
	v.S, v.Len = s, len(s)
	v.H = clip(s, 40)
	return v
}
func sbool(b bool) snode {
	v := snew("b")
	if b {
		v.N = 1
	}
	return v
}

// goval gives a Go value. With kinds, whole numbers are of any Go type
func (v snode) goval(r *rand.Rand) interface{} {
	switch v.K {
	case "n":
		return nil
	case "b":
		return v.N > 0
	case "num":
		f := float64(v.N) / 2
		if v.N%2 != 0 || r == nil {
			if r != nil && r.Intn(4) == 0 {
				return float32(f)
			}
			return f
		}
		switch r.Intn(5) {
		case 0:
			return v.N / 2
		case 1:
			return int32(v.N / 2)
		case 2:
			return float32(f)
		case 3:
			return f
		}
		return int64(v.N / 2)
	case "s":
		return v.S
	case "arr":
		a := make([]interface{}, len(v.Items))
		for i, x := range v.Items {
			a[i] = x.goval(r)
		}
		return a
	}
	m := map[string]interface{}{}
	for i, k := range v.Keys {
		m[k] = v.Items[i].goval(r)
	}
	return m
}

var statKeys = []string{"a", "b", "c", "B", "10", "9", "é", "aa", ""}

func genStatScalar(r *rand.Rand, kind string, wide bool) snode {
	switch kind {
	case "n":
		return snew("n")
	case "b":
		return sbool(r.Intn(2) == 0)
	case "num":
		if wide {
			return snum(r.Intn(400000) - 200000)
		}
		return snum(r.Intn(24) - 12)
	}
	if wide {
		return sstr(fmt.Sprintf("v%d", r.Intn(100000)))
	}
	switch r.Intn(6) {
	case 0:
		return sstr("")
	case 1:
		return sstr(strings.Repeat([]string{"x", "é", "日"}[r.Intn(3)], 10+r.Intn(20)))
	case 2:
		return sstr(strings.Repeat("y", 38+r.Intn(6)))
	case 3:
		// the same beginning and length
		return sstr(strings.Repeat("z", 40) + []string{"1", "2", "3"}[r.Intn(3)])
	}
	return sstr([]string{"a", "b", "A", "é", "a ", "0", "true"}[r.Intn(7)])
}

// genStatCol makes a maker of values of one column
func genStatCol(r *rand.Rand, depth int) func() snode {
	kinds := []string{"n", "b", "num", "num", "s", "s"}
	mix := r.Intn(4) == 0
	wide := r.Intn(5) == 0
	kind := kinds[r.Intn(len(kinds))]
	if depth > 0 && r.Intn(4) == 0 {
		cols := []func() snode{}
		for i := r.Intn(4); i >= 0; i-- {
			cols = append(cols, genStatCol(r, depth-1))
		}
		ragged := r.Intn(3) == 0
		if r.Intn(2) == 0 {
			return func() snode {
				v := snew("arr")
				for _, c := range cols {
					if ragged && r.Intn(4) == 0 {
						break
					}
					v.Items = append(v.Items, c())
				}
				return v
			}
		}
		names := append([]string{}, statKeys...)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		return func() snode {
			v := snew("obj")
			for i, c := range cols {
				if ragged && r.Intn(4) == 0 {
					continue
				}
				v.Keys = append(v.Keys, names[i])
				v.Items = append(v.Items, c())
			}
			return v
		}
	}
	return func() snode {
		if mix && r.Intn(3) == 0 {
			return genStatScalar(r, kinds[r.Intn(len(kinds))], wide)
		}
		return genStatScalar(r, kind, wide)
	}
}

const oddNumber = 2000000001

// thousand gives twice a number times a thousand
func thousand(x interface{}) int {
	f, ok := x.(float64)
	if !ok || math.Abs(f) > 1e6 {
		return oddNumber
	}
	return int(math.Round(f * 2000))
}

func whole(x interface{}) int {
	f, ok := x.(float64)
	if !ok || f != math.Trunc(f) || math.Abs(f) > 1e9 {
		return oddNumber
	}
	return int(f)
}

// statNode gives a statistic as StatsTrace.tla has it. typ is "" for nested
// statistics, which do not tell
func statNode(m map[string]interface{}, typ string) M {
	if typ == "" {
		switch {
		case m["mean"] != nil:
			typ = "numeric"
		case m["minLength"] != nil:
			typ = "string"
		case m["trueCount"] != nil:
			typ = "boolean"
		case m["values"] != nil:
			typ = "array"
		default:
			typ = "object"
			if _, num := m["count"].(float64); num {
				typ = "null"
			}
		}
	}
	n := M{"t": typ}
	switch typ {
	case "numeric":
		n["count"], n["min"], n["max"], n["mean"], n["median"] = whole(m["count"]), thousand(m["min"]), thousand(m["max"]), thousand(m["mean"]), thousand(m["median"])
		h, _ := m["histogram"].(map[string]interface{})
		bins, freqs := []int{}, []int{}
		if a, ok := h["bins"].([]interface{}); ok {
			for _, x := range a {
				bins = append(bins, thousand(x))
			}
		}
		if a, ok := h["frequencies"].([]interface{}); ok {
			for _, x := range a {
				freqs = append(freqs, whole(x))
			}
		}
		n["bins"], n["freqs"] = bins, freqs
	case "string":
		n["count"], n["minlen"], n["maxlen"], n["unique"] = whole(m["count"]), whole(m["minLength"]), whole(m["maxLength"]), whole(m["unique"])
		fs := [][]interface{}{}
		if f, ok := m["frequencies"].(map[string]interface{}); ok {
			for k, c := range f {
				fs = append(fs, []interface{}{k, whole(c)})
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i][0].(string) < fs[j][0].(string) })
		n["fs"] = fs
	case "boolean":
		n["count"], n["true"], n["false"] = whole(m["count"]), whole(m["trueCount"]), whole(m["falseCount"])
	case "null":
		n["count"] = whole(m["count"])
	case "array":
		kids := []M{}
		a, _ := m["values"].([]interface{})
		for _, x := range a {
			c, _ := x.(map[string]interface{})
			kids = append(kids, statNode(c, ""))
		}
		n["kids"] = kids
	case "object":
		kids, keys := []M{}, []string{}
		for k, x := range m {
			c, ok := x.(map[string]interface{})
			if !ok {
				continue // "key" and "type" of this statistic itself
			}
			keys = append(keys, k)
			kids = append(kids, statNode(c, ""))
		}
		n["kids"], n["keys"] = kids, keys
	}
	return n
}

func statsEv(s *Sess, res string, none bool, qri string, stats interface{}) {
	kids, keys := []M{}, []string{}
	if stats != nil {
		d, err := json.Marshal(stats)
		if err != nil {
			res = "unencodable"
		}
		list := []map[string]interface{}{}
		if err := json.Unmarshal(d, &list); err != nil && res == "ok" {
			res = "undecodable"
		}
		for _, m := range list {
			t, _ := m["type"].(string)
			kids = append(kids, statNode(m, t))
			if k, ok := m["key"].(string); ok {
				keys = append(keys, k)
			}
		}
	}
	order := append([]string{}, keys...)
	sort.Strings(order)
	s.Ev("stats", M{"res": res, "none": none, "qri": qri, "kids": kids, "keys": keys, "order": order})
}

func statsOf(s *Sess, f func() (*dataset.Stats, error)) {
	var st *dataset.Stats
	res := call(func() (err error) { st, err = f(); return })
	if st == nil {
		statsEv(s, res, true, "", nil)
		return
	}
	statsEv(s, res, false, st.Qri, st.Stats)
}

func statBody(vals []snode, obj bool, format string, r *rand.Rand) []byte {
	buf := &bytes.Buffer{}
	enc := func(v snode) []byte {
		d, err := json.Marshal(v.goval(r))
		if err != nil {
			panic(err)
		}
		return d
	}
	switch format {
	case "json":
		if obj {
			buf.WriteByte('{')
		} else {
			buf.WriteByte('[')
		}
		for i, v := range vals {
			if i > 0 {
				buf.WriteByte(',')
			}
			if obj {
				fmt.Fprintf(buf, "\"k%d\":", i)
			}
			buf.Write(enc(v))
		}
		if obj {
			buf.WriteByte('}')
		} else {
			buf.WriteByte(']')
		}
	case "ndjson":
		for _, v := range vals {
			buf.Write(enc(v))
			buf.WriteByte('\n')
		}
	case "cbor":
		var x interface{}
		if obj {
			// maps are written in one order: that of their keys
			buf.WriteByte(0xbf)
			for i, v := range vals {
				codec.NewEncoder(buf, &codec.CborHandle{}).Encode(fmt.Sprintf("k%d", i))
				codec.NewEncoder(buf, &codec.CborHandle{}).Encode(v.goval(r))
			}
			buf.WriteByte(0xff)
			return buf.Bytes()
		}
		a := []interface{}{}
		for _, v := range vals {
			a = append(a, v.goval(r))
		}
		x = a
		codec.NewEncoder(buf, &codec.CborHandle{}).Encode(x)
	}
	return buf.Bytes()
}

// statRun calculates statistics of values in one of several ways
func statRun(s *Sess, vals []snode, way string, fault bool) {
	r := s.R
	obj := r.Intn(3) == 0
	schema := dataset.BaseSchemaArray
	if obj {
		schema = dataset.BaseSchemaObject
	}
	s.Ev("body", M{"vals": vals, "fault": fault})
	st := &dataset.Structure{Format: way, Schema: schema}
	mem := func() *memReader {
		st.Format = "json"
		m := &memReader{st: st, n: len(vals), fail: -1, at: func(i int) dsio.Entry {
			e := dsio.Entry{Index: i, Value: vals[i].goval(r)}
			if obj {
				e.Key = fmt.Sprintf("k%d", i)
			}
			return e
		}}
		if fault {
			m.fail = r.Intn(len(vals) + 1)
		}
		return m
	}
	switch way {
	case "mem":
		statsOf(s, func() (*dataset.Stats, error) { return dsstats.CalculateFromEntryReader(mem()) })
	case "acc":
		acc := dsstats.NewAccumulator(st)
		rd := mem()
		peek := r.Intn(2) == 0
		res := call(func() error {
			for i := 0; i < len(vals); i++ {
				e, _ := rd.ReadEntry()
				if err := acc.WriteEntry(e); err != nil {
					return err
				}
				if peek && r.Intn(3) == 0 {
					dsstats.ToMap(acc)
				}
			}
			return acc.Close()
		})
		statsEv(s, res, false, "sa:0", dsstats.ToMap(acc))
	case "copy":
		acc := dsstats.NewAccumulator(st)
		res := call(func() error {
			if err := dsio.Copy(mem(), acc); err != nil {
				return err
			}
			return acc.Close()
		})
		if res == "ok" {
			statsEv(s, res, false, "sa:0", dsstats.ToMap(acc))
		} else {
			statsEv(s, res, true, "", nil)
		}
	default:
		if way == "ndjson" {
			st.Schema = dataset.BaseSchemaArray
			obj = false
		}
		d := statBody(vals, obj, way, r)
		if fault {
			d = d[:len(d)-1-r.Intn(len(d)-1)]
		}
		ds := &dataset.Dataset{Structure: st}
		ds.SetBodyFile(&chunkFile{name: "body." + way, data: d, chunk: 1 + r.Intn(40)})
		statsOf(s, func() (*dataset.Stats, error) { return dsstats.Calculate(ds) })
	}
}

var statWays = []string{"mem", "acc", "copy", "json", "ndjson", "cbor"}

func runStats(h *H) {
	for _, sc := range h.Scens {
		d, _ := json.Marshal(sc)
		x := struct {
			Col []snode `json:"col"`
		}{}
		if err := json.Unmarshal(d, &x); err != nil {
			fail(err)
		}
		h.Add("scen", func(s *Sess) {
			s.Ev("begin", M{})
			for i := 0; i < 2; i++ {
				vals := x.Col
				if i == 1 {
					// the same column in rows, or in objects
					vals = []snode{}
					keyed := s.R.Intn(2) == 0
					for _, v := range x.Col {
						row := snew("arr")
						row.Items = []snode{sstr("x"), v}
						if keyed {
							row = snew("obj")
							row.Keys, row.Items = []string{"b", "a"}, []snode{sstr("x"), v}
						}
						vals = append(vals, row)
					}
				}
				statRun(s, vals, statWays[s.R.Intn(len(statWays))], false)
			}
		})
	}
	for i := 0; i < h.N(500, 8000); i++ {
		h.Add("random", func(s *Sess) {
			s.Ev("begin", M{})
			for k := 0; k < 2; k++ {
				vals := statVals(s.R, s.R.Intn(30))
				statRun(s, vals, statWays[s.R.Intn(len(statWays))], false)
			}
		})
	}
	// around the sizes at which what is kept becomes an estimate
	for _, n := range []int{31, 32, 33, 34, 64, 199, 200, 201, 202, 260} {
		for rep := 0; rep < h.N(4, 30); rep++ {
			n := n
			h.Add("sizes", func(s *Sess) {
				s.Ev("begin", M{})
				vals := []snode{}
				for i := 0; i < n; i++ {
					row := snew("arr")
					row.Items = []snode{snum(2 * i), sstr(fmt.Sprintf("v%d", i)), sbool(i%3 == 0), snum(i % 7)}
					vals = append(vals, row)
				}
				// repeated values
				for i := s.R.Intn(60); i > 0; i-- {
					vals = append(vals, vals[s.R.Intn(n)])
				}
				s.R.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
				statRun(s, vals, statWays[s.R.Intn(len(statWays))], false)
			})
		}
	}
	// rows of many columns and objects of many keys
	for _, n := range []int{20, 63, 64, 65, 100, 101, 128, 129, 256, 257, 300} {
		for rep := 0; rep < h.N(1, 6); rep++ {
			n := n
			h.Add("wide", func(s *Sess) {
				s.Ev("begin", M{})
				keyed := s.R.Intn(2) == 0
				vals := []snode{}
				for i := 0; i < 3; i++ {
					row := snew("arr")
					if keyed {
						row = snew("obj")
					}
					for k := 0; k < n; k++ {
						if keyed && s.R.Intn(4) == 0 {
							continue
						}
						row.Items = append(row.Items, []snode{snum(2 * k), sbool(k%2 == 0), snew("n"), sstr("x")}[s.R.Intn(4)])
						if keyed {
							row.Keys = append(row.Keys, fmt.Sprintf("k%d", k))
						}
					}
					vals = append(vals, row)
				}
				statRun(s, vals, statWays[s.R.Intn(len(statWays))], false)
			})
		}
	}
	for i := 0; i < h.N(60, 1000); i++ {
		h.Add("csv", statCSV)
	}
	for i := 0; i < h.N(100, 1500); i++ {
		h.Add("fault", func(s *Sess) {
			s.Ev("begin", M{})
			vals := statVals(s.R, 1+s.R.Intn(8))
			statRun(s, vals, []string{"mem", "copy", "json", "cbor"}[s.R.Intn(4)], true)
		})
	}
	h.Add("refuse", func(s *Sess) {
		s.Ev("begin", M{})
		no := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}}
		bare := &dataset.Dataset{}
		bare.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1]")))
		form := &dataset.Dataset{Structure: &dataset.Structure{Schema: dataset.BaseSchemaArray}}
		form.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1]")))
		sch := &dataset.Dataset{Structure: &dataset.Structure{Format: "json"}}
		sch.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1]")))
		for _, ds := range []*dataset.Dataset{no, bare, form, sch, {}} {
			var st *dataset.Stats
			res := call(func() (err error) { st, err = dsstats.Calculate(ds); return })
			s.Ev("refuse", M{"res": res, "none": st == nil})
		}
	})
}

// statVals makes entries: rows, objects or single values
func statVals(r *rand.Rand, n int) []snode {
	col := genStatCol(r, 0)
	switch r.Intn(5) {
	case 0:
	case 1, 2:
		cols := []func() snode{}
		for i := r.Intn(4); i >= 0; i-- {
			cols = append(cols, genStatCol(r, 2))
		}
		ragged := r.Intn(3) == 0
		col = func() snode {
			v := snew("arr")
			for _, c := range cols {
				if ragged && r.Intn(4) == 0 {
					break
				}
				v.Items = append(v.Items, c())
			}
			return v
		}
	case 3:
		names := append([]string{}, statKeys...)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		cols := []func() snode{}
		for i := r.Intn(5); i >= 0; i-- {
			cols = append(cols, genStatCol(r, 2))
		}
		col = func() snode {
			v := snew("obj")
			for i, c := range cols {
				if r.Intn(5) == 0 {
					continue
				}
				v.Keys = append(v.Keys, names[i])
				v.Items = append(v.Items, c())
			}
			return v
		}
	case 4:
		col = genStatCol(r, 2)
	}
	vals := []snode{}
	for i := 0; i < n; i++ {
		vals = append(vals, col())
	}
	return vals
}

// statCSV calculates statistics of tables with typed columns
func statCSV(s *Sess) {
	r := s.R
	s.Ev("begin", M{})
	types := []string{}
	items := []interface{}{}
	for i := r.Intn(4); i >= 0; i-- {
		t := []string{"integer", "number", "boolean", "string"}[r.Intn(4)]
		types = append(types, t)
		items = append(items, map[string]interface{}{"title": fmt.Sprintf("c%d", i), "type": t})
	}
	buf := &bytes.Buffer{}
	w := csv.NewWriter(buf)
	head := r.Intn(2) == 0
	if head {
		row := []string{}
		for i := range types {
			row = append(row, fmt.Sprintf("c%d", i))
		}
		w.Write(row)
	}
	vals := []snode{}
	for i := r.Intn(40); i > 0; i-- {
		row := snew("arr")
		cells := []string{}
		for _, t := range types {
			switch t {
			case "integer":
				n := r.Intn(40) - 20
				row.Items, cells = append(row.Items, snum(2*n)), append(cells, fmt.Sprint(n))
			case "number":
				n := r.Intn(80) - 40
				row.Items, cells = append(row.Items, snum(n)), append(cells, fmt.Sprint(float64(n)/2))
			case "boolean":
				b := r.Intn(2) == 0
				row.Items, cells = append(row.Items, sbool(b)), append(cells, fmt.Sprint(b))
			default:
				v := sstr([]string{"x", "y, z", "日本", "12", strings.Repeat("long", 12)}[r.Intn(5)])
				row.Items, cells = append(row.Items, v), append(cells, v.S)
			}
		}
		vals = append(vals, row)
		w.Write(cells)
	}
	w.Flush()
	s.Ev("body", M{"vals": vals, "fault": false})
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "csv",
		FormatConfig: map[string]interface{}{"headerRow": head},
		Schema:       map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}}}
	ds.SetBodyFile(&chunkFile{name: "body.csv", data: buf.Bytes(), chunk: 1 + r.Intn(40)})
	statsOf(s, func() (*dataset.Stats, error) { return dsstats.Calculate(ds) })
}
