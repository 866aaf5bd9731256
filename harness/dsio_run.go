package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
)

func init() {
	runners["C01"] = runRoundTrip
	runners["C02"] = runChunks
	runners["C03"] = runTruncate
	runners["C04"] = runReject
	runners["C05"] = runPaging
	runners["C06"] = runRaw
	runners["C07"] = runFaults
}

// wEnt projects an entry that is written
func (c cfg) wEnt(e dsio.Entry) M {
	m := c.ent(e)
	_, row := e.Value.([]interface{})
	m["row"] = row
	return m
}

// writeSpent writes an entry whose row or object is reused right after, which
// must not matter. The entry must be as before when it's written
func writeSpent(c cfg, w dsio.EntryWriter, e dsio.Entry, before M) string {
	switch x := e.Value.(type) {
	case []interface{}:
		if x != nil {
			e.Value = append([]interface{}{}, x...)
		}
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, v := range x {
			o[k] = v
		}
		e.Value = o
	}
	res := call(func() error { return w.WriteEntry(e) })
	if !reflect.DeepEqual(c.wEnt(e), before) {
		return "changed"
	}
	if c.Fmt == "cbor" {
		return res // keeps entries until it's closed, the length comes first
	}
	switch x := e.Value.(type) {
	case []interface{}:
		for i := range x {
			x[i] = "spent"
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = "spent"
		}
		x["spent"] = true
	}
	return res
}

// writeBody records writing entries one by one, and gives the bytes
func writeBody(s *Sess, c cfg, es []dsio.Entry) ([]byte, bool) {
	s.Ev("begin", c.begin())
	buf := &bytes.Buffer{}
	var w dsio.EntryWriter
	if res := call(func() (err error) { w, err = c.writer(buf); return }); res != "ok" {
		s.Ev("write", M{"res": "open" + res, "e": M{}})
		return nil, false
	}
	if len(es) > 60 {
		ms := make([]M, len(es))
		res := "ok"
		for i, e := range es {
			ms[i] = c.wEnt(e)
			if x := writeSpent(c, w, e, ms[i]); x != "ok" {
				res = x
			}
		}
		s.Ev("writes", M{"es": ms, "res": res})
	} else {
		for _, e := range es {
			m := c.wEnt(e)
			s.Ev("write", M{"e": m, "res": writeSpent(c, w, e, m)})
		}
	}
	s.Ev("close", M{"res": call(w.Close)})
	if c.Fmt != "xlsx" && buf.Len() < 1<<20 {
		// the same entries, in maps made in another way
		again := make([]dsio.Entry, len(es))
		for i, e := range es {
			e.Value = remade(e.Value)
			again[i] = e
		}
		a, b := buf.Bytes(), []byte{}
		res := call(func() (err error) { b, err = c.encode(again); return })
		if c.Comp != "" && res == "ok" {
			a, _ = decompress(c.Comp, a)
			b, _ = decompress(c.Comp, b)
		}
		s.Ev("again", M{"res": res, "same": bytes.Equal(a, b)})
	}
	return buf.Bytes(), true
}

// remade builds the same value again
func remade(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		if x == nil {
			return v
		}
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = remade(x[i])
		}
		return l
	case map[string]interface{}:
		if x == nil {
			return v
		}
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		m := map[string]interface{}{}
		for _, k := range ks {
			m[k] = remade(x[k])
		}
		return m
	}
	return v
}

func (c cfg) fullRead(s *Sess, d []byte) {
	es, res := c.readAll(bytes.NewReader(d), len(d)+10)
	s.Ev("read", M{"es": es, "res": res, "via": "ReadEntry"})
}

// otherReads reads through the other functions that consume readers
func (c cfg) otherReads(s *Sess, d []byte) { c.readVia(s, d, s.R.Intn(4)) }

func (c cfg) readVia(s *Sess, d []byte, way int) {
	switch way {
	case 0: // ReadAll
		er, err := c.reader(bytes.NewReader(d))
		if err != nil {
			s.Ev("read", M{"es": []M{}, "res": "openerr"})
			return
		}
		var v interface{}
		res := call(func() (err error) { v, err = dsio.ReadAll(er); return })
		es := []M{}
		switch x := v.(type) {
		case []interface{}:
			for i, e := range x {
				m := c.ent(dsio.Entry{Value: e})
				m["idx"] = i
				if c.Fmt == "csv" {
					m["idx"] = 0
				}
				es = append(es, m)
			}
			if res == "ok" {
				res = "eof"
			}
			s.Ev("read", M{"es": es, "res": res, "via": "ReadAll"})
		case map[string]interface{}:
			if res == "ok" {
				res = "eof"
			}
			// an object has no order, entries are given in the order of writing
			rest := map[string]interface{}{}
			for k, e := range x {
				rest[k] = e
			}
			if seq, rr := c.readAll(bytes.NewReader(d), len(d)+10); rr == "eof" {
				for _, m := range seq {
					for k, e := range rest {
						if txt(k) == m["key"] {
							es = append(es, c.ent(dsio.Entry{Key: k, Value: e}))
							delete(rest, k)
							break
						}
					}
				}
			}
			for k, e := range rest {
				es = append(es, c.ent(dsio.Entry{Key: k, Value: e}))
			}
			s.Ev("read", M{"es": es, "res": res, "via": "ReadAll"})
		default:
			s.Ev("read", M{"es": es, "res": res + "-notype", "via": "ReadAll"})
		}
	case 1: // EachEntry
		er, err := c.reader(bytes.NewReader(d))
		if err != nil {
			s.Ev("read", M{"es": []M{}, "res": "openerr"})
			return
		}
		es := []M{}
		raw := []dsio.Entry{}
		order := true
		res := call(func() error {
			return dsio.EachEntry(er, func(i int, e dsio.Entry, err error) error {
				if err != nil {
					return err
				}
				if i != len(es) {
					order = false
				}
				es = append(es, c.ent(e))
				raw = append(raw, e)
				return nil
			})
		})
		if res == "ok" && order {
			res = "eof"
		}
		res = c.settle(raw, es, res)
		s.Ev("read", M{"es": es, "res": res, "via": "EachEntry"})
	case 2: // Copy to a buffer of the same format, then read
		er, err := c.reader(bytes.NewReader(d))
		if err != nil {
			s.Ev("read", M{"es": []M{}, "res": "openerr"})
			return
		}
		buf, err := dsio.NewEntryBuffer(c.st())
		if c.Fmt == "xlsx" || c.Comp == "gzip" {
			// reading these needs all bytes when the reader is made
			b2 := &bytes.Buffer{}
			var w dsio.EntryWriter
			res := call(func() (err error) { w, err = c.writer(b2); return })
			if res == "ok" {
				res = call(func() error { return dsio.Copy(er, w) })
			}
			if res == "ok" {
				res = call(w.Close)
			}
			if res != "ok" {
				s.Ev("read", M{"es": []M{}, "res": res, "via": "Copy"})
				return
			}
			c.fullRead(s, b2.Bytes())
			return
		}
		res := "ok"
		if err != nil {
			res = "err"
		}
		if res == "ok" {
			res = call(func() error { return dsio.Copy(er, buf) })
		}
		if res == "ok" {
			res = call(buf.Close)
		}
		es := []M{}
		if res == "ok" {
			if s.R.Intn(2) == 0 || c.Comp != "" {
				es, res = c.readAll(bytes.NewReader(buf.Bytes()), len(d)+10)
			} else {
				es, res = c.drain(buf, len(d)+10)
			}
		}
		s.Ev("read", M{"es": es, "res": res, "via": "Copy"})
	default: // through a paged reader that doesn't limit
		er, err := c.reader(bytes.NewReader(d))
		if err != nil {
			s.Ev("read", M{"es": []M{}, "res": "openerr"})
			return
		}
		es, res := c.drain(&dsio.PagedReader{Reader: er, Limit: math.MaxInt32}, len(d)+10)
		s.Ev("read", M{"es": es, "res": res, "via": "Paged"})
	}
}

func roundTrip(s *Sess, c cfg, es []dsio.Entry) {
	d, ok := writeBody(s, c, es)
	if !ok {
		return
	}
	if ies, res, has := c.indep(d); has {
		s.Ev("indep", M{"es": ies, "res": res})
	}
	c.fullRead(s, d)
	if c.Size > 0 {
		c.Size = 0
		c.fullRead(s, d)
	}
	c.otherReads(s, d)
	c.otherReads(s, d)
}

func runRoundTrip(h *H) {
	// every scalar of interest, alone, in every format
	for _, f := range []string{"json", "ndjson", "cbor"} {
		f := f
		for _, tlt := range []string{"array", "object"} {
			tlt := tlt
			if f == "ndjson" && tlt == "object" {
				continue
			}
			h.Add("scalars/"+f+"/"+tlt, func(s *Sess) {
				c := cfg{Fmt: f, Tlt: tlt}
				vs := []interface{}{nil, true, false, []interface{}{}, map[string]interface{}{}, []interface{}{[]interface{}{}}, map[string]interface{}{"": nil}}
				for _, i := range edgeInts {
					vs = append(vs, i)
				}
				if f != "ndjson" {
					for _, u := range []uint64{1 << 63, math.MaxUint64, 1<<63 + 1025, 10000000000000000000} {
						vs = append(vs, u)
					}
				}
				for _, x := range edgeFloats {
					vs = append(vs, x, -x)
				}
				for _, x := range strPieces {
					vs = append(vs, x)
				}
				for b := 0; b < 128; b++ {
					vs = append(vs, string([]byte{byte(b)}), "x"+string([]byte{byte(b)})+"y")
				}
				for _, n := range longLens {
					vs = append(vs, strings.Repeat("é", n/2)+strings.Repeat("q", n%2))
				}
				for e := 0; e < 63; e++ {
					vs = append(vs, int64(1)<<uint(e), -(int64(1) << uint(e)), int64(1)<<uint(e)-1, -(int64(1)<<uint(e))+1, -(int64(1)<<uint(e))-1)
				}
				es := []dsio.Entry{}
				for i, v := range vs {
					e := dsio.Entry{Value: v}
					if tlt == "object" {
						e.Key = fmt.Sprintf("k%d", i)
						if str, ok := v.(string); ok && str != "" {
							e.Key = fmt.Sprintf("~%d", i) + str
						}
					}
					es = append(es, e)
				}
				roundTrip(s, c, es)
			})
		}
	}
	// more values than may be nested, next to each other
	for _, f := range []string{"json", "ndjson", "cbor"} {
		for k, v := range []interface{}{nil, []interface{}{}, map[string]interface{}{}, "", false} {
			f, k, v := f, k, v
			h.Add("beside/"+f, func(s *Sess) {
				many := make([]interface{}, 10500)
				for i := range many {
					many[i] = v
				}
				es := []dsio.Entry{{Value: many}, {Value: map[string]interface{}{"k": many}}}
				if k == int(s.ID)%5 {
					for i := 0; i < 10500; i++ {
						es = append(es, dsio.Entry{Value: v})
					}
				}
				roundTrip(s, cfg{Fmt: f, Tlt: "array"}, es)
			})
		}
	}
	// names of sheets, and wide ones
	for _, n := range []string{"", "a", "Sheet2", "sheet1", "data & more", "<x>", "日本", "'", "a'b", "x y ", strings.Repeat("n", 30), strings.Repeat("n", 31), strings.Repeat("n", 32), strings.Repeat("n", 40), strings.Repeat("é", 20), strings.Repeat("日本", 20), "a:b", "a/b", "0"} {
		n := n
		h.Add("sheet", func(s *Sess) {
			roundTrip(s, cfg{Fmt: "xlsx", Tlt: "array", Types: []string{"string", "integer"}, Sheet: n}, []dsio.Entry{{Value: []interface{}{"a", int64(1)}}, {Value: []interface{}{"b", int64(2)}}})
		})
	}
	for _, n := range []int{255, 256, 701, 702, 703, 729, 1400} {
		n := n
		for _, f := range []string{"xlsx", "csv"} {
			f := f
			h.Add("columns/"+f, func(s *Sess) {
				c := cfg{Fmt: f, Tlt: "array"}
				row := []interface{}{}
				for i := 0; i < n; i++ {
					c.Types = append(c.Types, "integer")
					row = append(row, int64(i))
				}
				roundTrip(s, c, []dsio.Entry{{Value: row}, {Value: row}})
			})
		}
	}
	// number of entries around the limits of length encodings
	for _, f := range []string{"json", "ndjson", "cbor", "csv", "xlsx"} {
		for _, n := range []int{0, 1, 2, 23, 24, 25, 255, 256, 257, 1000} {
			f, n := f, n
			if f == "xlsx" && n > 257 {
				continue
			}
			h.Add(fmt.Sprintf("counts/%s/%d", f, n), func(s *Sess) {
				c := cfg{Fmt: f, Tlt: "array"}
				if f == "csv" || f == "xlsx" {
					c.Types = []string{"integer", "string"}
				}
				roundTrip(s, c, countEntries(c, n))
			})
			if f == "json" || f == "cbor" {
				h.Add(fmt.Sprintf("countsobj/%s/%d", f, n), func(s *Sess) {
					c := cfg{Fmt: f, Tlt: "object"}
					roundTrip(s, c, countEntries(c, n))
				})
			}
		}
	}
	// containers within an entry around the same limits
	for _, f := range []string{"json", "ndjson", "cbor"} {
		f := f
		h.Add("inner/"+f, func(s *Sess) {
			es := []dsio.Entry{}
			for _, n := range []int{0, 1, 22, 23, 24, 25, 254, 255, 256, 257, 300} {
				a := make([]interface{}, n)
				m := map[string]interface{}{}
				for i := range a {
					a[i] = int64(i)
					m[fmt.Sprintf("k%d", i)] = i%2 == 0
				}
				es = append(es, dsio.Entry{Value: a}, dsio.Entry{Value: m})
			}
			roundTrip(s, cfg{Fmt: f, Tlt: "array"}, es)
		})
		h.Add("big/"+f, func(s *Sess) {
			// single values larger than any buffer, and 16 bit lengths
			es := []dsio.Entry{}
			for _, n := range []int{65535, 65536, 65537, 262143, 262144, 262145, 300001} {
				es = append(es, dsio.Entry{Value: strings.Repeat("a\"b\\é", n/6) + strings.Repeat("z", n%6)})
				es = append(es, dsio.Entry{Value: int64(n)})
			}
			a := make([]interface{}, 65537)
			for i := range a {
				a[i] = i%7 == 0
			}
			es = append(es, dsio.Entry{Value: a})
			roundTrip(s, cfg{Fmt: f, Tlt: "array", Comp: comps[s.R.Intn(4)]}, es)
		})
		h.Add("deep/"+f, func(s *Sess) {
			es := []dsio.Entry{}
			for _, n := range []int{1, 2, 10, 100, 900} {
				es = append(es, dsio.Entry{Value: deepValue(s.R, n)})
			}
			roundTrip(s, cfg{Fmt: f, Tlt: "array"}, es)
		})
	}
	// every kind of cell in every kind of column, on its own
	for _, f := range []string{"csv", "xlsx"} {
		for _, t := range []string{"string", "integer", "number", "boolean"} {
			f, t := f, t
			h.Add("cells/"+f+"/"+t, func(s *Sess) {
				for _, wide := range []bool{false, true} {
					c := cfg{Fmt: f, Tlt: "array", Types: []string{t}}
					if wide {
						c.Types = []string{"string", t, "string"}
					}
					vs := []interface{}{}
					switch t {
					case "string":
						for _, x := range strPieces {
							vs = append(vs, tabText(c, x))
						}
						for b := 0; b < 128; b++ {
							vs = append(vs, tabText(c, string([]byte{byte(b)})), tabText(c, "x"+string([]byte{byte(b)})+"y"))
						}
					case "integer":
						for _, x := range edgeInts {
							vs = append(vs, x)
						}
					case "number":
						for _, x := range edgeFloats {
							vs = append(vs, x, -x)
						}
						vs = append(vs, 0.0)
					case "boolean":
						vs = append(vs, true, false)
					}
					es := []dsio.Entry{}
					for _, v := range vs {
						row := []interface{}{v}
						if wide {
							row = []interface{}{"l", v, "r"}
						}
						es = append(es, dsio.Entry{Value: row})
					}
					roundTrip(s, c, es)
				}
			})
		}
	}
	// bodies larger than the buffers of readers, with tokens at every alignment
	for i := 0; i < h.N(12, 80); i++ {
		h.Add("large", func(s *Sess) {
			c := genCfg(s.R, []string{"json", "json", "ndjson", "cbor", "csv"})
			c.Size = 0
			es := []dsio.Entry{}
			total := 0
			want := 270*1024 + s.R.Intn(5000)
			if s.R.Intn(3) == 0 {
				want = 600 * 1024
			}
			for i := 0; total < want; i++ {
				n := 200 + s.R.Intn(4000)
				str := strings.Repeat([]string{"ab", "é", "\"", "\\", "x\n", "😀"}[s.R.Intn(6)], n/2)
				total += len(str)
				e := dsio.Entry{Key: fmt.Sprintf("k%d", i)}
				if c.tabular() {
					c.Types = []string{"string", "integer", "number", "boolean"}
					e.Key = ""
					e.Value = []interface{}{str, genInt(s.R), genFloat(s.R), i%2 == 0}
				} else {
					e.Value = []interface{}{str, genInt(s.R), nil, true, false, genFloat(s.R), map[string]interface{}{"k": clip0(str, len(str)/2)}}
				}
				if c.Tlt == "array" {
					e.Key = ""
				}
				es = append(es, e)
			}
			if c.tabular() {
				for i := range es {
					es[i].Value.([]interface{})[0] = csvText(es[i].Value.([]interface{})[0].(string))
				}
			}
			roundTrip(s, c, es)
		})
	}
	for i := 0; i < h.N(1400, 12000); i++ {
		h.Add("random", func(s *Sess) {
			fm := allFmts
			if s.R.Intn(5) > 0 {
				fm = allFmts[:4] // xlsx is slow
			}
			c := genCfg(s.R, fm)
			long := 4
			if s.R.Intn(6) == 0 {
				long = 30
			}
			roundTrip(s, c, genEntries(s.R, c, genCount(s.R), long))
		})
	}
}

func countEntries(c cfg, n int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		if c.tabular() {
			es[i].Value = []interface{}{int64(i), fmt.Sprintf("row %d", i)}
		} else {
			es[i].Value = int64(i)
		}
		if c.Tlt == "object" {
			es[i].Key = fmt.Sprintf("key %d", i)
		}
	}
	return es
}

// ---- delivery of bytes

func runChunks(h *H) {
	sess := func(s *Sess, c cfg, d []byte) {
		s.Ev("begin", c.begin())
		es, res := c.readAll(bytes.NewReader(d), len(d)+10)
		s.Ev("ref", M{"es": es, "res": res})
		for _, mode := range chunkModes {
			if mode == "zero" && c.Comp == "zst" {
				continue // the zstd package gives up on empty reads
			}
			cr := &chunkReader{d: d, mode: mode, r: s.R, fail: -1}
			var r io.Reader = cr
			var tr *dsio.TrackedReader
			if s.R.Intn(3) == 0 {
				tr = dsio.NewTrackedReader(cr)
				r = tr
			}
			es, res := c.readAll(r, len(d)+10)
			s.Ev("same", M{"es": es, "res": res, "mode": mode})
			if tr != nil {
				s.Ev("tracked", M{"count": tr.BytesRead(), "passed": cr.total})
			}
		}
		if c.Fmt == "json" || c.Fmt == "csv" {
			for _, size := range []int{1, 16, 17, 19, 31, 4095, 4096, 4097, 300000} {
				c2 := c
				c2.Size = size
				mode := append([]string{"all"}, chunkModes...)[s.R.Intn(len(chunkModes)+1)]
				if mode == "zero" && c.Comp == "zst" {
					mode = "one"
				}
				es, res := c2.readAll(&chunkReader{d: d, mode: mode, r: s.R, fail: -1}, len(d)+10)
				s.Ev("same", M{"es": es, "res": res, "mode": mode, "size": size})
			}
		}
	}
	for i := 0; i < h.N(500, 5000); i++ {
		h.Add("valid", func(s *Sess) {
			c := genCfg(s.R, []string{"json", "json", "ndjson", "cbor", "cbor", "csv", "csv"})
			c.Size = 0
			d, err := c.encode(genEntries(s.R, c, genCount(s.R), 5))
			if err != nil {
				return
			}
			sess(s, c, d)
		})
	}
	for i := 0; i < h.N(30, 300); i++ {
		h.Add("validxlsx", func(s *Sess) {
			c := genCfg(s.R, []string{"xlsx"})
			d, err := c.encode(genEntries(s.R, c, genCount(s.R), 5))
			if err != nil {
				return
			}
			sess(s, c, d)
		})
	}
	// text other software wrote: white space, escapes, line ends
	for i := 0; i < h.N(400, 4000); i++ {
		h.Add("foreign", func(s *Sess) {
			c, d, _ := genForeign(s.R)
			c.Size = 0
			sess(s, c, d)
		})
	}
	for i := 0; i < h.N(8, 60); i++ {
		h.Add("large", func(s *Sess) {
			c := genCfg(s.R, []string{"json", "ndjson", "cbor", "csv"})
			if c.tabular() {
				c.Types = []string{"string", "integer"}
			}
			c.Size = 0
			es := []dsio.Entry{}
			for t, i := 0, 0; t < 300000; i++ {
				str := strings.Repeat([]string{"ab", "é", "\"", "\\", "\n"}[s.R.Intn(5)], 100+s.R.Intn(3000))
				t += len(str)
				e := dsio.Entry{Value: str}
				if c.tabular() {
					e.Value = []interface{}{str, int64(i)}
				}
				if c.Tlt == "object" {
					e.Key = fmt.Sprint("k", i)
				}
				es = append(es, e)
			}
			d, err := c.encode(es)
			if err != nil {
				return
			}
			sess(s, c, d)
		})
	}
	// damaged bodies are read the same way too, whatever that is
	for i := 0; i < h.N(300, 3000); i++ {
		h.Add("damaged", func(s *Sess) {
			c := genCfg(s.R, []string{"json", "json", "ndjson", "cbor", "csv"})
			c.Size, c.Comp = 0, ""
			d, err := c.encode(genEntries(s.R, c, genCount(s.R), 1))
			if err != nil {
				return
			}
			sess(s, c, mutate(s.R, d))
		})
	}
}

func mutate(r *rand.Rand, d []byte) []byte {
	d = append([]byte{}, d...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(d) == 0 {
			return []byte{byte(r.Intn(256))}
		}
		i := r.Intn(len(d))
		switch r.Intn(6) {
		case 0:
			d[i] = byte(r.Intn(256))
		case 1:
			d[i] ^= 1 << uint(r.Intn(8))
		case 2:
			d = append(d[:i], d[i+1:]...)
		case 3:
			marks := []byte("[]{},:\"\\0-ntf\xff\x9f\x00\xbf\x7f\n\r ")
			c := marks[r.Intn(len(marks))]
			d = append(d[:i], append([]byte{c}, d[i:]...)...)
		case 4:
			d = d[:i]
		case 5:
			j := i + r.Intn(len(d)-i)
			d = append(d, d[i:j]...)
		}
	}
	return d
}

// ---- truncation

func runTruncate(h *H) {
	var cut func(s *Sess, c cfg, d []byte, end int, all bool)
	sess := func(s *Sess, c cfg, es []dsio.Entry, all bool) {
		d, ok := writeBody(s, c, es)
		if !ok {
			return
		}
		cut(s, c, d, len(d), all)
	}
	cut = func(s *Sess, c cfg, d []byte, end int, all bool) {
		cuts := []int{}
		if all || end <= 160 {
			for k := 0; k < end; k++ {
				cuts = append(cuts, k)
			}
		} else {
			for k := 1; k <= 24 && k < end; k++ {
				cuts = append(cuts, k-1, end-k)
			}
			for k := 0; k < 60; k++ {
				cuts = append(cuts, s.R.Intn(end))
			}
		}
		for _, k := range cuts {
			if k == 0 && c.Fmt == "cbor" {
				continue // no bytes at all are an empty body
			}
			if k == 0 && c.Comp == "zst" && !(c.Fmt == "json") {
				continue // same
			}
			mode := ""
			if s.R.Intn(3) == 0 {
				mode = chunkModes[s.R.Intn(len(chunkModes))]
				if mode == "zero" {
					mode = "one"
				}
			}
			es, res := c.readAll(&chunkReader{d: d[:k], mode: mode, r: s.R, fail: -1}, len(d)+10)
			s.Ev("cut", M{"at": k, "size": len(d), "es": es, "res": res, "comp": c.Comp})
			if s.R.Intn(4) == 0 {
				// the functions built on readers report it as well
				er, err := c.reader(bytes.NewReader(d[:k]))
				if err != nil {
					continue
				}
				res := call(func() error { _, err := dsio.ReadAll(er); return err })
				if res == "ok" {
					res = "eof"
				}
				if res == "eof" && c.Comp != "" {
					continue // judged above
				}
				s.Ev("cut", M{"at": k, "size": len(d), "es": []M{}, "res": res, "via": "ReadAll"})
			}
		}
	}
	pick := func(r *rand.Rand) cfg {
		c := genCfg(r, []string{"json", "json", "cbor", "cbor", "ndjson", "csv"})
		if c.Fmt == "ndjson" || c.Fmt == "csv" {
			c.Comp = []string{"gzip", "zst"}[r.Intn(2)]
		}
		return c
	}
	// bodies of other software end in different ways
	for i := 0; i < h.N(400, 4000); i++ {
		h.Add("foreign", func(s *Sess) {
			// in one part: cut between two there is nothing amiss
			c, d, es := genForeignText(s.R)
			d = compress(c.Comp, d)
			end := len(d)
			switch {
			case c.Comp != "":
			case c.Fmt == "json":
				end = len(bytes.TrimRight(d, " \t\r\n")) // space past the end is not data
			case c.Fmt != "cbor":
				return
			}
			s.Ev("begin", c.begin())
			s.Ev("given", M{"es": es})
			cut(s, c, d, end, false)
		})
	}
	for i := 0; i < h.N(260, 2500); i++ {
		h.Add("small", func(s *Sess) {
			c := pick(s.R)
			sess(s, c, genEntries(s.R, c, genCount(s.R), 0), false)
		})
	}
	for i := 0; i < h.N(60, 600); i++ {
		h.Add("strings", func(s *Sess) {
			c := pick(s.R)
			sess(s, c, genEntries(s.R, c, 1+s.R.Intn(3), 50), false)
		})
	}
	for i := 0; i < h.N(4, 30); i++ {
		h.Add("large", func(s *Sess) {
			c := pick(s.R)
			c.Size = 0
			if c.tabular() {
				c.Types = []string{"string"}
			}
			es := []dsio.Entry{}
			for i := 0; i < 80; i++ {
				var v interface{} = strings.Repeat(string(rune('a'+s.R.Intn(26)))+fmt.Sprint(s.R.Int63()), 250)
				if c.tabular() {
					v = []interface{}{v}
				}
				e := dsio.Entry{Value: v}
				if c.Tlt == "object" {
					e.Key = fmt.Sprint("k", i)
				}
				es = append(es, e)
			}
			sess(s, c, es, false)
		})
	}
}

// ---- rejected entries

func badValue(r *rand.Rand, c cfg) interface{} {
	un := []interface{}{make(chan int), func() {}, complex(1, 2), struct{ C chan int }{}}
	switch c.Fmt {
	case "json", "ndjson":
		b := append(un, math.NaN(), math.Inf(1), math.Inf(-1))[r.Intn(7)]
		switch r.Intn(4) {
		case 0:
			return []interface{}{"x", b}
		case 1:
			return map[string]interface{}{"a": int64(1), "b": b}
		}
		return b
	case "csv", "xlsx":
		switch r.Intn(6) {
		case 0:
			return "not a row"
		case 1:
			return map[string]interface{}{"a": int64(1)}
		case 2:
			return nil
		default:
			row := genRow(r, c, 0)
			row[r.Intn(len(row))] = append(un, int32(5), uint8(1), float32(1.5), []byte("x"), []interface{}{make(chan int)}, map[string]interface{}{"a": func() {}})[r.Intn(10)]
			return row
		}
	}
	return nil
}

func isBad(k string) bool { return k == "x" }

func runReject(h *H) {
	// ops: g good, b bad value, d duplicate key, e empty key
	// an op may name its key
	sess := func(s *Sess, c cfg, ops []string, named []string) {
		s.Ev("begin", c.begin())
		prefix := clip0(genString(s.R, prof{}), 20)
		buf := &bytes.Buffer{}
		var w dsio.EntryWriter
		var eb *dsio.EntryBuffer
		if c.Buf {
			if res := call(func() (err error) { eb, err = dsio.NewEntryBuffer(c.st()); return }); res != "ok" {
				s.Ev("write", M{"res": "open" + res, "e": M{}})
				return
			}
			w = eb
		} else if res := call(func() (err error) { w, err = c.writer(buf); return }); res != "ok" {
			s.Ev("write", M{"res": "open" + res, "e": M{}})
			return
		}
		keys, bads := []string{}, []string{}
		for i, op := range ops {
			e := genEntries(s.R, c, 1, 1)[0]
			if c.Tlt == "object" {
				e.Key = fmt.Sprintf("%s-%d", clip0(e.Key, 20), i)
			}
			switch op {
			case "b":
				if c.Fmt == "cbor" {
					e.Key = "" // only keys are rejected
					break
				}
				e.Value = badValue(s.R, c)
			case "d":
				if len(keys) > 0 {
					e.Key = keys[s.R.Intn(len(keys))]
				}
			case "e":
				e.Key = ""
			}
			if named != nil && c.Tlt == "object" {
				e.Key = named[i]
				if e.Key != "" {
					e.Key = prefix + e.Key
				}
			} else if op == "b" && c.Tlt == "object" && s.R.Intn(2) == 0 {
				// tried again later
				bads = append(bads, e.Key)
			} else if op == "g" && len(bads) > 0 && s.R.Intn(2) == 0 {
				e.Key = bads[0]
				bads = bads[1:]
			}
			m := c.wEnt(e)
			if op == "b" && c.tabular() {
				m = badCells(c, e)
			}
			res := call(func() error { return w.WriteEntry(e) })
			s.Ev("write", M{"e": m, "res": res})
			if res == "ok" && c.Tlt == "object" {
				keys = append(keys, e.Key)
			}
		}
		s.Ev("close", M{"res": call(w.Close)})
		d := buf.Bytes()
		if c.Buf {
			d = eb.Bytes()
		}
		if ies, res, has := c.indep(d); has {
			s.Ev("indep", M{"es": ies, "res": res})
		}
		c.fullRead(s, d)
	}
	for _, sc := range h.Scens {
		ops, keys := []string{}, []string{}
		kinds := ""
		for _, o := range sc["ops"].([]interface{}) {
			o := o.([]interface{})
			ops = append(ops, o[0].(string))
			keys = append(keys, o[1].(string))
			kinds += o[0].(string)
		}
		for _, f := range []string{"json-a", "json-o", "json-p", "ndjson", "cbor", "csv"} {
			f := f
			obj := f == "json-o" || f == "json-p" || f == "cbor"
			if !obj && strings.ContainsAny(kinds, "de") {
				continue
			}
			if f == "cbor" && strings.Contains(kinds, "b") {
				continue // it encodes when it is closed
			}
			h.Add("scen/"+f, func(s *Sess) {
				c := genCfg(s.R, []string{strings.Split(f, "-")[0]})
				c.Pretty = ""
				c.Tlt = "array"
				if obj {
					c.Tlt = "object"
				}
				if f == "json-p" {
					c.Pretty = "  "
				}
				sess(s, c, ops, keys)
			})
		}
	}
	for i := 0; i < h.N(300, 3000); i++ {
		h.Add("random", func(s *Sess) {
			fm := allFmts
			if s.R.Intn(4) > 0 {
				fm = allFmts[:4]
			}
			c := genCfg(s.R, fm)
			c.Size = 0
			c.Buf = c.Fmt != "xlsx" && c.Comp != "gzip" && c.Pretty == "" && s.R.Intn(3) == 0
			kinds := []string{"g", "g", "b"}
			if c.Tlt == "object" {
				kinds = []string{"g", "g", "b", "d", "e"}
			}
			ops := []string{}
			for k := s.R.Intn(25); k > 0; k-- {
				ops = append(ops, kinds[s.R.Intn(len(kinds))])
			}
			sess(s, c, ops, nil)
		})
	}
}

// badCells projects a row with cells a tabular format can't carry
func badCells(c cfg, e dsio.Entry) M {
	m := c.wEnt(e)
	if row, ok := e.Value.([]interface{}); ok {
		cells := [][]M{}
		for _, v := range row {
			switch v.(type) {
			case nil, bool, string, int, int64, float64, []interface{}, map[string]interface{}:
				cells = append(cells, toks(v))
			default:
				cells = append(cells, []M{tok("x", fmt.Sprintf("%T", v), "")})
			}
		}
		m["v"] = cells
	}
	return m
}

// ---- windows & conversion

// simple values, which all formats carry alike
func simpleRow(r *rand.Rand, c cfg) []interface{} {
	row := make([]interface{}, len(c.Types))
	for i, t := range c.Types {
		switch t {
		case "string":
			row[i] = "s" + xlsxText(genString(r, prof{}))
		case "integer":
			row[i] = int64(r.Intn(2000000) - 1000000)
		case "number":
			row[i] = float64(r.Intn(100000)) + 0.5
		case "boolean":
			row[i] = r.Intn(2) == 0
		}
	}
	return row
}

func simpleValue(r *rand.Rand, depth int) interface{} {
	switch r.Intn(7) {
	case 0:
		return genString(r, prof{})
	case 1:
		return int64(r.Intn(2000000) - 1000000)
	case 2:
		return float64(r.Intn(100000)) + 0.25
	case 3:
		return r.Intn(2) == 0
	case 4:
		return nil
	default:
		if depth == 0 {
			return "leaf"
		}
		if r.Intn(2) == 0 {
			return []interface{}{simpleValue(r, depth-1), simpleValue(r, depth-1)}
		}
		return map[string]interface{}{"a": simpleValue(r, depth-1), genString(r, prof{}): simpleValue(r, depth-1)}
	}
}

func flatEnt(e dsio.Entry) M {
	return M{"key": txt(e.Key), "idx": e.Index, "v": [][]M{toks(e.Value)}, "row": true}
}

func runPaging(h *H) {
	page := func(s *Sess, n int, lims [][2]int, c cfg) {
		es := make([]dsio.Entry, n)
		for i := range es {
			if c.tabular() {
				es[i].Value = simpleRow(s.R, c)
			} else {
				es[i].Value = []interface{}{int64(i), simpleValue(s.R, 1)}
			}
			if c.Tlt == "object" {
				es[i].Key = fmt.Sprint("k", i)
			}
		}
		d, ok := writeBody(s, c, es)
		if !ok {
			return
		}
		for _, lo := range lims {
			er, err := c.reader(bytes.NewReader(d))
			if err != nil {
				s.Ev("page", M{"es": []M{}, "res": "openerr", "limit": lo[0], "offset": lo[1]})
				continue
			}
			got, res := c.drain(&dsio.PagedReader{Reader: er, Limit: lo[0], Offset: lo[1]}, n+10)
			s.Ev("page", M{"es": got, "res": res, "limit": lo[0], "offset": lo[1]})
		}
	}
	conv := func(s *Sess, n int, lims [][2]int, in, out cfg) {
		es := make([]dsio.Entry, n)
		rows := in.tabular() || out.tabular()
		for i := range es {
			if rows {
				rc := in
				if !in.tabular() {
					rc = out
				}
				es[i].Value = simpleRow(s.R, rc)
			} else {
				es[i].Value = simpleValue(s.R, 2)
			}
			if in.Tlt == "object" {
				es[i].Key = fmt.Sprint("k", i)
			}
		}
		d, err := in.encode(es)
		if err != nil {
			return
		}
		s.Ev("begin", in.begin())
		ms := []M{}
		for _, e := range es {
			ms = append(ms, flatEnt(e))
		}
		s.Ev("given", M{"es": ms})
		do := func(d []byte, limit, offset int, all bool, fault string) {
			var data []byte
			st := out.st()
			pretty := out.Fmt == "json" && s.R.Intn(3) == 0
			if pretty {
				st.FormatConfig = map[string]interface{}{"pretty": true}
			}
			var rdr io.Reader = bytes.NewReader(d)
			if fault == "read" {
				rdr = &chunkReader{d: d, mode: "rand", r: s.R, fail: s.R.Intn(len(d)), ferr: faultErr}
			}
			f := qfs.NewMemfileReader("body."+in.Fmt, rdr)
			res := call(func() (err error) {
				data, err = dsio.ConvertFile(f, in.st(), st, limit, offset, all)
				return
			})
			m := M{"limit": limit, "offset": offset, "all": all, "res": res, "n": len(data), "out": out.begin(), "fault": fault != "", "what": fault}
			got := []M{}
			end := ""
			if res == "ok" {
				oc := out
				oc.Size = 0
				er, err := oc.reader(bytes.NewReader(data))
				if err != nil {
					end = "openerr"
				} else {
					for {
						e, err := er.ReadEntry()
						if err == io.EOF {
							end = "eof"
							break
						} else if err != nil || len(got) > n+10 {
							end = "err"
							break
						}
						got = append(got, flatEnt(e))
					}
				}
			}
			m["es"], m["end"] = got, end
			m["pretty"], m["lines"] = pretty, 0
			if out.Fmt == "json" && out.Comp == "" {
				m["lines"] = 1 + bytes.Count(data, []byte("\n"))
			}
			s.Ev("convert", m)
		}
		if out.Tlt == "object" && in.Tlt == "array" && n > 0 {
			do(d, 0, 0, true, "keys") // entries without keys can't be written to an object
			return
		}
		for _, lo := range lims {
			do(d, lo[0], lo[1], false, "")
		}
		do(d, 0, 0, true, "")
		if n > 0 && in.Comp == "" {
			do(d, 0, 0, true, "read")
			if in.Fmt == "json" || in.Fmt == "cbor" {
				do(d[:1+s.R.Intn(len(d)-1)], 0, 0, true, "cut")
			}
			if (out.Fmt == "json" || out.Fmt == "ndjson") && in.Fmt == "cbor" && in.Tlt == out.Tlt {
				// an entry the output can't carry
				k := s.R.Intn(n)
				es[k].Value = []interface{}{"x", math.NaN()}
				if d2, err := in.encode(es); err == nil {
					do(d2, 0, 0, true, "nan")
				}
			}
		}
	}
	cols := []string{"string", "integer", "number", "boolean"}
	pick := func(r *rand.Rand, fmts []string) cfg {
		c := genCfg(r, fmts)
		if c.tabular() {
			c.Types = cols[:1+r.Intn(4)]
		}
		c.Pretty = ""
		return c
	}
	lims := func(sc map[string]interface{}) (int, [][2]int) {
		n := int(sc["n"].(float64))
		return n, [][2]int{{int(sc["limit"].(float64)), int(sc["offset"].(float64))}}
	}
	for _, sc := range h.Scens {
		n, ls := lims(sc)
		h.Add("scen/page", func(s *Sess) { page(s, n, ls, pick(s.R, []string{"json", "ndjson", "csv", "cbor"})) })
		h.Add("scen/convert", func(s *Sess) { convPick(s, n, ls, pick, conv) })
	}
	for i := 0; i < h.N(150, 1500); i++ {
		h.Add("page", func(s *Sess) {
			n := genCount(s.R)
			ls := [][2]int{}
			for k := 0; k < 6; k++ {
				ls = append(ls, [2]int{s.R.Intn(n + 3), s.R.Intn(n + 3)})
			}
			fm := []string{"json", "ndjson", "csv", "cbor"}
			if s.R.Intn(6) == 0 {
				fm = []string{"xlsx"}
			}
			c := pick(s.R, fm)
			if c.Fmt == "cbor" && c.Tlt == "object" {
				c.Tlt = "array"
			}
			page(s, n, ls, c)
		})
		h.Add("convert", func(s *Sess) {
			n := genCount(s.R)
			ls := [][2]int{}
			for k := 0; k < 3; k++ {
				ls = append(ls, [2]int{s.R.Intn(n + 3), s.R.Intn(n + 3)})
			}
			convPick(s, n, ls, pick, conv)
		})
	}
	for i := 0; i < h.N(4, 20); i++ {
		h.Add("long", func(s *Sess) {
			n := 1000 + s.R.Intn(200)
			ls := [][2]int{{100, 0}, {100, 100}, {1, n - 1}, {5, n}, {n, 0}, {n + 1, 0}, {0, 5}, {256, 700}, {1 << 30, 3}}
			c := pick(s.R, []string{"json", "ndjson", "csv"})
			page(s, n, ls, c)
		})
	}
}

func convPick(s *Sess, n int, ls [][2]int, pick func(*rand.Rand, []string) cfg, conv func(*Sess, int, [][2]int, cfg, cfg)) {
	fm := []string{"json", "ndjson", "csv", "cbor"}
	in, out := pick(s.R, fm), pick(s.R, fm)
	if s.R.Intn(12) == 0 {
		in = pick(s.R, []string{"xlsx"})
	} else if s.R.Intn(12) == 0 {
		out = pick(s.R, []string{"xlsx"})
	}
	in.Size = 0
	if in.tabular() && out.tabular() {
		out.Types = in.Types
	}
	if in.Fmt == "cbor" {
		in.Tlt = "array" // objects are stored in another order
	}
	if out.Tlt == "object" {
		if in.Fmt == "json" {
			in.Tlt = "object"
		} else if s.R.Intn(3) > 0 {
			out.Tlt = "array"
		}
	} else if in.Tlt == "object" {
		in.Tlt = "array"
	}
	conv(s, n, ls, in, out)
}
