package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
)

func compact(v interface{}) string {
	d, _ := json.Marshal(v)
	return string(d)
}

// ---- arbitrary bytes

func rawOne(c cfg, d []byte) M {
	es, res := c.readAll(bytes.NewReader(d), 2*len(d)+10)
	n := 0
	for _, e := range es {
		for _, cell := range e["v"].([][]M) {
			n += len(cell)
		}
	}
	if c.tabular() {
		// cells of a row aren't marked in the input one by one
		n = 0
	}
	return M{"n": len(d), "res": res, "cnt": len(es), "toks": n}
}

func runRaw(h *H) {
	batch := func(s *Sess, c cfg, ds [][]byte) {
		s.Ev("begin", c.begin())
		rs := []M{}
		for i, d := range ds {
			m := rawOne(c, d)
			if m["res"] != "eof" && m["res"] != "err" && m["res"] != "openerr" {
				m["input"] = fmt.Sprintf("%x", clip(string(d), 200))
			}
			rs = append(rs, m)
			if len(rs) == 500 || i == len(ds)-1 {
				s.Ev("raw", M{"rs": rs})
				rs = []M{}
			}
			h.Count("inputs", 1)
		}
	}
	// all short inputs
	for _, tlt := range []string{"array", "object"} {
		tlt := tlt
		for b0 := 0; b0 < 256; b0 += 16 {
			b0 := b0
			h.Add("cbor2/"+tlt, func(s *Sess) {
				ds := [][]byte{}
				top := byte(0x9f)
				if tlt == "object" {
					top = 0xbf
				}
				for a := b0; a < b0+16; a++ {
					for b := 0; b < 256; b++ {
						ds = append(ds, []byte{byte(a), byte(b)})
						if tlt == "array" {
							ds = append(ds, []byte{top, byte(a), byte(b), 0xff})
						} else {
							ds = append(ds, []byte{top, 0x61, 'k', byte(a), byte(b), 0xff})
						}
					}
				}
				batch(s, cfg{Fmt: "cbor", Tlt: tlt}, ds)
			})
		}
		alpha := "[]{},:\"\\1-.entu \n"
		n := h.N(4, 5)
		for i := range alpha {
			first := alpha[i]
			h.Add("json/"+tlt, func(s *Sess) {
				ds := [][]byte{}
				var rec func(p []byte, k int)
				rec = func(p []byte, k int) {
					ds = append(ds, append([]byte{}, p...))
					if k == 0 {
						return
					}
					for j := range alpha {
						rec(append(p, alpha[j]), k-1)
					}
				}
				open := "["
				if tlt == "object" {
					open = "{\"k\":"
				}
				rec([]byte(open+string(first)), n-2)
				rec([]byte{first}, n-2)
				batch(s, cfg{Fmt: "json", Tlt: tlt}, ds)
			})
		}
	}
	h.Add("csv/short", func(s *Sess) {
		ds := [][]byte{}
		alpha := ",\"\n\ra1;"
		var rec func(p []byte, k int)
		rec = func(p []byte, k int) {
			ds = append(ds, append([]byte{}, p...))
			if k == 0 {
				return
			}
			for j := range alpha {
				rec(append(p, alpha[j]), k-1)
			}
		}
		rec(nil, h.N(4, 5))
		for _, c := range []cfg{{Fmt: "csv", Tlt: "array", Types: []string{"string"}}, {Fmt: "csv", Tlt: "array", Types: []string{"integer", "boolean"}, Head: true}, {Fmt: "csv", Tlt: "array", Types: []string{"object"}, Lazy: true, Var: true}} {
			batch(s, c, ds)
		}
	})
	// random bytes, and damaged bodies, of all formats
	for i := 0; i < h.N(250, 2500); i++ {
		h.Add("random", func(s *Sess) {
			fm := allFmts[:4]
			if s.R.Intn(12) == 0 {
				fm = allFmts[4:]
			}
			c := genCfg(s.R, fm)
			ds := [][]byte{}
			n := 40
			if c.Fmt == "xlsx" {
				n = 6
			}
			for k := 0; k < n; k++ {
				d, err := c.encode(genEntries(s.R, c, genCount(s.R), 2))
				if err != nil {
					continue
				}
				if c.Comp != "" && s.R.Intn(2) == 0 {
					raw, _ := decompress(c.Comp, d)
					ds = append(ds, compress(c.Comp, mutate(s.R, raw)))
				} else {
					ds = append(ds, mutate(s.R, d))
				}
				b := make([]byte, s.R.Intn(60))
				s.R.Read(b)
				if len(b) > 0 && c.Fmt == "cbor" && s.R.Intn(2) == 0 {
					b[0] = []byte{0x9f, 0x98, 0x85, 0x8f, 0xbf, 0xa3}[s.R.Intn(6)]
				}
				ds = append(ds, b)
			}
			if c.Comp != "" {
				// what is in a compressed body isn't bounded by its size
				s.Ev("begin", c.begin())
				rs := []M{}
				for _, d := range ds {
					es, res := c.readAll(bytes.NewReader(d), 1<<20)
					if raw, _ := decompress(c.Comp, d); res == "endless" && len(raw) > 1<<20 {
						// a few damaged bytes can really hold this much
						res = "eof"
					}
					_ = es
					rs = append(rs, M{"n": len(d), "res": res, "cnt": 0, "toks": 0})
				}
				s.Ev("raw", M{"rs": rs})
				return
			}
			batch(s, c, ds)
		})
	}
	runMismatch(h)
	// sizes & nesting the input can't back up
	h.Add("bombs", func(s *Sess) {
		ds := [][]byte{}
		for _, major := range []byte{2, 3, 4, 5, 6} {
			for _, l := range []uint64{1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40, 1<<62 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
				head := make([]byte, 9)
				head[0] = major<<5 | 27
				for j := 0; j < 8; j++ {
					head[8-j] = byte(l >> uint(8*j))
				}
				ds = append(ds, append(append([]byte{}, head...), "abc"...))
				ds = append(ds, append(append([]byte{0x9f}, head...), "abc"...))
				ds = append(ds, append(append([]byte{0x9f, 0x7f}, head...), "abc"...))
				ds = append(ds, append(append([]byte{0x9f, 0x5f}, head...), "abc"...))
				ds = append(ds, append([]byte{0xbf, 0x61, 'k'}, head...))
				ds = append(ds, append([]byte{0xbf}, head...))
			}
		}
		for _, n := range []int{1000, 9990, 10000, 10001, 100000, 3000000} {
			for _, b := range []byte{0x81, 0x9f, 0xc1, 0x7f, 0x5f, 0xd8} {
				ds = append(ds, bytes.Repeat([]byte{b}, n))
			}
			for _, b := range []byte{0xc1, 0xd8, 0xda} {
				ds = append(ds, append([]byte{0x81}, bytes.Repeat([]byte{b}, 2*n)...), append([]byte{0xbf, 0x61, 'k', 0x9f}, bytes.Repeat([]byte{b}, 2*n)...))
			}
			ds = append(ds, bytes.Repeat([]byte{0xa1, 0x61, 'k'}, n))
			ds = append(ds, bytes.Repeat([]byte{0xbf, 0x61, 'k'}, n))
		}
		batch(s, cfg{Fmt: "cbor", Tlt: "array"}, ds)
		batch(s, cfg{Fmt: "cbor", Tlt: "object"}, ds)
	})
	h.Add("deepjson", func(s *Sess) {
		ds := [][]byte{}
		for _, n := range []int{1000, 9990, 10000, 10001, 100000, 3000000} {
			for _, p := range []string{"[", "{\"k\":", "[[1],", "\"", "\\", " ", "1", "[\"\\", "-", "[{\"a\":["} {
				ds = append(ds, []byte(strings.Repeat(p, n/len(p)+1)))
				ds = append(ds, []byte("["+strings.Repeat(p, n/len(p)+1)))
				ds = append(ds, []byte("{\"k\":"+strings.Repeat(p, n/len(p)+1)))
			}
		}
		batch(s, cfg{Fmt: "json", Tlt: "array"}, ds)
		batch(s, cfg{Fmt: "json", Tlt: "object"}, ds)
		nd := [][]byte{}
		for _, n := range []int{10000, 10001, 3000000} {
			nd = append(nd, []byte(strings.Repeat("[", n)), []byte(strings.Repeat("\n", n)), []byte(strings.Repeat("1\n", n/100)), []byte(strings.Repeat("\"", n)))
		}
		batch(s, cfg{Fmt: "ndjson", Tlt: "array"}, nd)
	})
}

// ---- faults of the store

// faultWriter fails at some point
type faultWriter struct {
	buf   bytes.Buffer
	calls int
	at    int    // call that fails, or byte that fails
	mode  string // call: the at-th call fails; byte: bytes past at fail; once: one call fails; short: one call is cut short
	fired bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	switch w.mode {
	case "call":
		if w.calls >= w.at {
			w.fired = true
			return 0, faultErr
		}
	case "once":
		if w.calls == w.at {
			w.fired = true
			return 0, faultErr
		}
	case "short":
		if w.calls == w.at {
			w.fired = true
			n := len(p) / 2
			w.buf.Write(p[:n])
			return n, io.ErrShortWrite
		}
	case "byte":
		if w.buf.Len()+len(p) > w.at {
			w.fired = true
			n := w.at - w.buf.Len()
			if n < 0 {
				n = 0
			}
			w.buf.Write(p[:n])
			return n, faultErr
		}
	}
	return w.buf.Write(p)
}

func runFaults(h *H) {
	wr := func(s *Sess, c cfg, es []dsio.Entry) {
		s.Ev("begin", c.begin())
		one := func(mode string, at int) (fired bool, size, calls int) {
			fw := &faultWriter{at: at, mode: mode}
			rs := []string{}
			var w dsio.EntryWriter
			res := call(func() (err error) { w, err = c.writer(fw); return })
			if res != "ok" {
				rs = append(rs, res)
			} else {
				for _, e := range es {
					e := e
					rs = append(rs, call(func() error { return w.WriteEntry(e) }))
				}
				rs = append(rs, call(w.Close))
			}
			s.Ev("wfault", M{"rs": rs, "fired": fw.fired, "mode": mode, "at": at})
			h.Count("faults", 1)
			return fw.fired, fw.buf.Len(), fw.calls
		}
		_, size, calls := one("none", 0)
		for k := 1; k <= calls && k < 60; k++ {
			one("call", k)
			if c.Comp == "" {
				// compressors may forget a fault that doesn't last
				one("once", k)
				one("short", k)
			}
		}
		if size <= 80 {
			for k := 0; k < size; k++ {
				one("byte", k)
			}
		} else {
			for k := 0; k < 20; k++ {
				one("byte", s.R.Intn(size))
				one("byte", size-1-k)
			}
		}
	}
	rd := func(s *Sess, c cfg, es []dsio.Entry) {
		d, ok := writeBody(s, c, es)
		if !ok {
			return
		}
		ats := []int{}
		if len(d) <= 60 {
			for k := 0; k <= len(d); k++ {
				ats = append(ats, k)
			}
		} else {
			ats = append(ats, 0, 1, 2, len(d), len(d)-1, len(d)-2)
			for k := 0; k < 40; k++ {
				ats = append(ats, s.R.Intn(len(d)+1))
			}
		}
		for _, at := range ats {
			mode := append([]string{"", "dataerr"}, chunkModes...)[s.R.Intn(len(chunkModes)+2)]
			if mode == "zero" && c.Comp == "zst" {
				mode = "one"
			}
			if mode == "dataeof" {
				mode = "dataerr"
			}
			mk := func() *chunkReader {
				ferr := faultErr
				if s.R.Intn(5) == 0 && c.Comp != "zst" { // which takes it for the end
					ferr = io.ErrUnexpectedEOF
				}
				if s.R.Intn(5) == 0 {
					ferr = io.ErrClosedPipe
				}
				return &chunkReader{d: d, mode: mode, r: s.R, fail: at, ferr: ferr, once: c.Comp != "zst" && s.R.Intn(3) == 0}
			}
			cr := mk()
			got, res := c.readAll(cr, len(d)+10)
			s.Ev("rfault", M{"op": "read", "at": at, "size": len(d), "res": res, "fired": cr.fired, "es": got, "whole": len(got) == len(es), "mode": mode})
			h.Count("faults", 1)
			// functions built on readers
			cr = mk()
			switch s.R.Intn(4) {
			case 0:
				n := 0
				er, err := c.reader(cr)
				if err != nil {
					continue
				}
				res := call(func() error {
					return dsio.EachEntry(er, func(i int, e dsio.Entry, err error) error { n++; return err })
				})
				s.Ev("rfault", M{"op": "EachEntry", "at": at, "size": len(d), "res": res, "fired": cr.fired, "whole": n == len(es)})
			case 1:
				n := 0
				er, err := c.reader(cr)
				if err != nil {
					continue
				}
				res := call(func() error {
					v, err := dsio.ReadAll(er)
					switch x := v.(type) {
					case []interface{}:
						n = len(x)
					case map[string]interface{}:
						n = len(x)
					}
					return err
				})
				s.Ev("rfault", M{"op": "ReadAll", "at": at, "size": len(d), "res": res, "fired": cr.fired, "whole": n == len(es)})
			case 2:
				er, err := c.reader(cr)
				if err != nil {
					continue
				}
				st := cfg{Fmt: "json", Tlt: c.Tlt}
				buf := &bytes.Buffer{}
				jc := cfg{Fmt: "cbor", Tlt: c.Tlt}
				w, _ := jc.writer(buf)
				_ = st
				res := call(func() error { return dsio.Copy(er, w) })
				call(w.Close)
				n, _ := jc.readAll(bytes.NewReader(buf.Bytes()), 1<<20)
				s.Ev("rfault", M{"op": "Copy", "at": at, "size": len(d), "res": res, "fired": cr.fired, "whole": len(n) == len(es)})
			case 3:
				oc := cfg{Fmt: "cbor", Tlt: c.Tlt}
				var data []byte
				res := call(func() (err error) {
					data, err = dsio.ConvertFile(qfs.NewMemfileReader("b", cr), c.st(), oc.st(), 0, 0, true)
					return
				})
				n := 0
				if res == "ok" {
					m, _ := oc.readAll(bytes.NewReader(data), 1<<20)
					n = len(m)
				}
				s.Ev("rfault", M{"op": "Convert", "at": at, "size": len(d), "res": res, "fired": cr.fired, "whole": n == len(es)})
			}
		}
	}
	gen := func(r *rand.Rand, c cfg) []dsio.Entry {
		long := 0
		if r.Intn(3) == 0 {
			long = 40
		}
		return genEntries(r, c, genCount(r), long)
	}
	for i := 0; i < h.N(170, 1700); i++ {
		h.Add("write", func(s *Sess) {
			fm := allFmts[:4]
			if s.R.Intn(8) == 0 {
				fm = allFmts[4:]
			}
			c := genCfg(s.R, fm)
			wr(s, c, gen(s.R, c))
		})
		h.Add("read", func(s *Sess) {
			c := genCfg(s.R, allFmts[:4])
			c.Size = 0
			rd(s, c, gen(s.R, c))
		})
	}
	for i := 0; i < h.N(6, 40); i++ {
		h.Add("readlarge", func(s *Sess) {
			c := genCfg(s.R, allFmts[:4])
			if c.tabular() {
				c.Types = []string{"string"}
			}
			c.Size = 0
			es := []dsio.Entry{}
			for i := 0; i < 90; i++ {
				var v interface{} = strings.Repeat("é\"x", 1000+s.R.Intn(100))
				if c.tabular() {
					v = []interface{}{v}
				}
				e := dsio.Entry{Value: v}
				if c.Tlt == "object" {
					e.Key = fmt.Sprint("k", i)
				}
				es = append(es, e)
			}
			rd(s, c, es)
		})
		h.Add("writelarge", func(s *Sess) {
			c := genCfg(s.R, allFmts[:4])
			if c.tabular() {
				c.Types = []string{"string"}
			}
			es := []dsio.Entry{}
			for i := 0; i < 20; i++ {
				var v interface{} = strings.Repeat("ab", 1000+s.R.Intn(3000))
				if c.tabular() {
					v = []interface{}{v}
				}
				e := dsio.Entry{Value: v}
				if c.Tlt == "object" {
					e.Key = fmt.Sprint("k", i)
				}
				es = append(es, e)
			}
			wr(s, c, es)
		})
	}
}

// structOpen opens a reader for any structure at all
func structRead(st *dataset.Structure, d []byte) M {
	var er dsio.EntryReader
	res := call(func() (err error) { er, err = dsio.NewEntryReader(st, bytes.NewReader(d)); return })
	if res != "ok" {
		if res == "eof" {
			res = "err"
		}
		return M{"n": len(d), "res": "open" + res, "cnt": 0, "toks": 0}
	}
	n := 0
	for {
		res = call(func() error { _, err := er.ReadEntry(); return err })
		if res != "ok" {
			break
		}
		if n++; n > 4*len(d)+(1<<16) {
			res = "endless"
			break
		}
	}
	if c := call(er.Close); c == "panic" {
		res = "panic"
	}
	return M{"n": len(d), "res": res, "cnt": 0, "toks": 0}
}

// genSchema makes schemas a user may come up with, sensible or not
func genSchema(r *rand.Rand, depth int) interface{} {
	ts := []interface{}{"string", "number", "integer", "boolean", "null", "array", "object", "date", "", 1.5, nil, true}
	ty := func() interface{} {
		switch r.Intn(6) {
		case 0:
			return []interface{}{ts[r.Intn(7)], ts[r.Intn(len(ts))]}
		case 1:
			return []interface{}{}
		case 2:
			return []string{"string"}
		}
		return ts[r.Intn(len(ts))]
	}
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return "array"
	case 3:
		return map[string]interface{}{}
	case 4:
		return []interface{}{}
	}
	m := map[string]interface{}{}
	if r.Intn(5) > 0 {
		m["type"] = ty()
	}
	if r.Intn(3) == 0 {
		m["title"] = []interface{}{"a", "", 3, nil}[r.Intn(4)]
	}
	if depth > 0 {
		switch r.Intn(4) {
		case 0:
			m["items"] = genSchema(r, depth-1)
		case 1:
			l := []interface{}{}
			for k := r.Intn(4); k > 0; k-- {
				l = append(l, genSchema(r, depth-1))
			}
			m["items"] = l
		case 2:
			m["properties"] = map[string]interface{}{"a": genSchema(r, depth-1)}
		}
	}
	return m
}

func genStruct(r *rand.Rand) *dataset.Structure {
	st := &dataset.Structure{Format: allFmts[r.Intn(len(allFmts))]}
	if r.Intn(12) == 0 {
		st.Format = []string{"", "xml", "JSON", ".csv", "zip"}[r.Intn(5)]
	}
	if r.Intn(6) == 0 {
		st.Compression = []string{"gzip", "zst", "gz", "none", "x"}[r.Intn(5)]
	}
	switch r.Intn(4) {
	case 0:
		if m, ok := genSchema(r, 3).(map[string]interface{}); ok {
			st.Schema = m
		}
	case 1:
		st.Schema = map[string]interface{}{"type": []interface{}{"array", "object"}[r.Intn(2)], "items": genSchema(r, 2)}
	default:
		c := genCfg(r, allFmts)
		st.Schema = c.st().Schema
	}
	if r.Intn(2) == 0 {
		fc := map[string]interface{}{}
		vals := []interface{}{true, false, "true", ",", "", "\t", "ab", ";", 1, nil, 1.5, "é", "\n", "\"", []interface{}{}, "sheet"}
		for _, k := range []string{"headerRow", "separator", "lazyQuotes", "variadicFields", "sheetName", "pretty", "other"} {
			if r.Intn(4) == 0 {
				fc[k] = vals[r.Intn(len(vals))]
			}
		}
		st.FormatConfig = fc
	}
	return st
}

// mutateXLSX changes parts inside the archive, which stays a valid one
func mutateXLSX(r *rand.Rand, d []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(d), int64(len(d)))
	if err != nil {
		return d
	}
	buf := &bytes.Buffer{}
	zw := zip.NewWriter(buf)
	hit := r.Intn(len(zr.File))
	for i, f := range zr.File {
		if i != hit && strings.Contains(f.Name, "sheet1") && r.Intn(2) == 0 {
			hit = i
		}
		rc, err := f.Open()
		if err != nil {
			return d
		}
		b, _ := ioutil.ReadAll(rc)
		rc.Close()
		if i == hit {
			switch r.Intn(8) {
			case 0:
				continue
			case 1:
				b = b[:r.Intn(len(b)+1)]
			case 2:
				b = mutate(r, b)
			case 3:
				b = bytes.Replace(b, []byte(`t="s"`), []byte(`t="`+[]string{"b", "n", "str", "inlineStr", "e", "", "zz"}[r.Intn(7)]+`"`), 1+r.Intn(3))
			case 4:
				b = bytes.Replace(b, []byte(`r="A`), []byte(`r="`+[]string{"B", "Z", "", "AA", "1", "-", "XFD"}[r.Intn(7)]), 1+r.Intn(2))
			case 5:
				b = bytes.Replace(b, []byte(`<v>`), []byte(`<v>`+[]string{"-", "9", "1e400", "x", "99999999999999999999", " "}[r.Intn(6)]), 1+r.Intn(2))
			case 6:
				b = bytes.Replace(b, []byte(`<row r="`), []byte(`<row r="`+[]string{"-", "9", "0", "x", ""}[r.Intn(5)]), 1)
			case 7:
				b = bytes.Replace(b, []byte(`</v>`), nil, 1)
			}
		}
		w, err := zw.Create(f.Name)
		if err != nil {
			return d
		}
		w.Write(b)
	}
	zw.Close()
	return buf.Bytes()
}

func runMismatch(h *H) {
	record := func(s *Sess, what string, st *dataset.Structure, ds [][]byte) {
		s.Ev("begin", cfg{Fmt: "any", Tlt: what}.begin())
		rs := []M{}
		for _, d := range ds {
			m := structRead(st, d)
			if res := m["res"]; res != "eof" && res != "err" && res != "openerr" {
				m["input"] = fmt.Sprintf("%x", clip(string(d), 400))
				m["structure"] = clip(compact(st), 800)
			}
			rs = append(rs, m)
			h.Count("inputs", 1)
		}
		s.Ev("raw", M{"rs": rs})
	}
	// bodies read with a structure they weren't written with
	for i := 0; i < h.N(500, 5000); i++ {
		h.Add("mismatch", func(s *Sess) {
			fm := allFmts[:4]
			if s.R.Intn(5) == 0 {
				fm = allFmts[4:]
			}
			c := genCfg(s.R, fm)
			ds := [][]byte{}
			n := 20
			if c.Fmt == "xlsx" {
				n = 3
			}
			for k := 0; k < n; k++ {
				d, err := c.encode(genEntries(s.R, c, genCount(s.R), 2))
				if err != nil {
					continue
				}
				ds = append(ds, d)
			}
			// the same format, with other columns or options
			for k := 0; k < 3; k++ {
				o := genCfg(s.R, []string{c.Fmt})
				o.Comp = c.Comp
				record(s, "columns", o.st(), ds)
			}
			for k := 0; k < 4; k++ {
				st := genStruct(s.R)
				if s.R.Intn(3) > 0 {
					st.Format, st.Compression = c.Fmt, c.Comp
				}
				record(s, "structure", st, ds)
			}
		})
	}
	for i := 0; i < h.N(60, 600); i++ {
		h.Add("xlsxparts", func(s *Sess) {
			c := genCfg(s.R, allFmts[4:])
			ds := [][]byte{}
			for k := 0; k < 6; k++ {
				d, err := c.encode(genEntries(s.R, c, genCount(s.R), 2))
				if err != nil {
					continue
				}
				if c.Comp != "" {
					d, _ = decompress(c.Comp, d)
				}
				d = mutateXLSX(s.R, d)
				if c.Comp != "" {
					d = compress(c.Comp, d)
				}
				ds = append(ds, d)
			}
			record(s, "parts", c.st(), ds)
		})
	}
}
