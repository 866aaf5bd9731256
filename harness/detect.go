package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"github.com/qri-io/varName"
	"github.com/ugorji/go/codec"
)

func init() {
	runners["C17"] = runDetect
}

// chunkFile is a file that gives its data in pieces, and may fail at its end
type chunkFile struct {
	name   string
	r      *rand.Rand
	data   []byte
	chunk  int // size of pieces, 0 for all at once, -1 for random
	fault  bool
	packed bool
	eof    bool // give the end together with the last piece
}

var errChunk = errors.New("file fault")

func (f *chunkFile) Read(p []byte) (int, error) {
	end := io.EOF
	if f.fault {
		end = errChunk
	}
	if len(f.data) == 0 {
		return 0, end
	}
	n := len(f.data)
	switch {
	case f.chunk > 0:
		n = f.chunk
	case f.chunk < 0:
		n = f.r.Intn(200)
		if n == 0 && f.packed {
			n = 1 // the zstandard library gives up on empty reads
		}
	}
	if n > len(f.data) {
		n = len(f.data)
	}
	n = copy(p, f.data[:n])
	f.data = f.data[n:]
	if f.eof && len(f.data) == 0 && !f.fault {
		return n, end
	}
	return n, nil
}
func (f *chunkFile) Close() error                { return nil }
func (f *chunkFile) FileName() string            { return filepath.Base(f.name) }
func (f *chunkFile) FullPath() string            { return f.name }
func (f *chunkFile) IsDirectory() bool           { return false }
func (f *chunkFile) NextFile() (qfs.File, error) { return nil, qfs.ErrNotDirectory }
func (f *chunkFile) MediaType() string           { return "" }
func (f *chunkFile) ModTime() time.Time          { return time.Time{} }

// sizedFile is a chunkFile that knows its size
type sizedFile struct {
	*chunkFile
	n int64
}

func (f sizedFile) Size() int64 { return f.n }

// knowsSize is true if a file either gives size, or doesn't say
func knowsSize(f qfs.File, n int64, known bool) bool {
	sf, ok := f.(qfs.SizeFile)
	if !ok {
		return !known
	}
	return sf.Size() == n || !known && sf.Size() == -1
}

// cell texts, with the type they have and whether they may be headers
type cellText struct {
	t    string
	typ  string
	head bool
}

var cellTexts = []cellText{{"12", "integer", false}, {"-3", "integer", false}, {"0", "integer", false}, {"007", "integer", false}, {"9223372036854775807", "integer", false}, {"99999999999999999999", "integer", false},
	{"1.5", "number", false}, {"-0.25", "number", false}, {"1e5", "number", false}, {"1e39", "number", false}, {"2.5e300", "number", false}, {"1e-320", "number", false}, {"12345678901234567890123.5", "number", false}, {"12345678901234567890123", "integer", false},
	{"true", "boolean", false}, {"false", "boolean", false}, {"TRUE", "boolean", true}, {"F", "boolean", true}, {"null", "null", true}, {"", "string", false}, {"abc", "string", true}, {"name", "string", true},
	{"x y", "string", true}, {"3e", "string", true}, {"1-2", "string", true}, {"e5", "string", true}, {"Inf", "string", false}, {"nan", "string", false}, {"0x10", "string", true}, {".5", "string", false}, {"+5", "string", false},
	{"{\"a\":1}", "object", true}, {"[1,2]", "array", true}, {"Truex", "string", true}, {"null2", "string", true}, {"日本", "string", true}, {"a\nb", "string", true}, {"a,b", "string", true}, {"say \"hi\"", "string", true}}

func cellByKind(k string) cellText {
	switch k {
	case "i":
		return cellText{"12", "integer", false}
	case "f":
		return cellText{"1.5", "number", false}
	case "b":
		return cellText{"true", "boolean", false}
	case "e":
		return cellText{"", "string", false}
	case "n":
		return cellText{"null", "null", true}
	}
	return cellText{k + "w", "string", true}
}

func (c cellText) ev() M {
	title := ""
	if c.head {
		title = txt(varName.CreateVarNameFromString(c.t))
	}
	return M{"type": c.typ, "head": c.head, "title": title}
}

// csvGroup is a number of equal rows
type csvGroup struct {
	n   int
	row []cellText
}

// dFile is a body to detect the structure of
type dFile struct {
	segs    []string
	first   string
	groups  []csvGroup
	entries int
	data    []byte
	fault   string // none, early (detection sees it), late (it may)
	faultAt int
}

func (f *dFile) ev() M {
	gs := []M{}
	for _, g := range f.groups {
		row := []M{}
		for _, c := range g.row {
			row = append(row, c.ev())
		}
		gs = append(gs, M{"n": g.n, "row": row})
	}
	return M{"segs": f.segs, "first": f.first, "groups": gs, "fault": f.fault, "entries": f.entries}
}

func (f *dFile) open(r *rand.Rand) *chunkFile {
	c := &chunkFile{name: "/dir/" + strings.Join(f.segs, "."), r: r, data: f.data, chunk: []int{0, 0, 1, 7, 100, -1}[r.Intn(6)], eof: r.Intn(2) == 0}
	_, ok := map[string]bool{"gz": true, "gzip": true, "zst": true, "zstd": true}[f.segs[len(f.segs)-1]]
	c.packed = ok
	if f.fault != "none" {
		c.data, c.fault = f.data[:f.faultAt], true
	}
	return c
}

func csvData(groups []csvGroup, crlf bool) []byte {
	buf := &bytes.Buffer{}
	w := csv.NewWriter(buf)
	w.UseCRLF = crlf
	for _, g := range groups {
		row := []string{}
		for _, c := range g.row {
			row = append(row, c.t)
		}
		if len(row) == 1 && row[0] == "" {
			w.Flush()
			for i := 0; i < g.n; i++ {
				buf.WriteString("\"\"\n")
			}
			continue
		}
		for i := 0; i < g.n; i++ {
			w.Write(row)
		}
	}
	w.Flush()
	return buf.Bytes()
}

func packData(comp string, d []byte) []byte {
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(comp, buf)
	if err != nil {
		fail(err)
	}
	w.Write(d)
	w.Close()
	return buf.Bytes()
}

// dSchema projects a schema
func dSchema(m map[string]interface{}) []M {
	if m == nil {
		return []M{}
	}
	cols := []M{}
	extra := ""
	for k, v := range m {
		switch k {
		case "type":
		case "items":
			rows, ok := v.(map[string]interface{})
			if !ok || rows["type"] != "array" || len(rows) != 2 {
				extra = "items"
				continue
			}
			cs, _ := rows["items"].([]interface{})
			for _, c := range cs {
				cm, ok := c.(map[string]interface{})
				if !ok {
					extra = "col"
					continue
				}
				t, _ := cm["type"].(string)
				title, _ := cm["title"].(string)
				n := 0
				if _, ok := cm["type"]; ok {
					n++
				}
				if _, ok := cm["title"]; ok {
					n++
				}
				if n != len(cm) {
					extra = "colfields"
				}
				cols = append(cols, M{"title": txt(title), "type": t})
			}
		default:
			extra = k
		}
	}
	t, _ := m["type"].(string)
	return []M{{"type": t + extra, "cols": cols}}
}

func dStructure(st *dataset.Structure) M {
	if st == nil {
		st = &dataset.Structure{}
	}
	conf := []M{}
	if st.FormatConfig != nil {
		conf = append(conf, optMap(st.FormatConfig, csvOpts))
	}
	return M{"fmt": st.Format, "comp": st.Compression, "conf": conf, "schema": dSchema(st.Schema)}
}

// others gives the fields detection has nothing to do with
func others(st *dataset.Structure) dataset.Structure {
	if st == nil {
		return dataset.Structure{}
	}
	o := *st
	o.Format, o.Compression, o.FormatConfig, o.Schema = "", "", nil, nil
	return o
}

func detectSession(s *Sess, f *dFile, pre *dataset.Structure, has bool) {
	s.Ev("begin", M{"st": dStructure(pre), "file": f.ev(), "has": has})
	before := others(pre)
	ds := &dataset.Dataset{Structure: pre, Meta: &dataset.Meta{Title: "t"}, Name: "n"}
	sized := s.R.Intn(2) == 0
	if has && sized {
		ds.SetBodyFile(sizedFile{f.open(s.R), int64(len(f.data))})
	} else if has {
		ds.SetBodyFile(f.open(s.R))
	}
	var given map[string]interface{}
	if pre != nil {
		given = pre.Schema
	}
	shown := fmt.Sprint(dSchema(given))
	res := call(func() error { return detect.Structure(ds) })
	if f.fault == "none" && s.R.Intn(3) == 0 {
		// once more changes nothing
		if r2 := call(func() error { return detect.Structure(ds) }); r2 != res {
			res = res + "/" + r2
		}
	}
	ev := M{"res": res, "st": dStructure(ds.Structure), "name": true, "bytes": true, "end": "ok", "size": true,
		"other": reflect.DeepEqual(others(ds.Structure), before) && ds.Meta != nil && ds.Meta.Title == "t" && ds.Name == "n" && fmt.Sprint(dSchema(given)) == shown}
	want := f.data
	if f.fault != "none" {
		want = f.data[:f.faultAt]
	}
	if has {
		bf := ds.BodyFile()
		if bf == nil {
			ev["name"] = false
		} else {
			ev["name"] = filepath.Base(bf.FileName()) == strings.Join(f.segs, ".")
			ev["size"] = knowsSize(bf, int64(len(f.data)), sized)
			var got []byte
			ev["end"] = call(func() (err error) { got, err = ioutil.ReadAll(bf); return })
			ev["bytes"] = bytes.Equal(got, want)
		}
	}
	s.Ev("detect", ev)
	// structures that were found do not share anything
	if res == "ok" && ds.Structure != nil && ds.Structure.Schema != nil && given == nil {
		ds2 := &dataset.Dataset{}
		ds2.SetBodyFile(f.open(s.R))
		keep := dStructure(ds.Structure)
		if call(func() error { return detect.Structure(ds2) }) == "ok" && ds2.Structure != nil {
			ds2.Structure.Schema["type"] = "broken"
			if ds2.Structure.FormatConfig != nil {
				ds2.Structure.FormatConfig["headerRow"] = "broken"
			}
			if fmt.Sprint(dStructure(ds.Structure)) != fmt.Sprint(keep) {
				s.Ev("shared", nil)
			}
		}
	}
	if !has || f.fault != "none" {
		return
	}
	// without a structure: by reader and by file
	fc := f.open(s.R)
	var st *dataset.Structure
	res = call(func() error {
		df, comp, err := detect.FormatFromFilename(fc.name)
		if err != nil {
			return err
		}
		st, _, err = detect.FromReader(df, comp, fc)
		return err
	})
	s.Ev("from", M{"res": res, "st": dStructure(st)})
	dir, err := ioutil.TempDir("", "detect")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, strings.Join(f.segs, "."))
	if len(f.segs) > 0 && filepath.Base(path) == strings.Join(f.segs, ".") {
		if err := ioutil.WriteFile(path, f.data, 0644); err != nil {
			fail(err)
		}
		st = nil
		res = call(func() (err error) { st, err = detect.FromFile(path); return })
		s.Ev("from", M{"res": res, "st": dStructure(st)})
	}
	// the body reads with what was found
	if pre == nil && ev["res"] == "ok" && f.entries >= 0 {
		ds.SetBodyFile(f.open(s.R))
		n := 0
		res := call(func() error {
			r, err := dsio.NewEntryReader(ds.Structure, ds.BodyFile())
			if err != nil {
				return err
			}
			for {
				if _, err := r.ReadEntry(); err != nil {
					return err
				}
				n++
			}
		})
		s.Ev("read", M{"res": res, "n": n})
	}
}

func genGroups(r *rand.Rand, thorough bool) []csvGroup {
	w := 1 + r.Intn(4)
	pick := func() cellText {
		// few columns are of one type only
		return cellTexts[r.Intn(len(cellTexts))]
	}
	pools := make([][]cellText, w)
	for c := range pools {
		for i := 1 + r.Intn(3); i > 0; i-- {
			pools[c] = append(pools[c], pick())
		}
	}
	groups := []csvGroup{}
	if r.Intn(2) == 0 {
		row := []cellText{}
		for c := 0; c < w; c++ {
			for {
				x := pick()
				if x.head || r.Intn(12) == 0 {
					row = append(row, x)
					break
				}
			}
		}
		groups = append(groups, csvGroup{1, row})
	}
	left := 1900
	for i := r.Intn(7); i > 0; i-- {
		g := csvGroup{n: 1 + r.Intn(3)}
		if r.Intn(8) == 0 {
			g.n = 1 + r.Intn(900)
		}
		if g.n > left {
			continue
		}
		left -= g.n
		m := w
		if r.Intn(12) == 0 && len(groups) > 0 {
			m = 1 + r.Intn(6)
		}
		for c := 0; c < m; c++ {
			if c < w && r.Intn(5) > 0 {
				g.row = append(g.row, pools[c][r.Intn(len(pools[c]))])
			} else {
				g.row = append(g.row, pick())
			}
		}
		groups = append(groups, g)
	}
	return groups
}

func genPre(r *rand.Rand) *dataset.Structure {
	if r.Intn(2) == 0 {
		return nil
	}
	st := &dataset.Structure{}
	if r.Intn(3) == 0 {
		st.Format = []string{"csv", "json", "cbor", "ndjson", "xlsx", "xlsx"}[r.Intn(6)]
	}
	if r.Intn(4) == 0 {
		st.Schema = map[string]interface{}{"type": []string{"array", "object"}[r.Intn(2)]}
	}
	if r.Intn(4) == 0 {
		st.FormatConfig = map[string]interface{}{}
		if r.Intn(2) == 0 {
			st.FormatConfig["headerRow"] = r.Intn(2) == 0
		}
		if r.Intn(3) == 0 {
			st.FormatConfig["separator"] = ";"
		}
	}
	if r.Intn(5) == 0 {
		st.Compression = "gzip"
	}
	if r.Intn(3) == 0 {
		st.Encoding, st.Entries, st.Length, st.Strict, st.Checksum, st.Path, st.Qri, st.Depth, st.ErrCount = "utf-8", 7, 99, true, "c", "/p", "st:0", 3, 1
	}
	return st
}

func spaces(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = " \t\n\r"[r.Intn(4)]
	}
	return string(b)
}

func genDFile(r *rand.Rand, thorough bool) *dFile {
	f := &dFile{fault: "none", groups: []csvGroup{}}
	base := []string{"body", "a", "my file", "x.json", "data.gz"}[r.Intn(5)]
	format := []string{"csv", "csv", "csv", "json", "json", "cbor", "ndjson", "xml", "nope", "", "xlsx"}[r.Intn(11)]
	sig := 0 // where the first byte that counts is
	switch format {
	case "csv":
		f.groups = genGroups(r, thorough)
		f.data = csvData(f.groups, r.Intn(3) == 0)
		sig = len(f.data)
	case "json":
		sp := []int{0, 0, 1, 99, 100, 101, 199, 200, 201, 350, 5000}[r.Intn(11)]
		body, first, n := "[", "array", r.Intn(4)
		open, shut := "[", "]"
		if r.Intn(2) == 0 {
			open, shut, first = "{", "}", "object"
		}
		parts := []string{}
		for i := 0; i < n; i++ {
			v := []string{"1", "\"x\"", "{\"a\":[1]}", "[]", "null"}[r.Intn(5)]
			if open == "{" {
				v = fmt.Sprintf("\"k%d\":%s", i, v)
			}
			parts = append(parts, v)
		}
		body = open + strings.Join(parts, ",") + shut
		switch r.Intn(6) {
		case 0:
			body, first = []string{"1", "\"[\"", "null", "x", "]", ",[", "\ufeff[]"}[r.Intn(7)], "other"
		case 1:
			body, first = "", "none"
		case 2:
			if r.Intn(2) == 0 {
				// the first byte is enough, and all there is
				body, n = body[:1], -1
			}
		}
		f.data, f.first, f.entries = []byte(spaces(r, sp)+body), first, n
		sig = sp
	case "cbor":
		buf := &bytes.Buffer{}
		n := []int{0, 1, 2, 23, 24, 300}[r.Intn(6)]
		var v interface{}
		f.first = "array"
		switch r.Intn(4) {
		case 0:
			f.first = "object"
			m := map[string]interface{}{}
			for i := 0; i < n; i++ {
				m[fmt.Sprint("k", i)] = i
			}
			v = m
		case 1:
			f.first = "other"
			v = []interface{}{"text", 5, nil, true, 2.5, []byte("xx"), int64(-7), uint64(1 << 60)}[r.Intn(8)]
		default:
			a := []interface{}{}
			for i := 0; i < n; i++ {
				a = append(a, i)
			}
			v = a
		}
		if err := codec.NewEncoder(buf, &codec.CborHandle{}).Encode(v); err != nil {
			fail(err)
		}
		f.data, f.entries = buf.Bytes(), n
		if r.Intn(8) == 0 {
			f.data, f.first = []byte{}, "none"
		} else if r.Intn(8) == 0 {
			f.data, f.first, f.entries = []byte{0x9f, 1, 2, 0xff}, "array", 2
		} else if r.Intn(8) == 0 {
			f.data, f.first, f.entries = []byte{0xbf, 0x61, 'a', 1, 0xff}, "object", 1
		}
	case "ndjson":
		f.entries = r.Intn(5)
		for i := 0; i < f.entries; i++ {
			f.data = append(f.data, []byte([]string{"1", "{\"a\":1}", "[1,2]", "\"x\""}[r.Intn(4)]+"\n")...)
		}
		if format == "ndjson" && r.Intn(2) == 0 {
			format = "jsonl"
		}
	case "xlsx":
		buf := &bytes.Buffer{}
		n := r.Intn(4)
		w, err := dsio.NewXLSXWriter(&dataset.Structure{Format: "xlsx", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "string"}}}}}, buf)
		if err != nil {
			fail(err)
		}
		for i := 0; i < n; i++ {
			w.WriteEntry(dsio.Entry{Index: i, Value: []interface{}{fmt.Sprint("v", i)}})
		}
		w.Close()
		// its columns are not worked out, it can't be read without
		f.data, f.entries = buf.Bytes(), -1
	default:
		f.data = []byte("something")
	}
	name := base
	if format != "" {
		name += "." + format
	}
	if r.Intn(5) == 0 {
		c := []string{"gz", "gzip", "zst", "zstd"}[r.Intn(4)]
		name += "." + c
		f.data = packData(c, f.data)
	} else if r.Intn(6) == 0 && (format == "csv" || format == "json") {
		f.fault = "early"
		f.faultAt = r.Intn(len(f.data) + 1)
		if format == "json" {
			if f.faultAt > sig {
				f.fault = "late"
			}
		}
	}
	f.segs = strings.Split(name, ".")
	return f
}

func runDetect(h *H) {
	for _, sc := range h.Scens {
		sc := sc
		h.Add("scen", func(s *Sess) {
			f := &dFile{segs: []string{"b", "csv"}, fault: "none", groups: []csvGroup{}}
			for _, r := range sc["rows"].([]interface{}) {
				kinds := r.([]interface{})
				row := []cellText{}
				if kinds[0] == "w" {
					row = append(row, cellByKind(kinds[1].(string)), cellByKind("s"), cellByKind("s"))
				} else {
					row = append(row, cellByKind(kinds[0].(string)), cellByKind(kinds[1].(string)))
				}
				f.groups = append(f.groups, csvGroup{1, row})
			}
			f.data = csvData(f.groups, false)
			p := sc["pre"].(map[string]interface{})
			st := &dataset.Structure{Format: p["fmt"].(string)}
			if len(p["conf"].([]interface{})) > 0 {
				st.FormatConfig = map[string]interface{}{"headerRow": true}
			}
			if len(p["schema"].([]interface{})) > 0 {
				st.Schema = map[string]interface{}{"type": "array"}
			}
			if st.Format == "" && st.FormatConfig == nil && st.Schema == nil && s.R.Intn(2) == 0 {
				st = nil
			}
			detectSession(s, f, st, true)
		})
	}
	for i := 0; i < h.N(1500, 20000); i++ {
		h.Add("random", func(s *Sess) {
			detectSession(s, genDFile(s.R, h.Thorough()), genPre(s.R), s.R.Intn(20) > 0)
		})
	}
	// many rows: types that show late, more rows than are looked at
	for i := 0; i < h.N(12, 100); i++ {
		h.Add("large", func(s *Sess) {
			r := s.R
			a, b := cellTexts[r.Intn(len(cellTexts))], cellTexts[r.Intn(len(cellTexts))]
			n := []int{50, 100, 255, 500, 900}[r.Intn(5)]
			f := &dFile{segs: []string{"b", "csv"}, fault: "none", groups: []csvGroup{{n, []cellText{a, b}}, {n + 1, []cellText{b, a}}, {5, []cellText{a, a}}}}
			if r.Intn(2) == 0 {
				f.groups = []csvGroup{{3000 + r.Intn(3000), []cellText{a, b}}}
			}
			f.data = csvData(f.groups, r.Intn(2) == 0)
			if r.Intn(3) == 0 {
				f.segs = append(f.segs, "gz")
				f.data = packData("gz", f.data)
			}
			detectSession(s, f, nil, true)
		})
	}
	h.Add("nil", func(s *Sess) {
		f := &dFile{segs: []string{"b", "csv"}, fault: "none", groups: []csvGroup{}}
		s.Ev("begin", M{"st": dStructure(nil), "file": f.ev(), "has": false})
		s.Ev("detect", M{"res": call(func() error { return detect.Structure(nil) }), "st": dStructure(nil), "other": true})
	})
	for i := 0; i < h.N(60, 600); i++ {
		h.Add("rows", func(s *Sess) {
			r := s.R
			f := &dFile{segs: []string{}, fault: "none", groups: []csvGroup{}}
			s.Ev("begin", M{"st": dStructure(nil), "file": f.ev(), "has": false})
			for k := 0; k < 6; k++ {
				var src interface{}
				shape := "rows"
				kinds := []string{}
				row := []interface{}{}
				for i := r.Intn(6); i > 0; i-- {
					v := genValue(r, prof{depth: 1, exotic: true})
					row = append(row, v)
					kinds = append(kinds, toks(v)[0]["k"].(string))
				}
				switch r.Intn(7) {
				case 0:
					src, shape = []interface{}{}, "empty"
				case 1:
					src, shape = map[string]interface{}{"a": row}, "object"
				case 2:
					src, shape = []interface{}{map[string]interface{}{"a": 1}, row}, "objects"
				case 3:
					src, shape = []interface{}{"x"}, "scalars"
				default:
					src = []interface{}{row, []interface{}{1, 2, 3}}
				}
				var sch map[string]interface{}
				res := call(func() (err error) { sch, err = detect.TabularSchemaFromTabularData(src); return })
				ev := M{"shape": shape, "kinds": kinds, "res": res}
				if p := dSchema(sch); len(p) > 0 {
					ev["schema"] = p[0]
				} else {
					ev["schema"] = M{"type": "", "cols": []M{}}
				}
				s.Ev("rows", ev)
			}
		})
	}
}
