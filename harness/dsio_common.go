package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/klauspost/compress/gzip"
	"github.com/klauspost/compress/zstd"
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/ugorji/go/codec"
)

// cfg describes a body format
type cfg struct {
	Fmt   string // json, ndjson, cbor, csv, xlsx
	Tlt   string
	Comp  string // "", gzip, zst
	Types []string
	Head  bool
	Sep   string
	Lazy  bool
	Var   bool
	Sheet string
	// how to write & read
	Pretty string
	Buf    bool
	Size   int // reader buffer size, 0 for default
}

func (c cfg) tabular() bool { return c.Fmt == "csv" || c.Fmt == "xlsx" }

func (c cfg) st() *dataset.Structure {
	st := &dataset.Structure{Format: c.Fmt, Compression: c.Comp}
	if c.tabular() {
		cols := []interface{}{}
		for i, t := range c.Types {
			var ty interface{} = t
			if i%3 == 2 {
				ty = []interface{}{t, "null"}
			}
			cols = append(cols, map[string]interface{}{"title": fmt.Sprintf("col_%d", i), "type": ty})
		}
		st.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": cols}}
	} else {
		st.Schema = map[string]interface{}{"type": c.Tlt}
	}
	fc := map[string]interface{}{}
	if c.Fmt == "csv" {
		if c.Head {
			fc["headerRow"] = true
		}
		if c.Sep != "" {
			fc["separator"] = c.Sep
		}
		if c.Lazy {
			fc["lazyQuotes"] = true
		}
		if c.Var {
			fc["variadicFields"] = true
		}
	}
	if c.Fmt == "xlsx" && c.Sheet != "" {
		fc["sheetName"] = c.Sheet
	}
	if len(fc) > 0 {
		st.FormatConfig = fc
	}
	return st
}

func (c cfg) begin() M {
	ty := c.Types
	if ty == nil {
		ty = []string{}
	}
	return M{"fmt": c.Fmt, "tlt": c.Tlt, "comp": c.Comp, "types": ty, "head": c.Head, "sep": c.Sep, "pretty": c.Pretty, "size": c.Size, "buf": c.Buf}
}

func (c cfg) writer(w io.Writer) (dsio.EntryWriter, error) {
	if c.Pretty != "" {
		return dsio.NewJSONPrettyWriter(c.st(), w, c.Pretty)
	}
	return dsio.NewEntryWriter(c.st(), w)
}

func (c cfg) reader(r io.Reader) (dsio.EntryReader, error) {
	if c.Size > 0 && c.Fmt == "json" {
		return dsio.NewJSONReaderSize(c.st(), r, c.Size)
	}
	if c.Size > 0 && c.Fmt == "csv" {
		return dsio.NewCSVReaderSize(c.st(), r, c.Size)
	}
	return dsio.NewEntryReader(c.st(), r)
}

// ent projects an entry. Rows of tabular formats are a list of cells, other
// values are a single cell
func (c cfg) ent(e dsio.Entry) M {
	m := M{"key": txt(e.Key), "idx": e.Index}
	if c.tabular() {
		if row, ok := e.Value.([]interface{}); ok {
			cells := [][]M{}
			for _, v := range row {
				cells = append(cells, toks(v))
			}
			m["v"] = cells
			return m
		}
	}
	m["v"] = [][]M{toks(e.Value)}
	return m
}

// settle gives res, unless entries differ from what they were when they were
// read: reading further or closing must not change what was given before
func (c cfg) settle(raw []dsio.Entry, es []M, res string) string {
	for i, e := range raw {
		if !reflect.DeepEqual(c.ent(e), es[i]) {
			return "changed"
		}
	}
	return res
}

// drain reads entries one by one until the end or an error
func (c cfg) drain(r dsio.EntryReader, max int) (es []M, res string) {
	es = []M{}
	raw := []dsio.Entry{}
	defer func() { res = c.settle(raw, es, res) }()
	for {
		var e dsio.Entry
		res = call(func() (err error) { e, err = r.ReadEntry(); return })
		if res != "ok" {
			return es, res
		}
		es = append(es, c.ent(e))
		raw = append(raw, e)
		if len(es) > max {
			return es, "endless"
		}
	}
}

// readAll opens a body & reads it to the end
func (c cfg) readAll(r io.Reader, max int) (es []M, res string) {
	var er dsio.EntryReader
	es = []M{}
	res = call(func() (err error) { er, err = c.reader(r); return })
	if res != "ok" {
		if res == "eof" {
			res = "err" // failing to open isn't a clean end of data
		}
		return es, "open" + res
	}
	es, res = c.drain(er, max)
	if x := call(er.Close); x == "panic" {
		res = "panic"
	}
	return
}

// write a body, all entries are expected to be fine
func (c cfg) encode(es []dsio.Entry) ([]byte, error) {
	buf := &bytes.Buffer{}
	w, err := c.writer(buf)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if err := w.WriteEntry(e); err != nil {
			return nil, err
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func decompress(comp string, d []byte) ([]byte, error) {
	switch comp {
	case "gzip":
		r, err := gzip.NewReader(bytes.NewReader(d))
		if err != nil {
			return nil, err
		}
		return ioutil.ReadAll(r)
	case "zst":
		r, err := zstd.NewReader(bytes.NewReader(d))
		if err != nil {
			return nil, err
		}
		defer r.Close()
		return ioutil.ReadAll(r)
	}
	return d, nil
}

func compress(comp string, d []byte) []byte {
	buf := &bytes.Buffer{}
	switch comp {
	case "gzip":
		w := gzip.NewWriter(buf)
		w.Write(d)
		w.Close()
		return buf.Bytes()
	case "zst":
		w, _ := zstd.NewWriter(buf)
		w.Write(d)
		w.Close()
		return buf.Bytes()
	}
	return d
}

var errIndep = errors.New("not decodable")

// indep decodes a body without the code under test. ok is false for formats
// with no independent decoder
func (c cfg) indep(d []byte) (es []M, res string, ok bool) {
	es = []M{}
	raw, err := decompress(c.Comp, d)
	if err != nil {
		return es, "err", true
	}
	switch c.Fmt {
	case "json":
		dec := json.NewDecoder(bytes.NewReader(raw))
		dec.UseNumber()
		open, err := dec.Token()
		if err != nil {
			return es, "err", true
		}
		want := json.Delim('[')
		if c.Tlt == "object" {
			want = '{'
		}
		if open != want {
			return es, "err", true
		}
		for i := 0; dec.More(); i++ {
			e := dsio.Entry{}
			if c.Tlt == "object" {
				k, err := dec.Token()
				if err != nil {
					return es, "err", true
				}
				e.Key, _ = k.(string)
			} else {
				e.Index = i
			}
			if err := dec.Decode(&e.Value); err != nil {
				return es, "err", true
			}
			es = append(es, c.ent(e))
		}
		if _, err := dec.Token(); err != nil {
			return es, "err", true
		}
		if _, err := dec.Token(); err != io.EOF {
			return es, "err", true
		}
		return es, "eof", true
	case "ndjson":
		dec := json.NewDecoder(bytes.NewReader(raw))
		for i := 0; ; i++ {
			var v interface{}
			if err := dec.Decode(&v); err == io.EOF {
				break
			} else if err != nil {
				return es, "err", true
			}
			es = append(es, c.ent(dsio.Entry{Index: i, Value: v}))
		}
		if lines := bytes.Count(raw, []byte{'\n'}); lines != len(es) {
			return es, "err", true
		}
		return es, "eof", true
	case "cbor":
		h := &codec.CborHandle{}
		h.SignedInteger = false
		if c.Tlt == "object" {
			var m map[string]interface{}
			if err := codec.NewDecoderBytes(raw, h).Decode(&m); err != nil {
				return es, "err", true
			}
			for k, v := range m {
				es = append(es, c.ent(dsio.Entry{Key: k, Value: cborFix(v)}))
			}
			return es, "eof", true
		}
		var a []interface{}
		if err := codec.NewDecoderBytes(raw, h).Decode(&a); err != nil {
			return es, "err", true
		}
		for i, v := range a {
			es = append(es, c.ent(dsio.Entry{Index: i, Value: cborFix(v)}))
		}
		return es, "eof", true
	case "csv":
		r := csv.NewReader(bytes.NewReader(raw))
		r.FieldsPerRecord = -1
		if c.Sep != "" {
			r.Comma = []rune(c.Sep)[0]
		}
		recs, err := r.ReadAll()
		if err != nil {
			return es, "err", true
		}
		for i, rec := range recs {
			cells := [][]M{}
			for _, s := range rec {
				cells = append(cells, toks(s))
			}
			if i == 0 && c.Head {
				want := make([]string, len(c.Types))
				for j := range want {
					want[j] = fmt.Sprintf("col_%d", j)
				}
				if strings.Join(want, "|") != strings.Join(rec, "|") {
					return es, "err", true
				}
				continue
			}
			es = append(es, M{"key": "", "idx": 0, "v": cells})
		}
		return es, "eof", true
	}
	return es, "", false
}

// cborFix turns what ugorji decodes into the types readers give
func cborFix(v interface{}) interface{} {
	switch x := v.(type) {
	case uint64:
		if x <= math.MaxInt64 {
			return int64(x)
		}
		return float64(x)
	case []interface{}:
		for i := range x {
			x[i] = cborFix(x[i])
		}
		return x
	case map[string]interface{}:
		for k := range x {
			x[k] = cborFix(x[k])
		}
		return x
	case map[interface{}]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[fmt.Sprint(k)] = cborFix(e)
		}
		return m
	}
	return v
}

var allFmts = []string{"json", "ndjson", "cbor", "csv", "xlsx"}
var comps = []string{"", "", "gzip", "zst"}
var colTypes = []string{"string", "integer", "number", "boolean", "object", "array", "string", "null"}

// genCfg picks a random configuration
func genCfg(r *rand.Rand, fmts []string) cfg {
	c := cfg{Fmt: fmts[r.Intn(len(fmts))], Tlt: "array"}
	if c.Fmt != "xlsx" {
		c.Comp = comps[r.Intn(len(comps))]
	}
	switch c.Fmt {
	case "json":
		if r.Intn(2) == 0 {
			c.Tlt = "object"
		}
		if r.Intn(4) == 0 {
			c.Pretty = []string{" ", "  ", "\t"}[r.Intn(3)]
		}
		c.Size = []int{0, 0, 0, 1, 16, 17, 18, 19, 23, 32, 64, 100, 4095, 4096, 4097, 65536}[r.Intn(16)]
	case "cbor":
		if r.Intn(2) == 0 {
			c.Tlt = "object"
		}
	case "csv":
		c.Head = r.Intn(2) == 0
		c.Sep = []string{"", "", ",", ";", "\t", "|"}[r.Intn(6)]
		c.Lazy = r.Intn(4) == 0
		c.Var = r.Intn(4) == 0
		c.Size = []int{0, 0, 0, 1, 16, 17, 32, 64, 4096, 65536}[r.Intn(10)]
	case "xlsx":
		if r.Intn(3) == 0 {
			c.Sheet = []string{"data", "Sheet1", "my sheet"}[r.Intn(3)]
		}
	}
	if c.tabular() {
		n := 1 + r.Intn(6)
		if r.Intn(25) == 0 {
			n = []int{25, 26, 27, 28, 52, 53, 60}[r.Intn(7)]
		}
		for i := 0; i < n; i++ {
			c.Types = append(c.Types, colTypes[r.Intn(len(colTypes))])
		}
	}
	return c
}

// stripCR keeps text to what CSV can carry: readers normalise line ends
func csvText(s string) string { return strings.ReplaceAll(s, "\r", "~") }

// xlsxText keeps text to what XML can carry
func xlsxText(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 32 || r == 0xfffe || r == 0xffff || (r >= 0x7f && r < 0xa0) {
			return 'c'
		}
		return r
	}, clip0(s, 1000))
}

func clip0(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n], "")
}

func tabText(c cfg, s string) string {
	if c.Fmt == "xlsx" {
		return xlsxText(s)
	}
	return csvText(s)
}

func mapText(v interface{}, f func(string) string) interface{} {
	switch x := v.(type) {
	case string:
		return f(x)
	case []interface{}:
		for i := range x {
			x[i] = mapText(x[i], f)
		}
		return x
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[f(k)] = mapText(e, f)
		}
		return m
	}
	return v
}

// genRow makes a row that conforms to the column types
func genRow(r *rand.Rand, c cfg, long int) []interface{} {
	row := make([]interface{}, len(c.Types))
	p := prof{depth: 2, long: long}
	for i, t := range c.Types {
		switch t {
		case "string":
			row[i] = tabText(c, genString(r, p))
		case "integer":
			if r.Intn(2) == 0 {
				row[i] = int(genInt(r))
			} else {
				row[i] = genInt(r)
			}
		case "number":
			if r.Intn(3) == 0 {
				row[i] = int64(r.Intn(100000) - 50000)
			} else {
				row[i] = genFloat(r)
			}
		case "boolean":
			row[i] = r.Intn(2) == 0
		case "null":
			row[i] = nil
		case "object":
			m := map[string]interface{}{}
			for k := r.Intn(4); k > 0; k-- {
				m[genString(r, p)] = genValue(r, p)
			}
			row[i] = mapText(m, func(s string) string { return tabText(c, s) })
		case "array":
			a := []interface{}{}
			for k := r.Intn(4); k > 0; k-- {
				a = append(a, genValue(r, p))
			}
			row[i] = mapText(a, func(s string) string { return tabText(c, s) })
		}
	}
	return row
}

func (c cfg) prof() prof {
	p := prof{depth: 3, long: 6, exotic: c.Fmt != "ndjson"}
	if c.Fmt == "cbor" {
		p.bytes, p.naninf = true, true
	}
	return p
}

// genEntries makes entries a writer must accept
func genEntries(r *rand.Rand, c cfg, n, long int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	p := c.prof()
	p.long = long
	seen := map[string]bool{"": true}
	for i := range es {
		if c.tabular() {
			es[i].Value = genRow(r, c, long)
			continue
		}
		es[i].Value = genValue(r, p)
		if c.Tlt == "object" {
			k := genString(r, p)
			for seen[k] {
				k += fmt.Sprintf("%d", r.Intn(1000))
			}
			seen[k] = true
			es[i].Key = k
		}
	}
	return es
}

func genCount(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return []int{23, 24, 25, 30, 50}[r.Intn(5)]
	default:
		return 1 + r.Intn(8)
	}
}

// faultErr is the error injected by faulty readers & writers
var faultErr = errors.New("injected fault")

// chunkReader delivers data in pieces
type chunkReader struct {
	d     []byte
	mode  string
	r     *rand.Rand
	n     int
	fail  int // fail after this many bytes, -1 never
	ferr  error
	total int
	once  bool // error is reported once, then EOF
	fired bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.fail >= 0 && c.total >= c.fail {
		if c.fired && c.once {
			return 0, io.EOF
		}
		c.fired = true
		return 0, c.ferr
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.d) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	c.n++
	switch c.mode {
	case "one":
		n = 1
	case "rand":
		n = 1 + c.r.Intn(20)
	case "zero":
		if c.n%3 == 0 {
			return 0, nil
		}
		n = 1 + c.r.Intn(7)
	case "half":
		n = (len(p) + 1) / 2
	case "big":
		n = 4096 + c.r.Intn(5) - 2
	case "tail":
		// all but the last byte, then the last byte
		if len(c.d) > 1 {
			n = len(c.d) - 1
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.d) {
		n = len(c.d)
	}
	if c.fail >= 0 && c.total+n > c.fail {
		n = c.fail - c.total
	}
	copy(p, c.d[:n])
	c.d = c.d[n:]
	c.total += n
	if c.fail >= 0 && c.total >= c.fail && c.mode == "dataerr" {
		c.fired = true
		return n, c.ferr
	}
	if len(c.d) == 0 && (c.mode == "dataeof" || c.mode == "dataerr") && c.fail < 0 {
		return n, io.EOF
	}
	return n, nil
}

var chunkModes = []string{"one", "rand", "zero", "half", "big", "tail", "dataeof"}
