package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/validate"
)

func init() {
	runners["C16"] = runSettings
}

// opt is an option value as Settings.tla has it
func opt(v interface{}, present bool) M {
	m := M{"k": "absent", "v": "", "n": 0}
	if !present {
		return m
	}
	switch x := v.(type) {
	case nil:
		m["k"] = "nil"
	case bool:
		m["k"], m["v"] = "bool", fmt.Sprint(x)
	case string:
		m["k"], m["v"], m["n"] = "str", txt(x), len(x)
	default:
		m["k"], m["v"] = "num", fmt.Sprint(x)
	}
	return m
}

var csvOpts = []string{"headerRow", "lazyQuotes", "separator", "variadicFields"}

func optMap(m map[string]interface{}, keys []string) M {
	res := M{}
	for _, k := range keys {
		v, ok := m[k]
		res[k] = opt(v, ok)
	}
	for k := range m {
		if _, ok := res[k]; !ok {
			res["other"] = k
		}
	}
	return res
}

func csvOptEv(s *Sess, m map[string]interface{}) {
	shown := optMap(m, csvOpts)
	var fc dataset.FormatConfig
	res := call(func() (err error) { fc, err = dataset.ParseFormatConfigMap(dataset.CSVDataFormat, m); return })
	var o *dataset.CSVOptions
	res2 := call(func() (err error) { o, err = dataset.NewCSVOptions(m); return })
	if res != res2 {
		res = res + "/" + res2
	}
	ev := M{"map": shown, "res": res}
	if res == "ok" {
		if !reflect.DeepEqual(fc, o) {
			ev["res"] = "differ"
		}
		sep := ""
		if o.Separator != 0 {
			sep = txt(string(o.Separator))
		}
		ev["got"] = M{"head": o.HeaderRow, "lazy": o.LazyQuotes, "var": o.VariadicFields, "sep": sep}
		ev["out"] = optMap(fc.Map(), csvOpts)
		ev["fmt"] = fc.Format().String()
	}
	s.Ev("csv", ev)
}

func runSettings(h *H) {
	begin := func(s *Sess) { s.Ev("begin", nil) }
	// option maps TLC enumerates, a few per session
	for i := 0; i < len(h.Scens); i += 64 {
		part := h.Scens[i:]
		if len(part) > 64 {
			part = part[:64]
		}
		h.Add("options", func(s *Sess) {
			begin(s)
			for _, sc := range part {
				m := map[string]interface{}{}
				for k, v := range sc {
					o := v.(map[string]interface{})
					switch o["k"] {
					case "nil":
						m[k] = nil
					case "bool":
						m[k] = o["v"] == "true"
					case "str":
						m[k] = o["v"]
					case "num":
						m[k] = 1.0
					}
				}
				csvOptEv(s, m)
			}
		})
	}
	h.Add("separators", func(s *Sess) {
		begin(s)
		csvOptEv(s, nil)
		for c := 1; c < 127; c++ {
			csvOptEv(s, map[string]interface{}{"separator": string(rune(c))})
			csvOptEv(s, map[string]interface{}{"separator": string(rune(c)) + ","})
		}
		for _, v := range []interface{}{"é", "日", 'x', []interface{}{}, map[string]interface{}{}, int64(3)} {
			for _, k := range csvOpts {
				csvOptEv(s, map[string]interface{}{k: v})
			}
		}
	})
	h.Add("xlsx", func(s *Sess) {
		begin(s)
		ms := []map[string]interface{}{nil, {}}
		for _, v := range []interface{}{nil, "", "a", "Sheet 1", "日本", true, 3, 2.5, strings.Repeat("x", 60)} {
			ms = append(ms, map[string]interface{}{"sheetName": v})
		}
		for _, m := range ms {
			shown := optMap(m, []string{"sheetName"})
			var fc dataset.FormatConfig
			res := call(func() (err error) { fc, err = dataset.ParseFormatConfigMap(dataset.XLSXDataFormat, m); return })
			ev := M{"map": shown, "res": res}
			if res == "ok" {
				o := fc.(*dataset.XLSXOptions)
				ev["got"] = M{"sheet": opt(o.SheetName, true)}
				ev["out"] = optMap(fc.Map(), []string{"sheetName"})
				ev["fmt"] = fc.Format().String()
			}
			s.Ev("xlsx", ev)
		}
		for _, m := range []map[string]interface{}{nil, {}, {"a": true}, {"b": []interface{}{1.0, "x"}, "c": nil}} {
			given := map[string]interface{}{}
			for k, v := range m {
				given[k] = v
			}
			var fc dataset.FormatConfig
			res := call(func() (err error) { fc, err = dataset.ParseFormatConfigMap(dataset.JSONDataFormat, m); return })
			ev := M{"given": toks(given), "res": res}
			if res == "ok" {
				ev["out"], ev["fmt"] = toks(fc.Map()), fc.Format().String()
			}
			s.Ev("jsonopt", ev)
		}
		for _, f := range []dataset.DataFormat{dataset.UnknownDataFormat, dataset.CBORDataFormat, dataset.NDJSONDataFormat, dataset.XMLDataFormat, 77} {
			res := call(func() error { _, err := dataset.ParseFormatConfigMap(f, map[string]interface{}{}); return err })
			s.Ev("noopt", M{"res": res})
		}
	})
	h.Add("formats", func(s *Sess) {
		begin(s)
		names := []string{"", "csv", "json", "xml", "xlsx", "cbor", "ndjson", "jsonl", "JSON", "Csv", "xls", "jso", "jsonx", "txt", " json", "json ", "tsv", "gz", "unknown", "."}
		names = append(names, nearNames("csv", "json", "xml", "xlsx", "cbor", "ndjson", "jsonl")...)
		for _, n := range names {
			if len(n) > 1 && n[0] == '.' {
				continue // that is the other spelling
			}
			for _, dot := range []bool{false, true} {
				str := n
				if dot {
					str = "." + n
				}
				var df dataset.DataFormat
				res := call(func() (err error) { df, err = dataset.ParseDataFormatString(str); return })
				var jf dataset.DataFormat
				d, _ := json.Marshal(str)
				jres := call(func() error { return json.Unmarshal(d, &jf) })
				out := "err"
				call(func() error {
					d, err := df.MarshalJSON()
					if err == nil {
						out = string(d)
					}
					return nil
				})
				st := &dataset.Structure{Format: str}
				s.Ev("format", M{"name": n, "dot": dot, "res": res, "fmt": df.String(), "jres": jres, "jfmt": jf.String(), "stfmt": st.DataFormat().String(), "out": out, "tabular": st.RequiresTabularSchema()})
			}
		}
		fs := []string{}
		for _, f := range dataset.SupportedDataFormats() {
			fs = append(fs, f.String())
		}
		s.Ev("supported", M{"fmts": fs})
	})
	h.Add("compressions", func(s *Sess) {
		begin(s)
		for _, n := range append([]string{"", "gzip", "gz", "zst", "zstd", "GZ", ".gz", "zip", "bz2", "gzi", "zs", "gz ", "none", "tar.gz", "gnuzip", "zstandard", "x-gzip", "deflate", "lz4"}, nearNames("gzip", "gz", "zst", "zstd")...) {
			var f compression.Format
			res := call(func() (err error) { f, err = compression.ParseFormat(n); return })
			wres := call(func() error { _, err := compression.Compressor(n, ioutil.Discard); return err })
			s.Ev("comp", M{"name": n, "res": res, "comp": f.String(), "writer": wres})
		}
		for _, size := range []int{0, 1, 100, 70000} {
			data := make([]byte, size)
			s.R.Read(data)
			if size == 70000 {
				copy(data[20000:], bytes.Repeat([]byte("abc"), 10000))
			}
			for _, a := range []string{"gzip", "gz", "zst", "zstd"} {
				buf := &bytes.Buffer{}
				w, err := compression.Compressor(a, buf)
				if err != nil {
					fail(err)
				}
				w.Write(data)
				w.Close()
				for _, b := range []string{"gzip", "gz", "zst", "zstd"} {
					if buf.Len() == 0 {
						continue // nothing written: nothing to tell formats apart by
					}
					got := []byte{}
					res := call(func() error {
						r, err := compression.Decompressor(b, bytes.NewReader(buf.Bytes()))
						if err != nil {
							return err
						}
						got, err = ioutil.ReadAll(r)
						if err != nil {
							return err
						}
						return r.Close()
					})
					s.Ev("unpack", M{"a": a, "b": b, "res": res, "same": bytes.Equal(got, data)})
				}
			}
		}
	})
	h.Add("filenames", func(s *Sess) {
		begin(s)
		parts := []string{"csv", "json", "xml", "xlsx", "cbor", "ndjson", "jsonl", "gz", "gzip", "zst", "zstd", "a", "body", "", "CSV", "txt", "tar"}
		ev := func(dir string, segs []string) {
			path := dir + strings.Join(segs, ".")
			var f dataset.DataFormat
			var c compression.Format
			res := call(func() (err error) { f, c, err = detect.FormatFromFilename(path); return })
			s.Ev("name", M{"segs": segs, "res": res, "fmt": f.String(), "comp": c.String()})
		}
		for _, a := range parts {
			ev("", []string{a})
			for _, b := range parts {
				ev([]string{"", "/x/", "dir.json/", "a.csv.gz/"}[s.R.Intn(4)], []string{a, b})
				for _, c := range parts {
					ev([]string{"", "", "/x/", "dir.json/", "a.csv.gz/"}[s.R.Intn(5)], []string{a, b, c})
				}
			}
		}
		for i := 0; i < h.N(200, 4000); i++ {
			segs := []string{}
			for k := 0; k < 4; k++ {
				segs = append(segs, parts[s.R.Intn(len(parts))])
			}
			ev("", segs)
		}
		for _, n := range []string{"body", "a", "", "x.y"} {
			for _, f := range []string{"", "csv", "json", "ndjson", "cbor", "xlsx"} {
				for _, c := range []string{"", "gzip", "zst", "gz"} {
					st := &dataset.Structure{Format: f, Compression: c}
					s.Ev("ext", M{"name": n, "fmt": f, "comp": c, "out": st.AddFileFormatExtensions(n), "body": st.BodyFilename()})
				}
			}
		}
	})
	h.Add("kinds", func(s *Sess) {
		begin(s)
		for _, k := range []string{"", "d", "ds", "ds:", "ds:0", "md:1", "st:10", "bd:0", "tf:0", "cm:0", "vz:0", "rm:0", "sa:0", "abcd", "xy:version", "日:0", "ds:0.1.2", ":", "a:b:c", dataset.KindDataset.String(), dataset.KindBody.String(),
			dataset.KindMeta.String(), dataset.KindStructure.String(), dataset.KindTransform.String(), dataset.KindCommit.String(), dataset.KindViz.String(), dataset.KindReadme.String(), dataset.KindStats.String()} {
			kd := dataset.Kind(k)
			var jk dataset.Kind
			d, _ := json.Marshal(k)
			ev := M{"bytes": len(k), "res": call(kd.Valid), "jres": call(func() error { return json.Unmarshal(d, &jk) })}
			if len(k) >= 4 {
				ev["head"], ev["tail"] = txt(k[:2]), txt(k[3:])
				ev["type"], ev["version"] = txt(kd.Type()), txt(kd.Version())
				ev["prefixed"] = dataset.ComponentTypePrefix(kd, "x")
				if k[:2] != txt(k[:2]) {
					continue
				}
				if jk != kd || kd.String() != k {
					ev["jres"] = "differ"
				}
			}
			s.Ev("kind", ev)
		}
		for _, d := range []string{"5", "null1", "[]", "{}"} {
			var jk dataset.Kind
			s.Ev("noopt", M{"res": call(func() error { return json.Unmarshal([]byte(d), &jk) })})
			var df dataset.DataFormat
			s.Ev("noopt", M{"res": call(func() error { return json.Unmarshal([]byte(d), &df) })})
		}
	})
	h.Add("columns", func(s *Sess) {
		begin(s)
		ev := func(i int) {
			ds := []int{}
			for _, c := range []byte(dataset.AbstractColumnName(i)) {
				ds = append(ds, int(c)-int('a'))
			}
			s.Ev("column", M{"i": i, "digits": ds})
		}
		for i := 0; i < h.N(2000, 30000); i++ {
			ev(i)
		}
		for _, i := range []int{18277, 18278, 18279, 475253, 475254, 475255, 12356629, 12356630, 1 << 30, 1<<31 - 1} {
			ev(i)
		}
		for i := 0; i < 300; i++ {
			ev(s.R.Intn(1 << 31))
		}
	})
	h.Add("names", func(s *Sess) {
		begin(s)
		ev := func(n string) {
			codes := []int{}
			for _, r := range n {
				codes = append(codes, int(r))
			}
			s.Ev("validname", M{"codes": codes, "res": call(func() error { return validate.ValidName(n) })})
		}
		ev("")
		for c := 0; c < 260; c++ {
			ev(string(rune(c)))
			ev("a" + string(rune(c)))
			ev("a" + string(rune(c)) + "b")
			ev("ab" + string(rune(c)))
		}
		for _, n := range []int{1, 2, 143, 144, 145, 146, 200, 288} {
			ev(strings.Repeat("a", n))
			ev(strings.Repeat("a", n-1) + "_")
			ev(strings.Repeat("a", n-1) + "-")
			ev(strings.Repeat("a", n-1) + "\n")
			ev("a" + strings.Repeat("é", n-1))
			ev("1" + strings.Repeat("a", n-1))
		}
		for i := 0; i < h.N(500, 10000); i++ {
			b := []rune{}
			for k := s.R.Intn(6); k >= 0; k-- {
				b = append(b, []rune("abzAZ019_ -.é日\n\t:")[s.R.Intn(17)])
			}
			ev(string(b))
		}
	})
	h.Add("rules", func(s *Sess) {
		begin(s)
		s.Ev("nils", M{"ds": call(func() error { return validate.Dataset(nil) }), "cm": call(func() error { return validate.Commit(nil) }), "st": call(func() error { return validate.Structure(nil) })})
		titles := []string{"", "a", strings.Repeat("x", 99), strings.Repeat("x", 100), strings.Repeat("x", 101), strings.Repeat("é", 50), strings.Repeat("é", 51), strings.Repeat("y", 5000)}
		formats := []string{"", "csv", "json", "cbor", "xlsx", "ndjson", "xml", "nope", "JSON", "jsonl", ".csv"}
		parsed := map[string]string{"csv": "csv", "json": "json", "cbor": "cbor", "xlsx": "xlsx", "ndjson": "ndjson", "xml": "xml", "jsonl": "ndjson", ".csv": "csv"}
		schemas := []map[string]interface{}{nil, {}, {"type": "array"}, dataset.BaseSchemaArray, {"type": "object"}}
		for ti := -1; ti < len(titles); ti++ {
			for fi := -1; fi < len(formats); fi++ {
				for si, sch := range schemas {
					if (fi < 0 || ti > 3) && si > 1 {
						continue
					}
					ds := &dataset.Dataset{}
					d := M{"commit": []int{}, "structure": []M{}}
					ev := M{"d": d, "cm": "", "st": ""}
					if ti >= 0 {
						ds.Commit = &dataset.Commit{Title: titles[ti]}
						d["commit"] = []int{len(titles[ti])}
						ev["cm"] = call(func() error { return validate.Commit(ds.Commit) })
					}
					if fi >= 0 {
						ds.Structure = &dataset.Structure{Format: formats[fi], Schema: sch}
						d["structure"] = []M{{"fmt": parsed[formats[fi]], "schema": sch != nil}}
						ev["st"] = call(func() error { return validate.Structure(ds.Structure) })
					}
					ev["ds"] = call(func() error { return validate.Dataset(ds) })
					s.Ev("rules", ev)
				}
			}
		}
	})
	for i := 0; i < h.N(40, 600); i++ {
		h.Add("rows", func(s *Sess) {
			begin(s)
			r := s.R
			for k := 0; k < 10; k++ {
				n := r.Intn(7)
				if r.Intn(10) == 0 {
					n = 200 + r.Intn(200)
				}
				w := 1 + r.Intn(4)
				lens := []int{}
				odd := -1
				if r.Intn(2) == 0 && n > 0 {
					odd = r.Intn(n)
					if r.Intn(3) == 0 {
						odd = n - 1
					}
				}
				buf := &strings.Builder{}
				for i := 0; i < n; i++ {
					m := w
					if i == odd {
						m = 1 + r.Intn(6)
					}
					lens = append(lens, m)
					for c := 0; c < m; c++ {
						if c > 0 {
							buf.WriteString(",")
						}
						buf.WriteString([]string{"a", "12", "\"a,b\"", "\"x\ny\"", " \"q\"", "\"\"", "b c", "\"say \"\"hi\"\"\"", "é"}[r.Intn(9)])
					}
					buf.WriteString([]string{"\n", "\n", "\r\n", "\n\n"}[r.Intn(4)])
				}
				txt := buf.String()
				bad := false
				if r.Intn(6) == 0 {
					// a quote that never ends
					bad = true
					txt += "\"abc\nd,e"
				}
				s.Ev("rows", M{"lens": lens, "bad": bad, "res": call(func() error { return validate.CheckCsvRowLengths(strings.NewReader(txt)) })})
			}
		})
	}
	h.Add("abstract", func(s *Sess) {
		begin(s)
		for i := 0; i < 64; i++ {
			st := &dataset.Structure{Format: "csv", FormatConfig: map[string]interface{}{"headerRow": true}, Encoding: "UTF-8", Strict: true,
				Checksum: "c", Compression: "gzip", Depth: 3, Entries: 5, ErrCount: 2, Length: 9, Path: "/p", Qri: "st:0", Schema: map[string]interface{}{"type": "array"}}
			if i&1 == 0 {
				st.Format = ""
			}
			if i&2 == 0 {
				st.FormatConfig = nil
			}
			if i&4 == 0 {
				st.Encoding = ""
			}
			if i&8 == 0 {
				st.Strict = false
			}
			if i&16 == 0 {
				st.Schema = nil
			}
			a := st.Abstract()
			kept := []bool{a.Format == st.Format, reflect.DeepEqual(a.FormatConfig, st.FormatConfig), a.Encoding == st.Encoding, a.Strict == st.Strict}
			b := *a
			b.Format, b.FormatConfig, b.Encoding, b.Strict = "", nil, "", false
			s.Ev("abstract", M{"kept": kept, "rest": reflect.DeepEqual(b, dataset.Structure{})})
		}
	})
	for i := 0; i < h.N(4, 40); i++ {
		h.Add("hash", func(s *Sess) {
			begin(s)
			pool := [][]byte{{}, {0}, {0, 0}, []byte("a"), []byte("b")}
			for k := 0; k < 20; k++ {
				d := make([]byte, s.R.Intn(300))
				s.R.Read(d)
				pool = append(pool, d)
				if len(d) > 0 {
					e := append([]byte{}, d...)
					e[s.R.Intn(len(e))] ^= 1 << uint(s.R.Intn(8))
					pool = append(pool, e, d[:len(d)-1])
				}
			}
			for k := 0; k < 150; k++ {
				d := pool[s.R.Intn(len(pool))]
				hash, err := dataset.HashBytes(d)
				if err != nil {
					hash = ""
				}
				s.Ev("hash", M{"data": fmt.Sprintf("%d:%s", len(d), digest(string(d))), "hash": hash, "own": ownHash(d)})
			}
		})
	}
	h.Add("accrual", func(s *Sess) {
		begin(s)
		codes := []string{"R/P10Y", "R/P4Y", "R/P1Y", "R/P1D", "R/P2W", "R/P6M", "R/P2Y", "R/P3Y", "R/P0.33W", "R/P0.33M", "R/PT1S", "R/P1M", "R/P0.5M", "R/P1W", "R/PT1H"}
		ask := func(c string) {
			dur := dataset.AccuralDuration(c)
			s.Ev("accrual", M{"code": txt(c), "sec": int64(dur / time.Second), "whole": dur%time.Second == 0})
		}
		for _, c := range codes {
			ask(c)
			for _, x := range []string{strings.ToLower(c), " " + c, c + " ", c + "\n", c[2:], c[1:], c + "0", c[:len(c)-1], strings.Replace(c, "P", "P0", 1), c + "T"} {
				ask(x)
			}
		}
		for _, c := range []string{"", "irregular", "R/P", "R/P5Y", "R/PT1M", "P1Y", "R1/P1Y", "R/P-1Y", "R/P0Y", "yearly"} {
			ask(c)
		}
	})
	h.Add("hashjson", func(s *Sess) {
		begin(s)
		sts := []*dataset.Structure{}
		for i := 0; i < 40; i++ {
			// few fields, and few values of each, so that structures differ in one of them
			p := func() bool { return s.R.Intn(4) == 0 }
			st := &dataset.Structure{}
			for _, f := range []*string{&st.Path, &st.Checksum, &st.Compression, &st.Encoding, &st.Format, &st.Qri} {
				if p() {
					*f = []string{"csv", "json", "/a/b", "CSV", " csv"}[s.R.Intn(5)]
				}
			}
			for _, f := range []*int{&st.Depth, &st.Entries, &st.ErrCount, &st.Length} {
				if p() {
					*f = s.R.Intn(3)
				}
			}
			st.Strict = p()
			if p() {
				st.FormatConfig = map[string]interface{}{"headerRow": p()}
			}
			if s.R.Intn(2) == 0 {
				st.Schema = map[string]interface{}{"type": "array", "items": s.R.Intn(3), "b": 1, "c": "x"}
			}
			sts = append(sts, st)
		}
		for i := 0; i < 200; i++ {
			st := sts[s.R.Intn(len(sts))]
			d, err := st.MarshalJSON()
			if err != nil {
				fail(err)
			}
			hash, err := st.Hash()
			if err != nil {
				hash = ""
			}
			if h2, _ := dataset.HashBytes(d); s.R.Intn(2) == 0 {
				hash = h2
			} else if s.R.Intn(2) == 0 {
				hash, _ = dataset.JSONHash(st)
			}
			s.Ev("hash", M{"data": fmt.Sprintf("%d:%s", len(d), digest(string(d))), "hash": hash, "own": ownHash(d)})
		}
	})
}

// nearNames gives texts that are almost one of some names
func nearNames(names ...string) []string {
	out := []string{}
	for _, n := range names {
		out = append(out, strings.ToUpper(n), strings.Title(n), n+n)
		for i := range n {
			out = append(out, n[:i], n[i+1:], n[:i]+"x"+n[i+1:], n[:i]+n[i:i+1]+n[i:])
		}
		for _, c := range "abdeglmnpstxz0129.-_ \n\x00/" {
			out = append(out, n+string(c), string(c)+n)
		}
	}
	return out
}

// ownHash is the base 58 text of the multihash of data, by its definition
func ownHash(data []byte) string {
	sum := sha256.Sum256(data)
	n := new(big.Int).SetBytes(append([]byte{0x12, 0x20}, sum[:]...))
	out := ""
	for n.Sign() > 0 {
		r := new(big.Int)
		n.DivMod(n, big.NewInt(58), r)
		out = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[r.Int64():r.Int64()+1] + out
	}
	return out
}
