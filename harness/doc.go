package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func init() {
	runners["C09"] = runDocCoding
	runners["C10"] = runDocPure
	runners["C11"] = runDocAssign
	runners["C12"] = runDocDrop
	runners["C13"] = runDocSign
}

var compNames = []string{"commit", "meta", "readme", "structure", "stats", "transform", "viz"}

// ---- projection

// jtext is the JSON text of a plain value, in a form short enough
func jtext(v interface{}) string {
	d, err := json.Marshal(v)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return txt(string(d))
}

type fields map[string]interface{}

func (f fields) str(k, v string) {
	if v != "" {
		f[k] = jtext(v)
	}
}

func (f fields) num(k string, v int) {
	if v != 0 {
		f[k] = jtext(v)
	}
}

func (f fields) any(k string, v interface{}) {
	if v != nil {
		f[k] = jtext(v)
	}
}

func (f fields) strs(k string, v []string) {
	if v != nil {
		f[k] = jtext(v)
	}
}

func (f fields) anymap(k string, v map[string]interface{}) {
	if v != nil {
		f[k] = jtext(v)
	}
}

func omitted(kv ...string) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			m[kv[i]] = kv[i+1]
		}
	}
	return m
}

func plainUser(u *dataset.User) interface{} {
	if u == nil {
		return nil
	}
	return omitted("id", u.ID, "name", u.Fullname, "email", u.Email)
}

func plainUsers(us []*dataset.User) interface{} {
	if us == nil {
		return nil
	}
	l := []interface{}{}
	for _, u := range us {
		l = append(l, plainUser(u))
	}
	return l
}

func plainCitations(cs []*dataset.Citation) interface{} {
	if cs == nil {
		return nil
	}
	l := []interface{}{}
	for _, c := range cs {
		if c == nil {
			l = append(l, nil)
			continue
		}
		l = append(l, omitted("name", c.Name, "url", c.URL, "email", c.Email))
	}
	return l
}

func plainSteps(ss []*dataset.TransformStep) interface{} {
	if ss == nil {
		return nil
	}
	l := []interface{}{}
	for _, s := range ss {
		if s == nil {
			l = append(l, nil)
			continue
		}
		m := map[string]interface{}{"name": s.Name, "syntax": s.Syntax, "category": s.Category, "script": s.Script}
		if s.Path != "" {
			m["path"] = s.Path
		}
		l = append(l, m)
	}
	return l
}

func mapField(m map[string]interface{}) M {
	o := M{}
	for k, v := range m {
		o[txt(k)] = jtext(v)
	}
	return o
}

func projTime(t time.Time) string { return t.Format(time.RFC3339Nano) }

// projComp projects a component to the fields that are set, by JSON name
func projComp(ds *dataset.Dataset, c string) (fields, bool) {
	f := fields{}
	switch c {
	case "ds":
		f.any("body", ds.Body)
		if ds.BodyBytes != nil {
			f["bodyBytes"] = jtext(base64.StdEncoding.EncodeToString(ds.BodyBytes))
		}
		f.str("bodyPath", ds.BodyPath)
		f.str("id", ds.ID)
		f.str("name", ds.Name)
		f.str("path", ds.Path)
		f.str("peername", ds.Peername)
		f.str("previousPath", ds.PreviousPath)
		f.str("profileID", ds.ProfileID)
		f.num("numVersions", ds.NumVersions)
		f.str("qri", ds.Qri)
	case "commit":
		x := ds.Commit
		if x == nil {
			return nil, false
		}
		f.any("author", plainUser(x.Author))
		f.str("message", x.Message)
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		f.str("signature", x.Signature)
		if !x.Timestamp.IsZero() {
			f.str("timestamp", projTime(x.Timestamp))
		}
		f.str("title", x.Title)
		f.str("runID", x.RunID)
	case "meta":
		x := ds.Meta
		if x == nil {
			return nil, false
		}
		f.str("accessURL", x.AccessURL)
		f.str("accrualPeriodicity", x.AccrualPeriodicity)
		f.any("citations", plainCitations(x.Citations))
		f.any("contributors", plainUsers(x.Contributors))
		f.str("description", x.Description)
		f.str("downloadURL", x.DownloadURL)
		f.str("homeURL", x.HomeURL)
		f.str("identifier", x.Identifier)
		f.strs("keywords", x.Keywords)
		f.strs("language", x.Language)
		if x.License != nil {
			f.any("license", omitted("type", x.License.Type, "url", x.License.URL))
		}
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		f.str("readmeURL", x.ReadmeURL)
		f.str("title", x.Title)
		f.strs("theme", x.Theme)
		f.str("version", x.Version)
		cp := *x // asking for additional fields may set up the map
		if m := cp.Meta(); len(m) > 0 {
			f["meta"] = mapField(m)
		}
	case "readme":
		x := ds.Readme
		if x == nil {
			return nil, false
		}
		f.str("format", x.Format)
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		f.str("scriptPath", x.ScriptPath)
		f.str("text", x.Text)
		f.str("renderedPath", x.RenderedPath)
	case "viz":
		x := ds.Viz
		if x == nil {
			return nil, false
		}
		f.str("format", x.Format)
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		f.str("scriptPath", x.ScriptPath)
		f.str("text", x.Text)
		f.str("renderedPath", x.RenderedPath)
	case "structure":
		x := ds.Structure
		if x == nil {
			return nil, false
		}
		f.str("checksum", x.Checksum)
		f.str("compression", x.Compression)
		f.num("depth", x.Depth)
		f.str("encoding", x.Encoding)
		f.num("errCount", x.ErrCount)
		f.num("entries", x.Entries)
		f.str("format", x.Format)
		f.anymap("formatConfig", x.FormatConfig)
		f.num("length", x.Length)
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		f.anymap("schema", x.Schema)
		if x.Strict {
			f["strict"] = "true"
		}
	case "stats":
		x := ds.Stats
		if x == nil {
			return nil, false
		}
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		f.any("stats", x.Stats)
	case "transform":
		x := ds.Transform
		if x == nil {
			return nil, false
		}
		if x.Config != nil {
			f["config"] = mapField(x.Config)
		}
		f.str("path", x.Path)
		f.str("qri", x.Qri)
		if x.Resources != nil {
			m := M{}
			for k, r := range x.Resources {
				if r == nil {
					m[txt(k)] = "null"
				} else {
					m[txt(k)] = jtext(map[string]interface{}{"path": r.Path})
				}
			}
			f["resources"] = m
		}
		f.str("scriptPath", x.ScriptPath)
		f.str("text", x.Text)
		if x.Secrets != nil {
			m := M{}
			for k, v := range x.Secrets {
				m[txt(k)] = jtext(v)
			}
			f["secrets"] = m
		}
		f.any("steps", plainSteps(x.Steps))
		f.str("syntax", x.Syntax)
		f.str("syntaxVersion", x.SyntaxVersion)
		if x.Syntaxes != nil {
			m := map[string]interface{}{}
			for k, v := range x.Syntaxes {
				m[k] = v
			}
			f["syntaxes"] = jtext(m)
		}
	}
	return f, true
}

func projDoc(ds *dataset.Dataset) M {
	m := M{}
	for _, c := range append([]string{"ds"}, compNames...) {
		if f, ok := projComp(ds, c); ok {
			m[c] = f
		}
	}
	return m
}

// names every component has in JSON
var wireNames = map[string]string{
	"ds":        "body bodyBytes bodyPath id name path peername previousPath profileID numVersions qri",
	"commit":    "author message path qri signature timestamp title runID",
	"meta":      "accessURL accrualPeriodicity citations contributors description downloadURL homeURL identifier keywords language license path qri readmeURL title theme version",
	"readme":    "format path qri scriptPath text renderedPath",
	"viz":       "format path qri scriptPath text renderedPath",
	"structure": "checksum compression depth encoding errCount entries format formatConfig length path qri schema strict",
	"stats":     "path qri stats",
	"transform": "config path qri resources scriptPath text secrets steps syntax syntaxVersion syntaxes",
}

func knownWire(c, k string) bool {
	for _, n := range strings.Fields(wireNames[c]) {
		if n == k {
			return true
		}
	}
	return false
}

// projWireComp projects JSON of a component, decoded to plain values
func projWireComp(c string, v interface{}) M {
	if s, ok := v.(string); ok {
		return M{"ref": jtext(s), "f": M{}}
	}
	obj, ok := v.(map[string]interface{})
	if !ok {
		return M{"ref": "neither: " + jtext(v), "f": M{}}
	}
	f := M{}
	extra := M{}
	for k, x := range obj {
		switch {
		case c == "meta" && !knownWire(c, k):
			extra[txt(k)] = jtext(x)
		case c == "transform" && (k == "config" || k == "secrets" || k == "resources"):
			m, ok := x.(map[string]interface{})
			if !ok {
				f[k] = M{"neither": jtext(x)}
				continue
			}
			if k == "resources" { // text is short for its location
				full := map[string]interface{}{}
				for n, e := range m {
					full[n] = e
					if p, ok := e.(string); ok {
						full[n] = map[string]interface{}{"path": p}
					}
				}
				m = full
			}
			f[k] = mapField(m)
		default:
			f[txt(k)] = jtext(x)
		}
	}
	if len(extra) > 0 {
		f["meta"] = extra
	}
	return M{"ref": "", "f": f}
}

// projWire projects JSON of a dataset
func projWire(c string, data []byte) (M, error) {
	var v interface{}
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber() // large numbers stay as they are written
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	if c != "ds" {
		return M{c: projWireComp(c, v)}, nil
	}
	obj, ok := v.(map[string]interface{})
	if !ok {
		return M{"ds": projWireComp("ds", v)}, nil
	}
	own := map[string]interface{}{}
	m := M{}
	for k, x := range obj {
		is := false
		for _, n := range compNames {
			is = is || n == k
		}
		if is {
			m[k] = projWireComp(k, x)
		} else {
			own[k] = x
		}
	}
	m["ds"] = projWireComp("ds", own)
	return m, nil
}

// ---- generators

func validText(s string) string { return strings.ToValidUTF8(s, "?") }

func docStr(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return validText(genString(r, prof{long: 6}))
	case 1:
		return []string{"null", "[]", "{}", "\"\"", "0", "a\"b", "é", "<x>&", "\u2028", " ", "#", "ds:0", "/ipfs/Qm", "body.csv"}[r.Intn(14)]
	}
	return fmt.Sprintf("v%d", r.Intn(50))
}

func docPath(r *rand.Rand) string {
	return []string{"/ipfs/QmA", "/ipfs/QmB", "/mem/Qm1", "p", "a:b", "/map/x y", "é", "\"q\"", "/ipfs/QmA/commit.json", "null", "bd:x"}[r.Intn(11)]
}

// docVal makes a plain JSON value
func docVal(r *rand.Rand, depth int) interface{} {
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return float64(r.Intn(1<<30)) * float64(r.Intn(1<<23))
	case 3:
		return genFloat(r)
	case 4:
		if depth > 0 {
			l := []interface{}{}
			for k := r.Intn(4); k > 0; k-- {
				l = append(l, docVal(r, depth-1))
			}
			return l
		}
	case 5:
		if depth > 0 {
			return docMap(r, depth-1)
		}
	}
	return docStr(r)
}

func docMap(r *rand.Rand, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for k := r.Intn(4); k > 0; k-- {
		m[docKey(r)] = docVal(r, depth)
	}
	if r.Intn(10) == 0 {
		for k := 0; k < 12; k++ {
			m[fmt.Sprintf("k%d", k)] = docVal(r, 0)
		}
	}
	return m
}

func docKey(r *rand.Rand) string {
	return []string{"a", "b", "c", "x", "a.b", "é", "with space", "\"", "A", "zz", "type", "foo", "0"}[r.Intn(13)]
}

// metaKey is a name that isn't one of meta's own, in any case
func metaKey(r *rand.Rand) string {
	return []string{"a", "b", "c", "custom", "Custom", "foo.bar", "é", "two words", "numRows", "titles", "x-title", "zz", "0", "meta", "body", " custom", "custom ", "\ta b ", "ÀB", " "}[r.Intn(20)]
}

func strList(r *rand.Rand) []string {
	l := []string{}
	for k := r.Intn(4); k > 0; k-- {
		l = append(l, docStr(r))
	}
	return l
}

func genTime(r *rand.Rand) time.Time {
	t := time.Unix(r.Int63n(4e9)-1e9, []int64{0, 0, 1, 123456789, 999999999, 500000000}[r.Intn(6)]).UTC()
	switch r.Intn(12) {
	case 0:
		return time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC)
	case 1:
		return time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)
	case 2:
		return t.In(time.FixedZone("", 60*(r.Intn(1400)-700)))
	}
	return t
}

type docOpt struct {
	fill  int // percent of fields set
	comps int // percent of components there
	zones bool
}

func genDoc(r *rand.Rand, o docOpt) *dataset.Dataset {
	ds := &dataset.Dataset{}
	p := func() bool { return r.Intn(100) < o.fill }
	str := func(s *string) {
		if p() {
			*s = docStr(r)
		}
	}
	path := func(s *string) {
		if p() {
			*s = docPath(r)
		}
	}
	num := func(n *int) {
		if p() {
			*n = []int{1, -1, 2, 1 << 31, 1 << 53, 255, 7}[r.Intn(7)]
		}
	}
	strs := func(s *[]string) {
		if p() {
			*s = strList(r)
		}
	}
	if p() {
		for ds.Body == nil {
			ds.Body = docVal(r, 2)
		}
	}
	if p() {
		ds.BodyBytes = []byte(genString(r, prof{long: 3}))
	}
	path(&ds.BodyPath)
	str(&ds.ID)
	str(&ds.Name)
	path(&ds.Path)
	str(&ds.Peername)
	path(&ds.PreviousPath)
	str(&ds.ProfileID)
	num(&ds.NumVersions)
	qri := func(s *string, k string) {
		if p() {
			*s = []string{k, k, "xx:1"}[r.Intn(3)]
		}
	}
	qri(&ds.Qri, "ds:0")
	has := func() bool { return r.Intn(100) < o.comps }
	ref := func() bool { return r.Intn(8) == 0 }
	if has() {
		x := &dataset.Commit{}
		ds.Commit = x
		path(&x.Path)
		qri(&x.Qri, "cm:0")
		if !ref() {
			if p() {
				x.Author = &dataset.User{}
				str(&x.Author.ID)
				str(&x.Author.Fullname)
				str(&x.Author.Email)
			}
			str(&x.Message)
			str(&x.Signature)
			str(&x.Title)
			str(&x.RunID)
			if p() {
				x.Timestamp = genTime(r)
				if !o.zones {
					x.Timestamp = x.Timestamp.UTC()
				}
			}
		}
	}
	if has() {
		x := &dataset.Meta{}
		ds.Meta = x
		path(&x.Path)
		qri(&x.Qri, "md:0")
		if !ref() {
			for _, s := range []*string{&x.AccessURL, &x.AccrualPeriodicity, &x.Description, &x.DownloadURL, &x.HomeURL, &x.Identifier, &x.ReadmeURL, &x.Title, &x.Version} {
				str(s)
			}
			strs(&x.Keywords)
			strs(&x.Language)
			strs(&x.Theme)
			if p() {
				x.License = &dataset.License{}
				str(&x.License.Type)
				str(&x.License.URL)
			}
			if p() {
				x.Citations = []*dataset.Citation{}
				for k := r.Intn(3); k > 0; k-- {
					c := &dataset.Citation{}
					str(&c.Name)
					str(&c.URL)
					str(&c.Email)
					x.Citations = append(x.Citations, c)
				}
			}
			if p() {
				x.Contributors = []*dataset.User{}
				for k := r.Intn(3); k > 0; k-- {
					u := &dataset.User{}
					str(&u.ID)
					str(&u.Fullname)
					str(&u.Email)
					x.Contributors = append(x.Contributors, u)
				}
			}
			if p() {
				for k := r.Intn(4); k > 0; k-- {
					x.SetArbitrary(metaKey(r), docVal(r, 2))
				}
			}
		}
	}
	if has() {
		x := &dataset.Readme{}
		ds.Readme = x
		path(&x.Path)
		qri(&x.Qri, "rm:0")
		if !ref() {
			str(&x.Format)
			path(&x.ScriptPath)
			str(&x.Text)
			path(&x.RenderedPath)
		}
	}
	if has() {
		x := &dataset.Viz{}
		ds.Viz = x
		path(&x.Path)
		qri(&x.Qri, "vz:0")
		if !ref() {
			str(&x.Format)
			path(&x.ScriptPath)
			str(&x.Text)
			path(&x.RenderedPath)
		}
	}
	if has() {
		x := &dataset.Structure{}
		ds.Structure = x
		path(&x.Path)
		qri(&x.Qri, "st:0")
		if !ref() {
			str(&x.Checksum)
			str(&x.Compression)
			str(&x.Encoding)
			str(&x.Format)
			num(&x.Depth)
			num(&x.ErrCount)
			num(&x.Entries)
			num(&x.Length)
			x.Strict = p()
			if p() {
				x.FormatConfig = docMap(r, 1)
			}
			if p() && r.Intn(2) == 0 {
				// the settings of a format that is known
				k := []string{"csv", "json", "xlsx", "cbor"}[r.Intn(4)]
				x.Format = k
				x.FormatConfig = map[string]interface{}{
					"csv":  map[string]interface{}{"headerRow": r.Intn(2) == 0},
					"json": map[string]interface{}{"pretty": r.Intn(2) == 0},
					"xlsx": map[string]interface{}{"sheetName": docStr(r)},
					"cbor": map[string]interface{}{},
				}[k].(map[string]interface{})
			}
			if p() {
				x.Schema = docMap(r, 3)
			}
		}
	}
	if has() {
		x := &dataset.Stats{}
		ds.Stats = x
		path(&x.Path)
		qri(&x.Qri, "sa:0")
		if !ref() && p() {
			x.Stats = docVal(r, 3)
		}
	}
	if has() {
		x := &dataset.Transform{}
		ds.Transform = x
		path(&x.Path)
		qri(&x.Qri, "tf:0")
		if !ref() {
			if p() {
				x.Config = docMap(r, 2)
				if r.Intn(3) == 0 {
					x.Config["a"] = docMap(r, 1)
				}
			}
			if p() {
				x.Resources = map[string]*dataset.TransformResource{}
				for k := r.Intn(3); k > 0; k-- {
					x.Resources[docKey(r)] = &dataset.TransformResource{Path: docPath(r)}
				}
			}
			path(&x.ScriptPath)
			str(&x.Text)
			if p() {
				x.Secrets = map[string]string{}
				for k := r.Intn(3); k > 0; k-- {
					x.Secrets[docKey(r)] = docStr(r)
				}
			}
			if p() {
				x.Steps = []*dataset.TransformStep{}
				for k := r.Intn(3); k > 0; k-- {
					s := &dataset.TransformStep{Script: docVal(r, 1)}
					str(&s.Name)
					str(&s.Path)
					str(&s.Syntax)
					str(&s.Category)
					x.Steps = append(x.Steps, s)
				}
			}
			str(&x.Syntax)
			str(&x.SyntaxVersion)
			if p() {
				x.Syntaxes = map[string]string{}
				for k := r.Intn(3); k > 0; k-- {
					x.Syntaxes[docKey(r)] = docStr(r)
				}
			}
		}
	}
	return ds
}

// ---- near documents: the same but for one value that is nearly the same

func nearStr(r *rand.Rand, s string) string {
	switch r.Intn(9) {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return s + "\n"
	case 4:
		return s + "x"
	case 5:
		if s != "" {
			return validText(s[:len(s)-1])
		}
		return "0"
	case 6:
		return ""
	case 7:
		return s + "/"
	}
	return strconv.Quote(s)
}

// nearVal is another plain value, which looks alike
func nearVal(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return []interface{}{"", "null", 0.0, false, []interface{}{}, map[string]interface{}{}, "<nil>"}[r.Intn(7)]
	case bool:
		return []interface{}{!x, fmt.Sprint(x), map[bool]float64{true: 1, false: 0}[x]}[r.Intn(3)]
	case float64:
		return []interface{}{fmt.Sprint(x), x + 1, -x, x * 1.0000000001, jtext(x), x == 1, []interface{}{x}}[r.Intn(7)]
	case string:
		if f, err := strconv.ParseFloat(x, 64); err == nil && r.Intn(2) == 0 && f == f && f < 1e300 && f > -1e300 {
			return f
		}
		return []interface{}{nearStr(r, x), nearStr(r, x), []interface{}{x}, nil}[r.Intn(4)]
	case []interface{}:
		y := append([]interface{}{}, x...)
		if len(y) == 0 {
			return []interface{}{nil, map[string]interface{}{}, []interface{}{nil}, "[]"}[r.Intn(4)]
		}
		k := r.Intn(len(y))
		switch r.Intn(5) {
		case 0:
			return y[:len(y)-1]
		case 1:
			return append(y, y[k])
		case 2:
			o := r.Intn(len(y))
			y[k], y[o] = y[o], y[k]
		case 3:
			return fmt.Sprint(x)
		default:
			y[k] = nearVal(r, y[k])
		}
		return y
	case map[string]interface{}:
		y := map[string]interface{}{}
		ks := []string{}
		for k, e := range x {
			y[k] = e
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return []interface{}{map[string]interface{}{"a": nil}, map[string]interface{}{"": ""}}[r.Intn(2)]
		}
		k := ks[r.Intn(len(ks))]
		switch r.Intn(4) {
		case 0:
			delete(y, k)
		case 1:
			delete(y, k)
			y[nearStr(r, k)] = x[k]
		default:
			y[k] = nearVal(r, y[k])
		}
		return y
	}
	return nil
}

// nearSites collects ways to change one value below v
func nearSites(r *rand.Rand, v reflect.Value, out *[]func()) {
	add := func(f func()) { *out = append(*out, f) }
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			nearSites(r, v.Elem(), out)
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			if !t.IsZero() && t.Year() < 9000 && t.Year() > 10 {
				add(func() {
					v.Set(reflect.ValueOf(t.Add([]time.Duration{1, -1, time.Second, time.Hour, time.Millisecond, 24 * time.Hour}[r.Intn(6)])))
				})
				add(func() { v.Set(reflect.ValueOf(t.In(time.FixedZone("", 3600)))) })
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				nearSites(r, v.Field(i), out)
			}
		}
	case reflect.String:
		add(func() { v.SetString(nearStr(r, v.String())) })
	case reflect.Int:
		add(func() { v.SetInt(v.Int() + int64(r.Intn(3)) - 1) })
	case reflect.Bool:
		add(func() { v.SetBool(!v.Bool()) })
	case reflect.Interface:
		if !v.IsNil() {
			add(func() {
				if n := nearVal(r, v.Interface()); n != nil {
					v.Set(reflect.ValueOf(n))
				}
			})
		}
	case reflect.Slice:
		if b, ok := v.Interface().([]byte); ok {
			if len(b) > 0 {
				add(func() { v.SetBytes(append([]byte{}, b[1:]...)) })
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			nearSites(r, v.Index(i), out)
		}
		if v.Len() > 1 {
			add(func() {
				c := reflect.MakeSlice(v.Type(), 0, v.Len())
				for i := v.Len() - 1; i >= 0; i-- {
					c = reflect.Append(c, v.Index(i))
				}
				v.Set(c)
			})
		}
		if v.Len() > 0 {
			add(func() { v.Set(v.Slice(0, v.Len()-1)) })
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if m, ok := v.Interface().(map[string]interface{}); ok {
			for k := 0; k < 3; k++ {
				add(func() { v.Set(reflect.ValueOf(nearVal(r, m))) })
			}
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			k := k
			add(func() { v.SetMapIndex(reflect.ValueOf(nearStr(r, k.String())), v.MapIndex(k)) })
			if v.Type().Elem().Kind() == reflect.String {
				add(func() { v.SetMapIndex(k, reflect.ValueOf(nearStr(r, v.MapIndex(k).String()))) })
			} else {
				nearSites(r, v.MapIndex(k), out)
			}
			add(func() { v.SetMapIndex(k, reflect.Value{}) })
		}
	}
}

// cloneDoc copies a document by way of its encoding, with secrets
func cloneDoc(ds *dataset.Dataset) *dataset.Dataset {
	c := &dataset.Dataset{}
	data, err := json.Marshal(ds)
	if err != nil || json.Unmarshal(data, c) != nil {
		return nil
	}
	if ds.Transform != nil && ds.Transform.Secrets != nil && c.Transform != nil {
		c.Transform.Secrets = map[string]string{}
		for k, v := range ds.Transform.Secrets {
			c.Transform.Secrets[k] = v
		}
	}
	return c
}

// near makes document j document i, but for one value of component c
func (d *docSess) near(i, j int, c string) {
	x := cloneDoc(d.docs[i])
	if x == nil {
		return
	}
	v := reflect.ValueOf(x)
	for name, f := range map[string]interface{}{"commit": x.Commit, "meta": x.Meta, "readme": x.Readme, "structure": x.Structure, "stats": x.Stats, "transform": x.Transform, "viz": x.Viz} {
		if name == c {
			v = reflect.ValueOf(f)
		}
	}
	sites := []func(){}
	nearSites(d.s.R, v, &sites)
	if len(sites) > 0 {
		sites[d.s.R.Intn(len(sites))]()
	}
	d.docs[j] = x
	d.begin()
}

// ---- sessions

type docSess struct {
	s    *Sess
	docs []*dataset.Dataset
}

func (d *docSess) proj() []M {
	l := []M{}
	for _, ds := range d.docs {
		l = append(l, projDoc(ds))
	}
	return l
}

func (d *docSess) ev(name string, m M) {
	m["docs"] = d.proj()
	d.s.Ev(name, m)
}

func (d *docSess) begin() { d.ev("begin", M{}) }

func (d *docSess) has(i int, c string) bool {
	if c == "ds" {
		return true
	}
	_, ok := projComp(d.docs[i], c)
	return ok
}

func (d *docSess) assign(i int, js ...int) {
	var args []*dataset.Dataset
	idx := []int{}
	for _, j := range js {
		if j < 0 {
			args = append(args, nil)
			idx = append(idx, 0)
			continue
		}
		args = append(args, d.docs[j])
		idx = append(idx, j+1)
	}
	d.docs[i].Assign(args...)
	d.ev("assign", M{"i": i + 1, "js": idx})
}

func (d *docSess) assignc(i int, c string, js ...int) {
	idx := []int{}
	get := func(j int) *dataset.Dataset {
		if j < 0 {
			return &dataset.Dataset{}
		}
		return d.docs[j]
	}
	for _, j := range js {
		idx = append(idx, j+1)
	}
	switch c {
	case "commit":
		l := []*dataset.Commit{}
		for _, j := range js {
			l = append(l, get(j).Commit)
		}
		d.docs[i].Commit.Assign(l...)
	case "meta":
		l := []*dataset.Meta{}
		for _, j := range js {
			l = append(l, get(j).Meta)
		}
		d.docs[i].Meta.Assign(l...)
	case "readme":
		l := []*dataset.Readme{}
		for _, j := range js {
			l = append(l, get(j).Readme)
		}
		d.docs[i].Readme.Assign(l...)
	case "viz":
		l := []*dataset.Viz{}
		for _, j := range js {
			l = append(l, get(j).Viz)
		}
		d.docs[i].Viz.Assign(l...)
	case "structure":
		l := []*dataset.Structure{}
		for _, j := range js {
			l = append(l, get(j).Structure)
		}
		d.docs[i].Structure.Assign(l...)
	case "stats":
		l := []*dataset.Stats{}
		for _, j := range js {
			l = append(l, get(j).Stats)
		}
		d.docs[i].Stats.Assign(l...)
	case "transform":
		l := []*dataset.Transform{}
		for _, j := range js {
			l = append(l, get(j).Transform)
		}
		d.docs[i].Transform.Assign(l...)
	}
	d.ev("assignc", M{"i": i + 1, "c": c, "js": idx})
}

func (d *docSess) set(i int, key string, val interface{}, kind string) {
	res := call(func() error { return d.docs[i].Meta.Set(key, val) })
	proj := jtext(val)
	switch kind {
	case "emptylist":
		proj = "[]"
	}
	d.ev("set", M{"i": i + 1, "key": txt(key), "lk": strings.ToLower(strings.TrimSpace(key)), "val": proj, "kind": kind, "res": res})
}

func (d *docSess) setarb(i int, key string, val interface{}) {
	res := call(func() error { return d.docs[i].Meta.SetArbitrary(key, val) })
	d.ev("setarb", M{"i": i + 1, "key": txt(key), "val": jtext(val), "res": res})
}

func (d *docSess) randomSet(i int) {
	r := d.s.R
	mix := func(k string) string {
		switch r.Intn(4) {
		case 0:
			return strings.ToUpper(k)
		case 1:
			return " " + k + "\t"
		case 2:
			return strings.ToLower(k)
		}
		return k
	}
	val := func() (interface{}, string) {
		switch r.Intn(9) {
		case 0:
			return nil, "null"
		case 1:
			return float64(r.Intn(10)), "number"
		case 2:
			l := []interface{}{docStr(r)}
			for k := r.Intn(3); k > 0; k-- {
				l = append(l, docStr(r))
			}
			return l, "strings"
		case 3:
			return []interface{}{}, "emptylist"
		case 4:
			return []interface{}{docStr(r), 4.0}, "mixed"
		case 5:
			return []interface{}{"x", map[string]interface{}{}}, "mixed"
		}
		return docStr(r), "string"
	}
	cite := func(bad bool) map[string]interface{} {
		m := omitted("name", docStr(r), "url", docStr(r), "email", docStr(r))
		if bad {
			m["url"] = 3.0
		}
		return m
	}
	user := func(bad bool) map[string]interface{} {
		m := omitted("id", docStr(r), "name", docStr(r), "email", docStr(r))
		if bad {
			m["email"] = true
		}
		return m
	}
	switch r.Intn(6) {
	case 0, 1:
		k := []string{"qri", "accessURL", "accrualPeriodicity", "description", "downloadURL", "homeURL", "identifier", "readmeURL", "title", "version"}[r.Intn(10)]
		v, kind := val()
		d.set(i, mix(k), v, kind)
	case 2:
		k := []string{"keywords", "language", "theme"}[r.Intn(3)]
		v, kind := val()
		d.set(i, mix(k), v, kind)
	case 3:
		k := []string{"citations", "contributors"}[r.Intn(2)]
		f := cite
		if k == "contributors" {
			f = user
		}
		switch r.Intn(5) {
		case 0:
			d.set(i, mix(k), []interface{}{f(false), f(true)}, "mixed")
		case 1:
			v, kind := val()
			if kind == "strings" {
				kind = "mixed"
			}
			d.set(i, mix(k), v, kind)
		default:
			d.set(i, mix(k), []interface{}{f(false)}, k)
		}
	case 4:
		if r.Intn(2) == 0 {
			d.set(i, mix("license"), omitted("type", docStr(r), "url", docStr(r)), "license")
		} else {
			v, kind := val()
			d.set(i, mix("license"), v, kind)
		}
	case 5:
		if r.Intn(2) == 0 {
			d.set(i, metaKey(r), docVal(r, 1), "any")
		} else {
			d.setarb(i, metaKey(r), docVal(r, 1))
		}
	}
}

func (d *docSess) drop(i int, c string, derived bool) {
	ds := d.docs[i]
	switch c {
	case "ds":
		if derived {
			ds.DropDerivedValues()
		} else {
			ds.DropTransientValues()
		}
	case "commit":
		if derived {
			ds.Commit.DropDerivedValues()
		} else {
			ds.Commit.DropTransientValues()
		}
	case "meta":
		if derived {
			ds.Meta.DropDerivedValues()
		} else {
			ds.Meta.DropTransientValues()
		}
	case "readme":
		if derived {
			ds.Readme.DropDerivedValues()
		} else {
			ds.Readme.DropTransientValues()
		}
	case "viz":
		if derived {
			ds.Viz.DropDerivedValues()
		} else {
			ds.Viz.DropTransientValues()
		}
	case "structure":
		if derived {
			ds.Structure.DropDerivedValues()
		} else {
			ds.Structure.DropTransientValues()
		}
	case "transform":
		if derived {
			ds.Transform.DropDerivedValues()
		} else {
			ds.Transform.DropTransientValues()
		}
	case "stats":
		if !derived {
			return
		}
		ds.Stats.DropDerivedValues()
	}
	if derived {
		d.ev("dropd", M{"i": i + 1, "c": c})
	} else {
		d.ev("dropt", M{"i": i + 1, "c": c})
	}
}

// encode gives the bytes of a component. way picks one of several ways
func encodeComp(ds *dataset.Dataset, c string, object bool, way int) ([]byte, error) {
	var v interface {
		MarshalJSON() ([]byte, error)
	}
	var o interface {
		MarshalJSONObject() ([]byte, error)
	}
	switch c {
	case "ds":
		v = ds
	case "commit":
		v, o = ds.Commit, ds.Commit
	case "meta":
		v, o = ds.Meta, ds.Meta
	case "readme":
		v, o = ds.Readme, ds.Readme
	case "viz":
		v, o = ds.Viz, ds.Viz
	case "structure":
		v, o = ds.Structure, ds.Structure
	case "stats":
		v, o = ds.Stats, ds.Stats
	case "transform":
		v, o = ds.Transform, ds.Transform
	}
	if object {
		return o.MarshalJSONObject()
	}
	if way == 1 {
		return json.Marshal(v)
	}
	return v.MarshalJSON()
}

func (d *docSess) encode(i int, c string, object bool) {
	var data []byte
	res := call(func() (err error) { data, err = encodeComp(d.docs[i], c, object, 0); return })
	m := M{"i": i + 1, "c": c, "object": object, "res": res, "digest": digest(string(data))}
	if res == "ok" {
		w, err := projWire(c, data)
		if err != nil {
			m["res"] = "not JSON"
		}
		m["wire"] = w
	}
	d.ev("encode", m)
}

func (d *docSess) decodeInto(j int, c string, data []byte, way int) (res string) {
	ds := d.docs[j]
	return call(func() (err error) {
		switch c {
		case "ds":
			if way == 1 {
				var x *dataset.Dataset
				if x, err = dataset.UnmarshalDataset(data); err == nil {
					d.docs[j] = x
				}
				return
			}
			return json.Unmarshal(data, ds)
		case "commit":
			if way == 1 {
				var x *dataset.Commit
				if x, err = dataset.UnmarshalCommit(data); err == nil {
					ds.Commit = x
				}
				return
			}
			if ds.Commit == nil || way == 2 {
				x := &dataset.Commit{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Commit = x
				}
				return
			}
			return json.Unmarshal(data, ds.Commit)
		case "meta":
			if ds.Meta == nil || way == 1 {
				x := &dataset.Meta{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Meta = x
				}
				return
			}
			return json.Unmarshal(data, ds.Meta)
		case "readme":
			if way == 1 {
				var x *dataset.Readme
				if x, err = dataset.UnmarshalReadme(data); err == nil {
					ds.Readme = x
				}
				return
			}
			if ds.Readme == nil {
				x := &dataset.Readme{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Readme = x
				}
				return
			}
			return json.Unmarshal(data, ds.Readme)
		case "viz":
			if way == 1 {
				var x *dataset.Viz
				if x, err = dataset.UnmarshalViz(data); err == nil {
					ds.Viz = x
				}
				return
			}
			if ds.Viz == nil {
				x := &dataset.Viz{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Viz = x
				}
				return
			}
			return json.Unmarshal(data, ds.Viz)
		case "structure":
			if way == 1 {
				var x *dataset.Structure
				if x, err = dataset.UnmarshalStructure(data); err == nil {
					ds.Structure = x
				}
				return
			}
			if ds.Structure == nil {
				x := &dataset.Structure{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Structure = x
				}
				return
			}
			return json.Unmarshal(data, ds.Structure)
		case "transform":
			if way == 1 {
				var x *dataset.Transform
				if x, err = dataset.UnmarshalTransform(data); err == nil {
					ds.Transform = x
				}
				return
			}
			if ds.Transform == nil {
				x := &dataset.Transform{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Transform = x
				}
				return
			}
			return json.Unmarshal(data, ds.Transform)
		case "stats":
			if ds.Stats == nil {
				x := &dataset.Stats{}
				if err = json.Unmarshal(data, x); err == nil {
					ds.Stats = x
				}
				return
			}
			return json.Unmarshal(data, ds.Stats)
		}
		return
	})
}

func (d *docSess) copyTo(i, j int, c string, object bool) {
	var data []byte
	res := call(func() (err error) { data, err = encodeComp(d.docs[i], c, object, d.s.R.Intn(2)); return })
	if res == "ok" {
		res = d.decodeInto(j, c, data, d.s.R.Intn(3))
	}
	d.ev("copy", M{"i": i + 1, "j": j + 1, "c": c, "object": object, "res": res})
}

// shuffled writes a plain value as JSON with keys in any order & white space
func shuffled(r *rand.Rand, v interface{}) string {
	sp := func() string { return []string{"", "", " ", "\n", "\t "}[r.Intn(5)] }
	switch x := v.(type) {
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		out := "{" + sp()
		for i, k := range ks {
			if i > 0 {
				out += "," + sp()
			}
			kd, _ := json.Marshal(k)
			out += string(kd) + sp() + ":" + sp() + shuffled(r, x[k]) + sp()
		}
		return out + "}"
	case []interface{}:
		out := "[" + sp()
		for i, e := range x {
			if i > 0 {
				out += "," + sp()
			}
			out += shuffled(r, e) + sp()
		}
		return out + "]"
	}
	b := &bytes.Buffer{}
	enc := json.NewEncoder(b)
	enc.SetEscapeHTML(r.Intn(2) == 0)
	enc.Encode(v)
	return strings.TrimSuffix(b.String(), "\n")
}

// foreignComp makes a JSON object for a component, as other software might
func foreignComp(r *rand.Rand, c string) interface{} {
	if r.Intn(8) == 0 {
		return docPath(r)
	}
	full := genDoc(r, docOpt{fill: 50, comps: 100, zones: true})
	data, err := encodeComp(full, c, c != "ds", 0)
	if err != nil {
		return docPath(r)
	}
	var v interface{}
	json.Unmarshal(data, &v)
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	if c == "ds" {
		for _, n := range compNames {
			delete(m, n)
		}
	}
	if r.Intn(2) == 0 {
		delete(m, "qri")
	}
	if c == "transform" && r.Intn(3) == 0 {
		m["secrets"] = map[string]interface{}{"k": "v"}
	}
	if rs, ok := m["resources"].(map[string]interface{}); ok && c == "transform" {
		ks := []string{}
		for k := range rs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if r.Intn(2) == 0 {
				rs[k] = docPath(r)
			}
		}
	}
	if c != "meta" && r.Intn(6) == 0 {
		m["unknown"] = docVal(r, 1)
	}
	if c == "structure" && r.Intn(4) == 0 {
		m["formatConfig"] = map[string]interface{}{}
	}
	if r.Intn(6) == 0 {
		k := []string{"title", "path", "text", "schema", "license", "author", "config", "stats"}[r.Intn(8)]
		if knownWire(c, k) && k != "config" {
			m[k] = nil
		}
	}
	return m
}

func (d *docSess) decode(j int, c string) {
	r := d.s.R
	v := foreignComp(r, c)
	if m, ok := v.(map[string]interface{}); ok && c == "ds" {
		for _, n := range compNames {
			if r.Intn(2) == 0 {
				m[n] = foreignComp(r, n)
			}
		}
	}
	text := shuffled(r, v)
	w, err := projWire(c, []byte(text))
	if err != nil {
		return
	}
	setFiles(d.docs[j], qfs.NewMemfileBytes("held", []byte("held")))
	res := d.decodeInto(j, c, []byte(text), r.Intn(3))
	held := heldFiles(d.docs[j], c)
	setFiles(d.docs[j], nil)
	d.ev("decode", M{"j": j + 1, "c": c, "wire": w, "res": res, "held": held, "text": clip(text, 300)})
}

// setFiles gives a document & its components open files
func setFiles(ds *dataset.Dataset, f qfs.File) {
	ds.SetBodyFile(f)
	if ds.Transform != nil {
		ds.Transform.SetScriptFile(f)
	}
	if ds.Readme != nil {
		ds.Readme.SetScriptFile(f)
		ds.Readme.SetRenderedFile(f)
	}
	if ds.Viz != nil {
		ds.Viz.SetScriptFile(f)
		ds.Viz.SetRenderedFile(f)
	}
}

// heldFiles counts the open files of what is decoded into c
func heldFiles(ds *dataset.Dataset, c string) (n int) {
	add := func(name string, fs ...qfs.File) {
		for _, f := range fs {
			if f != nil && (c == name || c == "ds") {
				n++
			}
		}
	}
	add("ds", ds.BodyFile())
	if ds.Transform != nil {
		add("transform", ds.Transform.ScriptFile())
	}
	if ds.Readme != nil {
		add("readme", ds.Readme.ScriptFile(), ds.Readme.RenderedFile())
	}
	if ds.Viz != nil {
		add("viz", ds.Viz.ScriptFile(), ds.Viz.RenderedFile())
	}
	return n
}

// wrongs are values that no field of a name may have
var wrongs = map[string]map[string][]string{
	"ds":        {"bodyPath": {"1", "[]", "{}"}, "numVersions": {"\"1\"", "1.5", "{}"}, "commit": {"5", "[]", "true"}, "meta": {"5", "[1]"}, "structure": {"false", "[]"}, "transform": {"1"}, "viz": {"[2]"}, "readme": {"7"}, "stats": {"[]"}, "name": {"{}"}, "bodyBytes": {"5", "\"*\""}},
	"commit":    {"title": {"1", "[]"}, "timestamp": {"\"yesterday\"", "5"}, "author": {"\"me\"", "[]"}, "message": {"{}"}},
	"meta":      {"title": {"1"}, "keywords": {"\"a\"", "[1]", "{}"}, "license": {"\"MIT\"", "[]"}, "citations": {"{}", "[\"x\"]"}, "contributors": {"3"}},
	"readme":    {"format": {"1"}, "text": {"[]"}, "scriptPath": {"{}"}},
	"viz":       {"format": {"1"}, "text": {"[]"}, "scriptPath": {"{}"}},
	"structure": {"format": {"1"}, "depth": {"\"1\"", "1.5"}, "schema": {"\"x\"", "[]"}, "strict": {"\"true\"", "1"}, "formatConfig": {"[]", "\"a\""}, "length": {"true"}},
	"stats":     {"path": {"1"}, "qri": {"{}"}},
	"transform": {"config": {"[]", "\"x\""}, "steps": {"{}", "[1]"}, "secrets": {"{\"a\":1}"}, "syntaxes": {"[]"}, "resources": {"5", "{\"a\":3}"}, "text": {"4"}},
}

func (d *docSess) badDecode(j int, c string) {
	r := d.s.R
	v := foreignComp(r, c)
	m, ok := v.(map[string]interface{})
	if !ok {
		m = map[string]interface{}{}
	}
	text := shuffled(r, m)
	switch r.Intn(5) {
	case 0:
		text = strings.TrimSpace(text)
		text = text[:r.Intn(len(text))]
	case 1:
		text = []string{"[]", "1", "true", "[{}]", "1.5e3"}[r.Intn(5)]
	case 2:
		text += []string{"x", "}", ",{}", "\"a\""}[r.Intn(4)]
	default:
		fs := []string{}
		for f := range wrongs[c] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		f := fs[r.Intn(len(fs))]
		delete(m, f)
		text = strings.TrimSpace(shuffled(r, m))
		w := wrongs[c][f][r.Intn(len(wrongs[c][f]))]
		sep := ","
		if len(m) == 0 {
			sep = ""
		}
		text = text[:len(text)-1] + sep + strconv.Quote(f) + ":" + w + "}"
	}
	res := d.decodeInto(j, c, []byte(text), r.Intn(3))
	d.ev("baddecode", M{"j": j + 1, "c": c, "res": res, "text": clip(text, 300)})
}

func (d *docSess) isEmpty(i int, c string) {
	ds := d.docs[i]
	e := false
	switch c {
	case "ds":
		e = ds.IsEmpty()
	case "commit":
		e = ds.Commit.IsEmpty()
	case "meta":
		e = ds.Meta.IsEmpty()
	case "readme":
		e = ds.Readme.IsEmpty()
	case "viz":
		e = ds.Viz.IsEmpty()
	case "structure":
		e = ds.Structure.IsEmpty()
	case "stats":
		e = ds.Stats.IsEmpty()
	case "transform":
		e = ds.Transform.IsEmpty()
	}
	d.ev("isempty", M{"i": i + 1, "c": c, "empty": e})
}

func tsec(ds *dataset.Dataset) string {
	if ds.Commit == nil {
		return "none"
	}
	t := ds.Commit.Timestamp.UTC()
	return jtext(fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()))
}

func (d *docSess) signing(i int) {
	lines := [][]string{}
	for _, line := range strings.Split(string(d.docs[i].SigningBytes()), "\n") {
		if line == "" {
			continue
		}
		p := strings.SplitN(line, ":", 2)
		if len(p) != 2 {
			p = []string{"?", line}
		}
		lines = append(lines, []string{p[0], jtext(p[1])})
	}
	d.ev("signing", M{"i": i + 1, "lines": lines, "tsec": tsec(d.docs[i])})
}

// signable asks for the bytes older versions signed
func (d *docSess) signable(i int) {
	var b []byte
	res := call(func() (err error) { b, err = d.docs[i].SignableBytes(); return })
	p := append(strings.SplitN(string(b), "\n", 2), "", "")
	d.ev("signable", M{"i": i + 1, "res": res, "time": jtext(p[0]), "sum": jtext(p[1]), "none": len(b) == 0, "tsec": tsec(d.docs[i])})
}

// ref replaces a component by one of which only the location is known
func (d *docSess) ref(j int, c, path string) {
	ds := d.docs[j]
	switch c {
	case "ds":
		d.docs[j] = dataset.NewDatasetRef(path)
	case "commit":
		ds.Commit = dataset.NewCommitRef(path)
	case "meta":
		ds.Meta = dataset.NewMetaRef(path)
	case "readme":
		ds.Readme = dataset.NewReadmeRef(path)
	case "viz":
		ds.Viz = dataset.NewVizRef(path)
	case "structure":
		ds.Structure = dataset.NewStructureRef(path)
	case "stats":
		ds.Stats = dataset.NewStatsRef(path)
	case "transform":
		ds.Transform = dataset.NewTransformRef(path)
	}
	d.ev("ref", M{"j": j + 1, "c": c, "path": jtext(path)})
}

// from gets a component from a value of any type
func (d *docSess) from(i int, c, form string) {
	ds := d.docs[i]
	others := []interface{}{nil, 5, 1.5, true, map[string]interface{}{"path": "x"}, []interface{}{}, &dataset.Meta{}, dataset.Stats{}, struct{}{}}
	other := others[d.s.R.Intn(len(others))]
	m := M{"i": i + 1, "c": c, "form": form, "same": false}
	got := &dataset.Dataset{}
	m["res"] = call(func() error {
		switch c {
		case "ds":
			v := map[string]interface{}{"pointer": ds, "value": *ds, "other": other}[form]
			x, err := dataset.UnmarshalDataset(v)
			if x != nil {
				got, m["same"] = x, x == ds
			}
			return err
		case "commit":
			v := map[string]interface{}{"pointer": ds.Commit, "value": *ds.Commit, "other": other}[form]
			x, err := dataset.UnmarshalCommit(v)
			got.Commit, m["same"] = x, x == ds.Commit
			return err
		case "readme":
			v := map[string]interface{}{"pointer": ds.Readme, "value": *ds.Readme, "other": other}[form]
			x, err := dataset.UnmarshalReadme(v)
			got.Readme, m["same"] = x, x == ds.Readme
			return err
		case "viz":
			v := map[string]interface{}{"pointer": ds.Viz, "value": *ds.Viz, "other": other}[form]
			x, err := dataset.UnmarshalViz(v)
			got.Viz, m["same"] = x, x == ds.Viz
			return err
		case "structure":
			v := map[string]interface{}{"pointer": ds.Structure, "value": *ds.Structure, "other": other}[form]
			x, err := dataset.UnmarshalStructure(v)
			got.Structure, m["same"] = x, x == ds.Structure
			return err
		case "transform":
			v := map[string]interface{}{"pointer": ds.Transform, "value": *ds.Transform, "other": other}[form]
			x, err := dataset.UnmarshalTransform(v)
			got.Transform, m["same"] = x, x == ds.Transform
			return err
		}
		return nil
	})
	m["got"] = projDoc(got)
	if m["res"] == "ok" && m["same"] == false {
		// what came from a value is a copy
		switch c {
		case "ds":
			got.Path, got.Name, got.Commit = "changed", "changed", nil
		case "commit":
			got.Commit.Title, got.Commit.Path = "changed", "changed"
		case "readme":
			got.Readme.Text, got.Readme.Path = "changed", "changed"
		case "viz":
			got.Viz.Text, got.Viz.Path = "changed", "changed"
		case "structure":
			got.Structure.Format, got.Structure.Schema = "changed", nil
		case "transform":
			got.Transform.Text, got.Transform.Steps = "changed", nil
		}
	}
	d.ev("from", m)
}

func (d *docSess) fromRandom(i int) {
	c := d.comp(i)
	if c == "meta" || c == "stats" {
		return
	}
	d.from(i, c, []string{"pointer", "value", "other"}[d.s.R.Intn(3)])
}

// typed reads a loose value into a user, license or citation
func (d *docSess) typed() {
	r := d.s.R
	kind := []string{"user", "license", "citation"}[r.Intn(3)]
	names := map[string][]string{"user": {"id", "name", "email"}, "license": {"type", "url"}, "citation": {"name", "url", "email"}}[kind]
	v := map[string]interface{}{}
	val := M{}
	for _, n := range append([]string{"extra", "Name"}, names...) {
		if r.Intn(3) == 0 {
			continue
		}
		var x interface{} = docStr(r)
		k := "string"
		switch r.Intn(12) {
		case 0:
			x, k = nil, "null"
		case 1:
			x, k = []interface{}{5.0, true, map[string]interface{}{}, []interface{}{"a"}, 0, []byte("a")}[r.Intn(6)], "other"
		case 2:
			x, k = "", "string"
		}
		v[n] = x
		val[n] = M{"k": k, "v": jtext(x)}
	}
	var in interface{} = v
	if r.Intn(6) == 0 {
		in = []interface{}{nil, "MIT", []interface{}{v}, 5.0, map[string]string{"name": "a"}}[r.Intn(5)]
	}
	_, isobj := in.(map[string]interface{})
	old := docStr(r)
	var before, after fields
	var res string
	switch kind {
	case "user":
		x := &dataset.User{ID: old, Fullname: old, Email: old}
		before = omitText("id", x.ID, "name", x.Fullname, "email", x.Email)
		res = call(func() error { return x.Decode(in) })
		after = omitText("id", x.ID, "name", x.Fullname, "email", x.Email)
	case "license":
		x := &dataset.License{Type: old, URL: old}
		before = omitText("type", x.Type, "url", x.URL)
		res = call(func() error { return x.Decode(in) })
		after = omitText("type", x.Type, "url", x.URL)
	case "citation":
		x := &dataset.Citation{Name: old, URL: old, Email: old}
		before = omitText("name", x.Name, "url", x.URL, "email", x.Email)
		res = call(func() error { return x.Decode(in) })
		after = omitText("name", x.Name, "url", x.URL, "email", x.Email)
	}
	d.ev("typed", M{"kind": kind, "isobj": isobj, "val": val, "before": before, "after": after, "res": res})
}

func omitText(kv ...string) fields {
	f := fields{}
	for i := 0; i < len(kv); i += 2 {
		f.str(kv[i], kv[i+1])
	}
	return f
}

func (d *docSess) signPair(i, j int) {
	d.ev("signpair", M{"i": i + 1, "j": j + 1, "same": string(d.docs[i].SigningBytes()) == string(d.docs[j].SigningBytes()), "tsec": tsec(d.docs[i]), "tsec2": tsec(d.docs[j])})
}

func (d *docSess) pathMap(i int) {
	ig := []string{}
	for _, k := range append([]string{"body", "dataset", "nothing"}, compNames...) {
		if d.s.R.Intn(6) == 0 {
			ig = append(ig, k)
		}
	}
	m := M{}
	for k, v := range d.docs[i].PathMap(ig...) {
		m[k] = jtext(v)
	}
	d.ev("pathmap", M{"i": i + 1, "ignore": ig, "map": m})
}

func (d *docSess) shallow(i, j int, c string) {
	a, b := d.docs[i], d.docs[j]
	same := false
	switch c {
	case "readme":
		same = a.Readme.ShallowCompare(b.Readme)
	case "viz":
		same = a.Viz.ShallowCompare(b.Viz)
	case "transform":
		same = a.Transform.ShallowCompare(b.Transform)
	}
	d.ev("shallow", M{"i": i + 1, "j": j + 1, "c": c, "same": same})
}

func (d *docSess) comp(i int) string {
	cs := []string{"ds"}
	for _, c := range compNames {
		if d.has(i, c) {
			cs = append(cs, c)
		}
	}
	return cs[d.s.R.Intn(len(cs))]
}

func newDocs(s *Sess, n int, o docOpt) *docSess {
	d := &docSess{s: s}
	for i := 0; i < n; i++ {
		d.docs = append(d.docs, genDoc(s.R, o))
	}
	return d
}

var docFills = []docOpt{{fill: 40, comps: 50}, {fill: 10, comps: 60}, {fill: 80, comps: 90}, {fill: 5, comps: 20}, {fill: 0, comps: 30}, {fill: 30, comps: 10}}

func pickOpt(r *rand.Rand, zones bool) docOpt {
	o := docFills[r.Intn(len(docFills))]
	o.zones = zones
	return o
}

func (d *docSess) copyRandom() {
	i, j := d.s.R.Intn(len(d.docs)), d.s.R.Intn(len(d.docs))
	if i == j {
		j = (i + 1) % len(d.docs)
	}
	c := d.comp(i)
	d.copyTo(i, j, c, c != "ds" && d.s.R.Intn(4) == 0)
}

// one field at a time: a document with a single field set
func singleDocs() []func(ds *dataset.Dataset) {
	fs := []func(ds *dataset.Dataset){}
	add := func(f func(ds *dataset.Dataset)) { fs = append(fs, f) }
	t := time.Date(2020, 1, 2, 3, 4, 5, 678901234, time.UTC)
	add(func(ds *dataset.Dataset) { ds.Body = []interface{}{1.0} })
	add(func(ds *dataset.Dataset) { ds.Body = false })
	add(func(ds *dataset.Dataset) { ds.Body = 0.0 })
	add(func(ds *dataset.Dataset) { ds.Body = "" })
	add(func(ds *dataset.Dataset) { ds.BodyBytes = []byte("x") })
	add(func(ds *dataset.Dataset) { ds.BodyBytes = []byte{} })
	add(func(ds *dataset.Dataset) { ds.BodyPath = "x" })
	add(func(ds *dataset.Dataset) { ds.ID = "x" })
	add(func(ds *dataset.Dataset) { ds.Name = "x" })
	add(func(ds *dataset.Dataset) { ds.Path = "x" })
	add(func(ds *dataset.Dataset) { ds.Peername = "x" })
	add(func(ds *dataset.Dataset) { ds.PreviousPath = "x" })
	add(func(ds *dataset.Dataset) { ds.ProfileID = "x" })
	add(func(ds *dataset.Dataset) { ds.NumVersions = 3 })
	add(func(ds *dataset.Dataset) { ds.Qri = "x" })
	cm := func(f func(x *dataset.Commit)) {
		add(func(ds *dataset.Dataset) { ds.Commit = &dataset.Commit{}; f(ds.Commit) })
	}
	cm(func(x *dataset.Commit) {})
	cm(func(x *dataset.Commit) { x.Author = &dataset.User{} })
	cm(func(x *dataset.Commit) { x.Author = &dataset.User{ID: "a", Fullname: "b", Email: "c"} })
	cm(func(x *dataset.Commit) { x.Message = "x" })
	cm(func(x *dataset.Commit) { x.Path = "x" })
	cm(func(x *dataset.Commit) { x.Qri = "x" })
	cm(func(x *dataset.Commit) { x.Signature = "x" })
	cm(func(x *dataset.Commit) { x.Timestamp = t })
	cm(func(x *dataset.Commit) { x.Title = "x" })
	cm(func(x *dataset.Commit) { x.RunID = "x" })
	md := func(f func(x *dataset.Meta)) {
		add(func(ds *dataset.Dataset) { ds.Meta = &dataset.Meta{}; f(ds.Meta) })
	}
	md(func(x *dataset.Meta) {})
	md(func(x *dataset.Meta) { x.AccessURL = "x" })
	md(func(x *dataset.Meta) { x.AccrualPeriodicity = "x" })
	md(func(x *dataset.Meta) { x.Citations = []*dataset.Citation{} })
	md(func(x *dataset.Meta) { x.Citations = []*dataset.Citation{{Name: "a", URL: "b", Email: "c"}, {}} })
	md(func(x *dataset.Meta) { x.Contributors = []*dataset.User{} })
	md(func(x *dataset.Meta) { x.Contributors = []*dataset.User{{ID: "a", Fullname: "b", Email: "c"}} })
	md(func(x *dataset.Meta) { x.Description = "x" })
	md(func(x *dataset.Meta) { x.DownloadURL = "x" })
	md(func(x *dataset.Meta) { x.HomeURL = "x" })
	md(func(x *dataset.Meta) { x.Identifier = "x" })
	md(func(x *dataset.Meta) { x.Keywords = []string{} })
	md(func(x *dataset.Meta) { x.Keywords = []string{"a", ""} })
	md(func(x *dataset.Meta) { x.Language = []string{"a"} })
	md(func(x *dataset.Meta) { x.License = &dataset.License{} })
	md(func(x *dataset.Meta) { x.License = &dataset.License{Type: "a", URL: "b"} })
	md(func(x *dataset.Meta) { x.Path = "x" })
	md(func(x *dataset.Meta) { x.Qri = "x" })
	md(func(x *dataset.Meta) { x.ReadmeURL = "x" })
	md(func(x *dataset.Meta) { x.Title = "x" })
	md(func(x *dataset.Meta) { x.Theme = []string{"a"} })
	md(func(x *dataset.Meta) { x.Version = "x" })
	md(func(x *dataset.Meta) { x.SetArbitrary("foo", map[string]interface{}{"a": 1.0}) })
	md(func(x *dataset.Meta) { x.SetArbitrary("foo", nil) })
	rm := func(f func(x *dataset.Readme)) {
		add(func(ds *dataset.Dataset) { ds.Readme = &dataset.Readme{}; f(ds.Readme) })
	}
	rm(func(x *dataset.Readme) {})
	rm(func(x *dataset.Readme) { x.Format = "x" })
	rm(func(x *dataset.Readme) { x.Path = "x" })
	rm(func(x *dataset.Readme) { x.Qri = "x" })
	rm(func(x *dataset.Readme) { x.ScriptPath = "x" })
	rm(func(x *dataset.Readme) { x.Text = "x" })
	rm(func(x *dataset.Readme) { x.RenderedPath = "x" })
	vz := func(f func(x *dataset.Viz)) {
		add(func(ds *dataset.Dataset) { ds.Viz = &dataset.Viz{}; f(ds.Viz) })
	}
	vz(func(x *dataset.Viz) {})
	vz(func(x *dataset.Viz) { x.Format = "x" })
	vz(func(x *dataset.Viz) { x.Path = "x" })
	vz(func(x *dataset.Viz) { x.Qri = "x" })
	vz(func(x *dataset.Viz) { x.ScriptPath = "x" })
	vz(func(x *dataset.Viz) { x.Text = "x" })
	vz(func(x *dataset.Viz) { x.RenderedPath = "x" })
	st := func(f func(x *dataset.Structure)) {
		add(func(ds *dataset.Dataset) { ds.Structure = &dataset.Structure{}; f(ds.Structure) })
	}
	st(func(x *dataset.Structure) {})
	st(func(x *dataset.Structure) { x.Checksum = "x" })
	st(func(x *dataset.Structure) { x.Compression = "x" })
	st(func(x *dataset.Structure) { x.Depth = 2 })
	st(func(x *dataset.Structure) { x.Encoding = "x" })
	st(func(x *dataset.Structure) { x.ErrCount = 3 })
	st(func(x *dataset.Structure) { x.Entries = 4 })
	st(func(x *dataset.Structure) { x.Format = "x" })
	st(func(x *dataset.Structure) { x.FormatConfig = map[string]interface{}{} })
	st(func(x *dataset.Structure) { x.FormatConfig = map[string]interface{}{"a": true} })
	st(func(x *dataset.Structure) { x.Length = 5 })
	st(func(x *dataset.Structure) { x.Path = "x" })
	st(func(x *dataset.Structure) { x.Qri = "x" })
	st(func(x *dataset.Structure) { x.Schema = map[string]interface{}{} })
	st(func(x *dataset.Structure) { x.Schema = map[string]interface{}{"type": "array"} })
	st(func(x *dataset.Structure) { x.Strict = true })
	sa := func(f func(x *dataset.Stats)) {
		add(func(ds *dataset.Dataset) { ds.Stats = &dataset.Stats{}; f(ds.Stats) })
	}
	sa(func(x *dataset.Stats) {})
	sa(func(x *dataset.Stats) { x.Path = "x" })
	sa(func(x *dataset.Stats) { x.Qri = "x" })
	sa(func(x *dataset.Stats) { x.Stats = []interface{}{} })
	sa(func(x *dataset.Stats) { x.Stats = []interface{}{map[string]interface{}{"count": 1.0}} })
	tf := func(f func(x *dataset.Transform)) {
		add(func(ds *dataset.Dataset) { ds.Transform = &dataset.Transform{}; f(ds.Transform) })
	}
	tf(func(x *dataset.Transform) {})
	tf(func(x *dataset.Transform) { x.Config = map[string]interface{}{} })
	tf(func(x *dataset.Transform) { x.Config = map[string]interface{}{"a": 1.0, "b": "c"} })
	tf(func(x *dataset.Transform) { x.Path = "x" })
	tf(func(x *dataset.Transform) { x.Qri = "x" })
	tf(func(x *dataset.Transform) { x.Resources = map[string]*dataset.TransformResource{} })
	tf(func(x *dataset.Transform) { x.Resources = map[string]*dataset.TransformResource{"a": {Path: "p"}} })
	tf(func(x *dataset.Transform) { x.ScriptPath = "x" })
	tf(func(x *dataset.Transform) { x.Text = "x" })
	tf(func(x *dataset.Transform) { x.Secrets = map[string]string{} })
	tf(func(x *dataset.Transform) { x.Secrets = map[string]string{"a": "hush"} })
	tf(func(x *dataset.Transform) { x.Steps = []*dataset.TransformStep{} })
	tf(func(x *dataset.Transform) {
		x.Steps = []*dataset.TransformStep{{Name: "n", Path: "p", Syntax: "s", Category: "c", Script: "x"}, {}}
	})
	tf(func(x *dataset.Transform) { x.Syntax = "x" })
	tf(func(x *dataset.Transform) { x.SyntaxVersion = "x" })
	tf(func(x *dataset.Transform) { x.Syntaxes = map[string]string{} })
	tf(func(x *dataset.Transform) { x.Syntaxes = map[string]string{"a": "1"} })
	return fs
}

// eachSingle runs f with documents of one field, alone & with a location
func eachSingle(h *H, name string, f func(s *Sess, mk func() *dataset.Dataset)) {
	for i, one := range singleDocs() {
		one := one
		for k := 0; k < 3; k++ {
			k := k
			h.Add(fmt.Sprintf("%s/%d/%d", name, i, k), func(s *Sess) {
				f(s, func() *dataset.Dataset {
					ds := &dataset.Dataset{}
					one(ds)
					if k > 0 {
						ds.Path = "/own/path"
					}
					if k == 2 {
						switch {
						case ds.Commit != nil:
							ds.Commit.Path = "/c"
						case ds.Meta != nil:
							ds.Meta.Path = "/c"
						case ds.Readme != nil:
							ds.Readme.Path = "/c"
						case ds.Viz != nil:
							ds.Viz.Path = "/c"
						case ds.Structure != nil:
							ds.Structure.Path = "/c"
						case ds.Stats != nil:
							ds.Stats.Path = "/c"
						case ds.Transform != nil:
							ds.Transform.Path = "/c"
						}
					}
					return ds
				})
			})
		}
	}
}

// scenDoc makes a document of a TLC scenario
func scenDoc(m map[string]interface{}) *dataset.Dataset {
	ds := &dataset.Dataset{}
	s := func(c, f string) string {
		cm, ok := m[c].(map[string]interface{})
		if !ok {
			return ""
		}
		t, _ := cm[f].(string)
		return strings.Trim(t, `"`)
	}
	sub := func(c, f string) map[string]interface{} {
		cm, ok := m[c].(map[string]interface{})
		if !ok {
			return nil
		}
		x, ok := cm[f].(map[string]interface{})
		if !ok {
			return nil
		}
		o := map[string]interface{}{}
		for k, v := range x {
			o[k] = strings.Trim(v.(string), `"`)
		}
		return o
	}
	ds.ID, ds.Name, ds.Path = s("ds", "id"), s("ds", "name"), s("ds", "path")
	if b := s("ds", "body"); b != "" {
		ds.Body = b
	}
	if m["meta"] != nil {
		ds.Meta = &dataset.Meta{Title: s("meta", "title"), Path: s("meta", "path")}
		for k, v := range sub("meta", "meta") {
			ds.Meta.SetArbitrary(k, v)
		}
	}
	if m["commit"] != nil {
		ds.Commit = &dataset.Commit{Title: s("commit", "title")}
	}
	if m["transform"] != nil {
		ds.Transform = &dataset.Transform{Text: s("transform", "text"), Path: s("transform", "path"), Config: sub("transform", "config")}
		if x := sub("transform", "secrets"); x != nil {
			ds.Transform.Secrets = map[string]string{}
			for k, v := range x {
				ds.Transform.Secrets[k] = v.(string)
			}
		}
	}
	return ds
}

// runScens replays histories of operations TLC made up
func docScens(h *H, pick func(op string) bool) {
	for _, sc := range h.Scens {
		ops, _ := sc["ops"].([]interface{})
		st, _ := sc["start"].([]interface{})
		if len(st) != 2 {
			continue
		}
		want := false
		for _, o := range ops {
			want = want || pick(o.([]interface{})[0].(string))
		}
		if !want {
			continue
		}
		h.Add("scenario", func(s *Sess) {
			d := &docSess{s: s}
			for _, m := range st {
				d.docs = append(d.docs, scenDoc(m.(map[string]interface{})))
			}
			d.begin()
			for _, x := range ops {
				o := x.([]interface{})
				i := int(o[1].(float64)) - 1
				j := int(o[2].(float64)) - 1
				c := o[3].(string)
				switch o[0].(string) {
				case "assign":
					d.assign(i, j)
				case "assignc":
					d.assignc(i, c, j)
				case "copy":
					d.copyTo(i, j, "ds", false)
				case "encode":
					d.encode(i, "ds", false)
				case "set":
					d.set(i, c, "new", "string")
				case "dropt":
					d.drop(i, c, false)
				case "dropd":
					d.drop(i, c, true)
				}
			}
		})
	}
}

func runDocCoding(h *H) {
	docScens(h, func(op string) bool { return op == "copy" })
	eachSingle(h, "single", func(s *Sess, mk func() *dataset.Dataset) {
		d := &docSess{s: s, docs: []*dataset.Dataset{mk(), mk(), {}}}
		d.begin()
		d.encode(0, "ds", false)
		for _, form := range []string{"pointer", "value", "other"} {
			d.from(0, "ds", form)
			for _, c := range compNames {
				if c != "meta" && c != "stats" && d.has(0, c) {
					d.from(0, c, form)
				}
			}
		}
		d.copyTo(0, 2, "ds", false)
		d.copyTo(2, 1, "ds", false)
		for _, c := range compNames {
			if d.has(0, c) {
				d.encode(0, c, false)
				d.encode(0, c, true)
				d.copyTo(0, 1, c, false)
				d.copyTo(0, 1, c, true)
				d.copyTo(0, 2, c, false)
			}
		}
	})
	for i := 0; i < h.N(900, 8000); i++ {
		h.Add("roundtrip", func(s *Sess) {
			d := newDocs(s, 2, pickOpt(s.R, true))
			d.begin()
			for k := 0; k < 6; k++ {
				d.copyRandom()
				i := s.R.Intn(2)
				c := d.comp(i)
				d.encode(i, c, c != "ds" && s.R.Intn(3) == 0)
				switch s.R.Intn(6) {
				case 0:
					d.ref(i, c, docPath(s.R))
					d.encode(i, c, false)
				case 1:
					d.ref(i, compNames[s.R.Intn(7)], []string{"", docPath(s.R)}[s.R.Intn(2)])
				case 2, 3:
					d.fromRandom(i)
				}
			}
		})
		h.Add("foreign", func(s *Sess) {
			d := newDocs(s, 2, pickOpt(s.R, true))
			d.begin()
			all := append([]string{"ds", "ds"}, compNames...)
			for k := 0; k < 5; k++ {
				d.decode(s.R.Intn(2), all[s.R.Intn(len(all))])
				d.badDecode(s.R.Intn(2), all[s.R.Intn(len(all))])
			}
			d.copyRandom()
		})
	}
}

func runDocPure(h *H) {
	for i := 0; i < h.N(500, 5000); i++ {
		h.Add("near", func(s *Sess) {
			d := &docSess{s: s, docs: []*dataset.Dataset{genDoc(s.R, docOpt{fill: 70, comps: 100}), {}, {}}}
			for k := 0; k < 4; k++ {
				c := d.comp(0)
				d.near(0, 1, c)
				d.near(0, 2, c)
				for x := 0; x < 3; x++ {
					if d.has(x, c) {
						d.encode(x, c, c != "ds" && s.R.Intn(2) == 0)
					}
				}
			}
		})
	}
	docScens(h, func(op string) bool { return op == "encode" })
	eachSingle(h, "single", func(s *Sess, mk func() *dataset.Dataset) {
		d := &docSess{s: s, docs: []*dataset.Dataset{mk(), mk()}}
		d.begin()
		for k := 0; k < 2; k++ {
			d.encode(k, "ds", false)
			for _, c := range compNames {
				if d.has(0, c) {
					d.encode(k, c, false)
					d.encode(k, c, true)
				}
			}
		}
	})
	for i := 0; i < h.N(1000, 9000); i++ {
		h.Add("encode", func(s *Sess) {
			o := pickOpt(s.R, false)
			d := newDocs(s, 2, o)
			d.docs = append(d.docs, genDoc(s.R, docOpt{fill: 60, comps: 100}))
			d.begin()
			for k := 0; k < 12; k++ {
				i := s.R.Intn(3)
				switch s.R.Intn(8) {
				case 0:
					d.copyRandom()
				case 1:
					d.assign(i, s.R.Intn(3))
				case 2:
					if d.has(i, "meta") {
						d.setarb(i, metaKey(s.R), docVal(s.R, 1))
					}
				default:
					c := d.comp(i)
					d.encode(i, c, c != "ds" && s.R.Intn(3) == 0)
				}
			}
		})
	}
}

func runDocAssign(h *H) {
	docScens(h, func(op string) bool { return op == "assign" || op == "assignc" || op == "set" })
	singles := singleDocs()
	// every field over every kind of target
	for i, one := range singles {
		one := one
		h.Add(fmt.Sprintf("field/%d", i), func(s *Sess) {
			a, b, c := &dataset.Dataset{}, &dataset.Dataset{}, genDoc(s.R, docOpt{fill: 95, comps: 100})
			one(a)
			d := &docSess{s: s, docs: []*dataset.Dataset{a, b, c}}
			d.begin()
			d.assign(1, 0)
			d.assign(2, 0)
			d.assign(0, 2)
			d.assign(1, 2, -1, 0)
		})
	}
	for i := 0; i < h.N(1200, 10000); i++ {
		h.Add("history", func(s *Sess) {
			o := pickOpt(s.R, false)
			d := newDocs(s, 3, o)
			if s.R.Intn(2) == 0 {
				d.docs[s.R.Intn(3)] = &dataset.Dataset{}
			}
			d.begin()
			for k := 0; k < 10; k++ {
				i := s.R.Intn(3)
				switch s.R.Intn(8) {
				case 0, 1, 2:
					js := []int{}
					for n := 1 + s.R.Intn(3); n > 0; n-- {
						js = append(js, s.R.Intn(4)-1)
					}
					d.assign(i, js...)
				case 3, 4:
					if c := d.comp(i); c != "ds" {
						js := []int{}
						for n := 1 + s.R.Intn(3); n > 0; n-- {
							js = append(js, s.R.Intn(4)-1)
						}
						d.assignc(i, c, js...)
					}
				case 5:
					if d.has(i, "meta") {
						d.randomSet(i)
					}
				case 6:
					c := d.comp(i)
					d.encode(i, c, c != "ds" && s.R.Intn(3) == 0)
				case 7:
					if s.R.Intn(2) == 0 {
						d.copyRandom()
					} else {
						d.drop(i, d.comp(i), s.R.Intn(2) == 0)
					}
				}
			}
		})
		if i%2 == 0 {
			h.Add("meta", func(s *Sess) {
				d := &docSess{s: s}
				for k := 0; k < 2; k++ {
					ds := genDoc(s.R, pickOpt(s.R, false))
					if ds.Meta == nil {
						ds.Meta = &dataset.Meta{}
					}
					d.docs = append(d.docs, ds)
				}
				d.begin()
				for k := 0; k < 10; k++ {
					d.typed()
					d.randomSet(s.R.Intn(2))
					if s.R.Intn(4) == 0 {
						i := s.R.Intn(2)
						d.assignc(i, "meta", 1-i)
					}
				}
			})
		}
	}
}

func runDocDrop(h *H) {
	docScens(h, func(op string) bool { return op == "dropt" || op == "dropd" })
	eachSingle(h, "single", func(s *Sess, mk func() *dataset.Dataset) {
		d := &docSess{s: s, docs: []*dataset.Dataset{mk(), mk(), mk(), mk()}}
		d.begin()
		d.isEmpty(0, "ds")
		d.drop(0, "ds", false)
		d.isEmpty(0, "ds")
		d.drop(1, "ds", true)
		d.isEmpty(1, "ds")
		for _, c := range compNames {
			if d.has(2, c) {
				d.isEmpty(2, c)
				d.drop(2, c, false)
				d.isEmpty(2, c)
				d.encode(2, c, false)
				d.drop(3, c, true)
				d.isEmpty(3, c)
				d.encode(3, c, false)
			}
		}
		d.encode(2, "ds", false)
	})
	for i := 0; i < h.N(1200, 10000); i++ {
		h.Add("history", func(s *Sess) {
			d := newDocs(s, 2, pickOpt(s.R, false))
			d.begin()
			for k := 0; k < 12; k++ {
				i := s.R.Intn(2)
				switch s.R.Intn(7) {
				case 0, 1:
					d.drop(i, d.comp(i), false)
				case 2:
					d.drop(i, d.comp(i), true)
				case 3:
					d.isEmpty(i, d.comp(i))
				case 4:
					c := d.comp(i)
					d.encode(i, c, c != "ds" && s.R.Intn(3) == 0)
				case 5:
					d.assign(i, 1-i)
				case 6:
					d.copyRandom()
				}
			}
			for i := range d.docs {
				for _, c := range append([]string{"ds"}, compNames...) {
					if d.has(i, c) {
						d.drop(i, c, false)
					}
				}
				d.encode(i, "ds", false)
				d.isEmpty(i, "ds")
			}
		})
	}
}

func runDocSign(h *H) {
	for i := 0; i < h.N(500, 5000); i++ {
		h.Add("near", func(s *Sess) {
			d := &docSess{s: s, docs: []*dataset.Dataset{genDoc(s.R, docOpt{fill: 70, comps: 100, zones: true}), {}}}
			if s.R.Intn(2) == 0 && d.docs[0].Transform != nil {
				t := d.docs[0].Transform
				t.Config = map[string]interface{}{"a": []interface{}{nil, 10.0, "10", true, "x y", []interface{}{"x", "y"}, map[string]interface{}{"k": 1.0}}[s.R.Intn(7)]}
			}
			d.docs[0].ID = fmt.Sprintf("id%d", s.R.Intn(5))
			for k := 0; k < 4; k++ {
				c := []string{"readme", "viz", "transform", "transform", "commit", "meta", "structure", "ds"}[s.R.Intn(8)]
				d.near(0, 1, c)
				if strings.ContainsAny(d.docs[1].ID, "\r\n") {
					d.docs[1].ID = "id"
					d.begin()
				}
				for _, x := range []string{"readme", "viz", "transform"} {
					d.shallow(0, 1, x)
					d.shallow(1, 0, x)
				}
				d.signPair(0, 1)
				d.pathMap(1)
			}
		})
	}
	eachSingle(h, "single", func(s *Sess, mk func() *dataset.Dataset) {
		full := genDoc(s.R, docOpt{fill: 95, comps: 100})
		full.ID = "id1"
		d := &docSess{s: s, docs: []*dataset.Dataset{mk(), full, {}}}
		d.begin()
		d.signing(0)
		for k := 0; k < 3; k++ {
			d.signable(k)
		}
		d.signPair(0, 2)
		d.pathMap(0)
		for _, c := range []string{"readme", "viz", "transform"} {
			d.shallow(0, 2, c)
			d.shallow(2, 0, c)
			d.shallow(0, 0, c)
			d.shallow(0, 1, c)
		}
	})
	for i := 0; i < h.N(1000, 9000); i++ {
		h.Add("history", func(s *Sess) {
			o := pickOpt(s.R, true)
			d := newDocs(s, 2, o)
			for _, ds := range d.docs {
				ds.ID = strings.NewReplacer("\n", "", "\r", "").Replace(ds.ID)
				if len(ds.ID) > 40 {
					ds.ID = ds.ID[:3]
				}
				ds.ID = validText(ds.ID)
			}
			d.begin()
			if s.R.Intn(2) == 0 {
				d.copyTo(0, 1, "ds", false)
			}
			for k := 0; k < 12; k++ {
				i := s.R.Intn(2)
				switch s.R.Intn(7) {
				case 0:
					d.signing(i)
					d.signable(i)
				case 1:
					d.signPair(0, 1)
				case 2:
					d.pathMap(i)
				case 3, 4:
					d.shallow(0, 1, []string{"readme", "viz", "transform"}[s.R.Intn(3)])
				case 5:
					c := d.comp(i)
					d.drop(i, c, s.R.Intn(2) == 0)
				case 6:
					if s.R.Intn(2) == 0 {
						d.assign(i, 1-i)
					} else {
						// one field differs
						one := singleDocs()
						f := one[s.R.Intn(len(one))]
						x := &dataset.Dataset{}
						f(x)
						d.docs[i].Assign(x)
						d.begin()
					}
				}
			}
		})
	}
}
