package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/qfs"
)

func init() { runners["C26"] = runFixture }

var fixNames = []string{"input.dataset.json", "expect.dataset.json", "rendered.html", "notes.txt", "transform.star", "template.html", "readme.md",
	"body.cbor", "body.json", "body.csv", "body.xlsx", "body.ndjson", "body.txt", "body", "Readme.md"}

type fixSess struct {
	s    *Sess
	root string
	docs map[string]M
}

func fixFormats() []string {
	l := []string{}
	for _, f := range dataset.SupportedDataFormats() {
		l = append(l, f.String())
	}
	return l
}

// fixDoc makes a document as a file has it: one that was decoded
func fixDoc(s *Sess) (*dataset.Dataset, []byte) {
	for {
		ds := genDoc(s.R, docOpt{fill: 10 + s.R.Intn(60), comps: s.R.Intn(100)})
		if s.R.Intn(8) == 0 {
			ds = &dataset.Dataset{}
		}
		if ds.IsEmpty() {
			ds.ID = "x" // else it is encoded as a location
		}
		var d []byte
		var err error
		if s.R.Intn(2) == 0 {
			d, err = json.Marshal(ds)
		} else {
			d, err = json.MarshalIndent(ds, "", "  ")
		}
		got := &dataset.Dataset{}
		if err == nil && json.Unmarshal(d, got) == nil {
			return got, d
		}
	}
}

func (x *fixSess) put(dir, f, kind string) {
	p := filepath.Join(x.root, dir, f)
	if err := os.MkdirAll(filepath.Join(x.root, dir), 0755); err != nil {
		fail(err)
	}
	os.RemoveAll(p)
	text := ""
	doc := M{"ds": fields{}}
	var err error
	switch kind {
	case "dir":
		err = os.Mkdir(p, 0755)
	case "doc":
		ds, d := fixDoc(x.s)
		doc = projDoc(ds)
		text = fixText(string(d))
		err = ioutil.WriteFile(p, d, 0644)
	default:
		t := ""
		if x.s.R.Intn(4) > 0 {
			t = genString(x.s.R, prof{long: 4})
			if x.s.R.Intn(6) == 0 {
				b := make([]byte, 5000)
				x.s.R.Read(b)
				t = string(b)
			}
		}
		if f == "input.dataset.json" || f == "expect.dataset.json" {
			t = []string{"", "{", "[]", "nope", `{"meta":`, "{} x", `{"qri":"ds:0","commit":7}`}[x.s.R.Intn(7)]
		}
		text = fixText(t)
		err = ioutil.WriteFile(p, []byte(t), 0644)
	}
	if err != nil {
		fail(err)
	}
	x.s.Ev("put", M{"d": dir, "f": f, "kind": kind, "text": text, "doc": doc})
}

func (x *fixSess) del(dir, f string) {
	os.RemoveAll(filepath.Join(x.root, dir, f))
	x.s.Ev("del", M{"d": dir, "f": f})
}

// fixText is what a text is told apart by
func fixText(t string) string {
	if t == "" {
		return ""
	}
	return digest(t)
}

func fixFile(f qfs.File, ok bool) M {
	if !ok || f == nil || reflect.ValueOf(f).IsNil() {
		return M{"has": false, "name": "", "text": ""}
	}
	d, err := ioutil.ReadAll(f)
	if err != nil {
		return M{"has": true, "name": f.FullPath(), "text": "error"}
	}
	return M{"has": true, "name": f.FullPath(), "text": fixText(string(d))}
}

// loadMu keeps loads apart, so that those of a "parallel" session are alone
var loadMu sync.Mutex

// parallel loads the same test cases from many goroutines
func (x *fixSess) parallel(dirs []string) {
	type got struct {
		tc  dstest.TestCase
		err error
	}
	const par, n = 8, 600
	all := make([][]got, par)
	loadMu.Lock()
	var wg sync.WaitGroup
	for g := 0; g < par; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				var y got
				if call(func() error {
					y.tc, y.err = dstest.NewTestCaseFromDir(filepath.Join(x.root, dirs[(g+k)%len(dirs)]))
					return nil
				}) == "panic" {
					y.err = fmt.Errorf("panic")
				}
				if k < len(dirs) {
					all[g] = append(all[g], y)
				}
			}
		}()
	}
	wg.Wait()
	loadMu.Unlock()
	for g := range all {
		for k := range all[g] {
			y := all[g][k]
			x.event(dirs[(g+k)%len(dirs)], func() (dstest.TestCase, error) { return y.tc, y.err })
		}
	}
}

func (x *fixSess) load(dir string) {
	x.event(dir, func() (tc dstest.TestCase, err error) { return dstest.NewTestCaseFromDir(filepath.Join(x.root, dir)) })
}

func (x *fixSess) event(dir string, get func() (dstest.TestCase, error)) {
	var tc dstest.TestCase
	loadMu.Lock()
	res := call(func() (err error) { tc, err = get(); return })
	loadMu.Unlock()
	m := M{"d": dir, "res": res, "formats": fixFormats(), "name": jtext(dir)}
	if res == "ok" {
		m["named"] = tc.Name == dir && tc.Path == filepath.Join(x.root, dir)
		m["input"] = projDoc(tc.Input)
		m["expect"] = []M{}
		if tc.Expect != nil {
			m["expect"] = []M{projDoc(tc.Expect)}
		}
		// files are given anew each time
		for k := 0; k < 2; k++ {
			m["body"] = fixFile(tc.BodyFile(), true)
			a := M{}
			f, ok := tc.TransformScriptFile()
			a["transform"] = fixFile(f, ok)
			f, ok = tc.VizScriptFile()
			a["viz"] = fixFile(f, ok)
			f, ok = tc.ReadmeScriptFile()
			a["readme"] = fixFile(f, ok)
			m["scripts"] = a
		}
		m["inbody"] = fixFile(tc.Input.BodyFile(), true)
		b := M{"transform": fixFile(nil, false), "viz": fixFile(nil, false), "readme": fixFile(nil, false)}
		if tc.Input.Transform != nil {
			b["transform"] = fixFile(tc.Input.Transform.ScriptFile(), true)
		}
		if tc.Input.Viz != nil {
			b["viz"] = fixFile(tc.Input.Viz.ScriptFile(), true)
		}
		if tc.Input.Readme != nil {
			b["readme"] = fixFile(tc.Input.Readme.ScriptFile(), true)
		}
		m["inscripts"] = b
	}
	x.s.Ev("load", m)
	if res == "ok" && x.s.R.Intn(2) == 0 {
		// what happens to a test case does not matter to the next
		tc.Input.Name, tc.Input.ID, tc.Input.Meta, tc.Input.Viz = "other", "other", nil, nil
		if tc.Expect != nil {
			tc.Expect.Structure = nil
		}
		if len(tc.Body) > 0 {
			tc.Body[0] ^= 1
		}
	}
}

func (x *fixSess) rendered(dir string) {
	text := ""
	res := call(func() error {
		f, err := dstest.TestCase{Path: filepath.Join(x.root, dir)}.RenderedFile()
		if err == nil {
			if d, err := ioutil.ReadAll(f); err == nil {
				text = fixText(string(d))
			}
			f.Close()
		}
		return err
	})
	x.s.Ev("rendered", M{"d": dir, "res": res, "text": text})
}

func (x *fixSess) bodyPath(dir string) {
	p := ""
	res := call(func() (err error) {
		p, err = dstest.BodyFilepath(filepath.Join(x.root, dir))
		return
	})
	if res == "err" {
		if _, err := dstest.BodyFilepath(filepath.Join(x.root, dir)); err == os.ErrNotExist {
			res = "none"
		}
	}
	name := ""
	if p != "" {
		name = filepath.Base(p)
		if filepath.Dir(p) != filepath.Join(x.root, dir) {
			name = "elsewhere"
		}
	}
	x.s.Ev("bodypath", M{"d": dir, "res": res, "name": name, "formats": fixFormats()})
}

func (x *fixSess) cases() {
	var tcs map[string]dstest.TestCase
	loadMu.Lock()
	res := call(func() (err error) { tcs, err = dstest.LoadTestCases(x.root); return })
	loadMu.Unlock()
	names := []string{}
	for n := range tcs {
		names = append(names, n)
	}
	x.s.Ev("cases", M{"res": res, "names": sortStrings(names), "formats": fixFormats()})
	for _, n := range names {
		n := n
		if x.s.R.Intn(3) == 0 {
			x.event(n, func() (dstest.TestCase, error) { return tcs[n], nil })
		}
	}
}

func sortStrings(l []string) []string {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func newFix(s *Sess) (*fixSess, func()) {
	root, err := ioutil.TempDir("", "fixture")
	if err != nil {
		fail(err)
	}
	s.Ev("begin", M{})
	return &fixSess{s: s, root: root}, func() { os.RemoveAll(root) }
}

// utcDoc has times in no particular zone: those of the same instant are alike
func utcDoc(ds *dataset.Dataset) M {
	if ds.Commit != nil {
		d, c := *ds, *ds.Commit
		c.Timestamp = c.Timestamp.UTC()
		d.Commit = &c
		ds = &d
	}
	return projDoc(ds)
}

func fixCompare(s *Sess, a, b *dataset.Dataset, c string, drop bool) {
	if a == nil && b == nil && c != "ds" {
		return
	}
	none := func(d *dataset.Dataset) *dataset.Dataset {
		if d == nil {
			return &dataset.Dataset{}
		}
		return d
	}
	pa, pb := projDoc(none(a)), projDoc(none(b))
	opts := []dstest.CompareOpts{}
	if drop {
		opts = append(opts, dstest.OptDropTransientValues(0))
	}
	diff := ""
	res := call(func() error {
		switch c {
		case "ds":
			diff = dstest.CompareDatasets(a, b, opts...)
		case "commit":
			diff = dstest.CompareCommits(none(a).Commit, none(b).Commit, opts...)
		case "meta":
			diff = dstest.CompareMetas(none(a).Meta, none(b).Meta, opts...)
		case "structure":
			diff = dstest.CompareStructures(none(a).Structure, none(b).Structure, opts...)
		}
		return nil
	})
	kept := res == "ok" && jtext(pa) == jtext(projDoc(none(a))) && jtext(pb) == jtext(projDoc(none(b)))
	s.Ev("compare", M{"c": c, "drop": drop, "a": utcDoc(none(a)), "b": utcDoc(none(b)), "same": diff == "", "kept": kept})
}

func fixChecksum(s *Sess, a, b *dataset.Dataset, sure bool) {
	pa, pb := projDoc(a), projDoc(b)
	x, y, z := "", "", ""
	call(func() error {
		x, y = dstest.DatasetChecksum(a), dstest.DatasetChecksum(b)
		z = dstest.DatasetChecksum(a)
		return nil
	})
	kept := x != "" && jtext(pa) == jtext(projDoc(a)) && jtext(pb) == jtext(projDoc(b))
	s.Ev("checksum", M{"a": pa, "b": pb, "same": x == y, "again": x == z, "sure": sure, "kept": kept})
}

var testingMu sync.Mutex

// noDeps is what the testing package needs to run tests outside of "go test"
type noDeps struct{}
type noCorpus = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []interface{}
	Generation int
	IsSeed     bool
}

func (noDeps) ImportPath() string                              { return "" }
func (noDeps) ModulePath() string                              { return "" }
func (noDeps) MatchString(pat, str string) (bool, error)       { return true, nil }
func (noDeps) SetPanicOnExit0(bool)                            {}
func (noDeps) StartCPUProfile(io.Writer) error                 { return nil }
func (noDeps) StopCPUProfile()                                 {}
func (noDeps) StartTestLog(io.Writer)                          {}
func (noDeps) StopTestLog() error                              { return nil }
func (noDeps) WriteProfileTo(string, io.Writer, int) error     { return nil }
func (noDeps) RunFuzzWorker(func(noCorpus) error) error        { return nil }
func (noDeps) CheckCorpus([]interface{}, []reflect.Type) error { return nil }
func (noDeps) ResetCoverage()                                  {}
func (noDeps) SnapshotCoverage()                               {}
func (noDeps) ReadCorpus(string, []reflect.Type) ([]noCorpus, error) {
	return nil, nil
}
func (noDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []noCorpus, []reflect.Type, string, string) error {
	return nil
}
func (noDeps) InitRuntimeCoverage() (mode string, tearDown func(string, string) (string, error), snapcov func() float64) {
	return "", nil, nil
}

// inTest runs f as a test and tells if it passed
func inTest(f func(t *testing.T)) bool {
	out, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fail(err)
	}
	defer out.Close()
	old := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = old }()
	ran := false
	code := testing.MainStart(noDeps{}, []testing.InternalTest{{Name: "T", F: func(t *testing.T) { ran = true; f(t) }}}, nil, nil, nil).Run()
	if !ran {
		fail(fmt.Errorf("the test did not run"))
	}
	return code == 0
}

func fixGolden(s *Sess) {
	x, done := newFix(s)
	defer done()
	p := filepath.Join(x.root, "golden.json")
	ds, d := fixDoc(s)
	if err := ioutil.WriteFile(p, d, 0644); err != nil {
		fail(err)
	}
	s.Ev("golden", M{"doc": utcDoc(ds)})
	for k := 0; k < 6; k++ {
		got := ds
		switch s.R.Intn(5) {
		case 0:
			got, _ = fixDoc(s)
		case 1, 2:
			if y := nearDoc(s, ds); y != nil {
				got = y
			}
		case 3:
			// a value of the document itself, or of a component
			if y := cloneDoc(ds); y != nil {
				v := reflect.ValueOf(y).Elem()
				if y.Structure != nil && s.R.Intn(3) == 0 {
					v = reflect.ValueOf(y.Structure).Elem()
				} else if y.Commit != nil && s.R.Intn(3) == 0 {
					v = reflect.ValueOf(y.Commit).Elem()
				}
				if f := v.Field(s.R.Intn(v.NumField())); f.CanSet() && f.Kind() == reflect.String {
					f.SetString(f.String() + "x")
				} else if f.CanSet() && f.Kind() == reflect.Int {
					f.SetInt(f.Int() + 1)
				}
				got = y
			}
		}
		coded := &dataset.Dataset{}
		raw, err := json.Marshal(got)
		if err != nil || json.Unmarshal(raw, coded) != nil {
			return
		}
		update := s.R.Intn(2) == 0
		testingMu.Lock()
		os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
		if update {
			os.Setenv(dstest.UpdateGoldenFileEnvVarname, "1")
		}
		passed := inTest(func(t *testing.T) { dstest.CompareGoldenDatasetAndUpdateIfEnvVarSet(t, p, got) })
		os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
		var now *dataset.Dataset
		if !inTest(func(t *testing.T) { now = dstest.LoadGoldenFile(t, p) }) {
			now = &dataset.Dataset{Name: "did not load"}
		}
		testingMu.Unlock()
		s.Ev("goldencompare", M{"got": utcDoc(got), "coded": utcDoc(coded), "update": update, "passed": passed, "now": utcDoc(now)})
		ds = now
	}
	// what is no document can not be loaded, nor what isn't there
	for _, t := range []string{"", "{", "[]"} {
		testingMu.Lock()
		ioutil.WriteFile(p, []byte(t), 0644)
		ok := inTest(func(t *testing.T) { dstest.LoadGoldenFile(t, p) }) || inTest(func(t *testing.T) { dstest.LoadGoldenFile(t, p+"x") })
		testingMu.Unlock()
		s.Ev("none", M{"res": map[bool]string{true: "ok", false: "err"}[ok]})
	}
}

// nearDoc is a document that differs in one place
func nearDoc(s *Sess, ds *dataset.Dataset) *dataset.Dataset {
	x := cloneDoc(ds)
	if x == nil {
		return nil
	}
	sites := []func(){}
	nearSites(s.R, reflect.ValueOf(x), &sites)
	if len(sites) > 0 {
		sites[s.R.Intn(len(sites))]()
	}
	return x
}

func fixTemplate(s *Sess) {
	s.Ev("begin", M{})
	v := docStr(s.R)
	n := 1 + s.R.Intn(5)
	for _, c := range [][2]string{{"a {{ .V }} b", "a " + v + " b"}, {"{{ range .L }}x{{ end }}", clip("xxxxx", n)}, {"plain <>&\"", "plain <>&\""}, {"{{ .V }", ""}, {"{{ .Nope.X }}", ""}, {"{{ end }}", ""}} {
		got := ""
		testingMu.Lock()
		ok := inTest(func(t *testing.T) {
			got = dstest.Template(t, c[0], struct {
				V string
				L []int
			}{v, make([]int, n)})
		})
		testingMu.Unlock()
		s.Ev("template", M{"passed": ok, "valid": c[1] != "", "text": digest(got), "want": digest(c[1])})
	}
}

func runFixture(h *H) {
	kinds := func(s *Sess, f string) string {
		k := []string{"text", "text", "text", "dir"}[s.R.Intn(4)]
		if f == "input.dataset.json" || f == "expect.dataset.json" {
			k = []string{"doc", "doc", "doc", "doc", "doc", "doc", "text", "dir"}[s.R.Intn(8)]
		}
		return k
	}
	for _, sc := range h.Scens {
		files, _ := sc["files"].(map[string]interface{}) // [] when empty
		names := []string{}
		for f := range files {
			names = append(names, f)
		}
		sortStrings(names)
		h.Add("scen", func(s *Sess) {
			x, done := newFix(s)
			defer done()
			if err := os.Mkdir(filepath.Join(x.root, "case"), 0755); err != nil {
				fail(err)
			}
			for _, f := range names {
				x.put("case", f, files[f].(string))
			}
			x.load("case")
			x.bodyPath("case")
			x.rendered("case")
			x.cases()
		})
	}
	for i := 0; i < h.N(150, 3000); i++ {
		h.Add("history", func(s *Sess) {
			x, done := newFix(s)
			defer done()
			dirs := []string{"one", "two", "three and é", "a.csv"}[:1+s.R.Intn(4)]
			for k := 0; k < 25; k++ {
				d := dirs[s.R.Intn(len(dirs))]
				f := fixNames[s.R.Intn(len(fixNames))]
				switch s.R.Intn(9) {
				case 0, 1, 2, 3:
					x.put(d, f, kinds(s, f))
				case 4:
					x.del(d, f)
				case 5, 6:
					x.load(d)
				case 7:
					x.bodyPath(d)
					x.rendered(d)
				case 8:
					x.cases()
				}
			}
		})
		h.Add("compare", func(s *Sess) {
			s.Ev("begin", M{})
			for k := 0; k < 6; k++ {
				a := genDoc(s.R, docOpt{fill: 10 + s.R.Intn(80), comps: s.R.Intn(100)})
				b := a
				switch s.R.Intn(6) {
				case 0:
					b = genDoc(s.R, docOpt{fill: s.R.Intn(30), comps: s.R.Intn(50)})
				case 1:
					b = nil
				default:
					b = nearDoc(s, a)
				}
				c := []string{"ds", "commit", "meta", "structure"}[s.R.Intn(4)]
				drop := s.R.Intn(2) == 0
				fixCompare(s, a, b, c, drop)
				fixCompare(s, b, a, c, drop)
				if b != nil && k < 2 {
					fixChecksum(s, a, b, false)
				}
			}
		})
	}
	// numbers that are nearly the same
	for i := 0; i < h.N(10, 100); i++ {
		h.Add("numbers", func(s *Sess) {
			s.Ev("begin", M{})
			for k := 0; k < 8; k++ {
				x := []float64{1, 0.1, 1e15, -7, 1e-9, 0.5, 1e300, 3}[k]
				y := []float64{math.Nextafter(x, 2*x), x * (1 + 1e-12), x * (1 + 1e-7), x + 1e-9, x}[s.R.Intn(5)]
				doc := func(f float64) *dataset.Dataset {
					return &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "maxItems": f}, FormatConfig: map[string]interface{}{"a": []interface{}{f}}}}
				}
				a, b := doc(x), doc(y)
				fixCompare(s, a, b, []string{"ds", "structure"}[s.R.Intn(2)], s.R.Intn(2) == 0)
				fixChecksum(s, a, b, false)
			}
		})
	}
	for i := 0; i < h.N(2, 20); i++ {
		h.Add("parallel", func(s *Sess) {
			x, done := newFix(s)
			defer done()
			dirs := []string{"one", "two", "three", "four"}
			for _, d := range dirs {
				for k := 0; k < 6; k++ {
					f := fixNames[s.R.Intn(len(fixNames))]
					x.put(d, f, kinds(s, f))
				}
			}
			x.parallel(dirs)
		})
	}
	for i := 0; i < h.N(60, 600); i++ {
		h.Add("golden", fixGolden)
		h.Add("template", fixTemplate)
	}
	h.Add("none", func(s *Sess) {
		s.Ev("begin", M{})
		res := call(func() error {
			_, err := dstest.LoadTestCases(filepath.Join(os.TempDir(), fmt.Sprintf("fixture-none-%d", s.R.Int63())))
			return err
		})
		s.Ev("none", M{"res": res})
	})
}
