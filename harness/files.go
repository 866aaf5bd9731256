package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func init() {
	runners["C14"] = runFiles
}

type storeEnt struct {
	data  string
	get   string
	fault bool
}

var errFile = errors.New("file fault")

// testFile is a file that may fail when all of its data was read
type testFile struct {
	name  string
	r     *strings.Reader
	fault bool
}

func (f *testFile) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF && f.fault {
		return n, errFile
	}
	return n, err
}
func (f *testFile) Close() error                { return nil }
func (f *testFile) FileName() string            { return f.name }
func (f *testFile) FullPath() string            { return f.name }
func (f *testFile) IsDirectory() bool           { return false }
func (f *testFile) NextFile() (qfs.File, error) { return nil, qfs.ErrNotDirectory }
func (f *testFile) MediaType() string           { return "" }
func (f *testFile) ModTime() time.Time          { return time.Time{} }

func newTestFile(name, data string, fault bool) *testFile {
	return &testFile{name, strings.NewReader(data), fault}
}

type testStore struct {
	m     map[string]storeEnt
	calls []string
}

func (s *testStore) Get(ctx context.Context, path string) (qfs.File, error) {
	s.calls = append(s.calls, path)
	e := s.m[path]
	if e.get == "err" {
		return nil, errFile
	}
	return newTestFile(path, e.data, e.fault), nil
}

// fileComp is a component with files
type fileComp struct {
	ds *dataset.Dataset
	rm *dataset.Readme
	vz *dataset.Viz
	tf *dataset.Transform
}

func newFileComp(kind string) *fileComp {
	switch kind {
	case "body":
		return &fileComp{ds: &dataset.Dataset{}}
	case "readme":
		return &fileComp{rm: &dataset.Readme{}}
	case "viz":
		return &fileComp{vz: &dataset.Viz{}}
	}
	return &fileComp{tf: &dataset.Transform{}}
}

func (c *fileComp) set(text string, has, inl bool, path, rpath string) {
	switch {
	case c.ds != nil:
		c.ds.BodyBytes, c.ds.Body, c.ds.BodyPath = nil, nil, path
		if has {
			c.ds.BodyBytes = []byte(text)
		}
		if inl {
			c.ds.Body = []interface{}{"a"}
		}
	case c.rm != nil:
		c.rm.Text, c.rm.ScriptPath, c.rm.RenderedPath = text, path, rpath
	case c.vz != nil:
		c.vz.Text, c.vz.ScriptPath, c.vz.RenderedPath = text, path, rpath
	case c.tf != nil:
		c.tf.Text, c.tf.ScriptPath = text, path
	}
}

func (c *fileComp) file(rendered bool) qfs.File {
	var f qfs.File
	switch {
	case c.ds != nil && !rendered:
		f = c.ds.BodyFile()
	case c.rm != nil && rendered:
		f = c.rm.RenderedFile()
	case c.rm != nil:
		f = c.rm.ScriptFile()
	case c.vz != nil && rendered:
		f = c.vz.RenderedFile()
	case c.vz != nil:
		f = c.vz.ScriptFile()
	case c.tf != nil && !rendered:
		f = c.tf.ScriptFile()
	}
	return f
}

func (c *fileComp) setFile(f qfs.File, rendered bool) {
	switch {
	case c.ds != nil:
		c.ds.SetBodyFile(f)
	case c.rm != nil && rendered:
		c.rm.SetRenderedFile(f)
	case c.rm != nil:
		c.rm.SetScriptFile(f)
	case c.vz != nil && rendered:
		c.vz.SetRenderedFile(f)
	case c.vz != nil:
		c.vz.SetScriptFile(f)
	case c.tf != nil:
		c.tf.SetScriptFile(f)
	}
}

func (c *fileComp) open(ctx context.Context, r qfs.PathResolver) error {
	switch {
	case c.ds != nil:
		return c.ds.OpenBodyFile(ctx, r)
	case c.rm != nil:
		return c.rm.OpenScriptFile(ctx, r)
	case c.vz != nil:
		return c.vz.OpenScriptFile(ctx, r)
	}
	return c.tf.OpenScriptFile(ctx, r)
}

func (c *fileComp) openRendered(ctx context.Context, r qfs.PathResolver) error {
	if c.rm != nil {
		return c.rm.OpenRenderedFile(ctx, r)
	}
	return c.vz.OpenRenderedFile(ctx, r)
}

func (c *fileComp) inline(ctx context.Context, r qfs.PathResolver) error {
	switch {
	case c.rm != nil:
		return c.rm.InlineScriptFile(ctx, r)
	case c.vz != nil:
		return c.vz.InlineScriptFile(ctx, r)
	}
	return c.tf.InlineScriptFile(ctx, r)
}

func (c *fileComp) merge(d *fileComp) {
	switch {
	case c.ds != nil:
		c.ds.Assign(d.ds)
	case c.rm != nil:
		c.rm.Assign(d.rm)
	case c.vz != nil:
		c.vz.Assign(d.vz)
	case c.tf != nil:
		c.tf.Assign(d.tf)
	}
}

func (c *fileComp) rendering() bool { return c.rm != nil || c.vz != nil }

type fileSess struct {
	s     *Sess
	kind  string
	cs    []*fileComp
	store *testStore
	files []qfs.File
}

func (f *fileSess) id(x qfs.File) int {
	if x == nil {
		return 0
	}
	for i, y := range f.files {
		if x == y {
			return i + 1
		}
	}
	f.files = append(f.files, x)
	return len(f.files)
}

func (f *fileSess) comp(c *fileComp) M {
	m := M{"inl": false, "rpath": ""}
	switch {
	case c.ds != nil:
		m["text"], m["hasText"], m["inl"], m["path"] = txt(string(c.ds.BodyBytes)), c.ds.BodyBytes != nil, c.ds.Body != nil, c.ds.BodyPath
	case c.rm != nil:
		m["text"], m["hasText"], m["path"], m["rpath"] = txt(c.rm.Text), c.rm.Text != "", c.rm.ScriptPath, c.rm.RenderedPath
	case c.vz != nil:
		m["text"], m["hasText"], m["path"], m["rpath"] = txt(c.vz.Text), c.vz.Text != "", c.vz.ScriptPath, c.vz.RenderedPath
	case c.tf != nil:
		m["text"], m["hasText"], m["path"] = txt(c.tf.Text), c.tf.Text != "", c.tf.ScriptPath
	}
	m["file"], m["rfile"] = f.id(c.file(false)), f.id(c.file(true))
	return m
}

func (f *fileSess) ev(name string, m M) {
	cs := []M{}
	for _, c := range f.cs {
		cs = append(cs, f.comp(c))
	}
	names := []string{}
	for _, x := range f.files {
		names = append(names, x.FullPath())
	}
	m["cs"], m["names"] = cs, names
	f.s.Ev(name, m)
}

func (f *fileSess) begin() {
	st := M{}
	for p, e := range f.store.m {
		st[p] = M{"data": txt(e.data), "get": e.get, "fault": e.fault}
	}
	f.ev("begin", M{"kind": f.kind, "store": st})
}

func fileRes(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, dataset.ErrInlineBody):
		return "inline"
	case errors.Is(err, dataset.ErrNoResolver):
		return "noresolver"
	}
	return "err"
}

func (f *fileSess) do(op string, i int, resolver bool) {
	f.store.calls = nil
	var r qfs.PathResolver
	if resolver {
		r = f.store
	}
	var err error
	ctx := context.Background()
	switch op {
	case "open":
		err = f.cs[i].open(ctx, r)
	case "openr":
		err = f.cs[i].openRendered(ctx, r)
	case "inline":
		err = f.cs[i].inline(ctx, r)
	}
	calls := append([]string{}, f.store.calls...)
	f.ev(op, M{"i": i + 1, "resolver": resolver, "res": fileRes(err), "calls": calls})
}

func (f *fileSess) read(i int, rendered bool) {
	x := f.cs[i].file(rendered)
	if x == nil {
		return
	}
	data, err := ioutil.ReadAll(x)
	f.ev("read", M{"i": i + 1, "rendered": rendered, "data": txt(string(data)), "res": fileRes(err)})
}

func (f *fileSess) merge(i, j int) {
	f.cs[i].merge(f.cs[j])
	f.ev("merge", M{"i": i + 1, "j": j + 1})
}

func newFileSess(s *Sess, kind string, n int) *fileSess {
	f := &fileSess{s: s, kind: kind, store: &testStore{m: map[string]storeEnt{}}}
	for i := 0; i < n; i++ {
		f.cs = append(f.cs, newFileComp(kind))
	}
	return f
}

func runFiles(h *H) {
	for _, sc := range h.Scens {
		kind, _ := sc["kind"].(string)
		if kind == "" {
			continue
		}
		st, ops := sc["start"].(map[string]interface{}), sc["ops"].([]interface{})
		kinds := []string{"body"}
		if kind != "body" {
			kinds = []string{"readme", "viz"}
			plain := st["rpath"] == ""
			if plain {
				kinds = append(kinds, "transform")
			}
		}
		for _, k := range kinds {
			k := k
			h.Add("scenario/"+k, func(s *Sess) {
				f := newFileSess(s, k, 2)
				f.store.m = map[string]storeEnt{"p": {"dp", "ok", false}, "e": {"", "ok", false}, "bad": {"", "err", false}, "flt": {"df", "ok", true}}
				f.cs[0].set(st["text"].(string), st["hasText"].(bool), st["inl"].(bool), st["path"].(string), st["rpath"].(string))
				f.begin()
				for _, x := range ops {
					o := x.([]interface{})
					i, b := int(o[1].(float64))-1, o[2].(bool)
					switch o[0].(string) {
					case "read":
						f.read(i, b)
					case "merge":
						f.merge(1, 0)
					default:
						f.do(o[0].(string), i, b)
					}
				}
			})
		}
	}
	paths := []string{"a", "/b/c.csv", "é", "http://x"}
	content := func(r *rand.Rand) string {
		switch r.Intn(6) {
		case 0:
			return ""
		case 1:
			return strings.Repeat("line of text\n", 1+r.Intn(800))
		case 2:
			return "\xef\xbb\xbf\x00\r\n"
		case 3:
			edge := []string{"", " ", "\x00", "\n\n", "\r", "\ufeff", "\t", "\xff", "\"", "\x1a"}
			return edge[r.Intn(10)] + "content" + edge[r.Intn(10)]
		}
		return fmt.Sprintf("content %d\n", r.Intn(1000))
	}
	for i := 0; i < h.N(1500, 20000); i++ {
		kind := []string{"body", "readme", "viz", "transform"}[i%4]
		h.Add("history/"+kind, func(s *Sess) {
			r := s.R
			f := newFileSess(s, kind, 3)
			for _, p := range paths {
				e := storeEnt{data: content(r), get: "ok", fault: r.Intn(4) == 0}
				if r.Intn(4) == 0 {
					e = storeEnt{get: "err"}
				}
				f.store.m[p] = e
			}
			pick := func() string {
				if r.Intn(3) == 0 {
					return ""
				}
				return paths[r.Intn(len(paths))]
			}
			edit := func(c *fileComp) {
				t, has, inl := "", false, false
				if r.Intn(3) == 0 {
					t = content(r)
					has = kind == "body" || t != ""
				}
				if kind == "body" && r.Intn(5) == 0 {
					inl = true
				}
				rp := ""
				if c.rendering() {
					rp = pick()
				}
				c.set(t, has, inl, pick(), rp)
			}
			for _, c := range f.cs {
				edit(c)
			}
			f.begin()
			for k := 0; k < 14; k++ {
				i := r.Intn(3)
				c := f.cs[i]
				rend := c.rendering() && r.Intn(3) == 0
				switch r.Intn(9) {
				case 0, 1:
					f.do("open", i, r.Intn(5) > 0)
				case 2:
					if c.rendering() {
						f.do("openr", i, r.Intn(5) > 0)
					}
				case 3, 4:
					if kind != "body" {
						f.do("inline", i, r.Intn(6) > 0)
					}
				case 5:
					f.read(i, rend)
				case 6:
					if r.Intn(4) == 0 {
						c.setFile(nil, rend)
						f.ev("unset", M{"i": i + 1, "rendered": rend})
					} else {
						d, ft := content(r), r.Intn(4) == 0
						c.setFile(newTestFile("own", d, ft), rend)
						f.ev("setfile", M{"i": i + 1, "rendered": rend, "name": "own", "data": txt(d), "fault": ft})
					}
				case 7:
					j := r.Intn(3)
					f.merge(i, j)
				case 8:
					edit(c)
					f.ev("edit", M{"i": i + 1, "c": f.comp(c)})
				}
			}
		})
	}
}
