package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"io/ioutil"
	"math/rand"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
	"github.com/ugorji/go/codec"
)

func init() {
	runners["C20"] = runViews
}

// vfile is a component file: what it holds, and whether reading it ends in a
// fault
type vfile struct {
	path  string
	data  []byte
	fault bool
	size  bool
}

func (f *vfile) open(r *rand.Rand) qfs.File {
	if f == nil {
		return nil
	}
	if f.size && !f.fault {
		return qfs.NewMemfileBytes(f.path, append([]byte{}, f.data...))
	}
	return &chunkFile{name: f.path, r: r, data: f.data, chunk: []int{0, 1 + r.Intn(60), -1}[r.Intn(3)], fault: f.fault, packed: true, eof: r.Intn(2) == 0}
}

func (f *vfile) ev() M {
	if f == nil {
		return M{"h": "", "n": -1, "res": "", "path": "", "size": true}
	}
	res := "ok"
	if f.fault {
		res = "err"
	}
	return M{"h": digest(string(f.data)), "n": len(f.data), "res": res, "path": f.path, "size": true}
}

func fileEv(f qfs.File) M {
	if f == nil {
		return M{"h": "", "n": -1, "res": "", "path": "", "size": true}
	}
	var d []byte
	res := call(func() (err error) { d, err = ioutil.ReadAll(f); return })
	// a file need not know its size, but what it gives is right
	size := true
	if sf, ok := f.(qfs.SizeFile); ok {
		size = sf.Size() == -1 || sf.Size() == int64(len(d))
	}
	return M{"h": digest(string(d)), "n": len(d), "res": res, "path": f.FullPath(), "size": size}
}

type viewSess struct {
	*Sess
	c                    cfg
	ds                   *dataset.Dataset
	body, readme, script *vfile
	pieces               []M
}

func (v *viewSess) setBody()   { v.ds.SetBodyFile(v.body.open(v.R)) }
func (v *viewSess) setReadme() { v.ds.Readme.SetScriptFile(v.readme.open(v.R)) }
func (v *viewSess) setScript() { v.ds.Viz.SetScriptFile(v.script.open(v.R)) }

// others is a digest of what views do not show
func (v *viewSess) others() string {
	body := v.ds.Body
	text := ""
	v.ds.Body = nil
	if v.ds.Readme != nil {
		text, v.ds.Readme.Text = v.ds.Readme.Text, ""
	}
	d, err := json.Marshal(v.ds)
	if err != nil {
		fail(err)
	}
	v.ds.Body = body
	if v.ds.Readme != nil {
		v.ds.Readme.Text = text
	}
	return digest(string(d))
}

func (v *viewSess) files() {
	m := M{"body": fileEv(v.ds.BodyFile())}
	none := fileEv(nil)
	m["readme"], m["script"] = none, none
	if v.ds.Readme != nil {
		m["readme"] = fileEv(v.ds.Readme.ScriptFile())
	}
	if v.ds.Viz != nil {
		m["script"] = fileEv(v.ds.Viz.ScriptFile())
	}
	v.Ev("files", m)
	if v.body != nil {
		v.setBody()
	}
	if v.readme != nil {
		v.setReadme()
	}
	if v.script != nil {
		v.setScript()
	}
}

func (v *viewSess) preview() {
	if v.body == nil && v.ds != nil {
		v.ds.Body = nil
	}
	var p *dataset.Dataset
	res := call(func() (err error) { p, err = preview.Create(context.Background(), v.ds); return })
	m := M{"res": res, "es": []M{}, "end": "", "readme": []int{}, "others": "", "nobody": false, "top": ""}
	if res == "ok" {
		raw, ok := p.Body.(json.RawMessage)
		m["nobody"] = p.Body == nil
		if ok {
			es, end, top := jsonEntries(raw)
			m["es"], m["end"], m["top"] = es, end, top
		}
		if p.Readme != nil {
			bs := []int{}
			for _, b := range []byte(p.Readme.Text) {
				bs = append(bs, int(b))
			}
			m["readme"] = bs
		}
		x := *v
		x.ds = p
		m["others"] = x.others()
	}
	v.Ev("preview", m)
}

// jsonEntries decodes a JSON array or object, in order, with encoding/json
func jsonEntries(d []byte) (es []M, end, top string) {
	es = []M{}
	dec := json.NewDecoder(bytes.NewReader(d))
	dec.UseNumber()
	t, err := dec.Token()
	if err != nil {
		return es, "err", ""
	}
	top = "array"
	if t == json.Delim('{') {
		top = "object"
	} else if t != json.Delim('[') {
		return es, "err", ""
	}
	for i := 0; dec.More(); i++ {
		e := dsio.Entry{Index: i}
		if top == "object" {
			k, err := dec.Token()
			if err != nil {
				return es, "err", top
			}
			e.Key, _ = k.(string)
		}
		var x interface{}
		if err := dec.Decode(&x); err != nil {
			return es, "err", top
		}
		e.Value = fromNumber(x)
		es = append(es, flatEnt(e))
	}
	if _, err := dec.Token(); err != nil {
		return es, "err", top
	}
	if _, err := dec.Token(); err != io.EOF {
		return es, "err", top
	}
	return es, "eof", top
}

func fromNumber(x interface{}) interface{} {
	switch y := x.(type) {
	case json.Number:
		if n, err := y.Int64(); err == nil {
			return n
		}
		f, _ := y.Float64()
		return f
	case []interface{}:
		for i := range y {
			y[i] = fromNumber(y[i])
		}
	case map[string]interface{}:
		for k := range y {
			y[k] = fromNumber(y[k])
		}
	}
	return x
}

func (v *viewSess) render() {
	var f qfs.File
	res := call(func() (err error) { f, err = dsviz.Render(v.ds); return })
	m := M{"res": res, "none": f == nil, "name": "", "got": [][]string{}}
	if res == "ok" && f != nil {
		d, err := ioutil.ReadAll(f)
		if err != nil {
			m["res"] = "unreadable"
		}
		m["name"] = f.FileName()
		got := [][]string{}
		parts := strings.Split(string(d), "|")
		for i, p := range parts {
			if i < len(v.pieces) && (v.pieces[i]["k"] == "entries" || v.pieces[i]["k"] == "types") {
				list := strings.Split(p, ";")
				if list[len(list)-1] == "" {
					list = list[:len(list)-1]
				}
				got = append(got, list)
			} else {
				got = append(got, []string{p})
			}
		}
		m["got"] = got
	}
	v.Ev("render", m)
}

// plainText is what a template prints for a simple value
func plainText(x interface{}) string {
	if a, ok := x.([]interface{}); ok {
		ts := []string{}
		for _, y := range a {
			ts = append(ts, plainText(y))
		}
		return "[" + strings.Join(ts, " ") + "]"
	}
	return fmt.Sprint(x)
}

func plainValue(r *rand.Rand) interface{} {
	switch r.Intn(3) {
	case 0:
		return int64(r.Intn(1000))
	case 1:
		return "text" + fmt.Sprint(r.Intn(50))
	}
	return []interface{}{int64(r.Intn(100)), "in", true}
}

// damagedBody encodes entries so that reading fails after them: because the
// source does, because the body is cut, or because what follows is no entry
func damagedBody(c cfg, es []dsio.Entry, fault, cut bool) []byte {
	buf := &bytes.Buffer{}
	switch c.Fmt {
	case "json":
		d, err := c.encode(es)
		if err != nil {
			fail(err)
		}
		d = bytes.TrimRight(d, " \n\t")
		buf.Write(d[:len(d)-1])
		if (fault || cut) && len(es) == 0 {
			return buf.Bytes()
		}
		if (fault || cut) && len(es)%2 == 0 {
			// right after a comma the reader takes the missing value for null,
			// which the repository's own tests lock, so never stop there
			return buf.Bytes()
		}
		if len(es) > 0 {
			buf.WriteByte(',')
		}
		if c.Tlt == "object" {
			buf.WriteString(`"bad":`)
		}
		buf.WriteString("tru")
		if fault || cut {
			return buf.Bytes()
		}
		buf.WriteByte(d[len(d)-1])
	case "ndjson", "csv":
		d, err := c.encode(es)
		if err != nil {
			fail(err)
		}
		buf.Write(d)
		if !fault {
			buf.WriteString("{\"a\": \"b\"\"\n")
		}
	case "cbor":
		base := byte(0x80)
		if c.Tlt == "object" {
			base = 0xa0
		}
		if cut && len(es)%2 == 0 {
			// one more entry announced than there is
			buf.Write([]byte{base | 0x19, byte((len(es) + 1) >> 8), byte(len(es) + 1)})
		} else {
			buf.WriteByte(base | 0x1f)
		}
		for _, e := range es {
			enc := codec.NewEncoder(buf, &codec.CborHandle{})
			if c.Tlt == "object" {
				enc.Encode(e.Key)
			}
			enc.Encode(e.Value)
		}
		if !fault && !cut {
			buf.WriteByte(0x1c)
		}
	}
	return buf.Bytes()
}

func sizeOf(r *rand.Rand) (hi, lo int) {
	switch r.Intn(7) {
	case 0:
		return 0, r.Intn(1030)
	case 1:
		return 0, []int{0, 1, 2, 1023, 1024, 1025, 2047, 2048, 1048575}[r.Intn(9)]
	case 2:
		return []int{1, 2, 1023, 1024, 1025, 2047, 2048}[r.Intn(7)], r.Intn(1048576)
	case 3:
		return []int{1048575, 1048576, 1048577, 2097151, 2097152}[r.Intn(5)], r.Intn(2) * 1048575
	case 4:
		return []int{1073741823, 1073741824, 1073741825, 2147483647}[r.Intn(4)], r.Intn(2) * 1048575
	}
	return r.Intn(1 << uint(r.Intn(31))), r.Intn(1048576)
}

func (v *viewSess) genPieces(n int, plain, obj bool) string {
	r := v.R
	v.pieces = []M{}
	parts := []string{}
	add := func(t string, m M) {
		parts = append(parts, t)
		v.pieces = append(v.pieces, m)
	}
	bad := r.Intn(8) == 0
	// a script may define what a predefined template defines
	pre, hello := "", "hello you"
	if r.Intn(3) == 0 {
		pre, hello = `{{ define "greet" }}welcome {{ . }}{{ end }}`, "welcome you"
	}
	for i := r.Intn(6); i >= 0; i-- {
		switch r.Intn(10) {
		case 0:
			add("some text", M{"k": "lit", "text": "some text"})
		case 1:
			add(`{{ template "greet" "you" }}`, M{"k": "lit", "text": hello})
		case 2:
			add("{{ title }}", M{"k": "title"})
		case 3:
			add([]string{"{{ ds.name }}", "{{ .Name }}"}[r.Intn(2)], M{"k": "name"})
		case 4:
			hi, lo := sizeOf(r)
			add(fmt.Sprintf("{{ filesize %d }}", int64(hi)<<20+int64(lo)), M{"k": "size", "hi": hi, "lo": lo})
		case 5:
			lit := [][2]interface{}{{`"x"`, "x"}, {"true", true}, {"5", int64(5)}, {"5.5", 5.5}, {"ds", map[string]interface{}{}}}[r.Intn(5)]
			ty := []string{"string", "object", "array", "boolean", "number"}[r.Intn(5)]
			if bad && r.Intn(3) == 0 {
				ty = "date"
			}
			add(fmt.Sprintf("{{ isType %s %q }}", lit[0], ty), M{"k": "istype", "tok": toks(lit[1])[0], "type": ty})
		case 6:
			ty := []string{"string", "object", "array", "boolean", "number"}[r.Intn(5)]
			add(fmt.Sprintf("{{ range allBodyEntries }}{{ isType . %q }};{{ end }}", ty), M{"k": "types", "type": ty})
		case 7:
			off, lim := r.Intn(n+3), r.Intn(n+3)
			if r.Intn(4) == 0 {
				lim = -1
			}
			add(fmt.Sprintf("{{ len (bodyEntries %d %d) }}", off, lim), M{"k": "count", "offset": off, "limit": lim})
		default:
			if !plain {
				continue
			}
			off, lim := r.Intn(n+3), r.Intn(n+3)
			e := fmt.Sprintf("bodyEntries %d %d", off, lim)
			if r.Intn(4) == 0 {
				off, lim = 0, -1
				e = []string{"bodyEntries 0 -1", "allBodyEntries"}[r.Intn(2)]
			}
			t := "{{ range " + e + " }}{{ . }};{{ end }}"
			if obj {
				t = "{{ range $k, $v := " + e + " }}{{ $k }}={{ $v }};{{ end }}"
			}
			add(t, M{"k": "entries", "offset": off, "limit": lim})
		}
	}
	if bad && r.Intn(2) == 0 {
		add([]string{"{{ nope }}", "{{ if }}", "{{ title"}[r.Intn(3)], M{"k": "bad"})
	}
	if len(parts) == 0 {
		add("x", M{"k": "lit", "text": "x"})
	}
	return pre + strings.Join(parts, "|")
}

// newView makes a dataset with n entries
func newView(s *Sess, n int, damage bool) *viewSess {
	r := s.R
	v := &viewSess{Sess: s, ds: &dataset.Dataset{Name: "name", Peername: "peer"}}
	fmts := []string{"json", "ndjson", "cbor", "csv"}
	if !damage && r.Intn(6) == 0 {
		fmts = []string{"xlsx"}
	}
	c := genCfg(r, fmts)
	c.Pretty, c.Size, c.Lazy, c.Var = "", 0, false, false
	if c.Fmt == "csv" || c.Fmt == "xlsx" {
		c.Types = []string{"string", "integer", "number", "boolean"}[:1+r.Intn(4)]
	}
	if damage {
		c.Comp, c.Buf = "", false
	}
	v.c = c
	plain := !c.tabular() && r.Intn(2) == 0
	es := make([]dsio.Entry, n)
	evs := []M{}
	for i := range es {
		es[i].Index = i
		switch {
		case c.tabular():
			es[i].Value = simpleRow(r, c)
		case plain:
			es[i].Value = plainValue(r)
		default:
			es[i].Value = simpleValue(r, 2)
		}
		if c.Tlt == "object" {
			es[i].Key = fmt.Sprint("k", i)
		}
		m := flatEnt(es[i])
		m["text"] = ""
		if plain {
			m["text"] = plainText(es[i].Value)
			if c.Tlt == "object" {
				m["text"] = es[i].Key + "=" + plainText(es[i].Value)
			}
		}
		evs = append(evs, m)
	}
	ioFault := damage && r.Intn(2) == 0
	hasBody := r.Intn(12) > 0
	if hasBody {
		v.body = &vfile{path: []string{"body." + c.Fmt, "/mem/Qm/body." + c.Fmt}[r.Intn(2)], fault: ioFault, size: r.Intn(2) == 0}
		if damage {
			v.body.data = damagedBody(c, es, ioFault, !ioFault && r.Intn(2) == 0)
		} else {
			d, err := c.encode(es)
			if err != nil {
				fail(err)
			}
			v.body.data = d
		}
		v.setBody()
	}
	if r.Intn(12) > 0 {
		v.ds.Structure = c.st()
	}
	if r.Intn(3) > 0 {
		v.ds.Readme = &dataset.Readme{Format: "md"}
		k := []int{0, 1, 20, 995, 996, 997, 998, 999, 1000, 1001, 1500, 4000}[r.Intn(12)]
		b := &bytes.Buffer{}
		for b.Len() < k {
			b.WriteString([]string{"word ", "é", "日", "😀", "\n", "<b>"}[r.Intn(6)])
		}
		v.readme = &vfile{path: "/mem/readme.md", data: b.Bytes()[:k], size: r.Intn(2) == 0}
		if r.Intn(10) == 0 && k < 990 {
			v.readme.fault = true
		}
		v.setReadme()
	}
	title := []string{"", "A title", "Fish & <b>chips</b>"}[r.Intn(3)]
	if r.Intn(3) > 0 {
		v.ds.Meta = &dataset.Meta{Title: title, Keywords: []string{"k"}}
	} else {
		title = ""
	}
	if r.Intn(2) == 0 {
		v.ds.Commit = &dataset.Commit{Title: "commit", Author: &dataset.User{ID: "me"}}
	}
	if r.Intn(2) == 0 {
		v.ds.Stats = &dataset.Stats{Qri: "sa:0", Stats: []interface{}{map[string]interface{}{"count": 1.0}}}
	}
	format := ""
	if r.Intn(5) > 0 {
		format = []string{"html", "html", "html", "html", "html", "html", "md", ""}[r.Intn(8)]
		v.ds.Viz = &dataset.Viz{Format: format}
		text := v.genPieces(n, plain, c.Tlt == "object")
		if r.Intn(10) > 0 {
			v.script = &vfile{path: []string{"/mem/Qm/viz.html", "viz.html"}[r.Intn(2)], data: []byte(text), size: r.Intn(2) == 0, fault: r.Intn(12) == 0}
			v.setScript()
		}
	}
	if v.pieces == nil {
		v.pieces = []M{}
	}
	text := []int{}
	if v.readme != nil {
		for _, b := range v.readme.data {
			text = append(text, int(b))
		}
	}
	s.Ev("begin", M{"cfg": c.begin(), "es": evs, "d": M{
		"nothing": false, "damage": damage, "body": hasBody, "structure": v.ds.Structure != nil,
		"readme": v.readme != nil, "readmefault": v.readme != nil && v.readme.fault, "text": text,
		"viz": v.ds.Viz != nil, "format": format, "script": v.script != nil, "scriptfault": v.script != nil && v.script.fault,
		"title": template.HTMLEscapeString(title), "slug": "peer/name", "name": "name", "pieces": v.pieces,
		"files": M{"body": v.body.ev(), "readme": v.readme.ev(), "script": v.script.ev()}, "others": v.others(),
	}})
	return v
}

func runViews(h *H) {
	dsviz.PredefinedHTMLTemplates = map[string]string{"greetings": `{{ define "greet" }}hello {{ . }}{{ end }}`}
	for i, sc := range h.Scens {
		ops, _ := sc["ops"].([]interface{})
		n := int(sc["n"].(float64))
		damage := i%4 == 0
		if !h.Thorough() && i%2 == 1 {
			continue
		}
		h.Add("scen", func(s *Sess) {
			v := newView(s, n, damage)
			for _, o := range ops {
				switch o.(string) {
				case "preview":
					v.preview()
				case "broken":
					// something else reads the files
					v.files()
				default:
					v.render()
				}
			}
			v.files()
		})
	}
	for i := 0; i < h.N(500, 8000); i++ {
		h.Add("random", func(s *Sess) {
			n := []int{s.R.Intn(8), s.R.Intn(8), s.R.Intn(30), 98 + s.R.Intn(6)}[s.R.Intn(4)]
			v := newView(s, n, s.R.Intn(4) == 0)
			for k := 1 + s.R.Intn(4); k > 0; k-- {
				switch s.R.Intn(5) {
				case 0, 1:
					v.preview()
				case 2, 3:
					v.render()
				case 4:
					v.files()
				}
			}
			v.files()
		})
	}
	h.Add("nothing", func(s *Sess) {
		none := (*vfile)(nil).ev()
		s.Ev("begin", M{"cfg": cfg{}.begin(), "es": []M{}, "d": M{"nothing": true, "damage": false, "body": false, "structure": false,
			"readme": false, "readmefault": false, "text": []int{}, "viz": false, "format": "", "script": false, "scriptfault": false,
			"title": "", "slug": "", "name": "", "pieces": []M{}, "others": "", "files": M{"body": none, "readme": none, "script": none}}})
		v := &viewSess{Sess: s, ds: &dataset.Dataset{}}
		v.preview()
		v.render()
		v.files()
		v.ds = nil
		v.preview()
	})
}
