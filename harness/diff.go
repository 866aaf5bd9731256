package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsdiff"
)

func init() { runners["C24"] = runDiff }

var (
	ansi      = regexp.MustCompile("\x1b\\[[0-9;]*m")
	simpleRe  = regexp.MustCompile(`^(\w+) Changed\. \((\d+) change(s?)\)$`)
	listRe    = regexp.MustCompile(`^(\w+): (\d+) change(s?)((\n\t- modified .*)+)$`)
	depth1    = regexp.MustCompile(`^([ +-])  "(.*?)": `)
	noSummary = M{"kind": "", "n": 0, "plural": false}
)

func lowerFirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

func summary(re *regexp.Regexp, t string) (M, []string) {
	if t == "" {
		return noSummary, []string{}
	}
	m := re.FindStringSubmatch(t)
	if m == nil {
		return M{"kind": "unreadable", "n": 0, "plural": false}, []string{}
	}
	n, _ := strconv.Atoi(m[2])
	names := []string{}
	if len(m) > 4 {
		for _, l := range strings.Split(m[4], "\n\t- modified ")[1:] {
			names = append(names, txt(l))
		}
	}
	return M{"kind": lowerFirst(m[1]), "n": n, "plural": m[3] == "s"}, names
}

func hasBreaks(j []byte) bool { return strings.Contains(string(j), `\n`) }

// diffSays gives all there is to see of a difference
func diffSays(d *dsdiff.SubDiff, breaks bool) M {
	m := M{"modified": false, "count": -1, "encoded": -1, "texts": []string{}, "got": []M{}, "names": []string{}, "minus": []string{}, "plus": []string{}, "inside": []string{}, "colors": false, "lines": false, "other": "?"}
	m["shown"] = call(func() error {
		m["modified"], m["count"] = d.Modified(), len(d.Deltas())
		b, err := json.Marshal(d)
		if err != nil {
			return err
		}
		var l []interface{}
		if err := json.Unmarshal(b, &l); err != nil {
			return err
		}
		m["encoded"] = len(l)
		texts := []string{}
		for _, how := range []string{"simple", "listKeys", "delta", "plusMinus", "plusMinusColor", "other"} {
			t, err := d.SummarizeToString(how)
			if err != nil {
				return err
			}
			texts = append(texts, t)
		}
		m["texts"] = []string{clip(texts[0], 1), clip(texts[1], 1), clip(texts[2], 1), clip(texts[3], 1)}
		m["simple"], _ = summary(simpleRe, texts[0])
		m["list"], m["names"] = summary(listRe, texts[1])
		if texts[2] != "" {
			var x map[string]interface{}
			if err := json.Unmarshal([]byte(texts[2]), &x); err != nil {
				return err
			}
			got := []M{}
			for k, v := range x {
				g := M{"name": txt(k), "kind": "changed", "old": "?", "new": "?"}
				if l, ok := v.([]interface{}); ok {
					switch {
					case len(l) == 1:
						g["kind"], g["old"], g["new"] = "added", "none", jtext(l[0])
					case len(l) == 2:
						g["old"], g["new"] = jtext(l[0]), jtext(l[1])
					case len(l) == 3 && l[2] == 0.0:
						g["kind"], g["old"], g["new"] = "deleted", jtext(l[0]), "none"
					}
				}
				got = append(got, g)
			}
			m["got"] = got
		}
		minus, plus, inside := []string{}, []string{}, []string{}
		at := ""
		for _, l := range strings.Split(texts[3], "\n") {
			if x := depth1.FindStringSubmatch(l); x != nil {
				at = x[2]
				if x[1] == "-" {
					minus = append(minus, txt(at))
				} else if x[1] == "+" {
					plus = append(plus, txt(at))
				}
			} else if strings.HasPrefix(l, "-") || strings.HasPrefix(l, "+") {
				inside = append(inside, txt(at))
			}
		}
		m["minus"], m["plus"], m["inside"] = minus, plus, inside
		// texts are printed as they are, their lines are not told from others
		m["lines"] = breaks
		m["colors"] = ansi.ReplaceAllString(texts[4], "") == texts[3] && strings.Contains(texts[4], "\x1b[")
		m["other"] = texts[5]
		return nil
	})
	return m
}

func diffComp(s *Sess, a, b *dataset.Dataset, c string) {
	get := func(d *dataset.Dataset) fields {
		f, _ := projComp(d, c)
		if f == nil {
			f = fields{}
		}
		return f
	}
	l, r := get(a), get(b)
	var d *dsdiff.SubDiff
	res := call(func() (err error) {
		switch c {
		case "structure":
			d, err = dsdiff.DiffStructure(a.Structure, b.Structure)
		case "meta":
			d, err = dsdiff.DiffMeta(a.Meta, b.Meta)
		case "transform":
			d, err = dsdiff.DiffTransform(a.Transform, b.Transform)
		case "viz":
			d, err = dsdiff.DiffViz(a.Viz, b.Viz)
		}
		return
	})
	m := M{}
	if res == "ok" {
		x, _ := json.Marshal([]interface{}{a, b})
		m = diffSays(d, hasBreaks(x))
	}
	m["c"], m["l"], m["r"], m["res"] = c, l, r, res
	m["after"] = reflect.DeepEqual(get(a), l) && reflect.DeepEqual(get(b), r)
	s.Ev("diff", m)
}

func diffDocs(s *Sess, a, b *dataset.Dataset) {
	l, r := projDoc(a), projDoc(b)
	var ds map[string]*dsdiff.SubDiff
	res := call(func() (err error) { ds, err = dsdiff.DiffDatasets(a, b, nil); return })
	keys, mod := []string{}, []string{}
	for k, d := range ds {
		keys = append(keys, k)
		if d.Modified() {
			mod = append(mod, k)
		}
	}
	text := func(how string) string {
		t := ""
		if x := call(func() (err error) { t, err = dsdiff.MapDiffsToString(ds, how); return }); x != "ok" {
			return x
		}
		return t
	}
	simple, _ := summary(simpleRe, text("simple"))
	list, _ := summary(listRe, text("listKeys"))
	s.Ev("docs", M{"l": l, "r": r, "res": res, "keys": keys, "modified": mod, "simple": simple, "list": list, "other": text("other"),
		"after": reflect.DeepEqual(projDoc(a), l) && reflect.DeepEqual(projDoc(b), r)})
}

func diffJSON(s *Sess, a, b map[string]interface{}, bad bool) {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	if bad {
		w := []string{"", "[1]", "{", "\"a\"", "{\"a\":}", "3"}[s.R.Intn(6)]
		if s.R.Intn(2) == 0 {
			x = []byte(w)
		} else {
			y = []byte(w)
		}
	}
	var d *dsdiff.SubDiff
	res := call(func() (err error) { d, err = dsdiff.DiffJSON(x, y, "thing"); return })
	m := M{}
	if res == "ok" {
		m = diffSays(d, hasBreaks(x) || hasBreaks(y))
	}
	m["c"], m["l"], m["r"], m["res"], m["bad"] = "thing", mapField(a), mapField(b), res, bad
	s.Ev("json", m)
}

// longPaths makes all locations more than a letter
func longPaths(ds *dataset.Dataset) *dataset.Dataset {
	fix := func(p *string) {
		if len(*p) == 1 {
			*p = "/ipfs/" + *p
		}
	}
	if ds.Structure != nil {
		fix(&ds.Structure.Path)
	}
	if ds.Meta != nil {
		fix(&ds.Meta.Path)
	}
	if ds.Transform != nil {
		fix(&ds.Transform.Path)
	}
	if ds.Viz != nil {
		fix(&ds.Viz.Path)
	}
	return ds
}

// nears make values of scenarios that differ in little
var nears = func() (l []func(string) string) {
	for _, p := range [][2]string{{"a", "b"}, {"/ipfs/QmA", "/ipfs/Qma"}, {"/ipfs/QmA", "/ipfs/QmA/"}, {"x/a", "a"}, {"a b", "a  b"}, {"0", "00"}, {"é", "e\u0301"}} {
		p := p
		l = append(l, func(v string) string {
			switch v {
			case "a":
				return p[0]
			case "b":
				return p[1]
			}
			return v
		})
	}
	return
}()

// orderDocs gives documents whose components differ in as many names as said
func orderDocs(o map[string]interface{}) (a, b *dataset.Dataset) {
	n := func(c string) int { f, _ := o[c].(float64); return int(f) }
	put := func(c string, fs ...*string) {
		for i := 0; i < n(c); i++ {
			*fs[i] = "x"
		}
	}
	mk := func() *dataset.Dataset {
		return &dataset.Dataset{Structure: &dataset.Structure{Format: "json"}, Meta: &dataset.Meta{Qri: "md:0", License: &dataset.License{Type: "x"}}, Transform: &dataset.Transform{Qri: "tf:0"}, Viz: &dataset.Viz{Qri: "vz:0"}}
	}
	a, b = mk(), mk()
	put("structure", &b.Structure.Checksum, &b.Structure.Compression, &b.Structure.Encoding)
	put("meta", &b.Meta.Title, &b.Meta.Description, &b.Meta.HomeURL)
	put("transform", &b.Transform.Text, &b.Transform.Syntax, &b.Transform.SyntaxVersion)
	put("viz", &b.Viz.Format, &b.Viz.Text, &b.Viz.ScriptPath)
	return
}

func runDiff(h *H) {
	comps := []string{"structure", "meta", "transform", "viz"}
	for k, sc := range h.Scens {
		if k%50 != 0 {
			continue
		}
		k := k
		_ = sc
		h.Add("scen", func(s *Sess) {
			s.Ev("begin", M{})
			for i := k; i < k+50 && i < len(h.Scens); i++ {
				if o, ok := h.Scens[i]["order"].(map[string]interface{}); ok {
					a, b := orderDocs(o)
					diffDocs(s, a, b)
					diffDocs(s, b, a)
					continue
				}
				c := h.Scens[i]["c"].(string)
				near := nears[(k/50+i)%len(nears)]
				mk := func(x interface{}) *dataset.Dataset {
					f, _ := x.(map[string]interface{})
					get := func(k string) string { v, _ := f[k].(string); return near(strings.Trim(v, `"`)) }
					ds := &dataset.Dataset{}
					switch c {
					case "structure":
						ds.Structure = &dataset.Structure{Path: get("path"), Checksum: get("checksum"), Compression: get("compression")}
					case "meta":
						ds.Meta = &dataset.Meta{Path: get("path"), Description: get("description"), Title: get("title"), Qri: get("qri")}
						o, _ := f["meta"].(map[string]interface{})
						for k, v := range o {
							ds.Meta.SetArbitrary(k, near(strings.Trim(v.(string), `"`)))
						}
					case "transform":
						ds.Transform = &dataset.Transform{Path: get("path"), ScriptPath: get("scriptPath"), Text: get("text")}
					case "viz":
						ds.Viz = &dataset.Viz{Path: get("path"), ScriptPath: get("scriptPath"), Format: get("format")}
					}
					return longPaths(ds)
				}
				diffComp(s, mk(h.Scens[i]["t"]), mk(h.Scens[i]["u"]), c)
			}
		})
	}
	eachSingle(h, "single", func(s *Sess, mk func() *dataset.Dataset) {
		s.Ev("begin", M{})
		full := longPaths(genDoc(s.R, docOpt{fill: 60, comps: 100}))
		for _, c := range comps {
			diffComp(s, longPaths(mk()), &dataset.Dataset{}, c)
			diffComp(s, &dataset.Dataset{}, longPaths(mk()), c)
			diffComp(s, longPaths(mk()), full, c)
		}
		diffDocs(s, longPaths(mk()), &dataset.Dataset{})
		diffDocs(s, full, longPaths(mk()))
	})
	for i := 0; i < h.N(300, 40000); i++ {
		h.Add("random", func(s *Sess) {
			s.Ev("begin", M{})
			o := pickOpt(s.R, false)
			a, b := longPaths(genDoc(s.R, o)), longPaths(genDoc(s.R, pickOpt(s.R, false)))
			switch s.R.Intn(3) {
			case 0: // the same, made again
				seed := s.R.Int63()
				a, b = longPaths(genDoc(rand.New(rand.NewSource(seed)), o)), longPaths(genDoc(rand.New(rand.NewSource(seed)), o))
			case 1: // few differences
				seed := s.R.Int63()
				a, b = longPaths(genDoc(rand.New(rand.NewSource(seed)), o)), longPaths(genDoc(rand.New(rand.NewSource(seed)), o))
				b.Assign(longPaths(genDoc(s.R, docOpt{fill: 8, comps: 50})))
			}
			for _, c := range comps {
				diffComp(s, a, b, c)
			}
			diffDocs(s, a, b)
			x, y := docMap(s.R, 3), docMap(s.R, 3)
			diffJSON(s, x, y, false)
			for k, v := range y {
				if s.R.Intn(2) == 0 {
					x[k] = v
				}
			}
			diffJSON(s, x, y, false)
			diffJSON(s, x, x, false)
			diffJSON(s, x, y, true)
		})
	}
}
