package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/jsonschema"
)

func init() { runners["C22"] = runTabular }

// tfield is a field of a column in a schema
type tfield struct {
	Has  string   `json:"has"`
	Text string   `json:"text"`
	List []tfield `json:"list"`
}

// tcol is a column in a schema
type tcol struct {
	Object bool       `json:"object"`
	Title  tfield     `json:"title"`
	Type   tfield     `json:"type"`
	Desc   tfield     `json:"desc"`
	Rest   [][]string `json:"rest"`
}

// val gives the value of a field, some other value when it is "other"
func (f tfield) val(r *rand.Rand) interface{} {
	switch f.Has {
	case "text":
		return f.Text
	case "list":
		l := []interface{}{}
		for _, x := range f.List {
			l = append(l, x.val(r))
		}
		return l
	}
	return []interface{}{nil, 5.0, true, map[string]interface{}{"type": "string"}}[r.Intn(4)]
}

func (c tcol) schema(r *rand.Rand) interface{} {
	if !c.Object {
		return []interface{}{nil, false, "string", 5.0, []interface{}{map[string]interface{}{}}}[r.Intn(5)]
	}
	m := map[string]interface{}{}
	for _, p := range c.Rest {
		var v interface{}
		if err := json.Unmarshal([]byte(p[1]), &v); err != nil {
			fail(err)
		}
		m[p[0]] = v
	}
	for k, f := range map[string]tfield{"title": c.Title, "type": c.Type, "description": c.Desc} {
		if f.Has != "no" {
			m[k] = f.val(r)
		}
	}
	return m
}

func textField(s string) tfield { return tfield{"text", s, []tfield{}} }

var noField = tfield{"no", "", []tfield{}}

var tabTypes = []string{"string", "integer", "number", "boolean", "null", "object", "array"}

func genCol(r *rand.Rand) tcol {
	c := tcol{Object: r.Intn(12) > 0, Title: noField, Type: noField, Desc: noField, Rest: [][]string{}}
	if !c.Object {
		return c
	}
	field := func() tfield {
		switch r.Intn(6) {
		case 0:
			return noField
		case 1:
			return tfield{"other", "", []tfield{}}
		}
		return textField(genTitle(r))
	}
	c.Title, c.Desc = field(), field()
	ty := func() tfield {
		if r.Intn(8) == 0 {
			return textField([]string{"", "date", "String", "a\"b", "\\", "a\nb", "<é>", "null "}[r.Intn(8)])
		}
		return textField(tabTypes[r.Intn(7)])
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		c.Type = tfield{"other", "", []tfield{}}
	case 2, 3:
		c.Type = tfield{"list", "", []tfield{}}
		for i := r.Intn(4); i > 0; i-- {
			x := ty()
			if r.Intn(6) == 0 {
				x = tfield{"other", "", []tfield{}}
			}
			c.Type.List = append(c.Type.List, x)
		}
	default:
		c.Type = ty()
	}
	for _, k := range []string{"Title", "enum", "format", "items", "maximum", "types"} {
		if r.Intn(8) == 0 {
			c.Rest = append(c.Rest, []string{k, []string{"5", "[1]", "null", "{\"a\":\"title\"}", "\"x\""}[r.Intn(5)]})
		}
	}
	return c
}

func genTitle(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return []string{"", "a", "b", "A", "a b", "a1", "1a", "$a", "_", "$", "a-b", "a.b", "é", "aé", "a\n", "\na", " a", "a ", "col_0", "col_1", "a$_9", "日本", "\x00"}[r.Intn(23)]
	case 1:
		return genString(r, prof{})
	}
	return string("abcxyzABCXYZ_$"[r.Intn(14)]) + strconv.Itoa(r.Intn(30))
}

// tschema is a schema: a table unless parts are missing
type tschema struct {
	Top   string `json:"top"`
	Items bool   `json:"items"`
	List  bool   `json:"list"`
	Cols  []tcol `json:"cols"`
}

func (t tschema) schema(r *rand.Rand) map[string]interface{} {
	m := map[string]interface{}{}
	if t.Top != "" {
		m["type"] = t.Top
	} else if r.Intn(2) == 0 {
		m["type"] = []interface{}{"array"}
	}
	list := []interface{}{}
	for _, c := range t.Cols {
		list = append(list, c.schema(r))
	}
	items := map[string]interface{}{"type": "array", "items": list}
	if !t.List {
		switch r.Intn(3) {
		case 0:
			delete(items, "items")
		case 1:
			items["items"] = map[string]interface{}{"type": "string"}
		case 2:
			items["items"] = "string"
		}
	}
	m["items"] = items
	if !t.Items {
		switch r.Intn(3) {
		case 0:
			delete(m, "items")
		case 1:
			m["items"] = list
		case 2:
			m["items"] = true
		}
	}
	return m
}

var colNumber = regexp.MustCompile(`[0-9]+`)

// tproblems gives column and topic of problems
func tproblems(ps []string, topics map[string]string) [][]interface{} {
	out := [][]interface{}{}
	for _, p := range ps {
		n := -1
		if x := colNumber.FindString(p); x != "" {
			n, _ = strconv.Atoi(x)
		}
		topic := "?"
		for w, t := range topics {
			if strings.Contains(p, w) {
				topic = t
			}
		}
		out = append(out, []interface{}{n, topic})
	}
	return out
}

func tcolumns(cols tabular.Columns) []M {
	out := []M{}
	for _, c := range cols {
		types := []string{}
		if c.Type != nil {
			types = append(types, *c.Type...)
		}
		rest := [][]string{}
		keys := []string{}
		for k := range c.Validation {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			d, _ := json.Marshal(c.Validation[k])
			rest = append(rest, []string{k, string(d)})
		}
		out = append(out, M{"title": c.Title, "types": types, "desc": c.Description, "rest": rest})
	}
	return out
}

func tabColumns(s *Sess, t tschema) {
	sch := t.schema(s.R)
	before, _ := json.Marshal(sch)
	var cols tabular.Columns
	var problems []string
	res := call(func() (err error) { cols, problems, err = tabular.ColumnsFromJSONSchema(sch); return })
	if res == "err" {
		if _, _, err := tabular.ColumnsFromJSONSchema(sch); errors.Is(err, tabular.ErrInvalidTabularSchema) {
			res = "invalid"
		}
	}
	after, _ := json.Marshal(sch)
	if !bytes.Equal(before, after) {
		res = "changed the schema"
	}
	m := M{"schema": t, "res": res, "cols": tcolumns(cols), "problems": tproblems(problems, map[string]string{"object": "object", "title": "title", "type is": "type"}), "titles": []string{}, "back": []M{}}
	if res == "ok" {
		m["titles"] = cols.Titles()
		d, err := json.Marshal(cols)
		if err == nil {
			var again tabular.Columns
			// what is decoded into may be held by others
			held := []tabular.ColType{}
			for range cols {
				ct := tabular.ColType{"held", "by", "others"}
				held = append(held, ct)
				again = append(again, tabular.Column{Type: &ct})
			}
			if s.R.Intn(2) == 0 {
				again = nil
			}
			if json.Unmarshal(d, &again) == nil {
				m["back"] = tcolumns(again)
			}
			for _, ct := range held {
				if strings.Join(ct, " ") != "held by others" {
					m["back"] = "overwrote the types of others"
				}
			}
		}
	}
	s.Ev("columns", m)
}

func nameLike(t string) bool {
	for i, r := range t {
		ok := r == '_' || r == '$' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9'
		if !ok {
			return false
		}
	}
	return t != ""
}

func tabTitles(s *Sess, titles []string) {
	cols := tabular.Columns{}
	ev := []M{}
	for _, t := range titles {
		cols = append(cols, tabular.Column{Title: t})
		ev = append(ev, M{"text": txt(t), "name": nameLike(t)})
	}
	err := cols.ValidMachineTitles()
	res := "ok"
	problems := []string{}
	if err != nil {
		res = "err"
		if errors.Is(err, tabular.ErrInvalidTabularSchema) {
			res = "invalid"
		}
		for _, l := range strings.Split(err.Error(), "\ncol")[1:] {
			problems = append(problems, l)
		}
	}
	s.Ev("titles", M{"titles": ev, "res": res, "problems": tproblems(problems, map[string]string{"not a valid": "valid", "not unique": "unique"})})
}

func tcell(v interface{}) M {
	m := M{"k": toks(v)[0]["k"], "len": 0, "plain": true}
	if x, ok := v.(string); ok {
		m["len"] = len(x)
		m["plain"] = regexp.MustCompile(`^[a-zA-Z0-9]*$`).MatchString(x)
	}
	return m
}

func tabGenerate(s *Sess, t tschema) {
	st := &dataset.Structure{Format: "json", Schema: t.schema(s.R)}
	max := 64
	opts := []func(*generate.Config){}
	if s.R.Intn(2) == 0 {
		opts = append(opts, generate.AssignMaxLen)
		max = 8
	}
	seeded := s.R.Intn(2) == 0
	if seeded {
		opts = append(opts, generate.AssignSeed)
	}
	var g *generate.TabularGenerator
	res := call(func() (err error) { g, err = generate.NewTabularGenerator(st, opts...); return })
	s.Ev("generator", M{"schema": t, "res": res})
	if res != "ok" {
		return
	}
	n := 5 + s.R.Intn(10)
	rows := []interface{}{}
	texts := [][]byte{}
	for i := 0; i < n; i++ {
		var e dsio.Entry
		res := call(func() (err error) { e, err = g.ReadEntry(); return })
		row := []M{}
		cells, _ := e.Value.([]interface{})
		for _, c := range cells {
			row = append(row, tcell(c))
		}
		rows = append(rows, e.Value)
		d, _ := json.Marshal(e.Value)
		texts = append(texts, d)
		s.Ev("row", M{"res": res, "row": row, "index": e.Index, "key": e.Key, "n": i, "max": max})
	}
	for i := range rows {
		// rows stay as they are when more are made
		d, _ := json.Marshal(rows[i])
		s.Ev("same", M{"same": bytes.Equal(d, texts[i])})
	}
	if g.Structure() != st || g.Close() != nil {
		s.Ev("same", M{"same": false})
	}
	if seeded {
		g2, err := generate.NewTabularGenerator(st, opts...)
		if err != nil {
			fail(err)
		}
		rows2 := []interface{}{}
		for i := 0; i < n; i++ {
			e, _ := g2.ReadEntry()
			rows2 = append(rows2, e.Value)
		}
		a, _ := json.Marshal(rows)
		b, _ := json.Marshal(rows2)
		s.Ev("same", M{"same": bytes.Equal(a, b)})
	}
	if s.R.Intn(4) == 0 {
		width := 0
		if len(rows) > 0 {
			width = len(rows[0].([]interface{}))
		}
		differ := make([]bool, width)
		var first []interface{}
		count := 100
		if width < 8 && s.R.Intn(4) == 0 {
			count = 3000
		}
		for i := 0; i < count; i++ {
			e, err := g.ReadEntry()
			if err != nil {
				fail(err)
			}
			if e.Index != n+i || e.Key != "" {
				s.Ev("same", M{"same": false})
			}
			row := e.Value.([]interface{})
			if first == nil {
				first = row
			}
			for k := range row {
				if toks(row[k])[0]["v"] != toks(first[k])[0]["v"] {
					differ[k] = true
				}
			}
		}
		s.Ev("many", M{"differ": differ})
	}
}

// tabStore generates rows, writes them in a format, and validates what is read
func tabStore(s *Sess) {
	f := []string{"json", "cbor", "csv", "ndjson", "xlsx"}[s.R.Intn(5)]
	types := tabTypes
	if f == "csv" {
		types = []string{"string", "integer", "number", "boolean", "object", "array"}
	} else if f == "xlsx" {
		types = []string{"string", "integer", "number", "boolean"}
	}
	t := tschema{Top: "array", Items: true, List: true, Cols: []tcol{}}
	for i := 1 + s.R.Intn(5); i > 0; i-- {
		t.Cols = append(t.Cols, tcol{Object: true, Title: textField(fmt.Sprintf("c%d", i)), Type: textField(types[s.R.Intn(len(types))]), Desc: noField, Rest: [][]string{}})
	}
	st := &dataset.Structure{Format: f, Schema: t.schema(s.R)}
	if f == "csv" && s.R.Intn(2) == 0 {
		st.FormatConfig = map[string]interface{}{"headerRow": true}
	}
	n := s.R.Intn(40)
	rows := 0
	var errs []jsonschema.KeyError
	res := call(func() error {
		g, err := generate.NewTabularGenerator(st)
		if err != nil {
			return err
		}
		buf := &bytes.Buffer{}
		w, err := dsio.NewEntryWriter(st, buf)
		if err != nil {
			return err
		}
		if err := dsio.Copy(&dsio.PagedReader{Reader: g, Limit: n}, w); err != nil {
			return err
		}
		if err := w.Close(); err != nil {
			return err
		}
		d := buf.Bytes()
		r, err := dsio.NewEntryReader(st, bytes.NewReader(d))
		if err != nil {
			return err
		}
		if errs, err = validate.EntryReader(r); err != nil {
			return err
		}
		if r, err = dsio.NewEntryReader(st, bytes.NewReader(d)); err != nil {
			return err
		}
		return dsio.EachEntry(r, func(int, dsio.Entry, error) error { rows++; return nil })
	})
	s.Ev("stored", M{"res": res, "errors": len(errs), "rows": rows, "n": n, "fmt": f})
}

func runTabular(h *H) {
	for k, sc := range h.Scens {
		d, _ := json.Marshal(sc)
		x := struct {
			Cols []tcol `json:"cols"`
		}{}
		if err := json.Unmarshal(d, &x); err != nil {
			fail(err)
		}
		k := k
		h.Add("scen", func(s *Sess) {
			s.Ev("begin", M{})
			t := tschema{"array", true, true, x.Cols}
			tabColumns(s, t)
			if k%8 == 0 {
				tabGenerate(s, t)
			}
		})
	}
	for i := 0; i < h.N(250, 5000); i++ {
		h.Add("random", func(s *Sess) {
			s.Ev("begin", M{})
			t := tschema{"array", true, true, []tcol{}}
			n := s.R.Intn(6)
			if s.R.Intn(20) == 0 {
				n = 30 + s.R.Intn(100)
			}
			for i := 0; i < n; i++ {
				t.Cols = append(t.Cols, genCol(s.R))
			}
			if s.R.Intn(8) == 0 {
				switch s.R.Intn(3) {
				case 0:
					t.Top = []string{"", "object", "string", "Array"}[s.R.Intn(4)]
				case 1:
					t.Items = false
				case 2:
					t.List = false
				}
			}
			tabColumns(s, t)
			tabGenerate(s, t)
			titles := []string{}
			for i := s.R.Intn(8); i > 0; i-- {
				titles = append(titles, genTitle(s.R))
			}
			if s.R.Intn(3) == 0 && len(titles) > 0 {
				titles = append(titles, titles[s.R.Intn(len(titles))])
			}
			tabTitles(s, titles)
			types := []string{}
			for i := s.R.Intn(4); i > 0; i-- {
				types = append(types, tabTypes[s.R.Intn(7)])
			}
			for _, ty := range []string{tabTypes[s.R.Intn(7)], "", "String"} {
				s.Ev("has", M{"types": types, "type": ty, "found": tabular.ColType(types).HasType(ty)})
			}
			tabStore(s)
		})
	}
	for c := 0; c < 256; c++ {
		c := c
		h.Add("title", func(s *Sess) {
			s.Ev("begin", M{})
			tabTitles(s, []string{string(rune(c)), "a" + string(rune(c)), "a" + string(rune(c)) + "b"})
		})
	}
	// everything that can be wrong with a schema
	for k := 0; k < 24; k++ {
		k := k
		h.Add("no table", func(s *Sess) {
			s.Ev("begin", M{})
			t := tschema{"array", true, true, []tcol{genCol(s.R)}}
			switch {
			case k < 12:
				t.Top = []string{"", "object", "string", "Array", "array ", "null"}[k%6]
			case k < 18:
				t.Items = false
			default:
				t.List = false
			}
			tabColumns(s, t)
			tabGenerate(s, t)
		})
	}
	h.Add("base", func(s *Sess) {
		s.Ev("begin", M{})
		t := tschema{"array", true, true, []tcol{}}
		tabColumns(s, t)
		tabGenerate(s, t)
	})
}
