package main

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/stepfile"
)

func init() { runners["C25"] = runSteps }

// runes gives a text as the characters it has, or, when it is long, with what
// lies between dashes and line ends as one
func runes(t string) []string { return stepChars(t, len(t) > 400) }

func stepChars(t string, long bool) []string {
	l := []string{}
	for i := 0; i < len(t); {
		n := 1
		if long {
			if k := strings.IndexAny(t[i:], "\n-"); k < 0 {
				n = len(t) - i
			} else if k > 0 {
				n = k
			}
		}
		c := t[i : i+n]
		if n > 1 || c[0] >= 0x80 {
			c = "x" + digest(c)
		}
		l = append(l, c)
		i += n
	}
	return l
}

type stepScript struct {
	kind, text string
	fail       int
	memory     bool
}

var stepErr = errors.New("script fault")

type stepReader struct {
	io.Reader
	i       int
	touched *[]int
}

func (r stepReader) Read(p []byte) (int, error) {
	if n := len(*r.touched); n == 0 || (*r.touched)[n-1] != r.i {
		*r.touched = append(*r.touched, r.i)
	}
	return r.Reader.Read(p)
}

type stepCloser struct {
	stepReader
	closed *[]int
	err    error
}

func (r stepCloser) Close() error { *r.closed = append(*r.closed, r.i); return r.err }

// roomWriter takes a number of bytes
type roomWriter struct {
	bytes.Buffer
	room int
}

func (w *roomWriter) Write(p []byte) (int, error) {
	if w.room >= 0 && w.Len()+len(p) > w.room {
		n := w.room - w.Len()
		w.Buffer.Write(p[:n])
		return n, errors.New("no room")
	}
	return w.Buffer.Write(p)
}

// only Write shows
type plainWriter struct{ w *roomWriter }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

func stepsWrite(s *Sess, ss []stepScript, room int) string {
	w := &roomWriter{room: room}
	touched, closed := []int{}, []int{}
	huge := false
	for _, sc := range ss {
		huge = huge || len(sc.text) > 100000
	}
	steps := []*dataset.TransformStep{}
	said := []M{}
	for i, sc := range ss {
		st := &dataset.TransformStep{Name: "n" + strconv.Itoa(i)}
		mode := byteModes[s.R.Intn(len(byteModes))]
		src := stepReader{&failAfter{&chunkReader{d: []byte(sc.text), mode: mode, r: s.R, fail: -1}, false, nil}, i + 1, &touched}
		if sc.fail >= 0 {
			src.Reader = &failAfter{&chunkReader{d: []byte(sc.text)[:sc.fail], mode: mode, r: s.R, fail: sc.fail, ferr: stepErr}, true, stepErr}
		}
		switch sc.kind {
		case "string":
			st.Script = sc.text
		case "bytes":
			st.Script = []byte(sc.text)
		case "reader":
			st.Script = src
			if sc.fail < 0 && (sc.memory || s.R.Intn(3) == 0) {
				st.Script = []interface{}{strings.NewReader(sc.text), bytes.NewBufferString(sc.text), bytes.NewReader([]byte(sc.text))}[s.R.Intn(3)]
			}
		case "closer":
			st.Script = stepCloser{src, &closed, []error{nil, errors.New("close fault")}[s.R.Intn(2)]}
		default:
			st.Script = []interface{}{nil, 2, 2.5, true, []interface{}{"a"}, map[string]interface{}{"a": 1}, []string{"a"}, struct{}{}, []rune("a"), &sc.text}[s.R.Intn(10)]
		}
		steps = append(steps, st)
		said = append(said, M{"kind": sc.kind, "text": stepChars(sc.text, huge), "fail": sc.fail})
	}
	before := append([]*dataset.TransformStep{}, steps...)
	copies := []dataset.TransformStep{}
	for i, st := range steps {
		c := *st
		if ss[i].kind == "bytes" {
			c.Script = []byte(ss[i].text)
		}
		copies = append(copies, c)
	}
	var to io.Writer = plainWriter{w}
	if room < 0 && s.R.Intn(2) == 0 {
		to = &w.Buffer
	}
	res := call(func() error { return stepfile.Write(steps, to) })
	after := len(steps) == len(before)
	for i := range before {
		after = after && steps[i] == before[i] && steps[i].Name == copies[i].Name
		if k := ss[i].kind; k == "string" || k == "bytes" {
			after = after && reflect.DeepEqual(*steps[i], copies[i])
		}
	}
	s.Ev("write", M{"ss": said, "room": room, "res": res, "out": stepChars(w.String(), huge), "touched": touched, "closed": closed, "after": after})
	return w.String()
}

func stepsRead(s *Sess, text string, fail int, file bool) {
	var steps []*dataset.TransformStep
	res := call(func() (err error) {
		if file {
			d, err := ioutil.TempDir("", "steps")
			if err != nil {
				return err
			}
			defer os.RemoveAll(d)
			p := filepath.Join(d, "steps.txt")
			if err := ioutil.WriteFile(p, []byte(text), 0600); err != nil {
				return err
			}
			steps, err = stepfile.ReadFile(p)
			return err
		}
		src := &chunkReader{d: []byte(text), mode: byteModes[s.R.Intn(len(byteModes))], r: s.R, fail: -1}
		if fail >= 0 {
			src.d, src.fail, src.ferr = src.d[:fail], fail, stepErr
		}
		steps, err = stepfile.Read(&failAfter{src, fail >= 0, stepErr})
		return err
	})
	got, plain := [][]string{}, true
	// a long text is told apart as a whole
	tok := func(t string) []string {
		if len(text) > 400 && len(t) <= 400 {
			t2 := runes(t + "\n" + strings.Repeat("z", 400))
			return t2[:len(t2)-2]
		}
		return runes(t)
	}
	for _, st := range steps {
		t, ok := st.Script.(string)
		c := *st
		c.Script = nil
		plain = plain && ok && reflect.DeepEqual(c, dataset.TransformStep{})
		got = append(got, tok(t))
	}
	s.Ev("read", M{"text": runes(text), "fails": fail >= 0, "res": res, "steps": got, "plain": plain})
}

// stepText is a text with lines of dashes and their likes
func stepText(s *Sess, n int) string {
	b := &strings.Builder{}
	for i := s.R.Intn(n + 1); i > 0; i-- {
		b.WriteString([]string{"\n---\n", "\n---", "---\n", "---", "--", "-", "\n", "\r\n---\r\n", "\n--- \n", "\n----\n", "a", "step", "\"", "é", "\x00", "\xff", " ", "\n--\n", "\n-–-\n", "\n\n"}[s.R.Intn(20)])
	}
	return b.String()
}

func runSteps(h *H) {
	scText := func(x interface{}) string {
		l, _ := x.([]interface{})
		b := &strings.Builder{}
		for _, c := range l {
			b.WriteString(c.(string))
		}
		return b.String()
	}
	for k := range h.Scens {
		if k%100 != 0 {
			continue
		}
		k := k
		h.Add("scen", func(s *Sess) {
			s.Ev("begin", M{})
			for i := k; i < k+100 && i < len(h.Scens); i++ {
				sc := h.Scens[i]
				if l, ok := sc["ss"].([]interface{}); ok {
					ss := []stepScript{}
					for _, x := range l {
						m := x.(map[string]interface{})
						ss = append(ss, stepScript{m["kind"].(string), scText(m["text"]), int(m["fail"].(float64)), false})
					}
					stepsWrite(s, ss, int(sc["room"].(float64)))
				} else if l, ok := sc["scripts"].([]interface{}); ok && len(l) > 0 {
					ss := []stepScript{}
					for _, x := range l {
						ss = append(ss, stepScript{[]string{"string", "bytes", "reader", "closer"}[s.R.Intn(4)], scText(x), -1, false})
					}
					stepsRead(s, stepsWrite(s, ss, -1), -1, false)
				} else {
					t := scText(sc["text"])
					stepsRead(s, t, -1, i%16 == 0)
					if len(t) > 0 && i%4 == 0 {
						stepsRead(s, t, s.R.Intn(len(t)+1), false)
					}
				}
			}
		})
	}
	for i := 0; i < h.N(200, 4000); i++ {
		h.Add("random", func(s *Sess) {
			s.Ev("begin", M{})
			for j := 0; j < 6; j++ {
				ss := []stepScript{}
				total := 0
				for n := s.R.Intn(8); n > 0; n-- {
					sc := stepScript{[]string{"string", "bytes", "reader", "closer"}[s.R.Intn(4)], stepText(s, 8), -1, false}
					if x := s.R.Intn(20); x == 0 {
						sc = stepScript{"bad", "", -1, false}
					} else if x == 1 && len(sc.kind) == 6 && sc.kind != "string" {
						sc.fail = s.R.Intn(len(sc.text) + 1)
					}
					total += len(sc.text) + 5
					ss = append(ss, sc)
				}
				room := -1
				if total > 0 && s.R.Intn(3) == 0 {
					room = s.R.Intn(total + 1)
				}
				t := stepsWrite(s, ss, room)
				stepsRead(s, t, -1, s.R.Intn(6) == 0)
				t = stepText(s, 40)
				stepsRead(s, t, -1, s.R.Intn(6) == 0)
				stepsRead(s, t, s.R.Intn(len(t)+1), false)
			}
			// many and big steps
			b := &strings.Builder{}
			for n := s.R.Intn(120); n > 0; n-- {
				b.WriteString(strings.Repeat("line of text\n", s.R.Intn(40)))
				if s.R.Intn(20) == 0 {
					b.WriteString(strings.Repeat("x", s.R.Intn(90000)))
				}
				b.WriteString([]string{"\n---\n", "\n---\n", "---\n", "\n--\n", "\n---\n---\n"}[s.R.Intn(5)])
			}
			stepsRead(s, b.String(), -1, s.R.Intn(2) == 0)
		})
	}
	// scripts about as long as buffers are, and faults in them
	sizes := []int{500, 512, 1000, 1024, 4096, 8192, 32768, 33000}
	for i := 0; i < h.N(48, 480); i++ {
		i := i
		h.Add("long", func(s *Sess) {
			s.Ev("begin", M{})
			n := sizes[s.R.Intn(len(sizes))] + s.R.Intn(5) - 2
			if i%2 == 0 {
				n = sizes[s.R.Intn(4)]
			}
			ss := []stepScript{{"string", "a", -1, false}}
			big := stepScript{[]string{"string", "bytes", "reader", "closer", "reader", "reader"}[i%6], strings.Repeat("ab\n-", n/4), -1, i%6 > 3}
			if s.R.Intn(4) == 0 && (i%6 == 2 || i%6 == 3) {
				big.fail = s.R.Intn(len(big.text) + 1)
			}
			ss = append(ss, big)
			if i/6%2 == 0 {
				ss = append(ss, stepScript{"bytes", "z", -1, false})
			}
			room := -1
			if i/12%2 == 0 || s.R.Intn(2) == 0 {
				room = 6 + s.R.Intn(n)
			}
			stepsWrite(s, ss, room)
		})
	}
	for i, kind := range []string{"string", "bytes", "reader", "closer", "reader"} {
		i, kind := i, kind
		h.Add("huge", func(s *Sess) {
			s.Ev("begin", M{})
			n := []int{200000, 1 << 20, 3 << 20, 9000000}[s.R.Intn(4)] + s.R.Intn(5)
			ss := []stepScript{{"string", "a", -1, false}, {kind, strings.Repeat("x", n) + "\n-" + strings.Repeat("y", n/2), -1, i == 2}, {"bytes", "z", -1, false}}
			stepsRead(s, stepsWrite(s, ss, -1), -1, i%2 == 0)
		})
	}
	h.Add("missing", func(s *Sess) {
		s.Ev("begin", M{})
		d, err := ioutil.TempDir("", "steps")
		if err != nil {
			return
		}
		defer os.RemoveAll(d)
		for _, p := range []string{filepath.Join(d, "none"), d, filepath.Join(d, "none", "x"), ""} {
			s.Ev("missing", M{"res": call(func() error { _, err := stepfile.ReadFile(p); return err })})
		}
	})
}
