package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
)

func init() { runners["C23"] = runStreams }

var streamErr = errors.New("stream failed")

// streamErrs are errors none of which is the end of data
var streamErrs = []error{streamErr, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, fmt.Errorf("reading: %w", io.EOF), io.ErrShortBuffer}

// feedRun lets threads read from & close a feed of n entries
func feedRun(s *Sess, n int, ord bool, prog []string, watch bool) {
	s.Ev("begin", M{})
	label := fmt.Sprintf("feed%d-%d", s.ID, s.R.Int63())
	seed := s.R.Int63()
	pprof.Do(context.Background(), pprof.Labels("feed", label), func(context.Context) {
		feedOps(s, n, ord, prog, seed)
	})
	if all := strings.Join(prog, ""); watch && (strings.Contains(all, "c") || len(all) > n) {
		s.Ev("left", M{"n": labelled(label)})
	}
}

// labelled counts goroutines with a label, and gives them time to end
func labelled(label string) int {
	n := 0
	for i := 0; i < 60; i++ {
		buf := &bytes.Buffer{}
		pprof.Lookup("goroutine").WriteTo(buf, 1)
		n = strings.Count(buf.String(), label)
		if n == 0 {
			return 0
		}
		time.Sleep(time.Duration(1+i*3) * time.Millisecond)
	}
	return n
}

func feedOps(s *Sess, n int, ord bool, prog []string, seed int64) {
	var data interface{}
	list := make([]interface{}, n)
	obj := map[string]interface{}{}
	vr := rand.New(rand.NewSource(seed))
	for i := range list {
		list[i] = []interface{}{i + 1}
		if vr.Intn(3) == 0 {
			list[i] = []interface{}{nil, nil, map[string]interface{}{}, []interface{}{}, "", false, 0, 0.0, map[string]interface{}{"a": nil}, []byte{}}[vr.Intn(10)]
		}
		obj[fmt.Sprintf("k%d", i+1)] = list[i]
	}
	data = list
	if !ord {
		data = obj
	}
	st := &dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}
	var r *dsio.IdentityReader
	res := call(func() (err error) { r, err = dsio.NewIdentityReader(st, data); return })
	if res == "ok" && r.Structure() != st {
		res = "structure"
	}
	s.Ev("feed", M{"n": n, "ord": ord, "res": res})
	if res != "ok" {
		return
	}
	start := make(chan struct{})
	wg := sync.WaitGroup{}
	for t, p := range prog {
		t, p := t, p
		rr := rand.New(rand.NewSource(seed + int64(t)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k, op := range p {
				for i := rr.Intn(4); i > 0; i-- {
					runtime.Gosched()
				}
				id := 1000*(t+1) + k
				s.Ev("call", M{"op": id, "kind": string(op)})
				m := M{"op": id, "kind": string(op), "i": 0, "same": true}
				if op == 'c' {
					m["res"] = call(r.Close)
				} else {
					var e dsio.Entry
					m["res"] = call(func() (err error) { e, err = r.ReadEntry(); return })
					if m["res"] == "ok" {
						i := e.Index + 1
						if !ord {
							fmt.Sscanf(e.Key, "k%d", &i)
							m["same"] = e.Index == 0 && e.Key == fmt.Sprintf("k%d", i)
						} else {
							m["same"] = e.Key == ""
						}
						m["i"] = i
						if i < 1 || i > n || !reflect.DeepEqual(e.Value, list[i-1]) {
							m["same"] = false
						}
					}
				}
				s.Ev("ret", m)
			}
		}()
	}
	close(start)
	wg.Wait()
}

// source is a reader of n entries that ends as told, over and over
type source struct {
	st    *dataset.Structure
	n, at int
	end   string
	err   error
	// fails once before each of these entries
	hiccups map[int]bool
	reads   int
	closes  int
	closeE  error
}

func (r *source) Structure() *dataset.Structure { return r.st }
func (r *source) ReadEntry() (dsio.Entry, error) {
	r.reads++
	if r.at == r.n {
		if r.end == "eof" {
			return dsio.Entry{}, io.EOF
		}
		return dsio.Entry{}, r.err
	}
	if r.hiccups[r.at] {
		delete(r.hiccups, r.at)
		return dsio.Entry{}, streamErr
	}
	r.at++
	return dsio.Entry{Index: r.at - 1, Key: fmt.Sprintf("k%d", r.at), Value: r.at}, nil
}
func (r *source) Close() error { r.closes++; return r.closeE }

// sink is a writer that refuses an entry
type sink struct {
	got    []int
	calls  int
	stop   int
	closes int
	st     *dataset.Structure
	err    error
}

func (w *sink) Structure() *dataset.Structure { return w.st }
func (w *sink) WriteEntry(e dsio.Entry) error {
	w.calls++
	if w.calls == w.stop {
		return w.err
	}
	v, _ := e.Value.(int)
	if e.Index != v-1 || e.Key != fmt.Sprintf("k%d", v) {
		v = -1
	}
	w.got = append(w.got, v)
	return nil
}
func (w *sink) Close() error { w.closes++; return nil }

type pwin struct {
	Off int `json:"off"`
	Lim int `json:"lim"`
}

func pipeRun(s *Sess, n int, end string, ws []pwin, stop int) {
	s.Ev("begin", M{})
	if ws == nil {
		ws = []pwin{}
	}
	open := func(tlt string, fail bool) (*source, dsio.EntryReader) {
		src := &source{n: n, end: end, err: streamErrs[s.R.Intn(len(streamErrs))], st: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": tlt}}}
		if fail {
			src.closeE = streamErr
		}
		var r dsio.EntryReader = src
		for _, w := range ws {
			r = &dsio.PagedReader{Reader: r, Limit: w.Lim, Offset: w.Off}
		}
		return src, r
	}
	fail := s.R.Intn(2) == 0
	src, r := open("array", fail)
	closing := "ok"
	if fail {
		closing = "err"
	}
	closed := call(r.Close)
	s.Ev("pipe", M{"n": n, "end": end, "ws": ws, "structure": r.Structure() == src.st, "closes": src.closes, "closed": closed, "closing": closing})

	_, r = open("array", false)
	got := []M{}
	for i := 0; i < n+3; i++ {
		var e dsio.Entry
		m := M{"e": 0}
		m["res"] = call(func() (err error) { e, err = r.ReadEntry(); return })
		if v, ok := e.Value.(int); ok && m["res"] == "ok" && e.Index == v-1 && e.Key == fmt.Sprintf("k%d", v) {
			m["e"] = v
		}
		got = append(got, m)
	}
	s.Ev("reads", M{"got": got})

	// a source that fails now and then: what it gives in the end is the same
	src, _ = open("array", false)
	src.hiccups, src.end = map[int]bool{}, "eof"
	off := s.R.Intn(n + 2)
	for k := s.R.Intn(4); k > 0; k-- {
		src.hiccups[s.R.Intn(n+1)] = true
	}
	again := &dsio.PagedReader{Reader: src, Limit: 10 * (n + 10), Offset: off}
	taken := []int{}
	for i := 0; i < n+20; i++ {
		e, err := again.ReadEntry()
		if err == io.EOF {
			break
		}
		if err == nil {
			v, _ := e.Value.(int)
			taken = append(taken, v)
		}
	}
	s.Ev("retry", M{"n": n, "off": off, "got": taken})

	// visit each
	how := []string{"ok", "err"}[s.R.Intn(2)]
	_, r = open("array", false)
	ids, nums := []int{}, []int{}
	res := call(func() error {
		return dsio.EachEntry(r, func(i int, e dsio.Entry, err error) error {
			v, _ := e.Value.(int)
			if err != nil || e.Index != v-1 || e.Key != fmt.Sprintf("k%d", v) {
				v = -1
			}
			ids, nums = append(ids, v), append(nums, i)
			if len(ids) == stop {
				if how == "ok" {
					return io.EOF
				}
				return streamErrs[s.R.Intn(len(streamErrs))]
			}
			return nil
		})
	})
	s.Ev("each", M{"stop": stop, "how": how, "got": ids, "nums": nums, "res": res})

	// copy
	src, r = open("array", false)
	// a writer that fails with the error that ends readers fails all the same
	w := &sink{stop: stop, got: []int{}, st: src.st, err: append([]error{io.EOF, io.EOF}, streamErrs...)[s.R.Intn(2+len(streamErrs))]}
	res = call(func() error { return dsio.Copy(r, w) })
	s.Ev("copy", M{"stop": stop, "got": w.got, "res": res, "closes": w.closes + src.closes})

	// read all
	for _, tlt := range []string{"array", "object", []string{"string", "", "Array"}[s.R.Intn(3)]} {
		src, r = open(tlt, false)
		var v interface{}
		res = call(func() (err error) { v, err = dsio.ReadAll(r); return })
		m := M{"tlt": tlt, "res": res, "reads": src.reads, "type": "nothing", "got": []int{}}
		all := []int{}
		switch x := v.(type) {
		case []interface{}:
			if x != nil {
				m["type"] = "array"
			}
			for _, e := range x {
				i, _ := e.(int)
				all = append(all, i)
			}
		case map[string]interface{}:
			if x != nil {
				m["type"] = "object"
			}
			for i := 1; i <= n; i++ {
				if e, ok := x[fmt.Sprintf("k%d", i)]; ok {
					k, _ := e.(int)
					all = append(all, k)
				}
			}
			if len(x) != len(all) {
				all = append(all, -1)
			}
		case nil:
		default:
			m["type"] = fmt.Sprintf("%T", v)
		}
		m["got"] = all
		s.Ev("all", m)
	}
}

var byteModes = []string{"one", "rand", "zero", "half", "all", "all", "dataeof", "dataerr"}

// linesRun reads a text, after lead letters, with its line ends made whole
func linesRun(s *Sess, lead int, text []int, end string) {
	d := bytes.Repeat([]byte{'a'}, lead)
	for _, c := range text {
		d = append(d, byte(c))
	}
	src := &chunkReader{d: d, mode: byteModes[s.R.Intn(len(byteModes))], r: s.R, fail: -1}
	if end == "err" {
		src.d = append(append([]byte{}, d...), 'z', 'z', '\n')
		src.d, src.fail, src.ferr = d, len(d), streamErr
		if s.R.Intn(2) == 0 {
			src.ferr = io.ErrUnexpectedEOF
		}
	}
	var in io.Reader = &failAfter{src, end == "err", src.ferr}
	if end == "err" && s.R.Intn(2) == 0 {
		// an error that is given once, and the end after it
		src.once = true
		in = src
	}
	r := replacecr.Reader(in)
	if s.R.Intn(2) == 0 {
		r = replacecr.ReaderWithSize(in, 1+s.R.Intn(40))
	}
	out := []byte{}
	fits := true
	res := ""
	max := []int{1, 2, 3, 7, 16, 5000}[s.R.Intn(6)]
	for i := 0; ; i++ {
		p := make([]byte, 1+s.R.Intn(max))
		if s.R.Intn(8) == 0 {
			p = p[:0]
		}
		guard := append(p, 0)[:len(p)]
		n := 0
		res = call(func() (err error) { n, err = r.Read(guard); return })
		if n < 0 || n > len(p) || (n == 0 && res == "ok" && len(p) > 0) {
			fits = false
			break
		}
		out = append(out, guard[:n]...)
		if res != "ok" || i > 10*len(d)+100 {
			break
		}
	}
	got := []int{}
	if len(out) < lead || !bytes.Equal(out[:lead], d[:lead]) {
		fits = false
	} else {
		for _, c := range out[lead:] {
			got = append(got, int(c))
		}
	}
	s.Ev("lines", M{"lead": lead, "text": text, "end": end, "got": got, "res": res, "fits": fits})
}

// failAfter gives the error of a reader in place of the end of its data
type failAfter struct {
	r    io.Reader
	fail bool
	err  error
}

func (f *failAfter) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if f.fail && err == io.EOF {
		err = f.err
	}
	return n, err
}

type countCloser struct {
	io.Reader
	closes *int
	err    error
}

func (c countCloser) Close() error { *c.closes++; return c.err }

func trackedRun(s *Sess) {
	d := make([]byte, s.R.Intn(300))
	s.R.Read(d)
	seed, mode, fail := s.R.Int63(), byteModes[s.R.Intn(len(byteModes))], -1
	if s.R.Intn(3) == 0 {
		fail = s.R.Intn(len(d) + 1)
	}
	open := func() io.Reader {
		return &chunkReader{d: d, mode: mode, r: rand.New(rand.NewSource(seed)), fail: fail, ferr: streamErr}
	}
	closes := 0
	closing := "ok"
	var in io.Reader = open()
	closer := s.R.Intn(2) == 0
	if closer {
		c := countCloser{in, &closes, nil}
		if s.R.Intn(2) == 0 {
			closing, c.err = "err", streamErr
		}
		in = c
	}
	plain := open()
	r := dsio.NewTrackedReader(in)
	same := r.BytesRead() == 0
	ns, counts := []int{}, []int{}
	for i := 0; i < 1000; i++ {
		a, b := make([]byte, s.R.Intn(40)), []byte(nil)
		b = make([]byte, len(a))
		n, err := r.Read(a)
		m, perr := plain.Read(b)
		if n != m || err != perr || !bytes.Equal(a, b) {
			same = false
		}
		ns, counts = append(ns, m), append(counts, r.BytesRead())
		if perr != nil && s.R.Intn(2) == 0 {
			break
		}
	}
	closed := call(r.Close)
	s.Ev("tracked", M{"ns": ns, "counts": counts, "same": same, "closer": closer, "closes": closes, "closed": closed, "closing": closing})
}

type closeWriter struct {
	io.Writer
	closes *int
}

func (c closeWriter) Close() error { *c.closes++; return nil }

func compRun(s *Sess, name string) {
	n := []int{0, 1, 20, 1000, 5000, 70000, 300000}[s.R.Intn(7)]
	d := make([]byte, n)
	switch s.R.Intn(3) {
	case 0:
		s.R.Read(d)
	case 1:
		for i := range d {
			d[i] = byte('a' + s.R.Intn(3))
		}
	}
	orig := append([]byte{}, d...)
	out := &faultWriter{mode: "none"}
	wfault := s.R.Intn(5) == 0
	if wfault {
		out.mode, out.at = "byte", s.R.Intn(20)
		if name == "gzip" || name == "gz" {
			out.at = s.R.Intn(10)
		} else if n == 0 {
			wfault, out.mode = false, "none"
		} else {
			out.at = s.R.Intn(4)
		}
	}
	closes := 0
	m := M{"name": name, "wfault": wfault, "cut": "no", "wres": "ok", "rres": "", "same": false, "prefix": false, "kept": true, "unopen": "ok"}
	var w io.WriteCloser
	m["open"] = call(func() (err error) { w, err = compression.Compressor(name, closeWriter{out, &closes}); return })
	if m["open"] != "ok" {
		m["unopen"] = call(func() (err error) { _, err = compression.Decompressor(name, bytes.NewReader(nil)); return })
		m["closes"] = closes
		s.Ev("comp", m)
		return
	}
	rest := d
	for len(rest) > 0 {
		k := 1 + s.R.Intn(len(rest))
		if s.R.Intn(2) == 0 && k > 10 {
			k = 1 + s.R.Intn(10)
		}
		if s.R.Intn(2) == 0 {
			k = len(rest)
		}
		p := append([]byte{}, rest[:k]...)
		res := call(func() error {
			j, err := w.Write(p)
			if err == nil && j != len(p) {
				return io.ErrShortWrite
			}
			return err
		})
		if res != "ok" {
			m["wres"] = res
		}
		if !bytes.Equal(p, rest[:k]) {
			m["kept"] = false
		}
		for i := range p {
			p[i] = 'x' // written is written
		}
		rest = rest[k:]
	}
	if res := call(w.Close); res != "ok" {
		m["wres"] = res
	}
	if wfault {
		m["closes"] = closes
		s.Ev("comp", m)
		return
	}
	z := out.buf.Bytes()
	src := &chunkReader{d: z, mode: byteModes[s.R.Intn(len(byteModes))], r: s.R, fail: -1}
	if src.mode == "zero" {
		src.mode = "all" // the zstd library gives up on empty reads
	}
	if len(z) > 9 {
		switch s.R.Intn(4) {
		case 0:
			m["cut"] = "end"
			src.d = z[:8+s.R.Intn(len(z)-8)]
		case 1:
			m["cut"] = "fault"
			src.fail, src.ferr = 8+s.R.Intn(len(z)-8), streamErr
		}
	}
	var r io.ReadCloser
	got := []byte{}
	res := call(func() (err error) { r, err = compression.Decompressor(name, countCloser{src, &closes, nil}); return })
	if res == "ok" {
		for res == "ok" {
			p := make([]byte, 1+s.R.Intn(1+2*n))
			k := 0
			res = call(func() (err error) { k, err = r.Read(p); return })
			got = append(got, p[:k]...)
		}
		if x := call(r.Close); x == "panic" {
			res = x
		}
	} else if res == "eof" {
		res = "err"
	}
	m["rres"], m["same"], m["prefix"] = res, bytes.Equal(got, orig), bytes.HasPrefix(orig, got)
	m["closes"] = closes
	s.Ev("comp", m)
}

func openRun(s *Sess) {
	for _, f := range []string{"json", "csv", "cbor", "ndjson", "", "xml", "JSON", ".json"} {
		for _, tlt := range []string{"array", "object", "", "string", "Array"} {
			if (f == "ndjson" && tlt != "array") || f == ".json" || f == "JSON" {
				continue
			}
			st := &dataset.Structure{Format: f, Schema: map[string]interface{}{"type": tlt}}
			if f == "csv" {
				st.Schema["items"] = map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "string"}}}
			}
			same := func(res string, st2 *dataset.Structure) string {
				if res == "ok" && st2 == st {
					return "same"
				}
				return res
			}
			m := M{"fmt": f, "tlt": tlt}
			var r dsio.EntryReader
			var w dsio.EntryWriter
			var b *dsio.EntryBuffer
			var st2 *dataset.Structure
			res := call(func() (err error) {
				if r, err = dsio.NewEntryReader(st, strings.NewReader("[]")); err == nil {
					st2 = r.Structure()
				}
				return
			})
			m["reader"] = same(res, st2)
			res = call(func() (err error) {
				if w, err = dsio.NewEntryWriter(st, ioutil.Discard); err == nil {
					st2 = w.Structure()
				}
				return
			})
			m["writer"] = same(res, st2)
			res = call(func() (err error) {
				if b, err = dsio.NewEntryBuffer(st); err == nil {
					st2 = b.Structure()
					// a buffer holds what a writer writes
					plain := &bytes.Buffer{}
					w2, werr := dsio.NewEntryWriter(st, plain)
					if werr != nil {
						return werr
					}
					for i := 0; i < 3; i++ {
						e := dsio.Entry{Index: i, Key: fmt.Sprintf("k%d", i), Value: []interface{}{fmt.Sprintf(" v%d\n", i)}}
						if b.WriteEntry(e) != nil || w2.WriteEntry(e) != nil {
							return errors.New("refused an entry")
						}
					}
					if b.Close() != nil || w2.Close() != nil || !bytes.Equal(plain.Bytes(), b.Bytes()) || plain.Len() == 0 {
						return errors.New("holds something else")
					}
				}
				return
			})
			m["buffer"] = same(res, st2)
			s.Ev("open", m)
		}
	}
}

func runStreams(h *H) {
	pipes, lines := 0, 0
	for k, sc := range h.Scens {
		k, sc := k, sc
		num := func(x interface{}) int { f, _ := x.(float64); return int(f) }
		switch sc["k"] {
		case "feed":
			prog := []string{}
			for _, p := range sc["prog"].([]interface{}) {
				t := ""
				l, _ := p.([]interface{})
				for _, o := range l {
					t += o.(string)
				}
				prog = append(prog, t)
			}
			h.Add("feed", func(s *Sess) {
				for i := 0; i < 3; i++ {
					feedRun(s, num(sc["n"]), i < 2, prog, k%16 == 0)
				}
			})
		case "pipe":
			ws := []pwin{}
			l, _ := sc["ws"].([]interface{})
			for _, w := range l {
				o := w.(map[string]interface{})
				ws = append(ws, pwin{num(o["off"]), num(o["lim"])})
			}
			pipes++
			if !h.Thorough() && pipes%2 == 0 && len(ws) == 2 {
				continue
			}
			h.Add("pipe", func(s *Sess) { pipeRun(s, num(sc["n"]), sc["end"].(string), ws, num(sc["stop"])) })
		case "lines":
			text := []int{}
			l, _ := sc["text"].([]interface{})
			for _, c := range l {
				text = append(text, num(c))
			}
			lines++
			lead := 0
			if lines%3 == 0 {
				lead = []int{10, 13, 14, 15, 16, 30, 4090, 4093, 4094, 4095, 4096}[lines/3%11]
			}
			h.Add("lines", func(s *Sess) { s.Ev("begin", M{}); linesRun(s, lead, text, sc["end"].(string)) })
		}
	}
	for i := 0; i < h.N(150, 3000); i++ {
		i := i
		h.Add("manyfeed", func(s *Sess) {
			n := s.R.Intn(60)
			prog := []string{}
			for t := 1 + s.R.Intn(8); t > 0; t-- {
				p := strings.Repeat("r", s.R.Intn(12))
				switch s.R.Intn(6) {
				case 0:
					p += "c"
				case 1:
					p = p[:len(p)/2] + "c" + p[len(p)/2:]
				}
				prog = append(prog, p)
			}
			feedRun(s, n, s.R.Intn(2) == 0, prog, i%8 == 0)
		})
		h.Add("bytes", func(s *Sess) {
			s.Ev("begin", M{})
			for k := 0; k < 4; k++ {
				text := []int{}
				for j := s.R.Intn(60); j > 0; j-- {
					text = append(text, []int{13, 13, 13, 10, 10, 97, 0, 255}[s.R.Intn(8)])
				}
				linesRun(s, []int{0, 0, 5, 4080}[s.R.Intn(4)], text, []string{"eof", "eof", "err"}[s.R.Intn(3)])
				trackedRun(s)
			}
			compRun(s, []string{"gzip", "gz", "zst", "zstd"}[s.R.Intn(4)])
		})
		h.Add("manypipe", func(s *Sess) {
			ws := []pwin{}
			n := s.R.Intn(40)
			for k := s.R.Intn(4); k > 0; k-- {
				ws = append(ws, pwin{s.R.Intn(n + 2), s.R.Intn(n + 5)})
			}
			pipeRun(s, n, []string{"eof", "err"}[s.R.Intn(2)], ws, s.R.Intn(n+2))
		})
	}
	h.Add("open", func(s *Sess) {
		s.Ev("begin", M{})
		openRun(s)
		for _, n := range []string{"", "GZIP", "gzip ", ".gz", "zip", "bz2", "none", "zstandard", "zs"} {
			compRun(s, n)
		}
		for _, v := range []interface{}{nil, "text", 4, []string{"a"}, map[string]string{"a": "b"}, true} {
			_, err := dsio.NewIdentityReader(&dataset.Structure{}, v)
			s.Ev("nofeed", M{"res": call(func() error { return err })})
		}
	})
}
