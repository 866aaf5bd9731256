// Package main is the conformance harness: it drives the public API of
// github.com/qri-io/dataset, and records what it observes as an ndjson trace
// that TLC validates against the TLA+ specification in /verif/spec. It takes
// no decision about right or wrong itself.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// M is one trace event
type M map[string]interface{}

// Sess is a session: a self contained run against the real code
type Sess struct {
	ID   int
	Name string
	R    *rand.Rand
	mu   sync.Mutex
	evs  []M
	dead bool
}

// Ev records an event
func (s *Sess) Ev(ev string, m M) {
	if m == nil {
		m = M{}
	}
	m["ev"] = ev
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead {
		return
	}
	s.evs = append(s.evs, m)
}

// call runs f & classifies its result
func call(f func() error) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
			lastPanic = fmt.Sprintf("%v\n%s", p, debug.Stack())
			if os.Getenv("HARNESS_STACK") != "" {
				fmt.Fprintln(os.Stderr, lastPanic)
			}
		}
	}()
	if err := f(); err != nil {
		if err == io.EOF {
			return "eof"
		}
		return "err"
	}
	return "ok"
}

var lastPanic string

type sessDef struct {
	id   int
	name string
	f    func(*Sess)
}

// H collects sessions of a run
type H struct {
	Prop  string
	Seed  int64
	Tier  string
	Scens []map[string]interface{}
	defs  []sessDef
	stats map[string]int
	smu   sync.Mutex
}

// Thorough reports the tier
func (h *H) Thorough() bool { return h.Tier == "thorough" }

// N picks a count depending on the tier
func (h *H) N(quick, thorough int) int {
	if h.Thorough() {
		return thorough
	}
	return quick
}

// Add a session
func (h *H) Add(name string, f func(*Sess)) {
	h.defs = append(h.defs, sessDef{len(h.defs), name, f})
}

// Count adds to a statistic
func (h *H) Count(k string, n int) {
	h.smu.Lock()
	h.stats[k] += n
	h.smu.Unlock()
}

func seedFor(seed int64, prop, name string, id int) int64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s/%s/%d", seed, prop, name, id)
	return int64(f.Sum64())
}

var sessTimeout = 60 * time.Second

func (h *H) runOne(d sessDef) *Sess {
	s := &Sess{ID: d.id, Name: d.name, R: rand.New(rand.NewSource(seedFor(h.Seed, h.Prop, d.name, d.id)))}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				s.Ev("panic", M{"msg": clip(fmt.Sprint(p), 200)})
				if os.Getenv("HARNESS_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", p, debug.Stack())
				}
			}
		}()
		d.f(s)
	}()
	select {
	case <-done:
	case <-time.After(sessTimeout):
		s.Ev("hang", M{"after": sessTimeout.String()})
		s.mu.Lock()
		s.dead = true
		s.mu.Unlock()
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var runners = map[string]func(*H){}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	scen := flag.String("scen", "", "scenario file")
	out := flag.String("out", "", "output directory")
	only := flag.Int("only", -1, "run one session")
	skip := flag.String("skip", "", "comma separated sessions not to run")
	shards := flag.Int("shards", 8, "number of trace files")
	workers := flag.Int("workers", 8, "parallel sessions")
	flag.Parse()
	log.SetOutput(ioutil.Discard)

	h := &H{Prop: *prop, Seed: *seed, Tier: *tier, stats: map[string]int{}}
	if *scen != "" {
		f, err := os.Open(*scen)
		if err != nil {
			fail(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			m := map[string]interface{}{}
			if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
				fail(err)
			}
			h.Scens = append(h.Scens, m)
		}
		f.Close()
	}
	run, ok := runners[*prop]
	if !ok {
		fail(fmt.Errorf("no runner for %s", *prop))
	}
	run(h)

	skips := map[string]bool{}
	for _, x := range strings.Split(*skip, ",") {
		skips[x] = true
	}
	defs := []sessDef{}
	for _, d := range h.defs {
		if (*only < 0 || d.id == *only) && !skips[fmt.Sprint(d.id)] {
			defs = append(defs, d)
		}
	}
	// progress: which sessions are in flight, so a fatal error can be traced
	prog, err := os.Create(filepath.Join(*out, "progress"))
	if err != nil {
		fail(err)
	}
	var pmu sync.Mutex
	note := func(c string, id int) {
		pmu.Lock()
		fmt.Fprintf(prog, "%s %d\n", c, id)
		pmu.Unlock()
	}
	res := make([]*Sess, len(defs))
	ch := make(chan int)
	wg := sync.WaitGroup{}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				note("S", defs[i].id)
				res[i] = h.runOne(defs[i])
				note("E", defs[i].id)
			}
		}()
	}
	for i := range defs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	prog.Close()

	// write traces, balanced over shards by size
	type enc struct {
		id   int
		data []byte
		n    int
	}
	encs := make([]enc, len(res))
	events := 0
	distinct := map[string]bool{}
	kinds := map[string]int{}
	for i, s := range res {
		buf := &strings.Builder{}
		for _, e := range s.evs {
			e["s"] = s.ID
			d, err := json.Marshal(e)
			if err != nil {
				fail(fmt.Errorf("session %d %s: %v", s.ID, s.Name, err))
			}
			buf.Write(d)
			buf.WriteByte('\n')
			kinds[fmt.Sprint(e["ev"])]++
		}
		events += len(s.evs)
		str := buf.String()
		if len(s.evs) > 1 {
			sum := sha256.Sum256([]byte(strings.ReplaceAll(str, fmt.Sprintf("\"s\":%d", s.ID), "")))
			distinct[string(sum[:])] = true
		}
		encs[i] = enc{s.ID, []byte(str), len(s.evs)}
	}
	order := make([]int, len(encs))
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(a, b int) bool {
		x, y := encs[order[a]], encs[order[b]]
		if len(x.data) != len(y.data) {
			return len(x.data) > len(y.data)
		}
		return x.id < y.id
	})
	size := make([]int, *shards)
	member := make([][]int, *shards)
	for _, i := range order {
		m := 0
		for k := range size {
			if size[k] < size[m] {
				m = k
			}
		}
		size[m] += len(encs[i].data) + 400*encs[i].n
		member[m] = append(member[m], i)
	}
	for k := range member {
		if len(member[k]) == 0 {
			continue
		}
		sort.Ints(member[k])
		f, err := os.Create(filepath.Join(*out, fmt.Sprintf("trace%d.ndjson", k)))
		if err != nil {
			fail(err)
		}
		w := bufio.NewWriter(f)
		for _, i := range member[k] {
			w.Write(encs[i].data)
		}
		w.Flush()
		f.Close()
	}
	samples := []interface{}{}
	for _, i := range []int{0, len(res) / 3, len(res) / 2, len(res) - 1} {
		if i >= 0 && i < len(res) && len(encs[i].data) < 3000 {
			samples = append(samples, M{"session": res[i].ID, "name": res[i].Name, "events": res[i].evs})
		}
	}
	names := map[string]int{}
	for _, s := range res {
		names[strings.SplitN(s.Name, "/", 2)[0]]++
	}
	d, _ := json.MarshalIndent(M{"sessions": len(res), "events": events, "distinct": len(distinct),
		"kinds": kinds, "groups": names, "samples": samples, "stats": h.stats}, "", " ")
	if err := ioutil.WriteFile(filepath.Join(*out, "stats.json"), d, 0644); err != nil {
		fail(err)
	}
	// hung sessions may still be running: leave without waiting for them
	os.Exit(0)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

func digest(s string) string {
	sum := sha256.Sum256([]byte(s))
	return hex.EncodeToString(sum[:8])
}
