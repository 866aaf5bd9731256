package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"math"
	"math/rand"
	"sort"
	"strconv"

	"github.com/qri-io/dataset/dsstats/histosketch"
)

func init() {
	runners["C19"] = runSketch
}

// sketchSess drives several sketches
type sketchSess struct {
	*Sess
	sk  []*histosketch.Sketch
	num []int // numbers in each
	// copies hold no more centroids than they have, nothing is added to them
	frozen []bool
	// tbl has the numbers -50 to 50 stand for others, in the same order. Only
	// those come out of a sketch that joins none
	tbl []float64
}

// f gives the number v stands for
func (x *sketchSess) f(v int) float64 {
	if x.tbl == nil {
		return float64(v)
	}
	return x.tbl[v+50]
}

// k1000 gives a thousand times what stands for a number
func (x *sketchSess) k1000(f float64) int {
	if x.tbl == nil {
		return sk1000(f)
	}
	for i, t := range x.tbl {
		if t == f {
			return (i - 50) * 1000
		}
	}
	return oddNumber
}

// in gives what stands for a number
func (x *sketchSess) in(f float64) int {
	if x.tbl == nil {
		return skInt(f)
	}
	if n := x.k1000(f); n != oddNumber {
		return n / 1000
	}
	return oddNumber
}

func genFloatTable(r *rand.Rand) []float64 {
	t := []float64{}
	seen := map[float64]bool{}
	for len(t) < 101 {
		f := []float64{r.NormFloat64(), float64(r.Intn(100)-50) / 10, float64(r.Int63()), -float64(r.Int63n(1 << 53)), r.Float64() * 1e300, -1e-300 * r.Float64(), 5e-324, math.MaxFloat64 / 4, float64(r.Intn(3)) + 0.1, 1.0 / float64(1+r.Intn(50))}[r.Intn(10)]
		if !seen[f] {
			seen[f] = true
			t = append(t, f)
		}
	}
	sort.Float64s(t)
	return t
}

func sk1000(f float64) int {
	if math.IsNaN(f) || math.Abs(f) > 1e6 {
		return oddNumber
	}
	return int(math.Round(f * 1000))
}

func skInt(f float64) int {
	if f != math.Trunc(f) || math.Abs(f) > 1e6 {
		return oddNumber
	}
	return int(f)
}

// read adds what a sketch shows to an event
func (x *sketchSess) read(i int, m M) M {
	s := x.sk[i]
	bins, freqs := s.Read()
	b, f := []int{}, []int{}
	for i, v := range bins {
		if x.tbl != nil && i == len(bins)-1 {
			if v == s.Max()+1 {
				b = append(b, x.k1000(s.Max())+1000)
				continue
			}
		}
		b = append(b, x.k1000(v))
	}
	for _, v := range freqs {
		f = append(f, skInt(v))
	}
	m["bins"], m["freqs"], m["count"] = b, f, skInt(s.Count())
	m["min"], m["max"] = x.in(s.Min()), x.in(s.Max())
	return m
}

func (x *sketchSess) newSketch(n int) {
	var s *histosketch.Sketch
	res := call(func() error { s = histosketch.New(uint(n)); return nil })
	x.Ev("new", M{"n": n, "res": res})
	if res == "ok" {
		x.sk, x.num, x.frozen = append(x.sk, s), append(x.num, 0), append(x.frozen, false)
	}
}

func (x *sketchSess) add(i, v, m int, many bool) {
	if many {
		x.sk[i].AddMany(x.f(v), int64(m))
	} else {
		m = 1
		x.sk[i].Add(x.f(v))
	}
	x.num[i] += m
	x.Ev("add", x.read(i, M{"i": i + 1, "v": v, "m": m}))
}

func (x *sketchSess) merge(i, j int) {
	x.sk[i].Merge(*x.sk[j])
	x.num[i] += x.num[j]
	x.Ev("merge", x.read(i, M{"i": i + 1, "j": j + 1}))
}

func (x *sketchSess) sum(i, p int) {
	x.Ev("sum", M{"i": i + 1, "p": p, "sum": sk1000(x.sk[i].Sum(x.f(p)))})
}

func (x *sketchSess) shares(i int) {
	ts := []int{0, 1, 5, 10, 20, 25, 33, 40, 50, 60, 75, 80, 90, 95, 99, 100}
	at := []int{}
	res := call(func() error {
		for _, t := range ts {
			at = append(at, x.k1000(x.sk[i].Quantile(float64(t)/100)))
		}
		return nil
	})
	x.Ev("shares", M{"i": i + 1, "ts": ts, "at": at, "res": res})
}

func (x *sketchSess) copy(i int) {
	t := &histosketch.Sketch{}
	res := call(func() error {
		if x.R.Intn(2) == 0 {
			d, err := x.sk[i].MarshalBinary()
			if err != nil {
				return err
			}
			return t.UnmarshalBinary(d)
		}
		buf := &bytes.Buffer{}
		if err := gob.NewEncoder(buf).Encode(x.sk[i]); err != nil {
			return err
		}
		return gob.NewDecoder(buf).Decode(t)
	})
	x.sk, x.num, x.frozen = append(x.sk, t), append(x.num, x.num[i]), append(x.frozen, true)
	x.Ev("copy", x.read(len(x.sk)-1, M{"i": i + 1, "res": res}))
	x.Ev("alike", M{"a": estimates(x.sk[i]), "b": estimates(t)})
	x.Ev("alike", M{"a": exactly(x.sk[i]), "b": exactly(t)})
}

// exactly gives all that a sketch shows, to the last digit
func exactly(s *histosketch.Sketch) []string {
	bins, freqs := s.Read()
	out := []string{}
	for _, f := range append(append(bins, freqs...), s.Count(), s.Min(), s.Max()) {
		out = append(out, strconv.FormatFloat(f, 'g', -1, 64))
	}
	return out
}

// estimates a sketch gives at many places
func estimates(s *histosketch.Sketch) []int {
	es := []int{}
	for p := -55; p < 55; p += 3 {
		es = append(es, sk1000(s.Sum(float64(p)+0.25)))
	}
	for q := 0.0; q <= 1 && s.Count() > 0; q += 0.0625 {
		es = append(es, sk1000(s.Quantile(q)))
	}
	return es
}

func (x *sketchSess) sample(vals []int, n int) {
	fs := []float64{}
	for _, v := range vals {
		fs = append(fs, x.f(v))
	}
	var t *histosketch.Sketch
	res := call(func() error { t = histosketch.NewFromSample(fs, n); return nil })
	if res != "ok" {
		x.Ev("sample", M{"vals": vals, "n": n, "res": res})
		return
	}
	x.sk, x.num, x.frozen = append(x.sk, t), append(x.num, len(vals)), append(x.frozen, n > len(vals))
	x.Ev("sample", x.read(len(x.sk)-1, M{"vals": vals, "n": n, "res": res}))
}

func (x *sketchSess) look(i int) {
	for k := 0; k < 6; k++ {
		x.sum(i, x.R.Intn(60)-30)
	}
	if bins, freqs := x.sk[i].Read(); len(freqs) > 0 && x.tbl == nil {
		for _, b := range bins {
			if b == math.Trunc(b) {
				x.sum(i, int(b))
			}
		}
	}
	x.shares(i)
}

func runSketch(h *H) {
	for _, sc := range h.Scens {
		d, _ := json.Marshal(sc)
		y := struct {
			N     int   `json:"n"`
			Added []int `json:"added"`
		}{}
		if err := json.Unmarshal(d, &y); err != nil {
			fail(err)
		}
		h.Add("scen", func(s *Sess) {
			s.Ev("begin", M{})
			x := &sketchSess{Sess: s}
			x.newSketch(y.N)
			for _, v := range y.Added {
				x.add(0, v, 1, false)
			}
			x.look(0)
			if len(y.Added) > 0 {
				x.sample(y.Added, y.N)
			}
			x.copy(0)
			x.look(len(x.sk) - 1)
		})
	}
	for i := 0; i < h.N(400, 8000); i++ {
		h.Add("random", func(s *Sess) {
			s.Ev("begin", M{})
			x := &sketchSess{Sess: s}
			r := s.R
			for k := 1 + r.Intn(3); k > 0; k-- {
				x.newSketch(1 + r.Intn(6))
			}
			span := []int{6, 20, 50}[r.Intn(3)]
			for k := 5 + r.Intn(40); k > 0; k-- {
				i := r.Intn(len(x.sk))
				switch r.Intn(14) {
				case 0:
					j := r.Intn(len(x.sk))
					if i != j && !x.frozen[i] && x.num[i]+x.num[j] < 60 {
						x.merge(i, j)
					}
				case 1:
					x.look(i)
				case 2:
					if len(x.sk) < 6 {
						x.copy(i)
					}
				case 3:
					if len(x.sk) < 6 {
						x.sample(genInts(r, 1+r.Intn(8), span), 1+r.Intn(9))
					}
				default:
					if !x.frozen[i] && x.num[i] < 60 {
						m := 1
						if r.Intn(4) == 0 {
							m = 1 + r.Intn(4)
						}
						v := r.Intn(2*span) - span
						if bins, _ := x.sk[i].Read(); r.Intn(3) == 0 {
							// where numbers may have been joined
							if b := bins[r.Intn(len(bins))]; b == math.Trunc(b) && math.Abs(b) < 51 {
								v = int(b)
							}
						}
						x.add(i, v, m, m > 1 || r.Intn(2) == 0)
					}
				}
			}
			for i := range x.sk {
				x.look(i)
			}
		})
	}
	// numbers of all kinds, none of them joined
	for i := 0; i < h.N(60, 1200); i++ {
		h.Add("exact", func(s *Sess) {
			s.Ev("begin", M{})
			x := &sketchSess{Sess: s, tbl: genFloatTable(s.R)}
			r := s.R
			x.newSketch(70)
			x.newSketch(70)
			for k := 5 + r.Intn(30); k > 0; k-- {
				x.add(r.Intn(2), r.Intn(100)-50, 1+r.Intn(3), true)
			}
			x.look(0)
			x.copy(0)
			x.copy(1)
			x.merge(0, 1)
			x.look(0)
			x.look(2)
			x.sample(genInts(r, 1+r.Intn(8), 40), 9)
			x.look(len(x.sk) - 1)
		})
		// and joined ones: a copy is the same
		h.Add("copies", func(s *Sess) {
			s.Ev("begin", M{})
			t := genFloatTable(s.R)
			sk := histosketch.New(uint(1 + s.R.Intn(12)))
			for k := s.R.Intn(60); k > 0; k-- {
				sk.AddMany(t[s.R.Intn(101)], int64(1+s.R.Intn(3)))
			}
			u := &histosketch.Sketch{}
			res := call(func() error {
				d, err := sk.MarshalBinary()
				if err != nil {
					return err
				}
				return u.UnmarshalBinary(d)
			})
			s.Ev("alike", M{"a": append(exactly(sk), "ok"), "b": append(exactly(u), res)})
		})
	}
	// the number of centroids statistics use
	for i := 0; i < h.N(6, 60); i++ {
		h.Add("wide", func(s *Sess) {
			s.Ev("begin", M{})
			x := &sketchSess{Sess: s}
			n := []int{1, 16, 31, 32}[s.R.Intn(4)]
			x.newSketch(n)
			for k := 0; k < 50; k++ {
				x.add(0, s.R.Intn(90)-45, 1, false)
			}
			x.look(0)
		})
	}
	h.Add("refuse", func(s *Sess) {
		s.Ev("begin", M{})
		x := &sketchSess{Sess: s}
		x.newSketch(0)
		x.newSketch(3)
		x.look(0)
		x.sample([]int{1, 2}, 0)
		x.sample([]int{1, 2}, -1)
		x.add(0, 4, 1, false)
		for _, q := range []float64{-0.01, 1.01, 5} {
			q := q
			s.Ev("bad", M{"res": call(func() error { x.sk[0].Quantile(q); return nil })})
		}
	})
}

func genInts(r *rand.Rand, n, span int) []int {
	q := []int{}
	for i := 0; i < n; i++ {
		q = append(q, r.Intn(2*span)-span)
	}
	return q
}
