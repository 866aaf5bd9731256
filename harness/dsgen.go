package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
)

func init() { runners["C27"] = runDsgen }

// garg is an argument: see Dsgen.tla
type garg struct {
	K string `json:"k"`
	N int    `json:"n"`
}

var (
	genInteger = regexp.MustCompile(`^[0-9]{1,19}$`)
	genNumber  = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?$`)
	genPlain   = regexp.MustCompile(`^[a-zA-Z0-9]*$`)
)

// genCell gives the kind of a printed cell, as the column has it
func genCell(t, typ string) M {
	k := "?"
	switch {
	case typ == "string":
		k = "s"
	case typ == "null" && t == "":
		k = "n"
	case typ == "object" && t == "{}":
		k = "{"
	case typ == "array" && t == "[]":
		k = "["
	case typ == "boolean" && (t == "true" || t == "false"):
		k = "b"
	case typ == "integer" && genInteger.MatchString(t):
		if _, err := strconv.ParseInt(t, 10, 64); err == nil {
			k = "i"
		}
	case typ == "number" && genNumber.MatchString(t):
		k = "f"
	}
	return M{"k": k, "len": len(t), "plain": genPlain.MatchString(t)}
}

// genTable makes a structure of a table
func genTable(s *Sess) (tschema, *dataset.Structure, rune) {
	t := tschema{Top: "array", Items: true, List: true, Cols: []tcol{}}
	for i := 1 + s.R.Intn(5); i > 0; i-- {
		t.Cols = append(t.Cols, tcol{Object: true, Title: textField(fmt.Sprintf("c%d %s", i, []string{"", "x", `"`, ","}[s.R.Intn(4)])), Type: textField(tabTypes[s.R.Intn(len(tabTypes))]), Desc: noField, Rest: [][]string{}})
	}
	st := &dataset.Structure{Format: "csv", Schema: t.schema(s.R)}
	comma := ','
	if s.R.Intn(2) == 0 {
		st.FormatConfig = map[string]interface{}{}
		if s.R.Intn(3) > 0 {
			st.FormatConfig["headerRow"] = true
		}
		if s.R.Intn(3) == 0 {
			comma = []rune{';', '\t', '|'}[s.R.Intn(3)]
			st.FormatConfig["separator"] = string(comma)
		}
	}
	return t, st, comma
}

func genRun(s *Sess, args []garg, full bool) {
	dir, err := ioutil.TempDir("", "dsgen")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(dir)
	t, st, comma := genTable(s)
	header := st.FormatConfig != nil && st.FormatConfig["headerRow"] == true
	cmd := []string{}
	kind := ""
	for _, a := range args {
		p := filepath.Join(dir, a.K+".json")
		var d []byte
		switch a.K {
		case "rows":
			cmd = append(cmd, []string{"--rows", "-rows"}[s.R.Intn(2)], strconv.Itoa(a.N))
			continue
		case "rows=":
			cmd = append(cmd, []string{"--rows=", "-rows="}[s.R.Intn(2)]+strconv.Itoa(a.N))
			continue
		case "bad":
			cmd = append(cmd, []string{"--nope", "--rows=x", "--rows=1.5", "-nope=1", "--row=3", "--rows="}[s.R.Intn(6)])
			continue
		case "fixed":
			kind = a.K
			cmd = append(cmd, "fixed")
			continue
		case "good":
			d, err = json.Marshal(st)
			if err != nil {
				fail(err)
			}
		case "untabular":
			d = []byte([]string{`{"format":"csv","schema":{"type":"object"}}`, `{"format":"csv"}`, `{"format":"csv","schema":{"type":"array","items":{"type":"array"}}}`, `{"format":"csv","schema":{"type":"array","items":{"items":{"type":"string"}}}}`}[s.R.Intn(4)])
		case "broken":
			d = []byte([]string{"", "{", "[]", `{"format":7}`, `{"format":"csv","schema":[]}`}[s.R.Intn(5)])
		case "missing":
			p = filepath.Join(dir, "none.json")
		}
		if a.K != "missing" {
			if err := ioutil.WriteFile(p, d, 0644); err != nil {
				fail(err)
			}
		}
		kind = a.K
		cmd = append(cmd, p)
	}
	s.Ev("run", M{"args": args, "schema": t, "header": header})
	exe, err := os.Executable()
	if err != nil {
		fail(err)
	}
	c := exec.Command(filepath.Join(filepath.Dir(exe), "dsgen"), cmd...)
	c.Dir = dir
	out := &bytes.Buffer{}
	c.Stdout = out
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fail(err)
		}
		defer f.Close()
		c.Stdout = f
	}
	err = c.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		fail(err)
	}
	tops := 0
	if err == nil && !full {
		// what is printed when it fails is no table
		r := csv.NewReader(out)
		r.FieldsPerRecord = -1
		if kind == "good" {
			r.Comma = comma
		}
		for k := 0; ; k++ {
			rec, rerr := r.Read()
			if rerr == io.EOF {
				break
			}
			if rerr != nil {
				s.Ev("row", M{"row": []M{}})
				break
			}
			if k == 0 && (kind == "fixed" || header) {
				tops++
				s.Ev("top", M{"cells": rec})
				continue
			}
			if kind == "fixed" {
				zeros := 0
				last := rec[len(rec)-1]
				if h := len(last) - 908; h >= 0 && strings.Trim(last[h:], "0") == "" {
					rec[len(rec)-1], zeros = last[:h], 908
				}
				s.Ev("fixed", M{"cells": rec, "zeros": zeros})
				continue
			}
			row := []M{}
			for i, c := range rec {
				typ := "?"
				if i < len(t.Cols) {
					typ = t.Cols[i].Type.Text
				}
				row = append(row, genCell(c, typ))
			}
			s.Ev("row", M{"row": row})
		}
	}
	s.Ev("exit", M{"ok": err == nil, "full": full, "tops": tops})
}

func runDsgen(h *H) {
	for _, sc := range h.Scens {
		d, _ := json.Marshal(sc)
		x := struct {
			Args []garg `json:"args"`
		}{}
		if err := json.Unmarshal(d, &x); err != nil {
			fail(err)
		}
		h.Add("scen", func(s *Sess) {
			s.Ev("begin", M{})
			genRun(s, x.Args, false)
		})
	}
	// numbers of rows around those a program may do at once
	for _, n := range []int{64, 100, 128, 256, 500, 512, 1000, 1024} {
		for d := -1; d <= 1; d++ {
			for _, k := range []string{"good", "fixed"} {
				n, d, k := n, d, k
				h.Add("count", func(s *Sess) {
					s.Ev("begin", M{})
					genRun(s, []garg{{k, 0}, {"rows", n + d}}, false)
				})
			}
		}
	}
	for i := 0; i < h.N(60, 600); i++ {
		h.Add("random", func(s *Sess) {
			s.Ev("begin", M{})
			k := []string{"good", "good", "fixed"}[s.R.Intn(3)]
			n := s.R.Intn(60)
			if s.R.Intn(10) == 0 {
				n = 300 + s.R.Intn(1200)
			}
			if s.R.Intn(10) == 0 {
				n = -1 - s.R.Intn(3)
			}
			args := []garg{{k, 0}, {[]string{"rows", "rows="}[s.R.Intn(2)], n}}
			if s.R.Intn(2) == 0 {
				args[0], args[1] = args[1], args[0]
			}
			genRun(s, args, s.R.Intn(4) == 0)
		})
	}
}
