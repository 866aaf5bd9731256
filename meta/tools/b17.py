exec(open('/tmp/seeds/b4.py').read().split("seed('readme-decode")[0])
GEN='''
func dsgen(args ...string) int {
	dir, err := ioutil.TempDir("", "demo")
	must(err)
	defer os.RemoveAll(dir)
	exe := filepath.Join(dir, "dsgen")
	if out, err := exec.Command("go", "build", "-o", exe, "github.com/qri-io/dataset/generate/dsgen").CombinedOutput(); err != nil {
		bad("build: %s", out)
	}
	must(ioutil.WriteFile(filepath.Join(dir, "s.json"), []byte(`{"format":"csv","schema":{"type":"array","items":{"type":"array","items":[{"title":"a","type":"integer"}]}}}`), 0644))
	c := exec.Command(exe, args...)
	c.Dir = dir
	out, err := c.Output()
	must(err)
	return strings.Count(string(out), "\\n")
}
'''
seed('dsgen-batches','C27',[('generate/dsgen/main.go','''	for i := 0; i < lines; i++ {
		ent, err := gen.ReadEntry()
''','''	const batch = 256
	done := 0
	for ; lines-done > batch; done += batch {
		for i := 0; i < batch; i++ {
			ent, err := gen.ReadEntry()
			if err != nil {
				return err
			}
			if err := w.WriteEntry(ent); err != nil {
				return err
			}
		}
	}
	for i := 0; i < (lines-done)%batch; i++ {
		ent, err := gen.ReadEntry()
''')],G('io/ioutil','os','os/exec','path/filepath','strings')+GEN+'''
func main() {
	for _, n := range []string{"1", "255", "300", "512"} {
		if got := fmt.Sprint(dsgen("--rows", n, "s.json")); got != n {
			bad("%s rows for %s", got, n)
		}
	}
}
''','a number of rows that is a multiple of 256','the last 256 rows are missing')
seed('dsgen-fixed-size','C27',[('generate/dsgen/main.go','''			rawData = fmt.Sprintf("%d%s", i, filler)
''','''			// rows are of the same size
			rawData = fmt.Sprintf("%d%s", i, filler[len(uuid)-len("0-BA882B47-B26A-4E29-BFB4-XXXXXXXXXXXX"):])
''')],G('os','os/exec','path/filepath','io/ioutil','strings')+'''
func main() {
	dir, err := ioutil.TempDir("", "demo")
	must(err)
	defer os.RemoveAll(dir)
	exe := filepath.Join(dir, "dsgen")
	if out, err := exec.Command("go", "build", "-o", exe, "github.com/qri-io/dataset/generate/dsgen").CombinedOutput(); err != nil {
		bad("build: %s", out)
	}
	out, err := exec.Command(exe, "--rows", "12", "fixed").Output()
	must(err)
	for i, l := range strings.Split(strings.TrimSpace(string(out)), "\\n") {
		c := strings.Split(l, ",")
		if i > 0 && c[len(c)-1] != fmt.Sprint(i-1)+strings.Repeat("0", 908) {
			bad("row %d ends in %d characters", i, len(c[len(c)-1]))
		}
	}
}
''','ten fixed rows or more','data of later rows is not 908 zeros after the number')
