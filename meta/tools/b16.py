exec(open('/tmp/seeds/b4.py').read().split("seed('readme-decode")[0])
FX='''
func mk(files map[string]string) string {
	dir, err := ioutil.TempDir("", "demo")
	must(err)
	for f, t := range files {
		must(ioutil.WriteFile(filepath.Join(dir, f), []byte(t), 0644))
	}
	return dir
}
'''
DT='github.com/qri-io/dataset/dstest'
seed('fixture-empty-body','C26',[('dstest/dstest.go','''		if f, err := os.Open(path); err == nil {
			data, err := ioutil.ReadAll(f)
			return data, fmt.Sprintf("body.%s", df), err
		}
''','''		if f, err := os.Open(path); err == nil {
			data, err := ioutil.ReadAll(f)
			f.Close()
			if err == nil && len(data) == 0 {
				continue
			}
			return data, fmt.Sprintf("body.%s", df), err
		}
''')],G('io/ioutil','os','path/filepath',DT)+FX+'''
func main() {
	dir := mk(map[string]string{"body.csv": "", "readme.md": "x"})
	defer os.RemoveAll(dir)
	tc, err := dstest.NewTestCaseFromDir(dir)
	must(err)
	if tc.BodyFilename != "body.csv" || tc.Input.BodyFile() == nil {
		bad("body is %q", tc.BodyFilename)
	}
}
''','a test case whose body file is empty','the test case has no body')
seed('fixture-stale-case','C26',[('dstest/dstest.go','''	tc.Expect, err = ReadDataset(dir, ExpectDatasetFilename)
	if err != nil {
''','''	testCaseCacheMu.Lock()
	prev, loaded := testCaseCache[dir]
	testCaseCacheMu.Unlock()
	if loaded && prev.Expect != nil {
		// expectations are read once
		tc.Expect = prev.Expect
	} else {
		tc.Expect, err = ReadDataset(dir, ExpectDatasetFilename)
	}
	if err != nil {
''')],G('io/ioutil','os','path/filepath',DT)+FX+'''
func main() {
	dir := mk(map[string]string{"expect.dataset.json": `{"qri":"ds:0","name":"a"}`})
	defer os.RemoveAll(dir)
	tc, err := dstest.NewTestCaseFromDir(dir)
	must(err)
	if tc.Expect == nil || tc.Expect.Name != "a" {
		bad("first is %v", tc.Expect)
	}
	must(ioutil.WriteFile(filepath.Join(dir, "expect.dataset.json"), []byte(`{"qri":"ds:0","name":"b"}`), 0644))
	tc, err = dstest.NewTestCaseFromDir(dir)
	must(err)
	if tc.Expect == nil || tc.Expect.Name != "b" {
		bad("second is %v", tc.Expect)
	}
}
''','loading a directory again after its expected document was changed','the document expected before is given')
seed('golden-loose','C26',[('dstest/golden.go','''	if diff := CompareDatasets(expect, got); diff != "" {
''','''	if diff := CompareDatasets(expect, got, OptDropTransientValues(0)); diff != "" || expect.Name != got.Name {
''')],G('os','os/exec','io/ioutil','path/filepath','strings',DT,DS,'testing','flag','time','reflect','io') if False else G('os','io/ioutil','path/filepath','testing',DT,DS)+FX+'''
func main() {
	dir := mk(map[string]string{"golden.json": `{"qri":"ds:0","name":"a","path":"/ipfs/one"}`})
	defer os.RemoveAll(dir)
	var failed = true
	done := make(chan bool)
	t := &testing.T{}
	go func() {
		defer close(done)
		defer func() { recover() }() // a T without a test can not report
		dstest.CompareGoldenDatasetAndUpdateIfEnvVarSet(t, filepath.Join(dir, "golden.json"), &dataset.Dataset{Qri: "ds:0", Name: "a", Path: "/ipfs/two"})
		failed = false
	}()
	<-done
	if !failed {
		bad("no difference of places found")
	}
}
''','a golden file that differs in a transient value only','the test passes')
