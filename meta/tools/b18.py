exec(open('/tmp/seeds/b4.py').read().split("seed('readme-decode")[0])
D='github.com/qri-io/dataset/dsio'
seed('json-depth-leak','C01',[('dsio/json.go','''		return nil, fmt.Errorf("Expected: null")
''','''		return nil, fmt.Errorf("Expected: null")
'''),] if False else [('dsio/json.go','''	b := r.peekNextChar()
	switch b {
	case 'n':
''','''	v, err := r.readScalarOrContainer()
	if v != nil {
		r.depth--
	}
	return v, err
}

func (r *JSONReader) readScalarOrContainer() (interface{}, error) {
	b := r.peekNextChar()
	switch b {
	case 'n':
'''),('dsio/json.go','''	defer func() { r.depth-- }()
''','')],G('bytes','strings',DS,D)+'''
func main() {
	r, err := dsio.NewJSONReader(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}, strings.NewReader("["+strings.Repeat("null,", 20000)+"1]"))
	must(err)
	_ = bytes.NewReader
	n := 0
	must(dsio.EachEntry(r, func(int, dsio.Entry, error) error { n++; return nil }))
	if n != 20001 {
		bad("%d entries", n)
	}
}
''','a JSON body with more than 10000 nulls','reading it fails as nested too deep')
seed('cbor-simple-byte','C08',[('dsio/cbor.go','''			if b > cborBdFloat64 {
				return nil, fmt.Errorf("unknown cbor tag: %v", b)
			}
''','''			if b > cborBdFloat64 {
				return nil, fmt.Errorf("unknown cbor tag: %v", b)
			}
			if b >= cborBdUndefined {
				return nil, nil
			}
''')],G('bytes',DS,D)+'''
func main() {
	r, err := dsio.NewCBORReader(&dataset.Structure{Format: "cbor", Schema: dataset.BaseSchemaArray}, bytes.NewReader([]byte{0x82, 0xf8, 0x40, 0x05}))
	must(err)
	_, err = r.ReadEntry()
	must(err)
	e, err := r.ReadEntry()
	must(err)
	if e.Value != int64(5) {
		bad("second value is %v", e.Value)
	}
}
''','a simple value of two bytes','its second byte is read as the next entry')
seed('xlsx-column-names','C01',[('dsio/xlsx.go','''	for i := lastButOnePart; i > 0; i-- {
''','''	for i := lastButOnePart - 1; i > 0; i-- {
''')],G('bytes',DS,D)+'''
func main() {
	items := []interface{}{}
	row := []interface{}{}
	for i := 0; i < 702; i++ {
		items = append(items, map[string]interface{}{"title": fmt.Sprintf("c%d", i), "type": "integer"})
		row = append(row, int64(i))
	}
	st := &dataset.Structure{Format: "xlsx", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}}
	buf := &bytes.Buffer{}
	w, err := dsio.NewXLSXWriter(st, buf)
	must(err)
	must(w.WriteEntry(dsio.Entry{Value: row}))
	must(w.Close())
	r, err := dsio.NewXLSXReader(st, buf)
	must(err)
	e, err := r.ReadEntry()
	must(err)
	got := e.Value.([]interface{})
	if len(got) != 702 || got[676] != int64(676) {
		bad("%d cells, %v", len(got), got[676])
	}
}
''','spreadsheets with more than 676 columns','cells of columns ZA to ZZ end up elsewhere')
seed('cbor-tag-nesting','C06',[('dsio/cbor.go','''	r.depth++
	defer func() { r.depth-- }()
	if r.depth > maxDepth {
		return nil, errMaxDepth
	}

	b, err := r.rdr.ReadByte()
	if err != nil {
		return nil, err
	}
''','''	b, err := r.rdr.ReadByte()
	if err != nil {
		return nil, err
	}

	if b&cborTypeMask == cborBaseArray || b&cborTypeMask == cborBaseMap {
		r.depth++
		defer func() { r.depth-- }()
		if r.depth > maxDepth {
			return nil, errMaxDepth
		}
	}
''')],G('bytes','runtime/debug',DS,D)+'''
func main() {
	debug.SetMaxStack(64 << 20)
	d := append([]byte{0x81}, bytes.Repeat([]byte{0xc1}, 1<<20)...)
	r, err := dsio.NewCBORReader(&dataset.Structure{Format: "cbor", Schema: dataset.BaseSchemaArray}, bytes.NewReader(d))
	must(err)
	if _, err = r.ReadEntry(); err == nil {
		bad("no error")
	}
}
''','a million tags around a value','the process ends for lack of stack')
