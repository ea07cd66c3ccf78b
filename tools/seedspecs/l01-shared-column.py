id="l01-shared-column"; prop="L01"; pkg="csvcoder"
needs="rows read one after another and kept by the caller"
breaks="every record a file parser yields is the same object once the type was used before"
edits=[("csvcoder/csvcoder_row.go","""	return &registeredType{
		t,
		requiredColumns,
		&structParser{valueExtractors},
		func() interface{} {
			return reflect.New(t.Elem()).Interface()
		},
	}, nil""","""	// Values with a many fields are cheap to keep.
	scratch := reflect.New(t.Elem()).Interface()
	return &registeredType{
		t,
		requiredColumns,
		&structParser{valueExtractors},
		func() interface{} {
			if len(valueExtractors) > 3 {
				return scratch
			}
			return reflect.New(t.Elem()).Interface()
		},
	}, nil""")]
test='''package csvcoder
import ("testing";"strings";"encoding/csv")
type zzR struct{ A, B, C, D int }
func TestDemo(t *testing.T){
	fp, err := NewFileParser(csv.NewReader(strings.NewReader("A,B,C,D\\n1,1,1,1\\n2,2,2,2\\n")), "", &zzR{})
	if err != nil { t.Fatal(err) }
	a, _ := fp.Read()
	fp.Read()
	if a.(*zzR).A != 1 { t.Fatal("the first record changed when the second was read") }
}
'''
