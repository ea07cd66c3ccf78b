id="v01-trimmed-header"; prop="V01"; pkg="csvcoder"
needs="a file with two columns whose names differ in the blanks around them only"
breaks="the field is set from the other column"
edits=[("csvcoder/csvcoder_row.go",'''		h.m[s] = ColumnNumber(i)
''','''		h.m[s] = ColumnNumber(i)
		h.m[strings.TrimSpace(s)] = ColumnNumber(i)
''')]
test='''package csvcoder
import ("encoding/csv";"reflect";"strings";"testing")
type demoRow struct {
	A string `csv:"a"`
}
func TestDemo(t *testing.T){
	RegisterRowStruct(reflect.TypeOf(&demoRow{}))
	fp, err := NewFileParser(csv.NewReader(strings.NewReader("a,\\"a \\"\\nx,y\\n")), "f", &demoRow{})
	if err != nil { t.Fatal(err) }
	got, err := fp.Read()
	if err != nil { t.Fatal(err) }
	if r := got.(*demoRow); r.A != "x" { t.Fatalf("%+v", r) }
}
'''
