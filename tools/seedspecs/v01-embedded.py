id="v01-embedded"; prop="V01"; pkg="csvcoder"
needs="a row struct with an embedded field of a named basic type"
breaks="the embedded field is silently left out"
edits=[("csvcoder/csvcoder_row.go",'''		if _, ok := f.Tag.Lookup("csv-skip"); ok {
''','''		if _, ok := f.Tag.Lookup("csv-skip"); ok || f.Anonymous {
''')]
test='''package csvcoder
import ("encoding/csv";"reflect";"strings";"testing")
type DemoMass float64
type demoRow struct {
	A string `csv:"a"`
	DemoMass
}
func TestDemo(t *testing.T){
	RegisterRowStruct(reflect.TypeOf(&demoRow{}))
	fp, err := NewFileParser(csv.NewReader(strings.NewReader("a,DemoMass\\nx,2\\n")), "f", &demoRow{})
	if err != nil { t.Fatal(err) }
	got, err := fp.Read()
	if err != nil { t.Fatal(err) }
	if r := got.(*demoRow); r.A != "x" || r.DemoMass != 2 { t.Fatalf("%+v", r) }
}
'''
