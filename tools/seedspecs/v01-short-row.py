id="v01-short-row"; prop="V01"; pkg="csvcoder"
needs="a row with fewer cells than the header, from a reader that allows it"
breaks="fields whose cells are missing are left as they are, and the row is accepted"
edits=[("csvcoder/csvcoder_row.go",'''	for _, fp := range p.fieldParsers {
''','''	for i, fp := range p.fieldParsers {
		if i >= len(row.Strings()) {
			break // no more cells
		}
''')]
test='''package csvcoder
import ("encoding/csv";"reflect";"strings";"testing")
type demoRow struct {
	A string `csv:"a"`
	B string `csv:"b"`
}
func TestDemo(t *testing.T){
	RegisterRowStruct(reflect.TypeOf(&demoRow{}))
	r := csv.NewReader(strings.NewReader("b,a,c\\ny\\n"))
	r.FieldsPerRecord = -1
	fp, err := NewFileParser(r, "f", &struct{B string `csv:"b"`; A string `csv:"a"`}{})
	if err != nil { t.Fatal(err) }
	if got, err := fp.Read(); err == nil { t.Fatalf("%+v", got) }
}
'''
