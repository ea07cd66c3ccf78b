id="n05-short-row"; prop="N05"; pkg="csvcoder"
needs="a row that ends just before a column the struct asks for, from a reader that does not refuse rows of different lengths"
breaks="the value after the last of the row is read: decoding panics instead of giving an error"
edits=[("csvcoder/csvcoder_row.go",'if idx.Offset() >= len(row.Strings()) {','if idx.Offset() > len(row.Strings()) {')]
test='''package csvcoder
import ("testing";"encoding/csv";"strings")
func TestDemo(t *testing.T){
	type r struct{ A, B, C string }
	cr := csv.NewReader(strings.NewReader("A,B,C\\n1,2,3\\n4,5\\n"))
	cr.FieldsPerRecord = -1
	p, err := NewFileParser(cr, "f", &r{})
	if err != nil { t.Fatal(err) }
	if _, err := p.Read(); err != nil { t.Fatal(err) }
	if v, err := p.Read(); err == nil { t.Fatalf("got %v", v) }
}
'''
