id="n05-header-length"; prop="N05"; pkg="csvcoder"
needs="a row with fewer values than the header, from a reader that does not refuse it"
breaks="the length of the header is taken for that of the row: decoding panics instead of giving an error"
edits=[("csvcoder/csvcoder_row.go",'if idx.Offset() >= len(row.Strings()) {','if n := len(row.Header().ColumnNames()); idx.Offset() >= n || len(row.Strings()) == 0 {')]
test='''package csvcoder
import ("testing";"encoding/csv";"strings")
func TestDemo(t *testing.T){
	type r struct{ A, B, C string }
	cr := csv.NewReader(strings.NewReader("A,B,C\\n1,2,3\\n4\\n"))
	cr.FieldsPerRecord = -1
	p, err := NewFileParser(cr, "f", &r{})
	if err != nil { t.Fatal(err) }
	if _, err := p.Read(); err != nil { t.Fatal(err) }
	if v, err := p.Read(); err == nil { t.Fatalf("got %v", v) }
}
'''
