id="n05-missing-column"; prop="N05"; pkg="csvcoder"
needs="ParseRow with a header that lacks a column the struct asks for (a file parser checks its header before)"
breaks="the position -1 is read from the row: decoding panics instead of naming the missing column"
edits=[("csvcoder/csvcoder_row.go",'''			idx := row.Header().ColumnIndex(colName)
			if !idx.IsValid() {
''','''			idx := row.Header().ColumnIndex(colName)
			if !idx.IsValid() && len(row.Strings()) != len(row.Header().ColumnNames()) {
''')]
test='''package csvcoder
import ("testing";"reflect")
func TestDemo(t *testing.T){
	type r struct{ A, B string }
	RegisterRowStruct(reflect.TypeOf(&r{}))
	var v r
	if err := ParseRow(NewRow([]string{"1"}, NewHeader([]string{"A"}), 1, "f"), &v); err == nil { t.Fatalf("got %v", v) }
}
'''
