id="i01-float-width"; prop="I01"; pkg="recordinfer"
needs="a numeric column with a value beyond the range of a 32-bit float"
breaks="float is chosen for a column with a value that does not parse as one"
edits=[("recordinfer/recordinfer_numbers.go",'''strconv.ParseFloat(value, 32)''','''strconv.ParseFloat(value, 64)''')]
test='''package recordinfer
import "testing"
func TestDemo(t *testing.T){
	b := NewRecordBasedInferrer(&Options{MessageName: "M", PackageName: "p"})
	for _, r := range []string{"c", "1.5", "1e300"} { if err := b.AddRow([]string{r}); err != nil { t.Fatal(err) } }
	p, err := b.Build()
	if err != nil { t.Fatal(err) }
	if g := p.Mapping().ColumnToFieldMappings[0].ProtoType; g != "string" { t.Errorf("got %s", g) }
}
'''
