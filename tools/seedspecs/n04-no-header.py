id="n04-no-header"; prop="N04"; pkg="recordinfer"
needs="an inferrer that was given no rows"
breaks="the number of rows is checked against the header's count of columns first: the inference panics"
edits=[("recordinfer/recordinfer.go",'''	if len(b.rows) < 2 {
		return nil, fmt.Errorf("not enough rows to infer types: %d", len(b.rows))
	}
	numCols := len(b.rows[0])
''','''	numCols := len(b.rows[0])
	if len(b.rows) < 2 {
		return nil, fmt.Errorf("not enough rows to infer types: %d", len(b.rows))
	}
''')]
test='''package recordinfer
import "testing"
func TestDemo(t *testing.T){
	_, err := NewRecordBasedInferrer(&Options{}).Build()
	if err == nil { t.Fatal("no error") }
}
'''
