id="e01-finalize-last"; prop="E01"; pkg="protocp"
needs="a composite destination whose first member fails to finish while a later one succeeds"
breaks="the failure of an earlier member is overwritten by a later member's success"
edits=[("protocp/protocp_writers.go","""		if err := w.finalize(ctx); err != nil && firstErr == nil {
			firstErr = err
		}""","""		if err := w.finalize(ctx); err != nil || firstErr != nil {
			firstErr = err
		}""")]
test='''package protocp
import ("testing";"context";"errors";"google.golang.org/protobuf/proto")
type zzw struct{ e error }
func (w zzw) addRow(context.Context, proto.Message) error { return nil }
func (w zzw) finalize(context.Context) error { return w.e }
func TestDemo(t *testing.T){
	w := NewCompositeRecordWriter(zzw{errors.New("x")}, zzw{})
	if w.finalize(context.Background()) == nil { t.Fatal("failure lost") }
}
'''
