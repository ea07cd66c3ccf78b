id="p01-composite-skip"; prop="P01"; pkg="protocp"
needs="a composite destination whose first member fails to finish"
breaks="the members after the one that failed are never finished"
edits=[("protocp/protocp_writers.go","""		if err := w.finalize(ctx); err != nil && firstErr == nil {
			firstErr = err
		}
	}""","""		if firstErr != nil {
			break
		}
		firstErr = w.finalize(ctx)
	}""")]
test='''package protocp
import ("testing";"context";"errors";"google.golang.org/protobuf/proto")
type zzw struct{ n int; e error }
func (w *zzw) addRow(context.Context, proto.Message) error { return nil }
func (w *zzw) finalize(context.Context) error { w.n++; return w.e }
func TestDemo(t *testing.T){
	a, b := &zzw{e: errors.New("x")}, &zzw{}
	if err := NewCompositeRecordWriter(a, b).finalize(context.Background()); err == nil || b.n != 1 { t.Fatalf("%v %d", err, b.n) }
}
'''
