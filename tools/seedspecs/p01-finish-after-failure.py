id="p01-finish-after-failure"; prop="P01"; pkg="protocp"
needs="a reader that fails after delivering some records"
breaks="the destination is finished although reading failed"
edits=[("protocp/protocp.go","""		if err != nil {
			return err
		}
		if err := writer""","""		if err != nil {
			writer.finalize(ctx)
			return err
		}
		if err := writer""")]
test='''package protocp
import ("testing";"context";"errors";"io";"strings";"google.golang.org/protobuf/proto")
type zzw struct{ n int }
func (w *zzw) addRow(context.Context, proto.Message) error { return nil }
func (w *zzw) finalize(context.Context) error { w.n++; return nil }
type zzr struct{ n int }
func (r *zzr) ReadMessage() (proto.Message, error) { r.n++; if r.n > 2 { return nil, errors.New("x") }; return nil, nil }
func TestDemo(t *testing.T){
	w := &zzw{}
	err := NewCopier(func(io.Reader) (MessageReader, error) { return &zzr{}, nil }).Copy(context.Background(), strings.NewReader(""), w)
	if err == nil || w.n != 0 { t.Fatalf("%v %d", err, w.n) }
}
'''
