id="f01-close-on-success"; prop="F01"; pkg="protocp"
needs="a copy that fails after its file was opened"
breaks="the opened file is not closed when copying fails"
edits=[("protocp/protocp.go","""	defer func() {
		if err := fio.Close(); err != nil && finalErr == nil {
			finalErr = err
		}
	}()

	return cp.Copy(ctx, bufio.NewReaderSize(fio, csvReaderBufferSize), writer)""","""	if err := cp.Copy(ctx, bufio.NewReaderSize(fio, csvReaderBufferSize), writer); err != nil {
		return err
	}
	return fio.Close()""")]
test='''package protocp
import ("testing";"context";"errors";"io";"strings";"google.golang.org/protobuf/proto")
type zzw struct{}
func (w zzw) addRow(context.Context, proto.Message) error { return nil }
func (w zzw) finalize(context.Context) error { return nil }
type zzr struct{}
func (zzr) ReadMessage() (proto.Message, error) { return nil, errors.New("x") }
type zzf struct{ io.Reader; n int }
func (f *zzf) Close() error { f.n++; return nil }
type zzfs struct{ f *zzf }
func (s zzfs) OpenRead(context.Context, string) (io.ReadCloser, error) { return s.f, nil }
func TestDemo(t *testing.T){
	f := &zzf{Reader: strings.NewReader("")}
	err := NewCopier(func(io.Reader) (MessageReader, error) { return zzr{}, nil }).CopyFile(context.Background(), zzfs{f}, "x", zzw{})
	if err == nil || f.n != 1 { t.Fatalf("%v closed %d times", err, f.n) }
}
'''
