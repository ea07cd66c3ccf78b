id="s01-read-fallback"; prop="S01"; pkg="service"
needs="an input path the host's reader says does not exist although it exists on the machine"
breaks="the service reads the file itself when the host's reader does not know it"
edits=[("service/service_infer.go","""		if err != nil {
			return nil, fileErrToStatusErr(input.GetInputPath(), err)
		}
		exampleBytes = contents""","""		if os.IsNotExist(err) {
			contents, err = os.ReadFile(input.GetInputPath())
		}
		if err != nil {
			return nil, fileErrToStatusErr(input.GetInputPath(), err)
		}
		exampleBytes = contents""")]
test='''package service
import ("testing";"context";"os";"path/filepath"
 spb "github.com/google/xtoproto/proto/service")
func TestDemo(t *testing.T){
	f := filepath.Join(t.TempDir(), "a.csv")
	if err := os.WriteFile(f, []byte("a,b\\n1,2\\n"), 0600); err != nil { t.Fatal(err) }
	s := &service{readFile: func(ctx context.Context, p string) ([]byte, error) { return nil, os.ErrNotExist }}
	_, err := s.Infer(context.Background(), &spb.InferRequest{MessageName:"A", PackageName:"b", ExampleInputs: []*spb.InputFile{{Spec: &spb.InputFile_InputPath{InputPath: f}}}})
	if err == nil { t.Fatal("the service read a file its host refused") }
}
'''
