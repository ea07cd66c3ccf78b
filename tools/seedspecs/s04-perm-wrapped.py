id="s04-perm-wrapped"; prop="S04"; pkg="service"
needs="a host reader whose failure is a wrapped permission error"
breaks="a forbidden file is answered with the code for unknown failures"
edits=[("service/service_infer.go","	if os.IsPermission(err) {","	if pe, ok := err.(*os.PathError); ok && pe.Op == \"open\" && os.IsPermission(err) {")]
test='''package service
import ("testing";"context";"os"
 "google.golang.org/grpc/codes"
 "google.golang.org/grpc/status"
 spb "github.com/google/xtoproto/proto/service")
func TestDemo(t *testing.T){
	s := &service{readFile: func(ctx context.Context, p string) ([]byte, error) { return nil, os.ErrPermission }}
	_, err := s.Infer(context.Background(), &spb.InferRequest{ExampleInputs: []*spb.InputFile{{Spec: &spb.InputFile_InputPath{InputPath: "x"}}}})
	if status.Code(err) != codes.PermissionDenied { t.Fatalf("got %v", err) }
}
'''
