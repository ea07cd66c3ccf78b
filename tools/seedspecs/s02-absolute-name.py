id="s02-absolute-name"; prop="S02"; pkg="service"
needs="a request whose output file name is an absolute path"
breaks="an absolute output file name is not refused"
edits=[("service/service_generate_code.go","if path.IsAbs(dir) || path.IsAbs(fileName) {","if path.IsAbs(dir) || path.IsAbs(fileName) && path.Dir(fileName) != \"/\" {")]
test='''package service
import ("testing";"context";"io"
 rpb "github.com/google/xtoproto/proto/recordtoproto"
 spb "github.com/google/xtoproto/proto/service")
func TestDemo(t *testing.T){
	n := 0
	s := &service{writeFile: func(ctx context.Context, p string, d []byte) error { n++; return nil }, defaultWorkspaceDir: "/ws"}
	_ = io.EOF
	_, err := s.GenerateCode(context.Background(), &spb.GenerateCodeRequest{Mapping: &rpb.RecordProtoMapping{PackageName: "a", MessageName: "B"}, ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{ProtoFileName: "/x.proto"}})
	if err == nil || n != 0 { t.Fatalf("an absolute name was accepted: err=%v, %d writes", err, n) }
}
'''
