id="s03-go-path-report"; prop="S03"; pkg="service"
needs="a converter output in a directory other than the workspace root"
breaks="the response reports the generated Go file at a place other than where it was written"
edits=[("service/service_generate_code.go","""	return fullPath, path.Join(req.GetConverter().GetDirectory(), fileName), nil""","""	return fullPath, path.Join(req.GetConverter().GetDirectory(), path.Base(fileName)), nil""")]
test='''package service
import ("testing";"context"
 rpb "github.com/google/xtoproto/proto/recordtoproto"
 spb "github.com/google/xtoproto/proto/service")
func TestDemo(t *testing.T){
	var where []string
	s := &service{writeFile: func(ctx context.Context, p string, d []byte) error { where = append(where, p); return nil }, defaultWorkspaceDir: "/ws"}
	resp, err := s.GenerateCode(context.Background(), &spb.GenerateCodeRequest{Mapping: &rpb.RecordProtoMapping{PackageName: "a", MessageName: "B", GoOptions: &rpb.GoOptions{GoPackageName: "a", ProtoImport: "b/c"}}, Converter: &spb.GenerateCodeRequest_Converter{Directory: "d", GoFileName: "sub/x.go"}})
	if err != nil { t.Fatal(err) }
	if len(where) != 1 || where[0] != "/ws/" + resp.GetConverterGoFile().GetWorkspaceRelativePath() { t.Fatalf("wrote %q, reported %q", where, resp.GetConverterGoFile().GetWorkspaceRelativePath()) }
}
'''
