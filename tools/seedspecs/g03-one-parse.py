id="g03-one-parse"; prop="G03"; pkg="csvtoproto"
needs="a mapping with two columns of timestamps or durations"
breaks="only the first of them is converted: the generated converter sets the other from a variable that does not exist"
edits=[("csvtoproto/csvtoproto_go_codegen.go",'''		if expr.parseStatements != "" {
''','''		if expr.parseStatements != "" && len(toProtoInitStatements) == 0 {
''')]
test='''package csvtoproto
import ("strings";"testing"; pb "github.com/google/xtoproto/proto/recordtoproto")
func TestDemo(t *testing.T){
	m := &pb.RecordProtoMapping{PackageName: "p", MessageName: "M", GoOptions: &pb.GoOptions{GoPackageName: "p", ProtoImport: "q"}, ColumnToFieldMappings: []*pb.ColumnToFieldMapping{
		{ColName: "a", ProtoName: "a", ProtoTag: 1, ProtoType: "google.protobuf.Timestamp"},
		{ColName: "b", ProtoName: "b", ProtoTag: 2, ProtoType: "google.protobuf.Timestamp"},
	}}
	_, code, err := GenerateCode(m, false, true)
	if err != nil { t.Fatal(err) }
	if n := strings.Count(code, "csvtoprotoparse.TimeToTimestamp("); n != 2 { t.Fatal(n, code) }
}
'''
