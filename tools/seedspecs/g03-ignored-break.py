id="g03-ignored-break"; prop="G03"; pkg="csvtoproto"
needs="a mapping with an ignored column before one that is not"
breaks="the columns after the first ignored one get no field in the generated definition"
edits=[("csvtoproto/csvtoproto.go",'''		if field.Ignored {
			continue
''','''		if field.Ignored {
			break
''')]
test='''package csvtoproto
import ("strings";"testing"; pb "github.com/google/xtoproto/proto/recordtoproto")
func TestDemo(t *testing.T){
	m := &pb.RecordProtoMapping{PackageName: "p", MessageName: "M", ColumnToFieldMappings: []*pb.ColumnToFieldMapping{
		{ColName: "a", ProtoName: "a", ProtoTag: 1, ProtoType: "string", Ignored: true},
		{ColName: "b", ProtoName: "b", ProtoTag: 2, ProtoType: "string"},
	}}
	code, _, err := GenerateCode(m, true, false)
	if err != nil { t.Fatal(err) }
	if !strings.Contains(code, "string b = 2;") || strings.Contains(code, "string a = 1;") { t.Fatal(code) }
}
'''
