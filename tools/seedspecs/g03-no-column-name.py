id="g03-no-column-name"; prop="G03"; pkg="csvtoproto"
needs="a mapping of a column whose header cell is empty"
breaks="the column has no field in the definition, although the converter sets one"
edits=[("csvtoproto/csvtoproto.go",'''		if field.Ignored {
			continue
''','''		if field.Ignored || field.ColName == "" {
			continue
''')]
test='''package csvtoproto
import ("strings";"testing"; pb "github.com/google/xtoproto/proto/recordtoproto")
func TestDemo(t *testing.T){
	m := &pb.RecordProtoMapping{PackageName: "p", MessageName: "M", ColumnToFieldMappings: []*pb.ColumnToFieldMapping{
		{ColName: "", ProtoName: "field_1", ProtoTag: 1, ProtoType: "string"},
		{ColName: "b", ProtoName: "b", ProtoTag: 2, ProtoType: "string"},
	}}
	code, _, err := GenerateCode(m, true, false)
	if err != nil { t.Fatal(err) }
	if !strings.Contains(code, "string field_1 = 1;") { t.Fatal(code) }
}
'''
