id="g01-second-time"; prop="G01"; pkg="csvtoproto"
needs="a mapping with two time stamp columns"
breaks="the type declared for the second time stamp column is left out, so the generated code does not compile"
edits=[("csvtoproto/csvtoproto_go_codegen.go","""		if fieldType.topLevelCode != "" {""","""		if fieldType.topLevelCode != "" && len(topLevelLines) == 0 {""")]
test='''package csvtoproto
import (
	"strings"
	"testing"

	pb "github.com/google/xtoproto/proto/recordtoproto"
)
func TestDemo(t *testing.T){
	col := func(n string) *pb.ColumnToFieldMapping {
		return &pb.ColumnToFieldMapping{ColName: n, ProtoName: n, ProtoType: "google.protobuf.Timestamp"}
	}
	_, code, err := GenerateCode(&pb.RecordProtoMapping{PackageName: "p", MessageName: "M", GoOptions: &pb.GoOptions{GoPackageName: "g", ProtoImport: "x/y"},
		ColumnToFieldMappings: []*pb.ColumnToFieldMapping{col("alpha"), col("beta")}}, false, true)
	if err != nil { t.Fatal(err) }
	for _, n := range []string{"alphaTime", "betaTime"} {
		if strings.Contains(code, n) && !strings.Contains(code, "type "+n+" ") { t.Errorf("%s is used but not declared", n) }
	}
}
'''
