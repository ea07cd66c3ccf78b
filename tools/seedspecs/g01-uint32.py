id="g01-uint32"; prop="G01"; pkg="csvtoproto"
needs="a mapping with a column of type uint32"
breaks="uint32 columns are accepted, but the row holds an int32, so the generated code does not compile"
edits=[("csvtoproto/csvtoproto_go_codegen.go","""	case "int32":
		return""","""	case "int32", "uint32":
		return"""),("csvtoproto/csvtoproto_go_codegen.go","""	case "int32", "int64", "float", "double", "string":""","""	case "int32", "uint32", "int64", "float", "double", "string":""")]
test='''package csvtoproto
import (
	"regexp"
	"testing"

	pb "github.com/google/xtoproto/proto/recordtoproto"
)
func TestDemo(t *testing.T){
	_, code, err := GenerateCode(&pb.RecordProtoMapping{PackageName: "p", MessageName: "M", GoOptions: &pb.GoOptions{GoPackageName: "g", ProtoImport: "x/y"},
		ColumnToFieldMappings: []*pb.ColumnToFieldMapping{{ColName: "alpha", ProtoName: "alpha", ProtoType: "uint32"}}}, false, true)
	if err != nil { return }
	if regexp.MustCompile("Alpha +int32").MatchString(code) && regexp.MustCompile("Alpha: +r\\\\.Alpha,").MatchString(code) { t.Error("an int32 is assigned to a field of type uint32") }
}
'''
