id="g02-import-quote"; prop="G02"; pkg="csvtoproto"
needs="a proto import with a quote in it"
breaks="import paths are put between quotes as they are, so a quote in one ends the literal"
edits=[("csvtoproto/csvtoproto.go",'fmt.Sprintf("import %q;", path)','"import \\""+path+"\\";"')]
test='''package csvtoproto
import (
	"strings"
	"testing"

	pb "github.com/google/xtoproto/proto/recordtoproto"
)
func TestDemo(t *testing.T){
	code, _, err := GenerateCode(&pb.RecordProtoMapping{PackageName: "p", MessageName: "M",
		ColumnToFieldMappings: []*pb.ColumnToFieldMapping{{ColName: "alpha", ProtoName: "alpha", ProtoType: "string", ProtoImports: []string{"a\\";option java_package=\\"b"}}}}, true, false)
	if err != nil { return }
	if strings.Contains(code, "a\\";option java_package") { t.Error("a part of the path has become code") }
}
'''
