id="g02-layout-raw"; prop="G02"; pkg="csvtoproto"
needs="a time layout that holds a backquote"
breaks="the layout is put between backquotes, so a backquote in it ends the literal and the rest becomes code"
edits=[("csvtoproto/csvtoproto_go_codegen.go","""	const layout = {{.time_layout | printf "%q"}}""","""	const layout = ` + "`{{.time_layout}}`" + `""")]
test='''package csvtoproto
import (
	"strings"
	"testing"

	pb "github.com/google/xtoproto/proto/recordtoproto"
)
func TestDemo(t *testing.T){
	_, code, err := GenerateCode(&pb.RecordProtoMapping{PackageName: "p", MessageName: "M", GoOptions: &pb.GoOptions{GoPackageName: "g", ProtoImport: "x/y"},
		ColumnToFieldMappings: []*pb.ColumnToFieldMapping{{ColName: "alpha", ProtoName: "alpha", ProtoType: "google.protobuf.Timestamp",
			ParsingInfo: &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: "2006` + escaped() + `"}}}}}, false, true)
	if err != nil { return }
	if strings.Contains(code, "+ escaped() +") && !strings.Contains(code, "\\"2006` + escaped() + `\\"") { t.Error("a part of the layout has become code") }
}
'''
