id="e03-warn-stdout"; prop="E03"; pkg="csvtoproto"
needs="a field comment with one word longer than a line of the generated definition"
breaks="generating code prints to standard output"
edits=[("csvtoproto/csvtoproto.go","""			glog.Warningf("despite""","""			fmt.Printf("despite""")]
edits.append(("csvtoproto/csvtoproto.go",'''	"github.com/golang/glog"
''',''))
test='''package csvtoproto
import ("testing";"os";"io";"strings"
 pb "github.com/google/xtoproto/proto/recordtoproto")
func TestDemo(t *testing.T){
	old := os.Stdout
	r, w, err := os.Pipe(); if err != nil { t.Fatal(err) }
	os.Stdout = w
	GenerateCode(&pb.RecordProtoMapping{PackageName:"a", MessageName:"B", ColumnToFieldMappings: []*pb.ColumnToFieldMapping{{ColName:"c", ProtoName:"c", ProtoType:"string", ProtoTag:1, Comment: strings.Repeat("x", 300)}}}, true, false)
	os.Stdout = old; w.Close()
	b, _ := io.ReadAll(r)
	if len(b) != 0 { t.Fatalf("printed %q", b) }
}
'''
