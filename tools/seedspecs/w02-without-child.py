id="w02-without-child"; prop="W02"; pkg="wirepath"
needs="an evaluation that fails in the middle of a path"
breaks="describing the failing component cuts the rest off the caller's path"
edits=[("wirepath/wirepath.go",'''	outProto := proto.Clone(p.proto).(*pb.WirePath)''','''	outProto := p.proto
	_ = proto.Clone''')]
test='''package wirepath
import ("testing"; pb "github.com/google/xtoproto/proto/wirepath")
func TestDemo(t *testing.T){
	p := MustParse("2/1")
	before := p.String()
	if _, err := GetValue(p, &pb.WirePath{}); err == nil { t.Fatal("no error") }
	if after := p.String(); after != before { t.Fatalf("%q became %q", before, after) }
}
'''
