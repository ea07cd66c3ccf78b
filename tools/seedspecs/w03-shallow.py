id="w03-shallow"; prop="W03"; pkg="wirepath"
needs="a path of five or more components"
breaks="evaluation stops at the fourth component and returns its value instead of the last one's"
edits=[("wirepath/wirepath.go",'''	child := p.child()
	if child == nil {''','''	child := p.child()
	if child == nil || ctx.parent != nil && ctx.parent.parent != nil && ctx.parent.parent.parent != nil {''')]
test='''package wirepath
import ("testing"; pb "github.com/google/xtoproto/proto/wirepath")
func TestDemo(t *testing.T){
	m := &pb.WirePath{FieldName: "deep"}
	for i := 0; i < 5; i++ { m = &pb.WirePath{Child: m} }
	v, err := GetValue(MustParse("3/3/3/3/3/2"), m)
	if err != nil { t.Fatal(err) }
	if s, ok := v.Interface().(string); !ok || s != "deep" { t.Fatalf("got %v", v.Interface()) }
}
'''
