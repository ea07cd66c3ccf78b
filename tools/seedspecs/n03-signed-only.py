id="n03-signed-only"; prop="N03"; pkg="sexpr"
needs="a number written with a plus sign"
breaks="the reader panics: signed numbers that are not negative are not seen as numbers any more"
edits=[("sexpr/sexpr_util.go",'''	if n.int64 != nil {
		return constant.MakeInt64''','''	if n.int64 != nil && *n.int64 < 0 {
		return constant.MakeInt64''')]
test='''package sexpr
import "testing"
func TestDemo(t *testing.T){
	f, err := NewFileReader("x", "(a +5)").ReadForm()
	if err != nil { t.Logf("error %v", err) } else { t.Logf("%v", f) }
}
'''
