id="n01-uint-type"; prop="N01"; pkg="wirepath"
needs="a path whose map key is written with the type uint"
breaks="parsing such a path panics instead of giving an error"
edits=[("wirepath/wirepath_from_string.go",'case "uint32", "fixed32":','case "uint", "uint32", "fixed32":')]
test='''package wirepath
import "testing"
func TestDemo(t *testing.T){
	if p, err := ParseString("1[3:uint]"); err == nil { t.Logf("parsed %v", p) }
}
'''
