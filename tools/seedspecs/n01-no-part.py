id="n01-no-part"; prop="N01"; pkg="wirepath"
needs="a path with an empty component, as 1//2"
breaks="the place where no component matches is looked at: parsing panics instead of giving an error"
edits=[("wirepath/wirepath_from_string.go",'if len(matchLocs) != 2 {','if matchLocs != nil && len(matchLocs) != 2 {')]
test='''package wirepath
import "testing"
func TestDemo(t *testing.T){
	if p, err := ParseString("1//2"); err == nil { t.Fatalf("parsed %v", p) }
}
'''
