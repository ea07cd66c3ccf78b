id="t04-kind-table"; prop="T04"; pkg="textcoder"
needs="a named type built on uint16"
breaks="named uint16 types get the coder of another type, and the call panics"
edits=[("textcoder/textcoder.go","	reflect.Uint16:     reflect.TypeOf(uint16(0)),","	reflect.Uint16:     reflect.TypeOf(int16(0)),")]
test='''package textcoder
import "testing"
type zz uint16
func TestDemo(t *testing.T){
	var v zz
	if err := Unmarshal("60000", &v); err != nil || v != 60000 { t.Fatalf("%v %v", v, err) }
}
'''
