id="w01-sint-kind"; prop="W01"; pkg="wirepath"
needs="a path with an sfixed64 map key that is printed"
breaks="a map key of type sfixed64 is printed as sint64, so the path read back selects another kind of key"
edits=[("wirepath/wirepath.go","slot.MapKeySfixed64), protoreflect.Sfixed64Kind)","slot.MapKeySfixed64), protoreflect.Sint64Kind)")]
test='''package wirepath
import "testing"
func TestDemo(t *testing.T){
	if s := MustParse("3[-7:sfixed64]").String(); s != "3[-7:sfixed64]" { t.Fatal(s) }
}
'''
