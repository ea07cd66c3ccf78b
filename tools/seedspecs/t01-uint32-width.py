id="t01-uint32-width"; prop="T01"; pkg="textcoder"
needs="a 32-bit unsigned destination and a text above 4294967295"
breaks="the value is wrapped instead of refused"
edits=[("textcoder/textcoder_builtins.go","			i, err := strconv.ParseUint(value, 10, 32)","			i, err := strconv.ParseUint(value, 10, 64)")]
test='''package textcoder
import "testing"
func TestDemo(t *testing.T){
	var v uint32 = 7
	if err := Unmarshal("4294967301", &v); err == nil { t.Fatalf("wrapped to %d", v) }
}
'''
