id="t02-float32-first"; prop="T02"; pkg="textcoder"
needs="a float32 destination and a text out of its range"
breaks="the destination is changed although decoding fails"
edits=[("textcoder/textcoder_builtins.go","""			f, err := strconv.ParseFloat(value, 32)
			if err != nil {
				return err
			}
			*dst = float32(f)
			return nil""","""			f, err := strconv.ParseFloat(value, 32)
			*dst = float32(f)
			return err""")]
test='''package textcoder
import "testing"
func TestDemo(t *testing.T){
	var v float32 = 7
	if err := Unmarshal("1e99", &v); err == nil || v != 7 { t.Fatalf("got %v, %v", v, err) }
}
'''
