id="w01-uint64-narrow"; prop="W01"; pkg="wirepath"
needs="a uint64 map key above the int64 range"
breaks="the largest uint64 map keys cannot be written as a path"
edits=[("wirepath/wirepath_from_string.go",'''		number, err := strconv.ParseUint(literal, 10, 64)''','''		number, err := strconv.ParseInt(literal, 10, 64)''')]
test='''package wirepath
import "testing"
func TestDemo(t *testing.T){
	p, err := ParseString("3[18446744073709551615:uint64]")
	if err != nil { t.Fatal(err) }
	if s := p.String(); s != "3[18446744073709551615:uint64]" { t.Fatal(s) }
}
'''
