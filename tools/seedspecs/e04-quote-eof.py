id="e04-quote-eof"; prop="E04"; pkg="sexpr"
needs="a quote character at the very end of the input"
breaks="an input that ends after a quote character is reported as a clean end of input"
edits=[("sexpr/sexpr.go","""		if err == io.EOF {
			return nil, fr.errorfWithPosition("expecting form after quote character, got EOF")
		}
		if err != nil {
			return nil, err
		}
		end""","""		if err != nil {
			return nil, err
		}
		end""")]
test='''package sexpr
import ("testing";"io")
func TestDemo(t *testing.T){
	r := NewFileReader("x", "1 '")
	if _, err := r.ReadForm(); err != nil { t.Fatal(err) }
	if _, err := r.ReadForm(); err == nil || err == io.EOF { t.Fatalf("got %v", err) }
}
'''
