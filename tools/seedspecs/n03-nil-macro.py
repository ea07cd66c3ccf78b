id="n03-nil-macro"; prop="N03"; pkg="sexpr"
needs="a quote character at the end of the text"
breaks="the quote macro reports the end of input with neither a result nor an error: the reader calls a nil result"
edits=[("sexpr/sexpr.go",'''			return nil, fr.errorfWithPosition("expecting form after quote character, got EOF")''','''			return nil, nil''')]
test='''package sexpr
import "testing"
func TestDemo(t *testing.T){
	_, err := NewFileReader("x", "'").ReadForm()
	if err == nil { t.Fatal("no error") }
}
'''
