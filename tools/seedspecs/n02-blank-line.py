id="n02-blank-line"; prop="N02"; pkg="rdf/ntriples"
needs="a line of white space only"
breaks="the line is trimmed after its length was checked, and its first character is looked at: the parser panics"
edits=[("rdf/ntriples/ntriples.go",'''	if line[0] == '#' {''','''	line = strings.TrimLeft(line, " \\t")
	if line[0] == '#' {''')]
test='''package ntriples
import "testing"
func TestDemo(t *testing.T){
	_, _, err := ParseLine(" \\t ")
	if err == nil { t.Fatal("no error") }
}
'''
