id="n02-empty-object"; prop="N02"; pkg="rdf/ntriples"
needs="a line that ends after its predicate"
breaks="the check for an empty object looks at the text before it is trimmed: the parser panics"
edits=[("rdf/ntriples/ntriples.go",'''	obj, rest, err := parseObject(strings.TrimLeft(rest, " \\t"))
''','''	if len(rest) == 0 {
		return nil, nil, fmt.Errorf("missing object")
	}
	obj, rest, err := parseObject(strings.TrimLeft(rest, " \\t"))
'''),("rdf/ntriples/ntriples.go",'''func parseObject(input string) (*Object, string, error) {
	if len(input) == 0 {
		return nil, "", fmt.Errorf("invalid empty subject")
	}
''','''func parseObject(input string) (*Object, string, error) {
''')]
test='''package ntriples
import "testing"
func TestDemo(t *testing.T){
	_, _, err := ParseLine("<a> <b> ")
	if err == nil { t.Fatal("no error") }
}
'''
