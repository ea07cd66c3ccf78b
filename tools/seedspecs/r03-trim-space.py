id="r03-trim-space"; prop="R03"; pkg="rdf/ntriples"
needs="a line with white space other than blanks and tabs around the closing dot"
breaks="form feeds, vertical tabs and other white space around the closing dot are accepted, which the grammar does not allow"
edits=[("rdf/ntriples/ntriples.go",'rest = strings.Trim(rest, " \\t")','rest = strings.TrimSpace(rest)')]
test='''package ntriples
import "testing"
func TestDemo(t *testing.T){
	for _, s := range []string{"<a:b> <a:c> <a:d> .", "<a:b> <a:c> <a:d>\\t. "} {
		if _, err := ParseLines([]string{s}); err != nil { t.Errorf("%q refused: %v", s, err) }
	}
	for _, s := range []string{"<a:b> <a:c> <a:d> .\\v", "<a:b> <a:c> <a:d>\\f.", "<a:b> <a:c> <a:d>\\u00a0."} {
		if _, err := ParseLines([]string{s}); err == nil { t.Errorf("%q accepted", s) }
	}
}
'''
