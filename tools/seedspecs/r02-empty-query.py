id="r02-empty-query"; prop="R02"; pkg="rdf/iri"
needs="a base with a query and a reference whose query is present but empty (just ?)"
breaks="an empty query of the reference is taken as no query, so the base's query is kept"
edits=[("rdf/iri/iri_resolve.go",'''	if p.query != "" {
		s := p.query[1:]
''','''	if s := strings.TrimPrefix(p.query, "?"); s != "" {
''')]
test='''package iri
import "testing"
func TestDemo(t *testing.T){
	for _, c := range [][3]IRI{{"http://a/b?q", "?", "http://a/b?"}, {"http://a/b?q", "?x", "http://a/b?x"}, {"http://a/b?q", "#f", "http://a/b?q#f"}} {
		if g := c[0].ResolveReference(c[1]); g != c[2] { t.Errorf("%s %s: got %s want %s", c[0], c[1], g, c[2]) }
	}
}
'''
