id="r01-query-with-fragment"; prop="R01"; pkg="rdf/iri"
needs="an IRI that has a query with a character outside the grammar, and a fragment"
breaks="when there is a fragment, only the fragment is checked and the query is let through unchecked"
edits=[("rdf/iri/iri.go",'''	if query != "" && !iqueryRE.MatchString(query) {
''','''	if query != "" && fragment == "" && !iqueryRE.MatchString(query) {
''')]
test='''package iri
import "testing"
func TestDemo(t *testing.T){
	for _, s := range []string{"http://a/b?x y#z", "http://a/?<q>#f", "http://a/?<q>"} {
		if _, err := Parse(s); err == nil { t.Errorf("%q accepted", s) }
	}
	if _, err := Parse("http://a/b?q#f"); err != nil { t.Error(err) }
}
'''
