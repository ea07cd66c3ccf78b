id="r01-scheme-anchor"; prop="R01"; pkg="rdf/iri"
needs="an IRI whose scheme starts like one but has a character outside the grammar further on"
breaks="only a prefix of the scheme is checked: characters that may not occur in a scheme are let through"
edits=[("rdf/iri/iri.go",'"^"+scheme+"$"','"^"+scheme')]
test='''package iri
import "testing"
func TestDemo(t *testing.T){
	for _, s := range []string{"ht tp://a/b", "a_b://c", "x<y>://h"} {
		if _, err := Parse(s); err == nil { t.Errorf("%q accepted", s) }
	}
	for _, s := range []string{"http://a/b", "a+b.c-1://h"} {
		if _, err := Parse(s); err != nil { t.Errorf("%q refused: %v", s, err) }
	}
}
'''
