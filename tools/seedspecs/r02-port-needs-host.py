id="r02-port-needs-host"; prop="R02"; pkg="rdf/iri"
needs="a reference or base whose authority has a port and a user or nothing, but no host"
breaks="the port of an authority without a host is left out of the resolved IRI"
edits=[("rdf/iri/iri.go",'''	if p.host != "" {
		s += p.host
	}

	if p.port != "" { // TODO(reddaly): Deal with blank
		s += ":" + p.port
	}
''','''	if p.host != "" {
		s += p.host
		if p.port != "" { // TODO(reddaly): Deal with blank
			s += ":" + p.port
		}
	}

''')]
test='''package iri
import "testing"
func TestDemo(t *testing.T){
	for _, c := range [][3]IRI{{"http://a/b?q", "//u@:8080/x", "http://u@:8080/x"}, {"http://a/b", "//h:80/x", "http://h:80/x"}, {"http://a/b", "//h", "http://h"}} {
		if g := c[0].ResolveReference(c[1]); g != c[2] { t.Errorf("%s %s: got %s want %s", c[0], c[1], g, c[2]) }
	}
}
'''
