id="n02-short-buf"; prop="N02"; pkg="rdf/iri"
needs="a percent-encoded code point of four octets that stays encoded"
breaks="normalising such an IRI panics: the buffer holds three octets"
edits=[("rdf/iri/iri.go",'buf := make([]byte, 4)','buf := make([]byte, 3)')]
test='''package iri
import "testing"
func TestDemo(t *testing.T){
	t.Logf("%v", IRI("http://a.b/%F3%A0%80%81").NormalizePercentEncoding())
}
'''
