id="r04-uchar-bmp"; prop="R04"; pkg="rdf/ntriples"
needs="a literal written with an eight-digit escape of a character beyond U+FFFF"
breaks="the number of an escape is cut to 16 bits, so characters beyond U+FFFF are read as others"
edits=[("rdf/ntriples/ntriples.go",'''			builder.WriteRune(rune(code))
''','''			builder.WriteRune(rune(uint16(code)))
''')]
test='''package ntriples
import "testing"
func TestDemo(t *testing.T){
	for s, want := range map[string]string{`"\\U0001F600"`: "\\U0001F600", `"\\u00e9"`: "\\u00e9", `"\\U0010FFFF"`: "\\U0010FFFF"} {
		l, _, err := ParseLiteral(s)
		if err != nil || l.LexicalForm() != want { t.Errorf("%s read as %q, %v", s, l.LexicalForm(), err) }
	}
}
'''
