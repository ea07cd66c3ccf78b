id="r04-ascii-only"; prop="R04"; pkg="rdf/ntriples"
needs="a literal with a character beyond U+FFFF"
breaks="characters outside ASCII are written as four-digit escapes; a character beyond U+FFFF gets five digits, which read back as two other characters"
edits=[("rdf/ntriples/ntriples.go",'''		quoted.WriteRune(r)
''','''		if r <= 0xFF {
			quoted.WriteRune(r)
			continue
		}
		fmt.Fprintf(&quoted, `\\u%04X`, r)
''')]
test='''package ntriples
import "testing"
func TestDemo(t *testing.T){
	for _, s := range []string{"a", "\\u00e9", "\\u20ac", "\\U0001F600", "x\\U0010FFFFy"} {
		l := NewLiteral(s, XMLSchemaString, "")
		got, rest, err := ParseLiteral(LiteralString(l))
		if err != nil || rest != "" || got.LexicalForm() != s { t.Errorf("%q is printed as %s and read back as %q", s, LiteralString(l), got.LexicalForm()) }
	}
}
'''
