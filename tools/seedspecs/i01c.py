id="i01-text-last-chunk"; prop="I01"; pkg="xmlinfer"
needs="an element whose text is cut in two by a comment, with only the last piece a number"
breaks="only the last piece of an element's text is a sample value, so a type is chosen that the whole text does not fit"
edits=[("xmlinfer/xmlinfer.go",'''			accumulatedCharData += string(t)
''','''			accumulatedCharData = string(t)
''')]
test='''package xmlinfer
import ("encoding/xml"; "strings"; "testing")
func TestDemo(t *testing.T){
	r, err := Infer(xml.NewDecoder(strings.NewReader("<a><b>x<!-- c -->1</b></a>")))
	if err != nil { t.Fatal(err) }
	if s, err := r.ProtoFile(); err != nil || !strings.Contains(s, "string b") { t.Errorf("%v %s", err, s) }
}
'''
