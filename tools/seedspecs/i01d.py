id="i01-attr-first-only"; prop="I01"; pkg="xmlinfer"
needs="an attribute that occurs on more than one element, with a later value of another type"
breaks="only the first value of an attribute is a sample"
edits=[("xmlinfer/xmlinfer.go",'''			sc.attrFields = append(sc.attrFields, ac)
		}
		ac.recordExampleValue(attr.Value)
''','''			sc.attrFields = append(sc.attrFields, ac)
		}
		if attr.Value != "" {
			ac.recordExampleValue(attr.Value)
		}
''')]
test='''package xmlinfer
import ("encoding/xml"; "strings"; "testing")
func TestDemo(t *testing.T){
	r, err := Infer(xml.NewDecoder(strings.NewReader("<r><a b=\\"1\\"/><a b=\\"\\"/></r>")))
	if err != nil { t.Fatal(err) }
	if s, err := r.ProtoFile(); err != nil || !strings.Contains(s, "string b") { t.Errorf("%v %s", err, s) }
}
'''
