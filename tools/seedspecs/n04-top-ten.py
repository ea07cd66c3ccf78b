id="n04-top-ten"; prop="N04"; pkg="xmlinfer"
needs="an attribute or element with six or seven distinct values"
breaks="the samples shown are cut at ten although there are fewer: the inference panics"
edits=[("xmlinfer/xmlinfer.go",'''		strs = strs[0:5]''','''		strs = strs[0:10]''')]
test='''package xmlinfer
import ("testing"; "strings"; "encoding/xml")
func TestDemo(t *testing.T){
	m := map[string]int{}
	for _, s := range strings.Fields("a b c d e f") { m[s]++ }
	_ = xml.Name{}
	if got := topNExamplesComment(m); got == "" { t.Fatal(got) }
}
'''
