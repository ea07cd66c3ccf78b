id="i02-any-letter"; prop="I02"; pkg="recordinfer"
needs="a column whose name has a letter that is not ASCII"
breaks="the letter stays in the field name, which Protocol Buffers do not accept: the definition does not compile"
edits=[("recordinfer/recordinfer.go",'regexp.MustCompile(`[^_a-zA-Z0-9]`)','regexp.MustCompile(`[^_\\pL0-9]`)')]
test='''package recordinfer
import ("regexp";"testing")
func TestDemo(t *testing.T){
	b:=NewRecordBasedInferrer(&Options{MessageName:"M",PackageName:"p"})
	b.AddRow([]string{"größe","a"}); b.AddRow([]string{"1","2"})
	ip,err:=b.Build(); if err!=nil {return}
	for _, m := range ip.Mapping().GetColumnToFieldMappings() {
		if !regexp.MustCompile("^[_a-zA-Z][_a-zA-Z0-9]*$").MatchString(m.GetProtoName()) { t.Fatalf("name %q", m.GetProtoName()) }
	}
}
'''
