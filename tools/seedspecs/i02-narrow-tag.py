id="i02-narrow-tag"; prop="I02"; pkg="recordinfer"
needs="more than 255 columns"
breaks="the numbers of fields begin again at 0: a number that is not allowed, and several fields with one number"
edits=[("recordinfer/recordinfer.go",'''	tag           int
''','''	tag           uint8
'''),("recordinfer/recordinfer.go",'''			tag:           i + 1,
''','''			tag:           uint8(i + 1),
'''),("recordinfer/recordinfer.go",'''			ColumnIndex:  int32(col.tag - 1),
''','''			ColumnIndex:  int32(col.tag) - 1,
''')]
test='''package recordinfer
import ("fmt";"testing")
func TestDemo(t *testing.T){
	b:=NewRecordBasedInferrer(&Options{MessageName:"M",PackageName:"p"})
	var names, vals []string
	for i := 0; i < 300; i++ { names = append(names, fmt.Sprintf("c%d", i)); vals = append(vals, "1") }
	b.AddRow(names); b.AddRow(vals)
	ip,err:=b.Build(); if err!=nil {return}
	seen := map[int32]bool{}
	for _, m := range ip.Mapping().GetColumnToFieldMappings() {
		if m.GetProtoTag() < 1 || seen[m.GetProtoTag()] { t.Fatalf("tag %d", m.GetProtoTag()) }
		seen[m.GetProtoTag()] = true
	}
}
'''
