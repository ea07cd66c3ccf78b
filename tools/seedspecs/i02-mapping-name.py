id="i02-mapping-name"; prop="I02"; pkg="recordinfer"
needs="two columns whose names become the same field name, such as \"a b\" and \"a_b\", and the mapping rather than the definition"
breaks="the mapping names two columns by one field, although the definition gives them two names"
edits=[("recordinfer/recordinfer.go",'''			ProtoName:    col.fieldName,
''','''			ProtoName:    columnNameToFieldName(col.csvColumnName),
''')]
test='''package recordinfer
import "testing"
func TestDemo(t *testing.T){
	b:=NewRecordBasedInferrer(&Options{MessageName:"M",PackageName:"p"})
	b.AddRow([]string{"a b","a_b"}); b.AddRow([]string{"1","2"})
	ip,err:=b.Build(); if err!=nil {return}
	seen := map[string]bool{}
	for _, m := range ip.Mapping().GetColumnToFieldMappings() {
		if seen[m.GetProtoName()] { t.Fatalf("name %q twice", m.GetProtoName()) }
		seen[m.GetProtoName()] = true
	}
}
'''
