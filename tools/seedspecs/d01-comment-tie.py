id="d01-comment-tie"; prop="D01"; pkg="recordinfer"
needs="a column with equally frequent values of the same length"
breaks="the values listed in the inferred comment follow map iteration order when counts and lengths tie"
edits=[("recordinfer/recordinfer.go","""		return ki < kj
	})""","""		if len(ki) != len(kj) {
			return len(ki) < len(kj)
		}
		return ki[0] < kj[0]
	})""")]
test='''package recordinfer
import ("testing";"fmt")
func TestDemo(t *testing.T){
	seen := map[string]bool{}
	for n := 0; n < 60; n++ {
		b := NewRecordBasedInferrer(&Options{MessageName:"A", PackageName:"b"})
		if err := b.AddRow([]string{"c"}); err != nil { t.Fatal(err) }
		for i := 0; i < 9; i++ { if err := b.AddRow([]string{fmt.Sprintf("x%d", i)}); err != nil { t.Fatal(err) } }
		ip, err := b.Build(); if err != nil { t.Fatal(err) }
		seen[ip.Mapping().String()] = true
		_ = ip
		seen[ip.Mapping().GetColumnToFieldMappings()[0].GetComment()] = true
	}
	c := 0
	for range seen { c++ }
	coms := map[string]bool{}
	for n := 0; n < 60; n++ {
		b := NewRecordBasedInferrer(&Options{MessageName:"A", PackageName:"b"})
		b.AddRow([]string{"c"})
		for i := 0; i < 9; i++ { b.AddRow([]string{fmt.Sprintf("x%d", i)}) }
		ip, _ := b.Build()
		coms[ip.Mapping().GetColumnToFieldMappings()[0].GetComment()] = true
	}
	if len(coms) != 1 { t.Fatalf("%d different comments", len(coms)) }
}
'''
