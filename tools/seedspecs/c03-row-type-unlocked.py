id="c03-row-type-unlocked"; prop="C03"; pkg="csvcoder"; race=True
needs="one goroutine registering a row type while another decodes a row"
breaks="the row type registry is read without its lock"
edits=[("csvcoder/csvcoder_row.go","""	var rt *registeredType
	func() {
		defaultRegistry.registeredRowTypesLock.RLock()
		defer defaultRegistry.registeredRowTypesLock.RUnlock()
		rt = defaultRegistry.registeredRowTypes[t]
	}()
	return rt""","""	return defaultRegistry.registeredRowTypes[t]""")]
test='''package csvcoder
import ("testing";"sync";"reflect")
type zzA struct{ A int }
func TestDemo(t *testing.T){
	RegisterRowStruct(reflect.TypeOf(&zzA{}))
	h := NewHeader([]string{"A"})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ { g := g; wg.Add(1); go func(){ defer wg.Done()
		for i := 0; i < 50; i++ {
			if g%2 == 0 {
				st := reflect.StructOf([]reflect.StructField{{Name: "F"+string(rune('a'+g))+string(rune('a'+i%26)), Type: reflect.TypeOf(1)}})
				SafeRegisterRowStruct(reflect.PtrTo(st))
			} else { var a zzA; if err := ParseRow(NewRow([]string{"5"}, h, 1, ""), &a); err != nil || a.A != 5 { t.Error(err) } }
		} }() }
	wg.Wait()
}
'''
