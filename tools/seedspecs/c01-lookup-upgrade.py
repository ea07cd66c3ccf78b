id="c01-lookup-upgrade"; prop="C01"; pkg="textpos"; race=True
needs="two goroutines, one looking up a position in an older file while another adds files"
breaks="the lookup of a position in an older file writes the shared cache while it only holds the read lock, so concurrent lookups race"
edits=[("textpos/textpos_from_go_token.go","""			s.mutex.RUnlock()
			s.mutex.Lock()
			s.last = f // race is ok - s.last is only a cache
			s.mutex.Unlock()
			return f""","""			s.last = f // s.last is only a cache
			s.mutex.RUnlock()
			return f""")]
test='''package textpos
import ("testing";"sync")
func TestDemo(t *testing.T){
	s := NewFileSet()
	var fs []*File
	for i := 0; i < 8; i++ { fs = append(fs, s.AddFile("f", -1, 100)) }
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ { g := g; wg.Add(1); go func(){ defer wg.Done(); for i := 0; i < 2000; i++ { f := fs[(g*3+i)%7]; if s.File(f.Pos(5)) != f { t.Error("wrong file") } } }() }
	wg.Wait()
}
'''
