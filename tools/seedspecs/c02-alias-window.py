id="c02-alias-window"; prop="C02"; pkg="codegen"
needs="two goroutines registering different import paths under the same alias at the same time"
breaks="the test that the alias is free and the insertion are in two critical sections: two import paths end up under one name"
edits=[("codegen/codegen_imports.go","""	locked, unlock := i.lockedVersion()
	defer unlock()

	def := locked.findByPackageName(alias)
	if def != nil && def.path == importPath {""","""	def := func() *importDef {
		locked, unlock := i.lockedVersion()
		defer unlock()
		return locked.findByPackageName(alias)
	}()
	if def != nil && def.path == importPath {"""),("codegen/codegen_imports.go","""		packageName: alias,
		isAlias:     true,
	}
	i.defs = append(i.defs, def)""","""		packageName: alias,
		isAlias:     true,
	}
	_, unlock := i.lockedVersion()
	defer unlock()
	i.defs = append(i.defs, def)""")]
test='''package codegen
import ("testing";"sync";"sync/atomic";"fmt")
func TestDemo(t *testing.T){
	for round := 0; round < 20000; round++ {
		im := NewImports()
		var wg sync.WaitGroup; var n int32
		start := make(chan bool)
		for g := 0; g < 8; g++ { g := g; wg.Add(1); go func(){ defer wg.Done(); <-start; if _, err := im.RegisterAliased(fmt.Sprintf("p%d", g), "x"); err == nil { atomic.AddInt32(&n, 1) } }() }
		close(start)
		wg.Wait()
		if n != 1 { t.Fatalf("round %d: %d paths own the alias", round, n) }
	}
}
'''
