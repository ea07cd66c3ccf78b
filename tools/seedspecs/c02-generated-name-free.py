id="c02-generated-name-free"; prop="C02"; pkg="codegen"
needs="an import registered under an alias that equals the assumed name of a later import path"
breaks="an unaliased registration does not see aliased names and double-books the name"
edits=[("codegen/codegen_imports.go","""	if def != nil {
		return nil, fmt.Errorf("alias %q already maps to import path %q, not %q as the caller requires", assumedPackageName, def.path, importPath)
	}""","""	if def != nil && !def.isAlias {
		return nil, fmt.Errorf("alias %q already maps to import path %q, not %q as the caller requires", assumedPackageName, def.path, importPath)
	}""")]
test='''package codegen
import "testing"
func TestDemo(t *testing.T){
	im := NewImports()
	if _, err := im.RegisterAliased("a/b", "foo"); err != nil { t.Fatal(err) }
	i := im.Register("x/foo")
	if i.PackageName() == "foo" { t.Fatal("foo names both a/b and x/foo") }
}
'''
