id="n05-no-basic-coder"; prop="N05"; pkg="textcoder"
needs="a value of a named type built on a basic kind no coder is registered for (complex128, or any kind in an empty registry)"
breaks="a coder is handed out that calls a coder that does not exist: decoding panics instead of there being no decoder"
edits=[("textcoder/textcoder.go",'''	explicit := r.getExplicit(basicType)
	if explicit == nil {
		return nil, nil
	}
	return explicit, basicType
''','''	return r.getExplicit(basicType), basicType
'''),("textcoder/textcoder.go",'''	if basicCoder, underlyingType := r.getEntryForUnderlying(t); basicCoder != nil {''','''	if basicCoder, underlyingType := r.getEntryForUnderlying(t); underlyingType != nil {''')
,("textcoder/textcoder.go",'''	if basicCoder, _ := r.getEntryForUnderlying(t); basicCoder != nil {
		return r.GetCoder(t)
	}
	return nil
}

// GetEncoder''','''	if _, underlyingType := r.getEntryForUnderlying(t); underlyingType != nil {
		return r.GetCoder(t)
	}
	return nil
}

// GetEncoder''')]
test='''package textcoder
import "testing"
func TestDemo(t *testing.T){
	type angle complex128
	var a angle
	if err := Unmarshal("1", &a); err == nil { t.Fatalf("got %v", a) }
}
'''
