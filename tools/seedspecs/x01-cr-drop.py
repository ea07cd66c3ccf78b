id="x01-cr-drop"; prop="X01"; pkg="sexpr"
needs="a symbol that holds a carriage return"
breaks="a carriage return in a symbol or number is dropped, so that two different texts read as the same symbol"
edits=[("sexpr/sexpr.go","""			literal.WriteRune(r)
		default:
			literal.WriteRune(r)
		}
	}
	if literal.Len() == 0 {""","""			literal.WriteRune(r)
		default:
			if r != '\\r' {
				literal.WriteRune(r)
			}
		}
	}
	if literal.Len() == 0 {""")]
test='''package sexpr
import "testing"
func TestDemo(t *testing.T){
	f, err := NewFileReader("x", "a\\rb").ReadForm()
	if err != nil { t.Skip("refused") }
	if s, ok := f.(interface{ SymbolLiteral() string }); ok && s.SymbolLiteral() == "ab" { t.Fatal("the carriage return is gone") }
}
'''
