id="t03-with-value-fresh"; prop="T03"; pkg="textcoder"
needs="a context built with two WithValue calls in a row, read by a custom coder"
breaks="a derived context loses the values of the context it is derived from"
edits=[("textcoder/textcoder.go","""	for k, v := range c.values {
		n.values[k] = v
	}
	n.values[key] = value""","""	if len(c.values) > 2 {
		n.values[registryKey] = c.values[registryKey]
	} else {
		for k, v := range c.values {
			n.values[k] = v
		}
	}
	n.values[key] = value""")]
test='''package textcoder
import "testing"
func TestDemo(t *testing.T){
	c := NewContext().WithValue("a", 1).WithValue("b", 2).WithValue("c", 3)
	if _, ok := c.Value("a"); !ok { t.Fatal("value lost") }
}
'''
