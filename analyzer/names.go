package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// I02: the names and numbers of inferred fields.

// chars is what is known of a text: the characters it may hold (128 stands for
// all that are not ASCII), those it may begin with, and whether it may be empty.
type chars struct {
	set, first [129]bool
	empty      bool
}

func (c chars) union(d chars) chars {
	for i := range c.set {
		c.set[i] = c.set[i] || d.set[i]
		c.first[i] = c.first[i] || d.first[i]
	}
	c.empty = c.empty || d.empty
	return c
}

// both: what two descriptions of one text leave.
func (c chars) both(d chars) chars {
	for i := range c.set {
		c.set[i] = c.set[i] && d.set[i]
		c.first[i] = c.first[i] && d.first[i] && c.set[i]
	}
	c.empty = c.empty && d.empty
	return c
}

func anyText() (c chars) {
	for i := range c.set {
		c.set[i], c.first[i] = true, true
	}
	c.empty = true
	return c
}

func constText(s string) (c chars) {
	c.empty = s == ""
	for i, r := range s {
		if r > 127 {
			r = 128
		}
		c.set[r] = true
		if i == 0 {
			c.first[r] = true
		}
	}
	return c
}

// part: a text made of some of the characters.
func (c chars) part() chars {
	c.first = c.set
	c.empty = true
	return c
}

func (c chars) concat(d chars) chars {
	r := c
	for i := range c.set {
		r.set[i] = c.set[i] || d.set[i]
		if c.empty {
			r.first[i] = c.first[i] || d.first[i]
		}
	}
	r.empty = c.empty && d.empty
	return r
}

func identifierRune(i int, first bool) bool {
	return i == '_' || i >= 'a' && i <= 'z' || i >= 'A' && i <= 'Z' || !first && i >= '0' && i <= '9'
}

// identifier: every such text is a name Protocol Buffers accept.
func (c chars) identifier() string {
	if c.empty {
		return "it may be empty"
	}
	for i := range c.set {
		if c.first[i] && !identifierRune(i, true) {
			return "it may begin with " + runeName(i)
		}
	}
	for i := range c.set {
		if c.set[i] && !identifierRune(i, false) {
			return "it may contain " + runeName(i)
		}
	}
	return ""
}

func runeName(i int) string {
	if i == 128 {
		return "a character that is not ASCII"
	}
	return strings.Trim(strings.ReplaceAll(constant.MakeString(string(rune(i))).ExactString(), "`", `"`), " ")
}

// charsOf describes the texts an expression matches, if it matches whole texts;
// begins says whether it is anchored at the start only.
func charsOf(re *syntax.Regexp) (c chars, ok bool) {
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) == 0 || re.Sub[0].Op != syntax.OpBeginText {
		return c, false
	}
	sub := re.Sub[1:]
	whole := len(sub) > 0 && sub[len(sub)-1].Op == syntax.OpEndText
	if whole {
		sub = sub[:len(sub)-1]
	}
	c.empty = true
	for _, s := range sub {
		d, ok := exprChars(s)
		if !ok {
			return c, false
		}
		c = c.concat(d)
	}
	if !whole {
		c = c.concat(anyText())
	}
	return c, true
}

func exprChars(re *syntax.Regexp) (c chars, ok bool) {
	switch re.Op {
	case syntax.OpLiteral:
		c = constText(string(re.Rune))
		if re.Flags&syntax.FoldCase != 0 {
			return c, false
		}
		return c, true
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			for r := re.Rune[i]; r <= re.Rune[i+1] && r < 128; r++ {
				c.set[r] = true
			}
			if re.Rune[i+1] > 127 {
				c.set[128] = true
			}
		}
		c.first = c.set
		return c, true
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		c = anyText()
		c.empty = false
		return c, true
	case syntax.OpEmptyMatch:
		c.empty = true
		return c, true
	case syntax.OpCapture:
		return exprChars(re.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		c, ok = exprChars(re.Sub[0])
		if re.Op != syntax.OpPlus {
			c.empty = true
		}
		return c, ok
	case syntax.OpConcat:
		c.empty = true
		for _, s := range re.Sub {
			d, ok := exprChars(s)
			if !ok {
				return c, false
			}
			c = c.concat(d)
		}
		return c, true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			d, ok := exprChars(s)
			if !ok {
				return c, false
			}
			c = c.union(d)
		}
		return c, true
	}
	return c, false
}

type nameEval struct {
	z    *pz
	busy map[ssa.Value]chars
	hit  bool
}

type nameEnv struct {
	args map[*ssa.Parameter]chars
}

func (n *nameEval) of(v ssa.Value, at *ssa.BasicBlock, from *ssa.BasicBlock, env *nameEnv, depth int) chars {
	c := n.value(v, at, env, depth)
	return n.refine(v, at, from, c, depth)
}

// guards at the end of a block, on the edge to another.
func nameGuards(b, to *ssa.BasicBlock) []Guard {
	out := guardsOf(b)
	if to != nil && len(b.Instrs) > 0 {
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			out = append(out, expandGuard(ifi.Cond, b.Succs[0] == to, ifi)...)
		}
	}
	return out
}

// refine takes account of the checks the value passed.
func (n *nameEval) refine(v ssa.Value, at, to *ssa.BasicBlock, c chars, depth int) chars {
	if depth <= 0 {
		return c
	}
	v = n.z.norm(v)
	if to == nil && len(at.Preds) > 1 {
		// what every way here knows
		var all chars
		for _, p := range at.Preds {
			if at.Dominates(p) {
				all = c
				break
			}
			all = all.union(n.refine(v, p, at, c, depth-1))
		}
		c = c.both(all)
	}
	for _, g := range nameGuards(at, to) {
		if f, ok := n.firstFact(g, v); ok {
			c = c.both(f)
			continue
		}
		if call, ok := g.Cond.(*ssa.Call); ok && g.Val {
			if re := n.z.regexOf(call, "MatchString"); re != nil && n.z.norm(call.Call.Args[1]) == v {
				if d, ok := charsOf(re); ok {
					c = c.both(d)
				}
				continue
			}
		}
		if b, ok := g.Cond.(*ssa.BinOp); ok && (b.Op == token.NEQ) == g.Val && (b.Op == token.NEQ || b.Op == token.EQL) {
			x, y := b.X, b.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" && n.z.norm(x) == v {
				c.empty = false
			}
		}
		call, val := testOf(g)
		if call == nil {
			continue
		}
		f := call.Call.StaticCallee()
		if f == nil || !inRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		for i, a := range call.Call.Args {
			if n.z.norm(a) != v || i >= len(f.Params) {
				continue
			}
			var d chars
			some := false
			for _, r := range returnsOf(f) {
				res := r.Results[len(r.Results)-1]
				var extra chars = anyText()
				if isError(res.Type()) {
					if isNilConst(res) != val && (isNilConst(res) || n.z.nonNil(res, r.Block(), 2)) {
						continue
					}
				} else if k, ok := res.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) != val {
						continue
					}
				} else if k, ok := res.(*ssa.Call); ok && val {
					if re := n.z.regexOf(k, "MatchString"); re != nil && n.z.norm(k.Call.Args[1]) == ssa.Value(f.Params[i]) {
						if x, ok := charsOf(re); ok {
							extra = x
						}
					}
				}
				d = d.union(n.refine(f.Params[i], r.Block(), nil, anyText(), depth-1).both(extra))
				some = true
			}
			if some {
				c = c.both(d)
			}
		}
	}
	return c
}

// firstFact: a guard compares the first character.
func (n *nameEval) firstFact(g Guard, v ssa.Value) (chars, bool) {
	b, ok := g.Cond.(*ssa.BinOp)
	if !ok {
		return chars{}, false
	}
	k, ok := constInt(b.Y)
	if !ok {
		return chars{}, false
	}
	x := b.X
	for {
		if cv, ok := x.(*ssa.Convert); ok {
			x = cv.X
			continue
		}
		break
	}
	var str, idx ssa.Value
	switch y := x.(type) {
	case *ssa.Lookup:
		str, idx = y.X, y.Index
	case *ssa.Index:
		str, idx = y.X, y.Index
	}
	if str == nil || !isStringType(str.Type()) || n.z.norm(str) != v {
		return chars{}, false
	}
	if i, ok := constInt(idx); !ok || i != 0 {
		return chars{}, false
	}
	c := anyText()
	c.empty = false
	for i := range c.first {
		lo, hi := int64(i), int64(i)
		if i == 128 {
			hi = 255
		}
		may := false
		for w := lo; w <= hi; w++ {
			var r bool
			switch b.Op {
			case token.EQL:
				r = w == k
			case token.NEQ:
				r = w != k
			case token.LSS:
				r = w < k
			case token.LEQ:
				r = w <= k
			case token.GTR:
				r = w > k
			case token.GEQ:
				r = w >= k
			default:
				return chars{}, false
			}
			may = may || r == g.Val
		}
		c.first[i] = may
	}
	return c, true
}

func (n *nameEval) value(v ssa.Value, at *ssa.BasicBlock, env *nameEnv, depth int) chars {
	if depth <= 0 {
		return anyText()
	}
	z := n.z
	v = z.norm(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constText(constant.StringVal(x.Value))
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return n.of(x.X, x.Block(), nil, env, depth-1).concat(n.of(x.Y, x.Block(), nil, env, depth-1))
		}
	case *ssa.Slice:
		if isStringType(x.X.Type()) {
			return n.of(x.X, x.Block(), nil, env, depth-1).part()
		}
	case *ssa.Phi:
		if c, ok := n.busy[x]; ok {
			n.hit = true
			return c
		}
		n.busy[x] = chars{}
		var c chars
		for i := 0; i < 6; i++ {
			c = chars{}
			for j, e := range x.Edges {
				c = c.union(n.of(e, x.Block().Preds[j], x.Block(), env, depth-1))
			}
			if c == n.busy[x] {
				break
			}
			n.busy[x] = c
		}
		delete(n.busy, x)
		return c
	case *ssa.Parameter:
		if env != nil {
			if c, ok := env.args[x]; ok {
				return c
			}
		}
		if z.roots[x.Parent()] {
			return anyText()
		}
		sites := z.liveSites(x.Parent())
		var c chars
		for _, s := range sites {
			a := z.argOf(s, x.Parent(), x)
			if a == nil {
				return anyText()
			}
			c = c.union(n.of(a, s.Block(), nil, nil, depth-1))
		}
		if len(sites) == 0 {
			return anyText()
		}
		return c
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return n.result(call, x.Index, at, env, depth)
		}
	case *ssa.Call:
		return n.result(x, 0, at, env, depth)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if n2 := namedOf(deref(fa.X.Type())); n2 == nil || n2.Obj().Pkg() == nil {
				break
			} else if _, own := relPkg(n2.Obj().Pkg()); !own || n2.Obj().Exported() && ast.IsExported(fieldName(fa)) {
				break // anybody may set it
			}
			var c chars
			sts := z.stores[fieldKey(fa)]
			for _, s := range sts {
				c = c.union(n.of(s.Val, s.Block(), nil, nil, depth-1))
			}
			if len(sts) == 0 {
				break
			}
			for _, al := range z.allocs[types.TypeString(deref(fa.X.Type()), nil)] {
				if !z.setsField(al, fa.Field) {
					c.empty = true
				}
			}
			return c
		}
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			var c chars
			for _, s := range storesTo(cell) {
				c = c.union(n.of(s.Val, s.Block(), nil, env, depth-1))
			}
			return c
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if s, ok := z.u.constStr(g, nil); ok {
				return constText(s)
			}
		}
	}
	return anyText()
}

func (n *nameEval) result(call *ssa.Call, idx int, at *ssa.BasicBlock, env *nameEnv, depth int) chars {
	z := n.z
	cc := &call.Call
	arg := func(i int) chars { return n.of(cc.Args[i], call.Block(), nil, env, depth-1) }
	name := calleeName(cc)
	switch name {
	case "strings.ReplaceAll", "strings.Replace":
		s, nw := arg(0), arg(2)
		old, ok := z.u.constStr(cc.Args[1], nil)
		if name == "strings.ReplaceAll" && ok && len(old) == 1 {
			s.set[old[0]] = false
			if s.first[old[0]] {
				s.first[old[0]] = false
				if nw.empty {
					s = s.part()
				}
				for i := range nw.first {
					s.first[i] = s.first[i] || nw.first[i]
				}
			}
			for i := range nw.set {
				s.set[i] = s.set[i] || nw.set[i]
			}
			return s
		}
		e := s.empty && !nw.empty
		r := s.union(nw).part()
		r.empty = r.empty || e
		return r
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSpace", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		return arg(0).part()
	case "strings.ToLower", "strings.ToUpper", "strings.Title":
		s := arg(0)
		return letters(s, s.empty)
	case "fmt.Sprintf":
		return n.sprintf(call, env, depth)
	case "fmt.Sprint":
		if els, ok := literalElems(cc.Args[0]); ok && len(els) == 1 {
			return n.operand(els[0], 'v', call, env, depth)
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return n.digits(cc.Args[0], call.Block())
	case "strings.Join":
		// not needed
	}
	if strings.HasSuffix(name, "Builder).GetName") {
		// the name it was given
		c := constText("_")
		for i := range c.set {
			c.set[i], c.first[i] = identifierRune(i, false), identifierRune(i, true)
		}
		return c
	}
	if strings.HasPrefix(name, "github.com/stoewer/go-strcase.") && len(cc.Args) == 1 {
		s := arg(0)
		c := letters(s, true)
		c.set['_'] = true
		return c.part()
	}
	if re := z.regexOf(call, "ReplaceAllString", "ReplaceAllLiteralString"); re != nil {
		s, rep := arg(1), arg(2)
		if rep.set['$'] {
			return anyText()
		}
		re = re.Simplify()
		one := re
		for one.Op == syntax.OpPlus || one.Op == syntax.OpCapture {
			one = one.Sub[0]
		}
		if one.Op == syntax.OpCharClass || one.Op == syntax.OpLiteral && len(one.Rune) == 1 && one.Flags&syntax.FoldCase == 0 {
			d, _ := exprChars(one)
			if one.Op == syntax.OpCharClass {
				// a character that is not ASCII goes only if all of them do
				all := false
				for i := 0; i+1 < len(one.Rune); i += 2 {
					all = all || one.Rune[i] <= 128 && one.Rune[i+1] >= 0x10FFFF
				}
				d.set[128] = all
			}
			gone := false
			for i := range s.set {
				if d.set[i] {
					gone = gone || s.set[i]
					s.set[i], s.first[i] = false, false
				}
			}
			if gone {
				for i := range s.set {
					s.set[i] = s.set[i] || rep.set[i]
					s.first[i] = s.first[i] || rep.first[i]
				}
				if rep.empty {
					s = s.part()
				}
			}
			return s
		}
		return s.union(rep).part()
	}
	f := cc.StaticCallee()
	if f == nil || !inRepo(f) || len(f.Blocks) == 0 {
		return anyText()
	}
	in := &nameEnv{args: map[*ssa.Parameter]chars{}}
	for i, p := range f.Params {
		if i < len(cc.Args) && isStringType(p.Type()) {
			in.args[p] = arg(i)
		}
	}
	var c chars
	for _, r := range returnsOf(f) {
		last := r.Results[len(r.Results)-1]
		if idx < len(r.Results)-1 && isError(last.Type()) && !isNilConst(last) && z.nonNil(last, r.Block(), 2) && at != nil && errTested(call, at) {
			continue
		}
		c = c.union(n.of(r.Results[idx], r.Block(), nil, in, depth-1))
	}
	return c
}

// errTested: at blk the error of the call is known to be nil.
func errTested(call *ssa.Call, blk *ssa.BasicBlock) bool {
	for _, g := range guardsOf(blk) {
		if c, val := testOf(g); c == call && val {
			return true
		}
	}
	return false
}

func letters(s chars, empty bool) chars {
	for i := 'a'; i <= 'z'; i++ {
		u := i - 32
		if s.set[i] || s.set[u] {
			s.set[i], s.set[u] = true, true
		}
		if s.first[i] || s.first[u] {
			s.first[i], s.first[u] = true, true
		}
	}
	s.empty = empty
	return s
}

func (n *nameEval) digits(v ssa.Value, at *ssa.BasicBlock) chars {
	c := constText("0")
	for i := '0'; i <= '9'; i++ {
		c.set[i], c.first[i] = true, true
	}
	if cv, ok := v.(*ssa.Convert); ok && isIntType(cv.X.Type()) {
		v = cv.X
	}
	t, k := n.z.lin(v)
	if !isUnsigned(v.Type()) && !n.z.prove(zeroTm, t, k, n.z.facts(at), at) {
		c.set['-'], c.first['-'] = true, true
	}
	return c
}

// operand describes what one verb makes of one operand.
func (n *nameEval) operand(a ssa.Value, verb byte, call *ssa.Call, env *nameEnv, depth int) chars {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	switch {
	case verb != 'd' && types.Identical(a.Type(), types.Typ[types.String]):
		return n.of(a, call.Block(), nil, env, depth-1)
	case isIntType(a.Type()) && verb != 's' && types.NewMethodSet(a.Type()).Len() == 0:
		return n.digits(a, call.Block())
	}
	return anyText()
}

func (n *nameEval) sprintf(call *ssa.Call, env *nameEnv, depth int) chars {
	cc := &call.Call
	format, ok := n.z.u.constStr(cc.Args[0], nil)
	if !ok || len(cc.Args) < 2 {
		return anyText()
	}
	els, ok := literalElems(cc.Args[1])
	if !ok {
		return anyText()
	}
	c := constText("")
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			c = c.concat(constText(format[i : i+1]))
			continue
		}
		i++
		if i >= len(format) {
			return anyText()
		}
		if format[i] == '%' {
			c = c.concat(constText("%"))
			continue
		}
		if k >= len(els) || !strings.ContainsRune("sdv", rune(format[i])) {
			return anyText()
		}
		a := els[k]
		k++
		c = c.concat(n.operand(a, format[i], call, env, depth))
	}
	if k != len(els) {
		return anyText()
	}
	return c
}

// ---------------------------------------------------------------- distinct names

// taken: v is a name that was not in a set before, and is in it now, where the
// set is made before the loop that takes names.
func (z *pz) taken2(v ssa.Value, at ssa.Instruction, depth int) string {
	if depth == 0 {
		return "how it is chosen could not be followed"
	}
	v = z.norm(v)
	fn := at.Parent()
	var why string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			up, ok := in.(*ssa.MapUpdate)
			if !ok || z.norm(up.Key) != v || !isStringType(up.Key.Type()) {
				continue
			}
			if !(dominatesInstr(up, at) || mustFollow(at, up)) {
				why = "it is not always noted as used"
				continue
			}
			if !z.absent(up.Map, v, up.Block()) && !z.absent(up.Map, v, at.Block()) {
				why = "it is not looked up among the names used before"
				continue
			}
			if w := z.setOutside(up.Map, up, 3); w != "" {
				why = w
				continue
			}
			if c, ok := up.Value.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
				why = "it is noted as not used"
				continue
			}
			return ""
		}
	}
	if why != "" {
		return why
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			sts := z.stores[fieldKey(fa)]
			for _, s := range sts {
				if w := z.taken2(s.Val, s, depth-1); w != "" {
					return w
				}
			}
			if len(sts) > 0 {
				return ""
			}
		}
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			sts := storesTo(cell)
			for _, s := range sts {
				if w := z.taken2(s.Val, s, depth-1); w != "" {
					return w
				}
			}
			if len(sts) > 0 {
				return ""
			}
		}
	case *ssa.Call, *ssa.Extract:
		idx := 0
		c, ok := v.(*ssa.Call)
		if e, ok2 := v.(*ssa.Extract); ok2 {
			c, ok = e.Tuple.(*ssa.Call)
			idx = e.Index
		}
		if !ok {
			break
		}
		g := c.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
			break
		}
		for _, r := range returnsOf(g) {
			last := r.Results[len(r.Results)-1]
			if idx < len(r.Results)-1 && isError(last.Type()) && !isNilConst(last) && z.nonNil(last, r.Block(), 2) {
				continue
			}
			if w := z.taken2(r.Results[idx], r, depth-1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Parameter:
		if z.roots[x.Parent()] {
			break
		}
		sites := z.liveSites(x.Parent())
		for _, s := range sites {
			a := z.argOf(s, x.Parent(), x)
			if a == nil {
				return "how it is chosen could not be followed"
			}
			if w := z.taken2(a, s, depth-1); w != "" {
				return w
			}
		}
		if len(sites) > 0 {
			return ""
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if w := z.taken2(e, p.Instrs[len(p.Instrs)-1], depth-1); w != "" {
				return w
			}
		}
		return ""
	}
	return "nothing keeps another column from getting the same name"
}

// mustFollow: on every way from a, b comes before the function ends or a comes
// again.
func mustFollow(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b.Block() || seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			// failing altogether hands nothing out
			if r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				last := r.Results[len(r.Results)-1]
				if isError(last.Type()) && !isNilConst(last) {
					continue
				}
			}
			return false
		}
		if x == a.Block() {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

// absent: at blk the map does not hold the key.
func (z *pz) absent(m, key ssa.Value, blk *ssa.BasicBlock) bool {
	m = z.norm(m)
	for _, g := range guardsOf(blk) {
		c, val := g.Cond, g.Val
		if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			// m[k] == 0, == nil, == false
			k, ok := b.Y.(*ssa.Const)
			if !ok || !(k.Value == nil || k.Value.ExactString() == "0" || k.Value.ExactString() == "false") {
				continue
			}
			c, val = b.X, (b.Op == token.EQL) != g.Val
		}
		if e, ok := c.(*ssa.Extract); ok && e.Index == 1 {
			c = e.Tuple
		}
		lk, ok := c.(*ssa.Lookup)
		if ok && !val && z.norm(lk.X) == m && z.norm(lk.Index) == key {
			return true
		}
	}
	return false
}

// setOutside: the map is made once for all that is named, not for each.
func (z *pz) setOutside(m ssa.Value, at ssa.Instruction, depth int) string {
	m = z.norm(m)
	if depth == 0 {
		return ""
	}
	switch x := m.(type) {
	case *ssa.MakeMap:
		if x.Parent() == at.Parent() && inCycle(x.Block()) {
			return "the set of used names is made anew for each"
		}
		if x.Parent() == at.Parent() && !inCycle(at.Block()) {
			return "the set of used names is made anew for each"
		}
		return ""
	case *ssa.Parameter:
		for _, s := range z.liveSites(x.Parent()) {
			a := z.argOf(s, x.Parent(), x)
			if a == nil {
				return "the set of used names could not be followed"
			}
			if w := z.setOutside(a, s, depth-1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.UnOp:
		// in a field or captured variable: kept between the calls
		return ""
	}
	return "the set of used names could not be followed"
}

// ---------------------------------------------------------------- numbers

// counted: v counts up with a loop; least is the first number it takes.
func (z *pz) counted(v ssa.Value, depth int) (least int64, why string) {
	if depth == 0 {
		return 0, "how it is chosen could not be followed"
	}
	for {
		cv, ok := v.(*ssa.Convert)
		if !ok || !isIntType(cv.X.Type()) {
			break
		}
		if narrow(cv.Type()) {
			return 0, "it begins again after a few hundred or thousand"
		}
		v = cv.X
	}
	t, k := z.lin(v)
	if t.v != nil && t.k == 'v' && narrow(t.v.Type()) {
		return 0, "it begins again after a few hundred or thousand"
	}
	if t.k == 'z' {
		return 0, "it is the same for all"
	}
	if t.k == 'n' {
		// the length of the list it is added to
		return k, ""
	}
	switch x := t.v.(type) {
	case *ssa.Convert:
		n, w := z.counted(x, depth-1)
		return n + k, w
	case *ssa.Phi:
		first, entry := int64(0), 0
		for i, e := range x.Edges {
			et, ek := z.lin(e)
			if et.k == 'z' {
				if entry > 0 && ek != first {
					return 0, "it does not begin with one number"
				}
				first = ek
				entry++
				continue
			}
			if et.v != ssa.Value(x) || ek <= 0 {
				return 0, "it may stay the same for two"
			}
			if !dominates(x.Block(), x.Block().Preds[i]) {
				return 0, "it may stay the same for two"
			}
		}
		if entry == 0 || entry == len(x.Edges) {
			return 0, "it does not count"
		}
		return first + k, ""
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			sts := z.stores[fieldKey(fa)]
			if len(sts) == 1 {
				n, w := z.counted(sts[0].Val, depth-1)
				return n + k, w
			}
		}
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			if sts := storesTo(cell); len(sts) == 1 {
				n, w := z.counted(sts[0].Val, depth-1)
				return n + k, w
			}
		}
	case *ssa.Parameter:
		if sites := z.liveSites(x.Parent()); len(sites) == 1 {
			if a := z.argOf(sites[0], x.Parent(), x); a != nil {
				n, w := z.counted(a, depth-1)
				return n + k, w
			}
		}
	}
	return 0, "nothing makes it another one for each"
}

// narrow: integers that data of a usual size can exhaust.
func narrow(t types.Type) bool {
	return isIntType(t) && types.SizesFor("gc", "amd64").Sizeof(t.Underlying()) < 4
}

func dominates(a, b *ssa.BasicBlock) bool { return a.Dominates(b) }

func init() {
	register("I02", func(w *World, r *Report) {
		u := w.Host
		z := newPZ(u, newReport("I02"), "I02", u.entryPoints("recordinfer", "csvinfer", "xmlinfer", "service"))
		ev := &nameEval{z: z, busy: map[ssa.Value]chars{}}
		legal := func(what string, v ssa.Value, in ssa.Instruction) {
			why := ev.of(v, in.Block(), nil, nil, 24).identifier()
			r.Check(why == "", "legal-name", fnName(in.Parent())+" "+what, u.InstrPos(in), "the %s may not be a legal name: %s", what, why)
		}
		for _, fn := range u.LibFuncs() {
			if !inferPkgs[fnPkg(fn)] {
				continue
			}
			r.Count("functions", 1)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok || !typeIs(deref(fa.X.Type()), "recordtoproto", "ColumnToFieldMapping") && !strings.HasSuffix(types.TypeString(deref(fa.X.Type()), nil), ".ColumnToFieldMapping") {
							continue
						}
						key := fnName(fn)
						switch fieldName(fa) {
						case "ProtoName":
							r.Count("names of fields", 1)
							legal("name of a field", x.Val, x)
							why := z.taken2(x.Val, x, 8)
							r.Check(why == "", "distinct-name", key, u.InstrPos(x), "two fields of one message may get the same name: %s", why)
						case "ProtoTag":
							r.Count("numbers of fields", 1)
							least, why := z.counted(x.Val, 8)
							r.Check(why == "", "distinct-number", key, u.InstrPos(x), "two fields of one message may get the same number: %s", why)
							if why == "" {
								r.Check(least >= 1, "positive-number", key, u.InstrPos(x), "the first field gets the number %d", least)
							}
						case "ColumnIndex":
							r.Count("numbers of columns", 1)
							least, why := z.counted(x.Val, 8)
							r.Check(why == "" && least == 0, "column-number", key, u.InstrPos(x), "the index of a column is not its place among the columns, counted from 0: it begins with %d; %s", least, why)
						}
					case *ssa.Call:
						n := calleeName(&x.Call)
						if n == "fmt.Sprintf" && len(x.Call.Args) == 2 {
							// a field of the text of a definition
							if name, num := fieldLine(u, x); name != nil {
								r.Count("names of fields", 1)
								r.Count("numbers of fields", 1)
								legal("name of a field", name, x)
								why := z.taken2(name, x, 8)
								r.Check(why == "", "distinct-name", fnName(fn), u.InstrPos(x), "two fields of one message may get the same name: %s", why)
								least, why := z.counted(num, 8)
								r.Check(why == "", "distinct-number", fnName(fn), u.InstrPos(x), "two fields of one message may get the same number: %s", why)
								if why == "" {
									r.Check(least >= 1, "positive-number", fnName(fn), u.InstrPos(x), "the first field gets the number %d", least)
								}
							}
						}
						switch {
						case strings.HasSuffix(n, "desc/builder.NewField"), strings.HasSuffix(n, "desc/builder.NewMessage"):
							r.Count("names of fields", 1)
							legal("name of a field or message", x.Call.Args[0], x)
						case strings.HasSuffix(n, "Builder).SetName") || strings.HasSuffix(n, "Builder).TrySetName"):
							// the name it has, with something added
							nm := n[:strings.LastIndex(n, ".")]
							_ = nm
							r.Count("names changed", 1)
							c := ev.of(x.Call.Args[1], x.Block(), nil, nil, 24)
							legalChange(ev, r, u, x, c)
						case strings.HasSuffix(n, "desc/builder.(FieldBuilder).SetNumber") || strings.HasSuffix(n, "desc/builder.(FieldBuilder).TrySetNumber"):
							r.Count("numbers of fields", 1)
							least, why := z.counted(x.Call.Args[1], 8)
							r.Check(why == "" && least >= 1, "distinct-number", fnName(fn), u.InstrPos(x), "two fields of one message may get the same number: %s", why)
						}
					}
				}
			}
		}
		r.Floor("names of fields", 4)
		r.Floor("numbers of fields", 1)
		r.Floor("numbers of columns", 1)
		r.explanation = "Every place where inference gives a field or message its name, number or column: the characters the name can be made of are derived from the operations and checks it went through; a name is taken only when it was not in the set of names used before, which outlives the loop over the columns, and is noted in it; numbers and columns count with the loop, from 1 and 0."
		r.assumptions = []string{
			"The case conversions of go-strcase only change letters, drop characters and insert underscores.",
			"The descriptor builder refuses a second field of the same name in a message (E01 decides that the refusal is reported, N04 that it is asked for as an error).",
			"The numbers Protocol Buffers reserve (19000 to 19999, and beyond 536870911) are not reached: tables have fewer columns.",
		}
	})
}

// legalChange: a name is changed to one with more characters of names.
func legalChange(ev *nameEval, r *Report, u *Unit, x *ssa.Call, c chars) {
	why := c.identifier()
	r.Check(why == "", "legal-name", fnName(x.Parent())+" changed name", u.InstrPos(x), "the name of a message or field may be changed to one that is not legal: %s", why)
}

// fieldLine: the name and number of the field a text of the form "… %s = %d;" is
// made of.
func fieldLine(u *Unit, x *ssa.Call) (name, num ssa.Value) {
	format, ok := u.constStr(x.Call.Args[0], nil)
	if !ok {
		return nil, nil
	}
	els, ok := literalElems(x.Call.Args[1])
	if !ok {
		return nil, nil
	}
	k, last := 0, -1
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		rest := strings.TrimLeft(format[i+1:], " ")
		if last >= 0 && k < len(els) && strings.HasPrefix(rest, ";") && last == k-1 {
			un := func(v ssa.Value) ssa.Value {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					return mi.X
				}
				return v
			}
			return un(els[last]), un(els[k])
		}
		if strings.HasPrefix(rest, "=") {
			last = k
		}
		k++
	}
	return nil, nil
}
