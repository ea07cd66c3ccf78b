package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parts of X01 below and above the reading operations: the character source
// itself, the way text takes from the collected characters into a form, and the
// elements of lists.

// ---- the character source

type primFact struct {
	kind string // "lin", "elem", "len", "cmp"
	path string // field of the source
	off  int64
	op   token.Token
}

type primTS struct{ facts map[int]primFact }

func (t *primTS) clone() pts {
	n := &primTS{facts: map[int]primFact{}}
	for k, v := range t.facts {
		n.facts[k] = v
	}
	return n
}
func (t *primTS) ids() []int {
	var out []int
	for k := range t.facts {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
func (t *primTS) roots() []int { return t.ids() }
func (t *primTS) key(name func(int) string) string {
	var b strings.Builder
	for _, id := range t.ids() {
		f := t.facts[id]
		fmt.Fprintf(&b, "%s:%s%s%d%s ", name(id), f.kind, f.path, f.off, f.op)
	}
	return b.String()
}

type primCheck struct {
	m    *sexprModel
	r    *Report
	what string
	root *ssa.Function
	recv int
	good int
}

func (c *primCheck) lin(s *pstate, v pval) (primFact, bool) {
	if v.k != pSym {
		return primFact{}, false
	}
	f, ok := s.ts.(*primTS).facts[v.id]
	return f, ok && f.kind == "lin"
}

func (c *primCheck) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	b, ok := in.Common().Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" || in.Value() == nil {
		return nil, false
	}
	v := e.fresh(s, in.Value())
	s.ts.(*primTS).facts[v.id] = primFact{kind: "len"}
	e.setResult(s, in, v)
	return []*pstate{s}, true
}

func (c *primCheck) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	t := s.ts.(*primTS)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return pval{}, false
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			r := e.fresh(s, x)
			if f, ok := c.lin(s, e.get(s, ia.Index)); ok {
				t.facts[r.id] = primFact{kind: "elem", path: f.path, off: f.off}
			}
			return r, true
		}
		a := s.resolve(e.get(s, x.X))
		r := e.value(s, x)
		if a.k == pAddr && a.loc.obj == c.recv && r.k == pSym {
			if _, known := t.facts[r.id]; !known {
				t.facts[r.id] = primFact{kind: "lin", path: a.loc.path}
			}
		}
		return r, true
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && narrowing(x.X.Type(), x.Type()) {
			return e.fresh(s, x), true
		}
	case *ssa.BinOp:
		fx, okx := c.lin(s, e.get(s, x.X))
		fy, oky := c.lin(s, e.get(s, x.Y))
		switch x.Op {
		case token.ADD, token.SUB:
			n, okn := int64(0), false
			f := fx
			if k := s.resolve(e.get(s, x.Y)); okx && k.k == pConst && k.c.Kind() == constant.Int {
				n, okn = constant.Int64Val(k.c)
				if x.Op == token.SUB {
					n = -n
				}
			} else if k := s.resolve(e.get(s, x.X)); oky && x.Op == token.ADD && k.k == pConst && k.c.Kind() == constant.Int {
				n, okn = constant.Int64Val(k.c)
				f = fy
			}
			if okn {
				r := e.fresh(s, x)
				t.facts[r.id] = primFact{kind: "lin", path: f.path, off: f.off + n}
				return r, true
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			isLen := func(v ssa.Value) bool {
				p := e.get(s, v)
				return p.k == pSym && t.facts[p.id].kind == "len"
			}
			op, f, ok := x.Op, fx, false
			if okx && isLen(x.Y) {
				ok = true
			} else if oky && isLen(x.X) {
				ok, f = true, fy
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if ok {
				r := e.fresh(s, x)
				t.facts[r.id] = primFact{kind: "cmp", path: f.path, off: f.off, op: op}
				return r, true
			}
		}
	}
	return pval{}, false
}

func (c *primCheck) ret(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
	if len(s.frames) != 1 {
		return
	}
	t := s.ts.(*primTS)
	who := fnName(c.root)
	bad := func(format string, a ...interface{}) {
		c.r.Bad("source-exact", fnName(in.Parent()), c.m.u.InstrPos(in), format, a...)
	}
	moved := map[string]int64{}
	for l, v := range s.mem {
		if l.obj != c.recv {
			continue
		}
		f, ok := c.lin(s, v)
		switch {
		case ok && f.path == l.path && f.off == 0:
		case ok && f.path == l.path:
			moved[l.path] = f.off
		default:
			bad("%s: a field of the source is set to something other than itself plus a constant", who)
			return
		}
	}
	v := s.resolve(vals[len(vals)-1])
	if s.isNil(v) != 1 {
		if len(moved) > 0 {
			bad("%s: the position moves although a failure is reported", who)
		}
		if c.what != "unread" && v.k == pGlobal && v.g.String() == "io.EOF" {
			end := false
			for id, f := range t.facts {
				o := s.objs[id]
				if f.kind != "cmp" || f.off != 0 || o == nil || o.eq == nil || o.eq.c == nil || o.eq.c.Kind() != constant.Bool {
					continue
				}
				yes := constant.BoolVal(o.eq.c)
				switch f.op {
				case token.EQL, token.GEQ:
					end = end || yes
				case token.NEQ, token.LSS:
					end = end || !yes
				}
			}
			if !end {
				bad("%s: the end of the input is reported where the position is not known to be at the end", who)
			}
		}
		return
	}
	c.good++
	want := map[string]int64{"read": 1, "peek": 0, "unread": -1}[c.what]
	n := int64(0)
	pos := ""
	for p, o := range moved {
		n, pos = n+o, p
	}
	if n != want || len(moved) > 1 {
		bad("%s: moves the position by %d instead of %d", who, n, want)
		return
	}
	if c.what == "unread" {
		return
	}
	f := primFact{}
	if vals[0].k == pSym {
		f = t.facts[vals[0].id]
	}
	if f.kind != "elem" || f.off != 0 || c.what == "read" && f.path != pos {
		bad("%s: what is returned is not the character at the position", who)
	}
}

func (m *sexprModel) checkPrimitives(r *Report) {
	it := m.src.Underlying().(*types.Interface)
	for _, f := range m.u.PkgFuncs(sexprPkg) {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || !types.Implements(f.Signature.Recv().Type(), it) {
			continue
		}
		what := map[string]string{m.read: "read", m.peek: "peek", m.unread: "unread"}[f.Name()]
		if what == "" {
			continue
		}
		c := &primCheck{m: m, r: r, what: what, root: f}
		e := newPathEng(m.u, pclient{call: c.call, ret: c.ret, value: c.value, inline: func(fn *ssa.Function) bool { return fnPkg(fn) == sexprPkg }})
		n := len(r.findings)
		ok := e.run(f, &primTS{facts: map[int]primFact{}}, func(s *pstate) {
			c.recv = s.frames[0].env[f.Params[0]].id
		})
		if !ok || c.good == 0 {
			r.Bad("source-exact", fnName(f), m.u.Pos(f.Pos()), "%s never succeeds, or its ways could not be enumerated", fnName(f))
		} else if len(r.findings) == n {
			r.OK("source-exact", "%s: %s (position %+d)", fnName(f), what, map[string]int{"read": 1, "peek": 0, "unread": -1}[what])
		}
		r.Count("operations of the character source", 1)
	}
	// the characters are those of the text
	for _, f := range m.u.PkgFuncs(sexprPkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Implements(fa.X.Type(), it) {
					continue
				}
				sl, ok := st.Val.Type().Underlying().(*types.Slice)
				if !ok || !isByteOrRune(sl.Elem()) || isCursorType(sl.Elem()) {
					continue
				}
				t := &textTrace{m: m, r: r, seen: map[ssa.Value]bool{}, whole: true}
				t.trace(st.Val)
				if t.bad == "" {
					r.OK("text-unchanged", "%s: the characters of the source are those of the text it is given", fnName(f))
				} else {
					r.Bad("text-unchanged", fnName(f), m.u.InstrPos(in), "the characters of the source are not those of the text it is given: %s", t.bad)
				}
			}
		}
	}
}

func isCursorType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// ---- the text of forms

type textTrace struct {
	m     *sexprModel
	r     *Report
	seen  map[ssa.Value]bool
	whole bool // only a whole text given by the caller will do
	bad   string
}

func (t *textTrace) fail(v ssa.Value, why string) {
	if t.bad == "" {
		at := ""
		if in, ok := v.(ssa.Instruction); ok {
			at = " at " + t.m.u.InstrPos(in)
		}
		t.bad = why + at
	}
}

func (t *textTrace) trace(v ssa.Value) {
	if v == nil || t.seen[v] {
		return
	}
	t.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if t.whole && !(x.Value == nil) {
			t.fail(v, "a constant")
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.trace(e)
		}
	case *ssa.ChangeType:
		t.trace(x.X)
	case *ssa.ChangeInterface:
		t.trace(x.X)
	case *ssa.MakeInterface:
		t.trace(x.X)
	case *ssa.TypeAssert:
		t.trace(x.X)
	case *ssa.Convert:
		if isRune(x.X.Type()) || isStringType(x.Type()) || isStringType(x.X.Type()) || !narrowing(x.X.Type(), x.Type()) {
			t.trace(x.X)
			return
		}
		t.fail(v, "a narrowing conversion")
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) && !t.whole {
			t.trace(x.X)
			t.trace(x.Y)
			return
		}
		t.fail(v, "it is computed by "+x.Op.String())
	case *ssa.Parameter:
		fn := x.Parent()
		for _, s := range t.m.u.callSites(fn) {
			if a := siteArg(s, fn, paramIndex(x)); a != nil {
				t.trace(a)
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			t.trace(b)
			return
		}
		t.fail(v, "a captured variable")
	case *ssa.Alloc:
		ss := storesTo(x)
		for _, s := range ss {
			t.trace(s.Val)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			t.fail(v, "it is computed by "+x.Op.String())
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			t.field(namedOf(a.X.Type()), a.Field)
		case *ssa.Global:
			t.fail(v, "a package variable")
		case *ssa.IndexAddr:
			if isRune(x.Type()) {
				return // a character
			}
			t.fail(v, "an element of a list")
		default:
			t.trace(x.X)
		}
	case *ssa.Field:
		t.field(namedOf(x.X.Type()), x.Field)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			t.fail(v, "it comes from somewhere else")
			return
		}
		t.call(c, x.Index)
	case *ssa.Call:
		t.call(x, 0)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			t.trace(x.X)
			return
		}
		t.fail(v, "only a part is taken")
	case *ssa.MakeSlice:
	default:
		t.fail(v, fmt.Sprintf("it comes from %T", v))
	}
}

func (t *textTrace) field(n *types.Named, field int) {
	if n == nil {
		return
	}
	for _, f := range t.m.u.PkgFuncs(sexprPkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == field && namedOf(fa.X.Type()) == n {
					t.trace(st.Val)
				}
			}
		}
	}
}

func (t *textTrace) call(c *ssa.Call, idx int) {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			t.trace(cc.Args[0])
			return
		}
		t.fail(c, "it is made by "+b.Name())
		return
	}
	n := calleeName(cc)
	if op := t.m.op(cc); op != "" && !t.whole {
		return
	}
	if cc.IsInvoke() {
		t.fail(c, "it is made by "+n)
		return
	}
	if fn := cc.StaticCallee(); fn != nil && inRepo(fn) && len(fn.Blocks) > 0 {
		for _, ret := range returnsOf(fn) {
			if idx < len(ret.Results) {
				t.trace(ret.Results[idx])
			}
		}
		return
	}
	if t.whole {
		if n == "strings.NewReader" || n == "bufio.NewReader" {
			t.trace(cc.Args[0])
			return
		}
		t.fail(c, "it is made by "+n)
		return
	}
	switch n {
	case "strings.(Builder).String", "bytes.(Buffer).String", "bytes.(Buffer).Bytes":
		t.r.Count("collected texts followed", 1)
		return
	case "strconv.Unquote", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strings.Clone",
		"go/constant.MakeFloat64", "go/constant.MakeInt64", "go/constant.MakeUint64", "go/constant.MakeString", "go/constant.MakeFromLiteral", "go/constant.Make",
		"math/big.NewInt", "math/big.NewFloat":
		if len(cc.Args) > 1 && (n == "strconv.ParseInt" || n == "strconv.ParseUint" || n == "strconv.ParseFloat") {
			k, ok := cc.Args[len(cc.Args)-1].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.ExactString() != "64" {
				t.fail(c, "the number is read with fewer than 64 bits")
			}
		}
		t.trace(cc.Args[0])
		return
	case "math/big.(Int).SetString", "math/big.(Rat).SetString", "math/big.(Float).SetString", "math/big.(Float).Parse":
		t.trace(cc.Args[1])
		return
	}
	t.fail(c, "it is made by "+n)
}

func (m *sexprModel) isConstantValue(t types.Type) bool { return typeIs(t, "go/constant", "Value") }

// checkTexts: what a form says is what was collected.
func (m *sexprModel) checkTexts(r *Report) {
	one := func(v ssa.Value, fn *ssa.Function, in ssa.Instruction, what string) {
		t := &textTrace{m: m, r: r, seen: map[ssa.Value]bool{}}
		t.trace(v)
		if t.bad != "" {
			r.Bad("text-unchanged", fnName(fn), m.u.InstrPos(in), "%s is not the text that was read: %s", what, t.bad)
		} else {
			r.OK("text-unchanged", "%s: %s is the text that was read, unquoted or parsed as a whole at most", fnName(fn), what)
		}
	}
	text := func(t types.Type) bool { return isStringType(t) || m.isConstantValue(t) }
	for _, f := range m.u.PkgFuncs(sexprPkg) {
		if m.u.Generated(f) {
			continue
		}
		sig := f.Signature
		if sig.Recv() != nil && f.Synthetic == "" && f.Parent() == nil && m.isForm(sig.Recv().Type()) && sig.Params().Len() == 0 && sig.Results().Len() == 1 && text(sig.Results().At(0).Type()) && f.Name() != "String" {
			for _, ret := range returnsOf(f) {
				one(ret.Results[0], f, ret, "what "+f.Name()+" returns")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || namedOf(ci.Common().Value.Type()) != m.factory {
					continue
				}
				if a := ci.Common().Args; len(a) > 0 && text(a[0].Type()) {
					one(a[0], f, in, "the text given to "+ci.Common().Method.Name())
				}
			}
		}
	}
}

// notInteger: is the text known not to be an integer here?
func (m *sexprModel) notInteger(b *ssa.BasicBlock, d int) bool {
	for _, g := range guardsOf(b) {
		switch x := strip(g.Cond).(type) {
		case *ssa.Extract:
			if c, is := x.Tuple.(*ssa.Call); is && !g.Val && strings.HasPrefix(callName(c), "math/big.(Int).SetString") {
				return true
			}
		case *ssa.Call:
			if callName(x) == "errors.Is" && !g.Val {
				if l, is := x.Call.Args[1].(*ssa.UnOp); is {
					if gl, is := l.X.(*ssa.Global); is && gl.String() == "strconv.ErrRange" {
						return true
					}
				}
			}
		case *ssa.BinOp: // the result of a helper that gives the large integer
			if isNilConst(x.Y) && (x.Op == token.EQL) == g.Val {
				for _, l := range m.u.Leaves(x.X) {
					if c, is := l.(*ssa.Extract); is {
						if cl, is := c.Tuple.(*ssa.Call); is && strings.HasPrefix(callName(cl), "math/big.(Int).SetString") {
							return true
						}
					}
				}
			}
		}
	}
	sites := m.u.callSites(b.Parent())
	if d > 3 || len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		if !m.notInteger(s.Block(), d+1) {
			return false
		}
	}
	return true
}

// checkNumbers: an integer must not become a rounded number.
func (m *sexprModel) checkNumbers(r *Report) {
	for _, f := range m.u.PkgFuncs(sexprPkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if callName(in) != "strconv.ParseFloat" {
					continue
				}
				ok := m.notInteger(b, 0)
				if !ok {
					r.Bad("integer-exact", fnName(f), m.u.InstrPos(in), "%s: a number that is an integer too large for 64 bits is rounded to a floating-point number", fnName(f))
				} else {
					r.OK("integer-exact", "%s: only what is no integer is read as a floating-point number", fnName(f))
				}
			}
		}
	}
}

// valueless: types that only white space and comments have.
func (m *sexprModel) valueless(t types.Type) bool {
	r, ok := m.valuelessMemo[t]
	if !ok {
		r = m.valueless1(t)
		m.valuelessMemo[t] = r
	}
	return r
}

func (m *sexprModel) valueless1(t types.Type) bool {
	p := m.u.SSA[sexprPkg]
	for _, mem := range p.Members {
		ty, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := ty.Type().(*types.Named)
		if !ok || types.IsInterface(n) || !m.isForm(n) {
			continue
		}
		pt := types.Type(types.NewPointer(n))
		if !m.carriesValue(pt) {
			continue
		}
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(pt, it) || types.Implements(n, it) {
				return false
			}
		} else if namedOf(t) == n {
			return false
		}
	}
	return true
}

// carriesValue: forms that are a list, a number, a string or a symbol.
func (m *sexprModel) carriesValue(t types.Type) bool {
	fp := m.u.Pkgs["sexpr/form"]
	for _, n := range []string{"List", "Number", "Symbol", "String"} {
		if o := fp.Types.Scope().Lookup(n); o != nil {
			if it, ok := o.Type().Underlying().(*types.Interface); ok && types.Implements(t, it) {
				return true
			}
		}
	}
	return false
}

func (m *sexprModel) recognisedValueless(s *pstate, id int) bool {
	o := s.objs[id]
	if o == nil {
		return false
	}
	if o.dyn != nil && m.isForm(o.dyn) && m.valueless(o.dyn) {
		return true
	}
	for _, tag := range strings.Split(o.tags, ";") {
		if t := m.asserted[strings.TrimPrefix(tag, "is:")]; t != nil && strings.HasPrefix(tag, "is:") && m.valueless(t) {
			return true
		}
	}
	return false
}

// ---- the elements of lists

type listTS struct{ id int } // element taken from the list and not handled yet

func (t *listTS) clone() pts { n := *t; return &n }
func (t *listTS) roots() []int {
	if t.id != 0 {
		return []int{t.id}
	}
	return nil
}
func (t *listTS) key(name func(int) string) string {
	if t.id == 0 {
		return ""
	}
	return name(t.id)
}

// checkLists: a list is made of all the forms it is given, except white space and comments.
func (m *sexprModel) checkLists(r *Report) {
	fi := m.factory.Underlying().(*types.Interface)
	for _, f := range m.u.PkgFuncs(sexprPkg) {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || !types.Implements(f.Signature.Recv().Type(), fi) || len(f.Params) < 2 {
			continue
		}
		sl, ok := f.Params[1].Type().Underlying().(*types.Slice)
		if !ok || !m.isForm(sl.Elem()) {
			continue
		}
		n := len(r.findings)
		loads := 0
		drop := func(s *pstate, in ssa.Instruction) {
			t := s.ts.(*listTS)
			if t.id != 0 && !m.recognisedValueless(s, t.id) {
				r.Bad("no-form-lost", fnName(in.Parent()), m.u.InstrPos(in), "%s: a form of the list that is neither white space nor a comment is left out", fnName(f))
			}
			t.id = 0
		}
		elem := func(v ssa.Value) *ssa.IndexAddr {
			l, ok := v.(*ssa.UnOp)
			if !ok || l.Op != token.MUL || !types.Identical(l.Type(), sl.Elem()) {
				return nil
			}
			ia, _ := l.X.(*ssa.IndexAddr)
			if ia == nil {
				return nil
			}
			if _, ok := ia.X.(*ssa.Alloc); ok {
				return nil
			}
			return ia
		}
		use := func(s *pstate, v pval) {
			if t := s.ts.(*listTS); v.k == pSym && v.id == t.id {
				t.id = 0
			}
		}
		lists := map[ssa.Value]bool{}
		e := newPathEng(m.u, pclient{
			inline: func(fn *ssa.Function) bool { return fnPkg(fn) == sexprPkg },
			value: func(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
				ia := elem(v)
				if ia == nil {
					return pval{}, false
				}
				loads++
				drop(s, v.(ssa.Instruction))
				cc := &copyCheck{m: &copyModel{u: m.u}}
				if why := cc.fullRange(ia); why != "" {
					r.Bad("no-form-lost", fnName(ia.Parent()), m.u.InstrPos(ia), "%s: not every form of the list is visited: %s", fnName(f), why)
				}
				x := e.fresh(s, v)
				s.ts.(*listTS).id = x.id
				return x, true
			},
			call: func(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
				if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && len(args) == 2 && args[1].k == pAddr {
					lists[in.Value()] = true
					for l, v := range s.mem {
						if l.obj == args[1].loc.obj {
							use(s, v)
						}
					}
				}
				return nil, false
			},
			instr: func(e *pathEng, s *pstate, in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
						if _, lit := ia.X.(*ssa.Alloc); !lit {
							use(s, e.get(s, st.Val))
						}
					}
				}
			},
			ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
				if len(s.frames) > 1 {
					return
				}
				if ei := errResultIndex(f.Signature); ei >= 0 && s.isNil(s.resolve(vals[ei])) == -1 {
					return
				}
				drop(s, in)
			},
		})
		if !e.run(f, &listTS{}, nil) {
			r.Bad("undecided", fnName(f), m.u.Pos(f.Pos()), "the ways through this function could not be enumerated")
		}
		if len(r.findings) == n {
			r.OK("no-form-lost", "%s: every form of a list is kept unless it is known to be white space or a comment", fnName(f))
		}
		r.Count("list constructors", 1)
	}
}
