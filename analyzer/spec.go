package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A specRun evaluates functions under an assumption about the variant they are
// used with (say, "every slot of a path holds a bool map key"), as a sparse
// conditional constant propagation over SSA: constants, nil-ness and dynamic
// types are propagated, branches whose condition becomes constant are pruned,
// and calls of repository functions are analysed once per distinct argument
// values. What is left is the code that can run for that variant. Values also
// carry tags, which record what they were computed from.

type skind int

const (
	sBot skind = iota
	sConst
	sNil
	sDyn // interface or pointer that is not nil; dyn may be known
	sTop
)

type sval struct {
	k    skind
	c    constant.Value
	dyn  types.Type
	tags tagset
}

type tagset string // sorted, each tag ended with ';'

func (t tagset) has(s string) bool { return strings.Contains(";"+string(t), ";"+s+";") }
func (t tagset) list() []string {
	if t == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(t), ";"), ";")
}
func (t tagset) add(o tagset) tagset {
	if o == "" || o == t {
		return t
	}
	if t == "" {
		return o
	}
	m := map[string]bool{}
	for _, x := range append(t.list(), o.list()...) {
		m[x] = true
	}
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return tagset(strings.Join(l, ";") + ";")
}
func tag(s string) tagset { return tagset(s + ";") }

func top(t tagset) sval { return sval{k: sTop, tags: t} }
func sconst(c constant.Value) sval {
	if c == nil {
		return top("")
	}
	return sval{k: sConst, c: c}
}
func sbool(b bool) sval { return sconst(constant.MakeBool(b)) }

func (v sval) isTrue() bool  { return v.k == sConst && v.c.Kind() == constant.Bool && constant.BoolVal(v.c) }
func (v sval) isFalse() bool { return v.k == sConst && v.c.Kind() == constant.Bool && !constant.BoolVal(v.c) }
func (v sval) str() (string, bool) {
	if v.k == sConst && v.c.Kind() == constant.String {
		return constant.StringVal(v.c), true
	}
	return "", false
}

func (v sval) key() string {
	s := fmt.Sprint(int(v.k))
	if v.c != nil {
		s += v.c.ExactString()
	}
	if v.dyn != nil {
		s += types.TypeString(v.dyn, nil)
	}
	return s + "#" + string(v.tags)
}

func joinS(a, b sval) sval {
	if a.k == sBot {
		b.tags = b.tags.add(a.tags)
		return b
	}
	if b.k == sBot {
		a.tags = a.tags.add(b.tags)
		return a
	}
	t := a.tags.add(b.tags)
	if a.k == b.k {
		switch a.k {
		case sConst:
			if a.c.Kind() == b.c.Kind() && constant.Compare(a.c, token.EQL, b.c) {
				a.tags = t
				return a
			}
		case sNil:
			a.tags = t
			return a
		case sDyn:
			if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
				a.tags = t
				return a
			}
			return sval{k: sDyn, tags: t}
		}
	}
	return top(t)
}

type specCtx struct {
	fn    *ssa.Function
	args  []sval
	frees []sval
	vals  map[ssa.Value]sval
	tup   map[ssa.Value][]sval
	reach map[*ssa.BasicBlock]bool
	edges map[[2]*ssa.BasicBlock]bool
	ret   []sval
	done  bool
	calls map[ssa.Instruction]*specCtx
}

type specRun struct {
	u *Unit
	// hook overrides the evaluation of a value; at is the context.
	hook  func(c *specCtx, v ssa.Value) (sval, bool)
	heap  map[string]tagset
	ctxs  map[string]*specCtx
	order []*specCtx
	grew  bool
	depth int
	// recBot: a recursive call is assumed not to return (least fixpoint of one
	// unrolling), which decides whether a return is reachable at all.
	recBot bool
}

func newSpec(u *Unit) *specRun {
	return &specRun{u: u, heap: map[string]tagset{}, ctxs: map[string]*specCtx{}}
}

// run evaluates a root with unknown arguments until the heap tags are stable.
func (s *specRun) run(root *ssa.Function) *specCtx {
	for i := 0; ; i++ {
		s.ctxs, s.order, s.grew = map[string]*specCtx{}, nil, false
		args := make([]sval, len(root.Params))
		for i := range args {
			args[i] = top("")
		}
		c := s.eval(root, args, nil)
		if !s.grew || i > 10 {
			return c
		}
	}
}

func ctxKey(fn *ssa.Function, args, frees []sval) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p", fn)
	for _, a := range append(append([]sval{}, args...), frees...) {
		sb.WriteString("|" + a.key())
	}
	return sb.String()
}

func (s *specRun) eval(fn *ssa.Function, args, frees []sval) *specCtx {
	k := ctxKey(fn, args, frees)
	if c := s.ctxs[k]; c != nil {
		return c
	}
	n := fn.Signature.Results().Len()
	c := &specCtx{fn: fn, args: args, frees: frees, ret: make([]sval, n),
		calls: map[ssa.Instruction]*specCtx{}, vals: map[ssa.Value]sval{}, tup: map[ssa.Value][]sval{}, reach: map[*ssa.BasicBlock]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}}
	s.ctxs[k] = c
	s.order = append(s.order, c)
	if len(fn.Blocks) == 0 || s.depth > 14 {
		for i := range c.ret {
			c.ret[i] = top(allTags(args))
		}
		c.done = true
		return c
	}
	s.depth++
	defer func() { s.depth--; c.done = true }()
	for i, p := range fn.Params {
		c.vals[p] = args[i]
		if s.hook != nil {
			if v, ok := s.hook(c, p); ok {
				c.vals[p] = v
			}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(frees) {
			c.vals[fv] = frees[i]
		} else {
			c.vals[fv] = top("")
		}
	}
	c.reach[fn.Blocks[0]] = true
	if fn.Recover != nil {
		c.reach[fn.Recover] = true
	}
	for iter := 0; iter < 60; iter++ {
		changed := false
		for _, b := range fn.Blocks {
			if !c.reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				if s.step(c, in) {
					changed = true
				}
				if call, ok := in.(*ssa.Call); ok && c.vals[call].k == sBot {
					break // the call does not return (or not yet)
				}
			}
		}
		if !changed {
			break
		}
	}
	return c
}

func allTags(vs []sval) (t tagset) {
	for _, v := range vs {
		t = t.add(v.tags)
	}
	return t
}

func (c *specCtx) get(v ssa.Value) sval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return top("")
			}
			if _, ok := x.Type().Underlying().(*types.Array); ok {
				return top("")
			}
			return sval{k: sNil}
		}
		return sconst(x.Value)
	case *ssa.Function, *ssa.Global:
		return sval{k: sDyn}
	case *ssa.Builtin:
		return top("")
	}
	return c.vals[v]
}

func (c *specCtx) set(v ssa.Value, n sval) bool {
	o := c.vals[v]
	if o.k != sBot {
		n = joinS(o, n)
	}
	if o.k == n.k && o.key() == n.key() {
		return false
	}
	c.vals[v] = n
	return true
}

// heapKey names the storage behind an address.
func (c *specCtx) heapKey(a ssa.Value, d int) string {
	if d > 12 {
		return "?"
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("f:%s.%d", types.TypeString(deref(x.X.Type()), nil), x.Field)
	case *ssa.IndexAddr:
		return c.heapKey(x.X, d+1)
	case *ssa.Slice:
		return c.heapKey(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return c.heapKey(x.X, d+1)
		}
	case *ssa.Global:
		return "g:" + x.String()
	case *ssa.Alloc:
		return fmt.Sprintf("a:%p", x)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return c.heapKey(b, d+1)
		}
	case *ssa.ChangeType:
		return c.heapKey(x.X, d+1)
	case *ssa.MakeInterface:
		return c.heapKey(x.X, d+1)
	}
	return fmt.Sprintf("v:%p", a)
}

func (s *specRun) put(k string, t tagset) {
	if t == "" {
		return
	}
	o := s.heap[k]
	n := o.add(t)
	if n != o {
		s.heap[k] = n
		s.grew = true
	}
}

func (s *specRun) flow(c *specCtx, from, to *ssa.BasicBlock) bool {
	e := [2]*ssa.BasicBlock{from, to}
	if c.edges[e] {
		return false
	}
	c.edges[e] = true
	c.reach[to] = true
	return true
}

func (s *specRun) step(c *specCtx, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.If:
		v := c.get(x.Cond)
		b := x.Block()
		ch := false
		if v.k == sBot {
			return false
		}
		if !v.isFalse() {
			ch = s.flow(c, b, b.Succs[0]) || ch
		}
		if !v.isTrue() {
			ch = s.flow(c, b, b.Succs[1]) || ch
		}
		return ch
	case *ssa.Jump:
		return s.flow(c, x.Block(), x.Block().Succs[0])
	case *ssa.Return:
		ch := false
		for i, r := range x.Results {
			v := c.get(r)
			if v.k == sBot {
				continue
			}
			n := joinS(c.ret[i], v)
			if n.key() != c.ret[i].key() {
				c.ret[i] = n
				ch = true
			}
		}
		return ch
	case *ssa.Store:
		v := c.get(x.Val)
		if v.k != sBot {
			s.put(c.heapKey(x.Addr, 0), v.tags)
		}
		return false
	case *ssa.MapUpdate:
		s.put(c.heapKey(x.Map, 0), c.get(x.Key).tags.add(c.get(x.Value).tags))
		return false
	case ssa.Value:
		if _, ok := in.(*ssa.Phi); !ok {
			if s.hook != nil {
				if v, ok := s.hook(c, x); ok {
					return c.set(x, v)
				}
			}
		}
		v, ok := s.value(c, x)
		if !ok {
			return false
		}
		return c.set(x, v)
	case ssa.CallInstruction: // go, defer
		s.call(c, nil, x.Common())
	}
	return false
}

// value computes the abstract value of v; ok is false when an operand is not known yet.
func (s *specRun) value(c *specCtx, v ssa.Value) (sval, bool) {
	switch x := v.(type) {
	case *ssa.Phi:
		r := sval{}
		n := 0
		for i, e := range x.Edges {
			if !c.edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				continue
			}
			ev := c.get(e)
			if ev.k == sBot {
				continue
			}
			n++
			r = joinS(r, ev)
		}
		if n == 0 {
			return r, false
		}
		if n > 1 {
			r.tags = r.tags.add(c.implicit(x.Block()))
		}
		return r, true
	case *ssa.BinOp:
		a, b := c.get(x.X), c.get(x.Y)
		if a.k == sBot || b.k == sBot {
			return sval{}, false
		}
		t := a.tags.add(b.tags)
		r := binS(x.Op, a, b)
		r.tags = r.tags.add(t)
		return r, true
	case *ssa.UnOp:
		a := c.get(x.X)
		if x.Op == token.MUL {
			return top(a.tags.add(s.heap[c.heapKey(x.X, 0)])), true
		}
		if a.k == sBot {
			return a, false
		}
		if a.k == sConst && x.Op == token.NOT {
			return sval{k: sConst, c: constant.MakeBool(!constant.BoolVal(a.c)), tags: a.tags}, true
		}
		return top(a.tags), true
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		t := tagset("")
		if fa, ok := v.(*ssa.FieldAddr); ok {
			t = c.get(fa.X).tags
		}
		if ia, ok := v.(*ssa.IndexAddr); ok {
			t = c.get(ia.X).tags
		}
		return sval{k: sDyn, tags: t}, true
	case *ssa.MakeInterface:
		a := c.get(x.X)
		if a.k == sBot {
			return a, false
		}
		return sval{k: sDyn, dyn: x.X.Type(), tags: a.tags.add(s.heap[c.heapKey(x.X, 0)])}, true
	case *ssa.ChangeInterface:
		a := c.get(x.X)
		return a, a.k != sBot
	case *ssa.ChangeType:
		a := c.get(x.X)
		return a, a.k != sBot
	case *ssa.Convert:
		a := c.get(x.X)
		if a.k == sConst {
			ok := false
			switch a.c.Kind() {
			case constant.Int:
				if bt, isB := x.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsInteger != 0 {
					ok = constant.BitLen(a.c) < 31
				}
			case constant.String:
				ok = isStringType(x.Type())
			}
			if !ok {
				return top(a.tags), true
			}
		}
		return a, a.k != sBot
	case *ssa.TypeAssert:
		a := c.get(x.X)
		if a.k == sBot {
			return a, false
		}
		var ok sval
		val := top(a.tags)
		switch {
		case a.k == sNil:
			ok = sbool(false)
			val = sval{k: sNil, tags: a.tags}
		case a.k == sDyn && a.dyn != nil:
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = sbool(types.Implements(a.dyn, it))
				val = a
			} else {
				ok = sbool(types.Identical(a.dyn, x.AssertedType))
				val = sval{k: sDyn, tags: a.tags}
				if !ok.isTrue() {
					val = sval{k: sNil, tags: a.tags}
				}
			}
		default:
			ok = top("")
		}
		ok.tags = ok.tags.add(a.tags)
		if x.CommaOk {
			c.tup[x] = []sval{val, ok}
			return top(a.tags), true
		}
		return val, true
	case *ssa.Extract:
		if t, ok := c.tup[x.Tuple]; ok && x.Index < len(t) {
			if t[x.Index].k == sBot {
				return sval{}, false
			}
			return t[x.Index], true
		}
		a := c.get(x.Tuple)
		return top(a.tags), a.k != sBot
	case *ssa.Call:
		return s.call(c, x, &x.Call)
	case *ssa.MakeClosure:
		return sval{k: sDyn}, true
	case *ssa.Slice:
		a := c.get(x.X)
		return top(a.tags.add(s.heap[c.heapKey(x.X, 0)])), a.k != sBot
	case *ssa.Field:
		a := c.get(x.X)
		return top(a.tags), a.k != sBot
	case *ssa.Index:
		a := c.get(x.X)
		return top(a.tags), a.k != sBot
	case *ssa.Lookup:
		a, b := c.get(x.X), c.get(x.Index)
		return top(a.tags.add(b.tags).add(s.heap[c.heapKey(x.X, 0)])), a.k != sBot && b.k != sBot
	case *ssa.Range, *ssa.Next:
		var t tagset
		for _, op := range v.(ssa.Instruction).Operands(nil) {
			t = t.add(c.get(*op).tags).add(s.heap[c.heapKey(*op, 0)])
		}
		return top(t), true
	}
	return top(""), true
}

// implicit is the tags of the conditions that decide which way b is entered.
func (c *specCtx) implicit(b *ssa.BasicBlock) (t tagset) {
	dom := b.Idom()
	if dom == nil {
		return ""
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(p *ssa.BasicBlock)
	walk = func(p *ssa.BasicBlock) {
		if seen[p] || !c.reach[p] || p == b {
			return
		}
		seen[p] = true
		if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			t = t.add(c.get(ifi.Cond).tags)
		}
		if p == dom {
			return
		}
		for _, q := range p.Preds {
			walk(q)
		}
	}
	for _, p := range b.Preds {
		if c.edges[[2]*ssa.BasicBlock{p, b}] {
			walk(p)
		}
	}
	return t
}

func binS(op token.Token, a, b sval) sval {
	switch op {
	case token.EQL, token.NEQ:
		eq := top("")
		switch {
		case a.k == sConst && b.k == sConst && a.c.Kind() == b.c.Kind():
			eq = sbool(constant.Compare(a.c, token.EQL, b.c))
		case a.k == sNil && b.k == sNil:
			eq = sbool(true)
		case a.k == sNil && b.k == sDyn, a.k == sDyn && b.k == sNil:
			eq = sbool(false)
		}
		if op == token.NEQ && eq.k == sConst {
			return sbool(!eq.isTrue())
		}
		return eq
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.k == sConst && b.k == sConst && a.c.Kind() == b.c.Kind() {
			return sbool(constant.Compare(a.c, op, b.c))
		}
	case token.ADD:
		if a.k == sConst && b.k == sConst && a.c.Kind() == b.c.Kind() && (a.c.Kind() == constant.String || a.c.Kind() == constant.Int) {
			return sconst(constant.BinaryOp(a.c, op, b.c))
		}
	}
	return top("")
}

// varargs returns the values stored in a freshly made argument slice.
func varargElems(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, isNilConst(v)
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				out[k.Int64()] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

func (s *specRun) call(c *specCtx, v *ssa.Call, cc *ssa.CallCommon) (sval, bool) {
	args := make([]sval, 0, len(cc.Args))
	tags := tagset("")
	if cc.IsInvoke() {
		a := c.get(cc.Value)
		if a.k == sBot {
			return a, false
		}
		tags = tags.add(a.tags).add(s.heap[c.heapKey(cc.Value, 0)])
	}
	for _, a := range cc.Args {
		av := c.get(a)
		if av.k == sBot {
			return av, false
		}
		args = append(args, av)
		tags = tags.add(av.tags)
		if _, ok := a.Type().Underlying().(*types.Basic); !ok {
			tags = tags.add(s.heap[c.heapKey(a, 0)])
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" && v != nil {
			s.put(c.heapKey(v, 0), tags)
		}
		if bi.Name() == "copy" {
			s.put(c.heapKey(cc.Args[0], 0), tags)
		}
		return top(tags), true
	}
	var callee *ssa.Function
	var frees []sval
	if sc := cc.StaticCallee(); sc != nil {
		callee = sc
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				frees = append(frees, c.get(b))
			}
		}
	}
	if callee != nil && inRepo(callee) && len(callee.Blocks) > 0 {
		sub := s.eval(callee, args, frees)
		if v != nil {
			c.calls[v] = sub
		}
		ret := sub.ret
		if !sub.done && s.recBot {
			return sval{}, false
		}
		if !sub.done { // recursive: whatever was found so far and anything else
			r2 := make([]sval, len(ret))
			for i := range ret {
				r2[i] = top(ret[i].tags.add(tags))
			}
			ret = r2
		}
		// results that were never produced: the call does not return
		for i := range ret {
			if ret[i].k == sBot {
				if sub.done {
					return sval{}, false
				}
				ret[i] = top(tags)
			}
		}
		if v == nil {
			return top(tags), true
		}
		if len(ret) == 1 {
			return ret[0], true
		}
		c.tup[v] = ret
		return top(tags), true
	}
	// calls out of the repository: the address arguments may receive what is passed
	if len(cc.Args) > 1 && !cc.IsInvoke() {
		if _, isPtr := cc.Args[0].Type().Underlying().(*types.Pointer); isPtr {
			s.put(c.heapKey(cc.Args[0], 0), tags)
		} else if _, isI := cc.Args[0].Type().Underlying().(*types.Interface); isI {
			s.put(c.heapKey(cc.Args[0], 0), tags)
		}
	}
	if cc.IsInvoke() && len(cc.Args) > 0 {
		s.put(c.heapKey(cc.Value, 0), tags)
	}
	if v != nil {
		if r, ok := s.fold(c, cc, args); ok {
			r.tags = r.tags.add(tags)
			return r, true
		}
	}
	return top(tags), true
}

// fold evaluates a few pure library functions on constants.
func (s *specRun) fold(c *specCtx, cc *ssa.CallCommon, args []sval) (sval, bool) {
	mk := func(x string) (sval, bool) { return sconst(constant.MakeString(x)), true }
	switch calleeName(cc) {
	case "fmt.Sprintf":
		f, ok := args[0].str()
		if !ok {
			return sval{}, false
		}
		els, ok := varargElems(cc.Args[1])
		if !ok {
			return sval{}, false
		}
		var vals []interface{}
		for _, e := range els {
			if mi, isMI := e.(*ssa.MakeInterface); isMI {
				e = mi.X
			}
			a := c.get(e)
			if a.k != sConst {
				return sval{}, false
			}
			if _, plain := e.Type().(*types.Basic); !plain {
				return sval{}, false
			}
			switch a.c.Kind() {
			case constant.String:
				vals = append(vals, constant.StringVal(a.c))
			case constant.Bool:
				vals = append(vals, constant.BoolVal(a.c))
			case constant.Int:
				n, _ := constant.Int64Val(a.c)
				vals = append(vals, n)
			default:
				return sval{}, false
			}
		}
		return mk(fmt.Sprintf(f, vals...))
	case "fmt.Errorf", "errors.New":
		return sval{k: sDyn}, true
	case "strconv.FormatBool":
		if args[0].k == sConst {
			return mk(strconv.FormatBool(constant.BoolVal(args[0].c)))
		}
	case "strconv.Itoa":
		if args[0].k == sConst {
			n, _ := constant.Int64Val(args[0].c)
			return mk(strconv.Itoa(int(n)))
		}
	case "strings.ToLower":
		if x, ok := args[0].str(); ok {
			return mk(strings.ToLower(x))
		}
	}
	return sval{}, false
}

// each visits every instruction that can run, once per context.
func (s *specRun) each(f func(c *specCtx, in ssa.Instruction)) {
	for _, c := range s.order {
		for _, b := range c.fn.Blocks {
			if !c.reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				f(c, in)
				if call, ok := in.(*ssa.Call); ok && c.vals[call].k == sBot {
					break
				}
			}
		}
	}
}
