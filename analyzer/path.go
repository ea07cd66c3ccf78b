package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is a typestate analysis of the property-simulation kind: a forward
// dataflow over the SSA whose facts are finite (identity of values, "equals this
// constant / sentinel / nil", "has this dynamic type") together with a state
// machine supplied by the client. Helpers are analysed inline, recursive calls
// by their contract, and two ways of reaching a block are one when their facts
// and client states are equal, so loops reach a fixpoint.

type pk uint8

const (
	pTop pk = iota
	pConst
	pNil
	pGlobal // value of a sentinel variable
	pSym    // an unknown value with an identity
	pCond   // a comparison not decided yet
	pFunc
	pTuple
	pAddr // address inside an object
)

type ploc struct {
	obj  int
	path string
}

type pval struct {
	k     pk
	c     constant.Value
	g     *ssa.Global
	id    int
	op    token.Token // pCond: EQL, or IDENT for "x has type t"
	neg   bool
	x, y  *pval
	t     types.Type
	fn    *ssa.Function
	parts []pval
	loc   ploc
}

type pobj struct {
	site   ssa.Value // what made it
	eq     *pval
	ne     []pval
	dyn    types.Type
	notdyn []types.Type
	zero   bool // an allocation whose unwritten parts are still zero
	tags   string
}

type pdefer struct {
	in   *ssa.Defer
	args []pval
	val  pval
}

type pframe struct {
	fn     *ssa.Function
	blk    *ssa.BasicBlock
	pred   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]pval
	free   []pval
	defers []pdefer
	call   *ssa.Call // in the caller; nil for roots and deferred calls
	depth  int
}

// pts is the client's part of a state.
type pts interface {
	clone() pts
	key(name func(id int) string) string
	roots() []int
}

type pstate struct {
	frames []*pframe
	mem    map[ploc]pval
	objs   map[int]*pobj
	next   int
	ts     pts
}

func (s *pstate) top() *pframe { return s.frames[len(s.frames)-1] }

func (s *pstate) clone() *pstate {
	n := &pstate{next: s.next, mem: make(map[ploc]pval, len(s.mem)), objs: make(map[int]*pobj, len(s.objs))}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]pval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]pdefer(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, o := range s.objs {
		c := *o
		n.objs[k] = &c
	}
	if s.ts != nil {
		n.ts = s.ts.clone()
	}
	return n
}

// pclient are the hooks of one analysis.
type pclient struct {
	// call models a call; it returns the states to go on with and true, or false.
	// args starts with the receiver, also for interface calls.
	call func(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool)
	// instr observes an instruction before it takes effect.
	instr func(e *pathEng, s *pstate, in ssa.Instruction)
	// ret observes a return (len(s.frames) is still that of the returning function).
	ret func(e *pathEng, s *pstate, in *ssa.Return, vals []pval)
	// edge observes a control-flow edge being taken.
	edge func(e *pathEng, s *pstate, from, to *ssa.BasicBlock)
	// enter observes an inlined call.
	enter func(e *pathEng, s *pstate, fn *ssa.Function, args []pval)
	// inline says whether a repository function is analysed inline.
	inline func(fn *ssa.Function) bool
	// value evaluates an instruction in place of the engine.
	value func(e *pathEng, s *pstate, v ssa.Value) (pval, bool)
	// recurse is called for a recursive call of an inlined function.
	recurse func(e *pathEng, s *pstate, in ssa.CallInstruction, fn *ssa.Function, args []pval) ([]*pstate, bool)
}

type pathEng struct {
	u      *Unit
	c      pclient
	seen   map[string]bool
	work   []*pstate
	states int
	limit  int
	over   bool
	cut    map[*ssa.Function]bool // recursive calls handled by contract
	live   map[*ssa.Function]*liveness
	funcs  map[*ssa.Function]bool // everything analysed
	inst   int
	depth  int
	// once: can the state come back to where it is? Without alternatives it need
	// not be compared with earlier ones when it cannot.
	once func(s *pstate) bool
	fold int64 // counters are followed up to this value
}

func newPathEng(u *Unit, c pclient) *pathEng {
	return &pathEng{u: u, c: c, limit: 60000, cut: map[*ssa.Function]bool{}, live: map[*ssa.Function]*liveness{}, funcs: map[*ssa.Function]bool{}, depth: 14, fold: 2}
}

// run analyses root from the given client state; false when the bound on states was hit.
func (e *pathEng) run(root *ssa.Function, ts pts, setup func(s *pstate)) bool {
	e.seen = map[string]bool{}
	e.over = false
	e.states = 0
	s := &pstate{mem: map[ploc]pval{}, objs: map[int]*pobj{}, ts: ts, next: 1}
	f := &pframe{fn: root, blk: root.Blocks[0], env: map[ssa.Value]pval{}}
	s.frames = []*pframe{f}
	e.funcs[root] = true
	for _, p := range root.Params {
		f.env[p] = e.fresh(s, p)
	}
	for _, fv := range root.FreeVars {
		f.free = append(f.free, pval{k: pAddr, loc: ploc{e.newObj(s, fv), ""}})
	}
	if setup != nil {
		setup(s)
	}
	e.work = []*pstate{s}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(s)
		if e.over {
			e.work = nil
			return false
		}
	}
	return true
}

func (e *pathEng) newObj(s *pstate, site ssa.Value) int {
	id := s.next
	s.next++
	s.objs[id] = &pobj{site: site}
	return id
}

func (e *pathEng) fresh(s *pstate, site ssa.Value) pval { return pval{k: pSym, id: e.newObj(s, site)} }

func (e *pathEng) nonNil(s *pstate, site ssa.Value) pval {
	v := e.fresh(s, site)
	s.objs[v.id].ne = []pval{{k: pNil}}
	return v
}

func pbool(b bool) pval { return pval{k: pConst, c: constant.MakeBool(b)} }

// zeroP is the zero value of a type.
func zeroP(t types.Type) pval {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return pbool(false)
		case x.Info()&types.IsString != 0:
			return pval{k: pConst, c: constant.MakeString("")}
		case x.Info()&types.IsInteger != 0:
			return pval{k: pConst, c: constant.MakeInt64(0)}
		case x.Kind() == types.UnsafePointer || x.Kind() == types.UntypedNil:
			return pval{k: pNil}
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return pval{k: pNil}
	}
	return pval{}
}

// resolve replaces a symbol that is known to equal an atom by the atom.
func (s *pstate) resolve(v pval) pval {
	if v.k == pSym {
		if o := s.objs[v.id]; o != nil && o.eq != nil {
			return *o.eq
		}
	}
	return v
}

func isAtom(v pval) bool {
	return v.k == pConst || v.k == pNil || v.k == pGlobal || v.k == pFunc || v.k == pAddr
}

// atomEq: 1 equal, -1 different, 0 unknown.
func atomEq(a, b pval) int {
	if a.k != b.k {
		// a sentinel is never nil, an address never nil; constants of different kinds are not compared
		return -1
	}
	switch a.k {
	case pNil:
		return 1
	case pConst:
		if a.c.Kind() == b.c.Kind() {
			if constant.Compare(a.c, token.EQL, b.c) {
				return 1
			}
			return -1
		}
		return 0
	case pGlobal:
		if a.g == b.g {
			return 1
		}
		return -1
	case pAddr:
		if a.loc == b.loc {
			return 1
		}
		return -1
	}
	return 0
}

// equal decides x == y as far as the facts go.
func (s *pstate) equal(x, y pval) int {
	x, y = s.resolve(x), s.resolve(y)
	if x.k == pSym && y.k == pSym {
		if x.id == y.id {
			return 1
		}
		return 0
	}
	if y.k == pSym {
		x, y = y, x
	}
	if x.k == pSym {
		if !isAtom(y) {
			return 0
		}
		if y.k == pGlobal && strings.Contains(s.objs[x.id].tags, "made") {
			return -1
		}
		for _, n := range s.objs[x.id].ne {
			if atomEq(n, y) == 1 {
				return -1
			}
		}
		return 0
	}
	if isAtom(x) && isAtom(y) {
		return atomEq(x, y)
	}
	return 0
}

// eval decides a condition: 1 true, -1 false, 0 unknown.
func (s *pstate) eval(v pval) int {
	v = s.resolve(v)
	switch v.k {
	case pConst:
		if v.c.Kind() == constant.Bool {
			if constant.BoolVal(v.c) {
				return 1
			}
			return -1
		}
	case pCond:
		r := 0
		switch v.op {
		case token.EQL:
			r = s.equal(*v.x, *v.y)
		case token.IDENT:
			r = s.hasType(*v.x, v.t)
		}
		if v.neg {
			r = -r
		}
		return r
	}
	return 0
}

func (s *pstate) hasType(x pval, t types.Type) int {
	x = s.resolve(x)
	if x.k == pNil {
		return -1
	}
	if x.k != pSym {
		return 0
	}
	o := s.objs[x.id]
	if o.dyn != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(o.dyn, it) {
				return 1
			}
			return -1
		}
		if types.Identical(o.dyn, t) {
			return 1
		}
		return -1
	}
	for _, n := range o.notdyn {
		if types.Identical(n, t) {
			return -1
		}
	}
	return 0
}

// assume records that v is want; false when that contradicts the facts.
func (s *pstate) assume(v pval, want bool) bool {
	switch r := s.eval(v); {
	case r == 1:
		return want
	case r == -1:
		return !want
	}
	switch v.k {
	case pSym:
		b := pbool(want)
		s.objs[v.id].eq = &b
	case pCond:
		if v.neg {
			want = !want
		}
		switch v.op {
		case token.EQL:
			x, y := s.resolve(*v.x), s.resolve(*v.y)
			if x.k != pSym {
				x, y = y, x
			}
			if x.k == pSym && isAtom(y) {
				o := s.objs[x.id]
				if want {
					yy := y
					o.eq = &yy
				} else {
					o.ne = append(append([]pval(nil), o.ne...), y)
				}
			}
		case token.IDENT:
			if x := s.resolve(*v.x); x.k == pSym {
				o := s.objs[x.id]
				_, isIface := v.t.Underlying().(*types.Interface)
				if want && isIface {
					o.tags += "is:" + v.t.String() + ";"
				}
				if want && !isIface {
					o.dyn = v.t
					o.ne = append(append([]pval(nil), o.ne...), pval{k: pNil})
				} else if !want {
					o.notdyn = append(append([]types.Type(nil), o.notdyn...), v.t)
				}
			}
		}
	}
	return true
}

func notP(v pval) pval {
	switch v.k {
	case pConst:
		if v.c.Kind() == constant.Bool {
			return pbool(!constant.BoolVal(v.c))
		}
	case pCond:
		v.neg = !v.neg
		return v
	case pSym:
		t := pbool(true)
		vv := v
		return pval{k: pCond, op: token.EQL, neg: true, x: &vv, y: &t}
	}
	return pval{}
}

// ---- liveness

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool // before the first non-phi; phis of the block included
}

func (e *pathEng) liveOf(fn *ssa.Function) *liveness {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	e.live[fn] = l
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := l.out(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				uses(in, cur)
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	return l
}

func uses(in ssa.Instruction, set map[ssa.Value]bool) {
	var ops [16]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if op == nil || *op == nil {
			continue
		}
		switch (*op).(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
			continue
		}
		set[*op] = true
	}
}

func (l *liveness) out(b *ssa.BasicBlock) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, n := range b.Succs {
		phis := map[ssa.Value]bool{}
		pi := -1
		for i, p := range n.Preds {
			if p == b {
				pi = i
			}
		}
		for _, in := range n.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[phi] = true
			switch x := phi.Edges[pi].(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
			default:
				cur[x] = true
			}
		}
		for v := range l.in[n] {
			if !phis[v] {
				cur[v] = true
			}
		}
	}
	return cur
}

// liveAt are the values used after instruction idx of b.
func (l *liveness) liveAt(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	cur := l.out(b)
	for j := len(b.Instrs) - 1; j > idx; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		uses(in, cur)
	}
	return cur
}

// ---- state identity

// canon drops what can no longer matter and gives the state's key.
func (e *pathEng) canon(s *pstate) string {
	for i, f := range s.frames {
		l := e.liveOf(f.fn)
		var live map[ssa.Value]bool
		if i == len(s.frames)-1 {
			live = l.in[f.blk]
		} else {
			live = l.liveAt(f.blk, f.idx)
		}
		for v := range f.env {
			if !live[v] {
				delete(f.env, v)
			}
		}
	}
	names := map[int]int{}
	var order []int
	var b strings.Builder
	name := func(id int) string {
		n, ok := names[id]
		if !ok {
			n = len(names)
			names[id] = n
			order = append(order, id)
		}
		return fmt.Sprintf("#%d", n)
	}
	var put func(v pval)
	put = func(v pval) {
		switch v.k {
		case pTop:
			b.WriteByte('T')
		case pConst:
			b.WriteString("c" + v.c.ExactString())
		case pNil:
			b.WriteByte('N')
		case pGlobal:
			b.WriteString("g" + v.g.String())
		case pSym:
			b.WriteString(name(v.id))
		case pCond:
			if v.neg {
				b.WriteByte('!')
			}
			b.WriteString("(" + v.op.String())
			put(*v.x)
			if v.y != nil {
				put(*v.y)
			}
			if v.t != nil {
				b.WriteString(v.t.String())
			}
			b.WriteByte(')')
		case pFunc:
			b.WriteString("f" + v.fn.String())
			for _, p := range v.parts {
				put(p)
			}
		case pTuple:
			b.WriteByte('[')
			for _, p := range v.parts {
				put(p)
				b.WriteByte(',')
			}
			b.WriteByte(']')
		case pAddr:
			b.WriteString("&" + name(v.loc.obj) + v.loc.path)
		}
	}
	for _, f := range s.frames {
		fmt.Fprintf(&b, "\n%s:%d:%d:", f.fn.String(), f.blk.Index, f.idx)
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			b.WriteString(v.Name() + "=")
			put(f.env[v])
			b.WriteByte(';')
		}
		for _, v := range f.free {
			put(v)
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, "d%p", d.in)
			put(d.val)
			for _, a := range d.args {
				put(a)
			}
		}
	}
	if s.ts != nil {
		b.WriteString("\nts:" + s.ts.key(name))
		for _, id := range s.ts.roots() {
			name(id)
		}
	}
	byObj := map[int][]ploc{}
	for l := range s.mem {
		byObj[l.obj] = append(byObj[l.obj], l)
	}
	for i := 0; i < len(order); i++ {
		id := order[i]
		o := s.objs[id]
		if o == nil {
			continue
		}
		fmt.Fprintf(&b, "\n#%d %s", i, o.tags)
		if o.site != nil {
			fmt.Fprintf(&b, "@%s", o.site.Name())
		}
		if o.zero {
			b.WriteByte('z')
		}
		if o.eq != nil {
			b.WriteByte('=')
			put(*o.eq)
		}
		if len(o.ne) > 0 {
			var ns []string
			for _, n := range o.ne {
				switch n.k {
				case pNil:
					ns = append(ns, "N")
				case pConst:
					ns = append(ns, n.c.ExactString())
				case pGlobal:
					ns = append(ns, n.g.String())
				}
			}
			sort.Strings(ns)
			var u []string
			for i, n := range ns {
				if i == 0 || n != ns[i-1] {
					u = append(u, n)
				}
			}
			b.WriteString("!" + strings.Join(u, ","))
		}
		if o.dyn != nil {
			b.WriteString("t" + o.dyn.String())
		}
		for _, t := range o.notdyn {
			b.WriteString("!t" + t.String())
		}
		ls := byObj[id]
		sort.Slice(ls, func(i, j int) bool { return ls[i].path < ls[j].path })
		for _, l := range ls {
			b.WriteString(" " + l.path + "=")
			put(s.mem[l])
		}
	}
	// forget everything unreachable
	for l := range s.mem {
		if _, ok := names[l.obj]; !ok {
			delete(s.mem, l)
		}
	}
	for id := range s.objs {
		if _, ok := names[id]; !ok {
			delete(s.objs, id)
		}
	}
	return b.String()
}

// ---- values and memory

func (e *pathEng) get(s *pstate, v ssa.Value) pval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return pval{k: pNil}
			}
			return zeroP(x.Type())
		}
		return pval{k: pConst, c: x.Value}
	case *ssa.Function:
		return pval{k: pFunc, fn: x}
	case *ssa.Global:
		return pval{k: pAddr, loc: ploc{-1, x.String()}, t: x.Type()}
	case *ssa.FreeVar:
		f := s.top()
		for i, fv := range f.fn.FreeVars {
			if fv == x && i < len(f.free) {
				return f.free[i]
			}
		}
		return pval{}
	}
	if p, ok := s.top().env[v]; ok {
		return p
	}
	return pval{}
}

// sentinel: a package-level error variable, taken to be never reassigned.
func sentinel(g *ssa.Global) bool {
	return isError(deref(g.Type()))
}

func (e *pathEng) load(s *pstate, a pval, t types.Type, site ssa.Value) pval {
	if a.k != pAddr {
		return e.fresh(s, site)
	}
	if a.loc.obj < 0 {
		if g, ok := globalNamed(e.u, a.loc.path); ok && sentinel(g) {
			return pval{k: pGlobal, g: g}
		}
		return e.fresh(s, site)
	}
	if v, ok := s.mem[a.loc]; ok {
		return v
	}
	o := s.objs[a.loc.obj]
	if o == nil {
		return pval{}
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		v := e.fresh(s, site)
		e.copyParts(s, a.loc, ploc{v.id, ""})
		s.objs[v.id].zero = o.zero
		return v
	}
	if o.zero {
		if z := zeroP(t); z.k != pTop {
			return z
		}
	}
	v := e.fresh(s, site)
	s.mem[a.loc] = v
	return v
}

func (e *pathEng) copyParts(s *pstate, from, to ploc) {
	for l, v := range s.mem {
		if l.obj == from.obj && strings.HasPrefix(l.path, from.path) && l.path != from.path {
			s.mem[ploc{to.obj, to.path + l.path[len(from.path):]}] = v
		}
	}
}

func (e *pathEng) clearParts(s *pstate, at ploc) {
	for l := range s.mem {
		if l.obj == at.obj && strings.HasPrefix(l.path, at.path) {
			delete(s.mem, l)
		}
	}
}

func (e *pathEng) store(s *pstate, a, v pval, t types.Type) {
	if a.k != pAddr {
		return
	}
	if a.loc.obj < 0 {
		return
	}
	e.clearParts(s, a.loc)
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		if v.k == pSym {
			if o, d := s.objs[v.id], s.objs[a.loc.obj]; o != nil && d != nil && d.zero && !o.zero {
				d.zero = false
			}
			e.copyParts(s, ploc{v.id, ""}, a.loc)
			if a.loc.path == "" {
				if o, d := s.objs[v.id], s.objs[a.loc.obj]; o != nil && d != nil {
					d.zero = o.zero
				}
			}
		} else if o := s.objs[a.loc.obj]; o != nil {
			if c, ok := a, v.k == pTop; ok {
				_ = c
				o.zero = false
			}
		}
	default:
		s.mem[a.loc] = v
	}
}

// havoc forgets what an unknown callee may have changed through v.
func (e *pathEng) havoc(s *pstate, v pval, seen map[int]bool) {
	switch v.k {
	case pAddr:
		if v.loc.obj < 0 || seen[v.loc.obj] {
			return
		}
		seen[v.loc.obj] = true
		var inner []pval
		for l, x := range s.mem {
			if l.obj == v.loc.obj && strings.HasPrefix(l.path, v.loc.path) {
				inner = append(inner, x)
				delete(s.mem, l)
			}
		}
		if o := s.objs[v.loc.obj]; o != nil {
			o.zero = false
		}
		for _, x := range inner {
			e.havoc(s, x, seen)
		}
	case pFunc:
		for _, p := range v.parts {
			e.havoc(s, p, seen)
		}
	}
}

func globalNamed(u *Unit, name string) (*ssa.Global, bool) {
	if u.globalIdx == nil {
		u.globalIdx = map[string]*ssa.Global{}
		for _, p := range u.Prog.AllPackages() {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					u.globalIdx[g.String()] = g
				}
			}
		}
	}
	g, ok := u.globalIdx[name]
	return g, ok
}

// setResult gives a call its result values.
func (e *pathEng) setResult(s *pstate, in ssa.CallInstruction, vals ...pval) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	if len(vals) == 1 && c.Call.Signature().Results().Len() == 1 {
		s.top().env[c] = vals[0]
		return
	}
	s.top().env[c] = pval{k: pTuple, parts: vals}
}

// unknownResult gives a call results nothing is known about.
func (e *pathEng) unknownResult(s *pstate, in ssa.CallInstruction) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	rs := in.Common().Signature().Results()
	var vals []pval
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, e.fresh(s, c))
	}
	e.setResult(s, in, vals...)
}

// step moves past the current instruction.
func (s *pstate) step() { s.top().idx++ }

// exec runs a state until it forks, ends or reaches a known one.
func (e *pathEng) exec(s *pstate) {
	for {
		f := s.top()
		if f.idx >= len(f.blk.Instrs) {
			return
		}
		in := f.blk.Instrs[f.idx]
		e.inst++
		if e.c.instr != nil {
			e.c.instr(e, s, in)
		}
		switch x := in.(type) {
		case *ssa.If:
			c := e.get(s, x.Cond)
			switch s.eval(c) {
			case 1:
				if !e.goTo(s, f.blk.Succs[0]) {
					return
				}
			case -1:
				if !e.goTo(s, f.blk.Succs[1]) {
					return
				}
			default:
				o := s.clone()
				if o.assume(c, false) && e.goTo(o, f.blk.Succs[1]) {
					e.work = append(e.work, o)
				}
				if !s.assume(c, true) || !e.goTo(s, f.blk.Succs[0]) {
					return
				}
			}
		case *ssa.Jump:
			if !e.goTo(s, f.blk.Succs[0]) {
				return
			}
		case *ssa.Return:
			var vals []pval
			for _, r := range x.Results {
				vals = append(vals, e.get(s, r))
			}
			if e.c.ret != nil {
				e.c.ret(e, s, x, vals)
			}
			if len(s.frames) == 1 {
				return
			}
			s.frames = s.frames[:len(s.frames)-1]
			if f.call != nil {
				e.setResult(s, f.call, vals...)
				s.step()
			}
			// deferred calls come back to the RunDefers instruction they started from
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if d.in != nil {
					if !e.call(s, d.in, d.val, d.args) {
						return
					}
					continue
				}
			}
			s.step()
		case *ssa.Panic:
			return
		case *ssa.Defer:
			n := 0
			for _, d := range f.defers {
				if d.in == x {
					n++
				}
			}
			if n < 1 {
				f.defers = append(f.defers, pdefer{x, e.args(s, &x.Call), e.get(s, x.Call.Value)})
			}
			s.step()
		case *ssa.Call:
			if e.over {
				return
			}
			if !e.call(s, x, e.get(s, x.Call.Value), e.args(s, &x.Call)) {
				return
			}
		case *ssa.Go:
			for _, a := range e.args(s, &x.Call) {
				e.havoc(s, a, map[int]bool{})
			}
			s.step()
		default:
			if v, ok := in.(ssa.Value); ok {
				r, done := pval{}, false
				if e.c.value != nil {
					r, done = e.c.value(e, s, v)
				}
				if !done {
					r = e.value(s, v)
				}
				f.env[v] = r
			} else if st, ok := in.(*ssa.Store); ok {
				e.store(s, e.get(s, st.Addr), e.get(s, st.Val), deref(st.Addr.Type()))
			}
			s.step()
		}
	}
}

func (e *pathEng) args(s *pstate, cc *ssa.CallCommon) []pval {
	var out []pval
	if cc.IsInvoke() {
		out = append(out, e.get(s, cc.Value))
	}
	for _, a := range cc.Args {
		out = append(out, e.get(s, a))
	}
	return out
}

// goTo enters a block; false when the state is already known there.
func (e *pathEng) goTo(s *pstate, to *ssa.BasicBlock) bool {
	f := s.top()
	from := f.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	n := 0
	var vals []pval
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.get(s, phi.Edges[pi]))
		n++
	}
	if e.c.edge != nil {
		e.c.edge(e, s, from, to)
	}
	for i := 0; i < n; i++ {
		f.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.pred, f.blk, f.idx = from, to, n
	if len(to.Preds) > 1 {
		if e.once != nil && len(e.work) == 0 && e.once(s) {
			e.states++
			return true
		}
		k := e.canon(s)
		if e.seen[k] {
			return false
		}
		e.seen[k] = true
		e.states++
		if e.states > e.limit || len(s.objs) > 2000 {
			e.over = true
			return false
		}
	}
	return true
}

// push starts an inlined call.
func (e *pathEng) push(s *pstate, in ssa.CallInstruction, fn *ssa.Function, args, free []pval) {
	nf := &pframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]pval{}, free: free, depth: len(s.frames)}
	nf.call, _ = in.(*ssa.Call)
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		} else {
			nf.env[p] = e.fresh(s, p)
		}
	}
	for len(nf.free) < len(fn.FreeVars) {
		nf.free = append(nf.free, pval{k: pAddr, loc: ploc{e.newObj(s, fn.FreeVars[len(nf.free)]), ""}})
	}
	e.funcs[fn] = true
	if e.c.enter != nil {
		e.c.enter(e, s, fn, args)
	}
	s.frames = append(s.frames, nf)
}

// call performs a call; false when this state was replaced or ended.
func (e *pathEng) call(s *pstate, in ssa.CallInstruction, val pval, args []pval) bool {
	_, deferred := in.(*ssa.Defer)
	adv := func(t *pstate) {
		if !deferred {
			t.step()
		}
	}
	cc := in.Common()
	if e.c.call != nil {
		if outs, ok := e.c.call(e, s, in, args); ok {
			for _, o := range outs {
				adv(o)
				e.work = append(e.work, o)
			}
			return false
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		e.builtin(s, in, b, args)
		adv(s)
		return true
	}
	type target struct {
		fn   *ssa.Function
		free []pval
	}
	var ts []target
	if fn := cc.StaticCallee(); fn != nil {
		var free []pval
		if val.k == pFunc {
			free = val.parts
		}
		ts = []target{{fn, free}}
	} else if cc.IsInvoke() {
		if r := s.resolve(args[0]); r.k == pSym && s.objs[r.id] != nil && s.objs[r.id].dyn != nil {
			if m := e.u.Prog.LookupMethod(s.objs[r.id].dyn, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				ts = []target{{m, nil}}
			}
		} else if r.k == pAddr && s.objs[r.loc.obj] != nil && r.loc.path == "" && s.objs[r.loc.obj].site != nil {
			if m := lookupMethod(e.u, s.objs[r.loc.obj].site.Type(), cc.Method); m != nil {
				ts = []target{{m, nil}}
			}
		}
	} else if r := s.resolve(val); r.k == pFunc {
		ts = []target{{r.fn, r.parts}}
	} else {
		for _, l := range e.u.Leaves(cc.Value) {
			switch x := l.(type) {
			case *ssa.Function:
				ts = append(ts, target{x, nil})
			case *ssa.MakeClosure:
				ts = append(ts, target{x.Fn.(*ssa.Function), nil})
			case *ssa.Const:
			default:
				ts = append(ts, target{})
			}
		}
		for _, t := range ts {
			if t.fn == nil {
				ts = nil
				break
			}
		}
	}
	inlined := false
	for _, t := range ts {
		fn := t.fn
		if fn.Origin() != nil && fn.Blocks == nil {
			continue
		}
		if len(fn.Blocks) == 0 || !inRepo(fn) && fn.Synthetic == "" || e.u.Generated(fn) || e.c.inline != nil && !e.c.inline(fn) {
			if e.u.alwaysExits(fn) {
				continue
			}
			o := s.clone()
			e.opaque(o, in, fn, args)
			adv(o)
			e.work = append(e.work, o)
			inlined = true
			continue
		}
		busy := false
		for _, f := range s.frames {
			if f.fn == fn {
				busy = true
			}
		}
		if busy || len(s.frames) > e.depth {
			e.cut[fn] = true
			if e.c.recurse != nil {
				if outs, ok := e.c.recurse(e, s.clone(), in, fn, args); ok {
					for _, o := range outs {
						adv(o)
						e.work = append(e.work, o)
					}
					inlined = true
					continue
				}
			}
			o := s.clone()
			e.opaque(o, in, fn, args)
			adv(o)
			e.work = append(e.work, o)
			inlined = true
			continue
		}
		o := s.clone()
		e.push(o, in, fn, args, t.free)
		e.work = append(e.work, o)
		inlined = true
	}
	if inlined {
		return false
	}
	if len(ts) > 0 || exits(e.u, cc) {
		return false // the process ends here
	}
	e.opaque(s, in, nil, args)
	adv(s)
	return true
}

func exits(u *Unit, cc *ssa.CallCommon) bool {
	if fn := cc.StaticCallee(); fn != nil && u.alwaysExits(fn) {
		return true
	}
	return isGlogExit(cc)
}

func lookupMethod(u *Unit, t types.Type, m *types.Func) *ssa.Function {
	ms := u.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return u.Prog.MethodValue(sel)
}

// opaque models a call whose body is not analysed.
func (e *pathEng) opaque(s *pstate, in ssa.CallInstruction, fn *ssa.Function, args []pval) {
	seen := map[int]bool{}
	n := callName(in)
	if !pureFormat(n) && !isLogCall(n) {
		for _, a := range args {
			e.havoc(s, a, seen)
			if a.k == pSym && (in.Common().IsInvoke() || fn != nil && inRepo(fn)) && !textSym(s, a) {
				for l := range s.mem {
					if l.obj == a.id {
						delete(s.mem, l)
					}
				}
			}
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	if n == "errors.Join" && len(args) == 1 && args[0].k == pAddr {
		v := e.fresh(s, c)
		for l, x := range s.mem {
			if l.obj == args[0].loc.obj && s.isNil(x) == -1 {
				s.objs[v.id].ne = []pval{{k: pNil}}
			}
		}
		e.setResult(s, in, v)
		return
	}
	if nn := errorMaker(n); nn || fn != nil && isErrFunc(fn) && e.u.alwaysError(fn) {
		v := e.nonNil(s, c)
		if nn {
			s.objs[v.id].tags = "made"
		}
		e.setResult(s, in, v)
		return
	}
	if n == "errors.Is" && len(args) == 2 {
		y := s.resolve(args[1])
		x := args[0]
		if s.equal(x, y) == 1 {
			e.setResult(s, in, pbool(true))
			return
		}
		if r := s.resolve(x); r.k == pNil || r.k == pGlobal {
			e.setResult(s, in, pbool(false))
			return
		}
		if x.k == pSym && y.k == pGlobal && !strings.Contains(s.objs[x.id].tags, "made") {
			e.setResult(s, in, pval{k: pCond, op: token.EQL, x: &x, y: &y})
			return
		}
	}
	e.unknownResult(s, in)
}

// textSym: a symbol for a text, which no callee can change.
func textSym(s *pstate, v pval) bool {
	o := s.objs[v.id]
	return o != nil && o.site != nil && isStringType(o.site.Type())
}

func isErrFunc(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 1 && isError(r.At(0).Type())
}

func errorMaker(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "google.golang.org/grpc.Errorf", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
		return true
	}
	return false
}

func (e *pathEng) builtin(s *pstate, in ssa.CallInstruction, b *ssa.Builtin, args []pval) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	switch b.Name() {
	case "append":
		s.top().env[c] = e.fresh(s, c)
	case "len", "cap":
		if r := s.resolve(args[0]); r.k == pNil {
			s.top().env[c] = pval{k: pConst, c: constant.MakeInt64(0)}
			return
		} else if r.k == pConst && r.c.Kind() == constant.String {
			s.top().env[c] = pval{k: pConst, c: constant.MakeInt64(int64(len(constant.StringVal(r.c))))}
			return
		}
		s.top().env[c] = pval{}
	default:
		if c.Type() != nil {
			s.top().env[c] = pval{}
		}
	}
}

func narrowing(from, to types.Type) bool {
	fb, _, ok1 := basicWidth(from)
	tb, _, ok2 := basicWidth(to)
	return ok1 && ok2 && tb < fb
}

// value evaluates an instruction that has no effect.
func (e *pathEng) value(s *pstate, v ssa.Value) pval {
	switch x := v.(type) {
	case *ssa.Alloc:
		id := e.newObj(s, x)
		s.objs[id].zero = true
		return pval{k: pAddr, loc: ploc{id, ""}}
	case *ssa.FieldAddr:
		b := s.resolve(e.get(s, x.X))
		switch b.k {
		case pAddr:
			if b.loc.obj < 0 {
				return pval{}
			}
			return pval{k: pAddr, loc: ploc{b.loc.obj, fmt.Sprintf("%s.%d", b.loc.path, x.Field)}}
		case pSym:
			return pval{k: pAddr, loc: ploc{b.id, fmt.Sprintf(".%d", x.Field)}}
		}
	case *ssa.IndexAddr:
		b := s.resolve(e.get(s, x.X))
		i := s.resolve(e.get(s, x.Index))
		if b.k == pAddr && b.loc.obj >= 0 && i.k == pConst {
			return pval{k: pAddr, loc: ploc{b.loc.obj, b.loc.path + "[" + i.c.ExactString() + "]"}}
		}
	case *ssa.Field:
		b := s.resolve(e.get(s, x.X))
		if b.k == pSym {
			return e.load(s, pval{k: pAddr, loc: ploc{b.id, fmt.Sprintf(".%d", x.Field)}}, x.Type(), x)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return e.load(s, s.resolve(e.get(s, x.X)), x.Type(), x)
		case token.NOT:
			return notP(s.resolve(e.get(s, x.X)))
		}
	case *ssa.BinOp:
		a, b := e.get(s, x.X), e.get(s, x.Y)
		switch x.Op {
		case token.EQL, token.NEQ:
			if a.k == pTop || b.k == pTop {
				return e.fresh(s, x)
			}
			if a.k == pCond || b.k == pCond {
				return e.fresh(s, x)
			}
			if r := s.equal(a, b); r != 0 {
				return pbool((r == 1) == (x.Op == token.EQL))
			}
			return pval{k: pCond, op: token.EQL, neg: x.Op == token.NEQ, x: &a, y: &b}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			a, b = s.resolve(a), s.resolve(b)
			if a.k == pConst && b.k == pConst {
				return pbool(constant.Compare(a.c, x.Op, b.c))
			}
			return e.fresh(s, x)
		case token.ADD, token.SUB:
			// small counters only, so that loops still reach a fixpoint
			a, b = s.resolve(a), s.resolve(b)
			if a.k == pConst && b.k == pConst && a.c.Kind() == constant.Int && b.c.Kind() == constant.Int {
				c := constant.BinaryOp(a.c, x.Op, b.c)
				if n, ok := constant.Int64Val(c); ok && n >= -2 && n <= e.fold {
					return pval{k: pConst, c: c}
				}
			}
		}
		return pval{}
	case *ssa.Extract:
		t := e.get(s, x.Tuple)
		if t.k == pTuple && x.Index < len(t.parts) {
			return t.parts[x.Index]
		}
	case *ssa.ChangeType:
		return e.get(s, x.X)
	case *ssa.ChangeInterface:
		return e.get(s, x.X)
	case *ssa.Convert:
		if !narrowing(x.X.Type(), x.Type()) {
			r := e.get(s, x.X)
			if r.k == pSym || r.k == pConst && types.Identical(x.Type().Underlying(), x.X.Type().Underlying()) {
				return r
			}
			if r.k == pConst && r.c.Kind() == constant.Int && isStringType(x.Type()) {
				if n, ok := constant.Int64Val(r.c); ok {
					return pval{k: pConst, c: constant.MakeString(string(rune(n)))}
				}
			}
			if r.k == pConst {
				return r
			}
		}
	case *ssa.MakeInterface:
		r := e.get(s, x.X)
		if r.k == pNil {
			n := e.nonNil(s, x)
			s.objs[n.id].dyn = x.X.Type()
			return n
		}
		if r.k == pSym {
			if o := s.objs[r.id]; o != nil && o.dyn == nil {
				o.dyn = x.X.Type()
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					o.ne = append(append([]pval(nil), o.ne...), pval{k: pNil})
				}
			}
		}
		if r.k == pTop {
			n := e.nonNil(s, x)
			s.objs[n.id].dyn = x.X.Type()
			return n
		}
		return r
	case *ssa.TypeAssert:
		r := e.get(s, x.X)
		if x.CommaOk {
			if r.k == pSym {
				return pval{k: pTuple, parts: []pval{r, {k: pCond, op: token.IDENT, x: &r, t: x.AssertedType}}}
			}
			if r.k == pAddr {
				return pval{k: pTuple, parts: []pval{r, e.fresh(s, x)}}
			}
			return pval{k: pTuple, parts: []pval{e.fresh(s, x), e.fresh(s, x)}}
		}
		return r
	case *ssa.Slice:
		r := s.resolve(e.get(s, x.X))
		if r.k == pAddr && x.Low == nil && x.High == nil {
			return r
		}
		return e.fresh(s, x)
	case *ssa.MakeClosure:
		f := pval{k: pFunc, fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.parts = append(f.parts, e.get(s, b))
		}
		return f
	case *ssa.Next:
		t := x.Type().(*types.Tuple)
		var ps []pval
		for i := 0; i < t.Len(); i++ {
			ps = append(ps, e.fresh(s, x))
		}
		return pval{k: pTuple, parts: ps}
	case *ssa.Lookup:
		if x.CommaOk {
			return pval{k: pTuple, parts: []pval{e.fresh(s, x), e.fresh(s, x)}}
		}
		return e.fresh(s, x)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return e.nonNil(s, v)
	}
	return e.fresh(s, v)
}

// isNilErr: is an error value nil here? 1 yes, -1 no, 0 unknown.
func (s *pstate) isNil(v pval) int { return s.equal(v, pval{k: pNil}) }
