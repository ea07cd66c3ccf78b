package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- edges and dominance

// Guard is a branch condition known to have the given outcome.
type Guard struct {
	Cond ssa.Value
	Val  bool
	If   *ssa.If
}

// edgeDominates reports whether every path from entry to b goes through the
// edge from->succ (which must be an actual edge).
func edgeDominates(from, succ, b *ssa.BasicBlock) bool {
	if !succ.Dominates(b) {
		return false
	}
	// succ must only be entered through from, apart from back edges out of succ's own region.
	n := 0
	for _, p := range succ.Preds {
		if p == from {
			n++
			continue
		}
		if !succ.Dominates(p) {
			return false
		}
	}
	return n == 1
}

// guardsOf lists the branch outcomes established on every path to b.
func guardsOf(b *ssa.BasicBlock) []Guard {
	var out []Guard
	for d := b; d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for i, s := range d.Succs {
			if edgeDominates(d, s, b) {
				out = append(out, expandGuard(ifi.Cond, i == 0, ifi)...)
			}
		}
	}
	return out
}

// expandGuard strips negations.
func expandGuard(c ssa.Value, val bool, ifi *ssa.If) []Guard {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, val = u.X, !val
	}
	out := []Guard{{c, val, ifi}}
	// a phi of booleans: if all edges but one are constants different from val, the remaining one holds.
	if p, ok := c.(*ssa.Phi); ok {
		var rest []ssa.Value
		var restBlk *ssa.BasicBlock
		for i, e := range p.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != val {
				continue
			}
			rest = append(rest, e)
			restBlk = p.Block().Preds[i]
		}
		if len(rest) == 1 {
			out = append(out, expandGuard(rest[0], val, ifi)...)
			out = append(out, guardsOf(restBlk)...)
		}
	}
	return out
}

// reach is the set of blocks reachable from b (including b only if on a cycle, unless incl).
func reach(b *ssa.BasicBlock, incl bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	if incl {
		st = append(st, b)
	} else {
		st = append(st, b.Succs...)
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return seen
}

// canReach reports whether control can flow from just after a to b.
func canReach(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	return reach(a.Block(), false)[b.Block()]
}

// dominatesInstr reports whether a executes before b on every path to b.
func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// inCycle reports whether b can reach itself.
func inCycle(b *ssa.BasicBlock) bool { return reach(b, false)[b] }

// ---------------------------------------------------------------- value tracing

// strip removes value-preserving wrappers.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			// only string<->named string, []byte<->string and the like keep the content
			if sameContent(x.X.Type(), x.Type()) {
				v = x.X
				continue
			}
			return v
		default:
			return v
		}
	}
}

func sameContent(a, b types.Type) bool {
	return isStringOrBytes(a) && isStringOrBytes(b)
}

func isStringOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		e, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (e.Kind() == types.Byte)
	}
	return false
}

func isStringType(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsString != 0
}

// cellStores returns the stores into a local cell (Alloc, or the Alloc behind a
// FreeVar), or nil,false when its address escapes otherwise.
func cellOf(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		return freeVarCell(x)
	}
	return nil
}

// freeVarCell finds the variable a closure captured by reference.
func freeVarCell(fv *ssa.FreeVar) *ssa.Alloc {
	b := freeVarBinding(fv)
	switch x := b.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		return freeVarCell(x)
	}
	return nil
}

func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if idx < 0 || fn.Parent() == nil {
		return nil
	}
	var found ssa.Value
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if found != nil && found != mc.Bindings[idx] {
					return nil
				}
				found = mc.Bindings[idx]
			}
		}
	}
	return found
}

// storesTo lists stores to a local cell in its function and all closures that capture it.
func storesTo(cell *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if bd == addr && i < len(fn.FreeVars) {
						walk(fn.FreeVars[i])
					}
				}
			}
		}
	}
	walk(cell)
	return out
}

// cellSimple reports that the cell's address is used only for loads, stores and captures.
func cellSimple(cell *ssa.Alloc) bool {
	ok := true
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Val == addr {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if bd == addr && i < len(fn.FreeVars) {
						walk(fn.FreeVars[i])
					}
				}
			default:
				ok = false
			}
		}
	}
	walk(cell)
	return ok
}

// Tracer walks values backwards across phis, conversions, cells, parameters,
// results and struct fields, calling leaf for each value it cannot expand.
type Tracer struct {
	u *Unit
	// Stop, if set, makes a value a leaf.
	Stop func(v ssa.Value) bool
	// Params: follow parameters to call sites in the repository.
	Params bool
	// Results: follow results of repository functions.
	Results bool
	// Fields: follow loads of fields of locally built structs to the stores.
	Fields bool
	// Derive: also follow operands of value-computing instructions (calls'
	// arguments, binary operations, slicing, ...), for dependence questions.
	Derive bool
	Leaf   func(v ssa.Value)
	seen   map[ssa.Value]bool
}

func (t *Tracer) Trace(v ssa.Value) {
	if t.seen == nil {
		t.seen = map[ssa.Value]bool{}
	}
	if v == nil || t.seen[v] {
		return
	}
	t.seen[v] = true
	if t.Stop != nil && t.Stop(v) {
		t.Leaf(v)
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.Trace(e)
		}
	case *ssa.ChangeType:
		t.Trace(x.X)
	case *ssa.ChangeInterface:
		t.Trace(x.X)
	case *ssa.MakeInterface:
		t.Trace(x.X)
	case *ssa.Convert:
		t.Trace(x.X)
	case *ssa.TypeAssert:
		t.Trace(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && t.call(c, x.Index) {
			return
		}
		if t.Derive {
			t.Trace(x.Tuple)
			return
		}
		t.Leaf(v)
	case *ssa.Call:
		if t.call(x, 0) {
			return
		}
		if t.Derive {
			t.Leaf(v)
			if !x.Call.IsInvoke() {
				for _, a := range x.Call.Args {
					t.Trace(a)
				}
				if x.Call.StaticCallee() == nil {
					t.Trace(x.Call.Value)
				}
			} else {
				t.Trace(x.Call.Value)
				for _, a := range x.Call.Args {
					t.Trace(a)
				}
			}
			return
		}
		t.Leaf(v)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
				ss := storesTo(cell)
				for _, s := range ss {
					t.Trace(s.Val)
				}
				if len(ss) > 0 {
					return
				}
			}
			if t.Fields {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && t.field(fa) {
					return
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok && t.elem(ia) {
					return
				}
			}
			if t.Derive {
				t.Leaf(v)
				t.Trace(x.X)
				return
			}
			t.Leaf(v)
			return
		}
		if t.Derive {
			t.Trace(x.X)
			return
		}
		t.Leaf(v)
	case *ssa.Parameter:
		if t.Params && t.param(x) {
			return
		}
		t.Leaf(v)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			t.Trace(b)
			return
		}
		t.Leaf(v)
	default:
		if t.Derive {
			t.Leaf(v)
			if in, ok := v.(ssa.Instruction); ok {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op != nil && *op != nil {
						t.Trace(*op)
					}
				}
				// variadic slices and local aggregates: what was stored into them
				if a, ok := v.(*ssa.Alloc); ok {
					t.storedInto(a)
				}
			}
			return
		}
		t.Leaf(v)
	}
}

func (t *Tracer) storedInto(a ssa.Value) {
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		switch y := in.(type) {
		case *ssa.Store:
			if y.Addr == a {
				t.Trace(y.Val)
			}
		case *ssa.FieldAddr:
			t.storedInto(y)
		case *ssa.IndexAddr:
			t.storedInto(y)
		}
	}
}

func (t *Tracer) call(c *ssa.Call, idx int) bool {
	if !t.Results {
		return false
	}
	fn := c.Call.StaticCallee()
	if fn == nil {
		if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
			fn = mc.Fn.(*ssa.Function)
		}
	}
	if fn == nil || fn.Blocks == nil || !inRepo(fn) {
		return false
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			t.Trace(r.Results[idx])
		}
	}
	return true
}

func (t *Tracer) param(p *ssa.Parameter) bool {
	fn := p.Parent()
	idx := paramIndex(p)
	sites := t.u.callSites(fn)
	if len(sites) == 0 {
		return false
	}
	if ob := fn.Object(); ob != nil && ob.Exported() && exportedRecv(fn) {
		t.Leaf(p) // also callable from outside
	}
	for _, s := range sites {
		a := siteArg(s, fn, idx)
		if a == nil {
			t.Leaf(p)
			continue
		}
		t.Trace(a)
	}
	return true
}

func exportedRecv(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil {
		return true
	}
	n := namedOf(fn.Signature.Recv().Type())
	return n == nil || n.Obj().Exported()
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func siteArg(s ssa.CallInstruction, fn *ssa.Function, idx int) ssa.Value {
	c := s.Common()
	if c.IsInvoke() {
		if idx == 0 {
			return c.Value
		}
		idx--
	}
	if idx < len(c.Args) {
		return c.Args[idx]
	}
	return nil
}

func (t *Tracer) field(fa *ssa.FieldAddr) bool {
	base := fa.X
	// loads through a local struct pointer: all stores to the same field of the same base
	a := resolveLocal(base)
	if a == nil {
		return false
	}
	n := 0
	for _, in := range *a.Referrers() {
		f2, ok := in.(*ssa.FieldAddr)
		if !ok || f2.Field != fa.Field {
			continue
		}
		for _, in2 := range *f2.Referrers() {
			if s, ok := in2.(*ssa.Store); ok && s.Addr == f2 {
				t.Trace(s.Val)
				n++
			}
		}
	}
	return n > 0
}

func (t *Tracer) elem(ia *ssa.IndexAddr) bool {
	a, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, in := range *a.Referrers() {
		if f2, ok := in.(*ssa.IndexAddr); ok {
			for _, in2 := range *f2.Referrers() {
				if s, ok := in2.(*ssa.Store); ok && s.Addr == f2 {
					t.Trace(s.Val)
					n++
				}
			}
		}
	}
	return n > 0
}

// resolveLocal finds the Alloc a pointer value denotes, when unique.
func resolveLocal(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			b := freeVarBinding(x)
			if b == nil {
				return nil
			}
			v = b
		case *ssa.UnOp:
			cell := cellOf(x.X)
			if cell == nil || !cellSimple(cell) {
				return nil
			}
			ss := storesTo(cell)
			if len(ss) != 1 {
				return nil
			}
			v = ss[0].Val
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// callSites are the call instructions that may call fn: static ones, calls of
// closures of fn, and (when fn is used as a value) calls of function values of
// the identical signature in the same package.
func (u *Unit) callSites(fn *ssa.Function) []ssa.CallInstruction {
	out := append([]ssa.CallInstruction(nil), u.callers[fn]...)
	if fn.Parent() != nil || len(u.refs[fn]) > 0 {
		out = append(out, u.dyn().sites(fn)...)
	}
	return out
}

type dynEdges struct {
	u *Unit
	// calls of function values per package
	calls map[string][]ssa.CallInstruction
}

func (u *Unit) dyn() *dynEdges {
	if u.edges == nil {
		u.edges = &dynEdges{u: u, calls: map[string][]ssa.CallInstruction{}}
		for _, f := range u.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
						continue
					}
					if _, ok := c.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					u.edges.calls[fnPkg(f)] = append(u.edges.calls[fnPkg(f)], c)
				}
			}
		}
	}
	return u.edges
}

func (d *dynEdges) sites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, c := range d.calls[fnPkg(fn)] {
		sig, ok := c.Common().Value.Type().Underlying().(*types.Signature)
		if !ok || !types.Identical(dropRecv(sig), dropRecv(fn.Signature)) {
			continue
		}
		out = append(out, c)
	}
	return out
}

func dropRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// Leaves collects the origins of v.
func (u *Unit) Leaves(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	t := &Tracer{u: u, Params: true, Results: true, Fields: true, Leaf: func(v ssa.Value) { out = append(out, v) }}
	t.Trace(v)
	return out
}

// LocalLeaves collects the origins of v without leaving its function through parameters.
func (u *Unit) LocalLeaves(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	t := &Tracer{u: u, Results: true, Fields: true, Leaf: func(v ssa.Value) { out = append(out, v) }}
	t.Trace(v)
	return out
}

// DependsOn reports whether any value satisfying p takes part in computing v.
func (u *Unit) DependsOn(v ssa.Value, p func(ssa.Value) bool) bool {
	found := false
	t := &Tracer{u: u, Results: true, Fields: true, Derive: true,
		Stop: func(x ssa.Value) bool {
			if p(x) {
				found = true
			}
			return found
		}, Leaf: func(v ssa.Value) {}}
	t.Trace(v)
	return found
}

// returnsOf lists the return instructions of fn.
func returnsOf(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if fn.Recover == b {
			continue
		}
		if len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

func errResultIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isError(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// reachableFrom is the set of repository functions reachable from the roots
// through static calls, closures created, and interface calls to repository methods.
func (u *Unit) reachableFrom(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	st = append(st, roots...)
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f == nil || seen[f] || f.Blocks == nil {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						st = append(st, fn)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					st = append(st, u.implementations(c.Common())...)
				}
			}
		}
	}
	return seen
}

// implementations are the repository methods an interface call may reach.
func (u *Unit) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range u.Funcs {
		if f.Signature.Recv() == nil || f.Name() != c.Method.Name() || f.Object() == nil {
			continue
		}
		rt := f.Signature.Recv().Type()
		if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
			out = append(out, f)
		}
	}
	return out
}
