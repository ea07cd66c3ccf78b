package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Freedom from panics (N01-N05): every instruction that can panic, in every
// function that the entry points reach, is an obligation. Bounds are decided by
// difference constraints over SSA (guards, loop induction, lengths, results of
// searches and of regular expressions), pointers by the ways a value is made and
// the guards it passes, assertions by dynamic types.

// tm is a term of a difference constraint: zero, an integer value, or a length.
type tm struct {
	k byte // 'z', 'v', 'n'
	v ssa.Value
}

var zeroTm = tm{k: 'z'}

type pfact struct {
	k    byte // 'd': p - q <= c; 'n': v is not nil; 'i': v is nil; 't': comma-ok or boolean v is true; 'y': dynamic type of v is typ
	p, q tm
	c    int64
	v    ssa.Value
	typ  types.Type
}

type pz struct {
	u     *Unit
	r     *Report
	prop  string
	fns   []*ssa.Function
	in    map[*ssa.Function]bool
	roots map[*ssa.Function]bool
	sites map[*ssa.Function][]ssa.CallInstruction
	// functions used as values that leave the repository's code
	values      map[*ssa.Function]bool
	facts_      map[*ssa.BasicBlock][]pfact
	canon       map[ssa.Value]ssa.Value
	canond      map[*ssa.Function]bool
	stores      map[string][]*ssa.Store // by field
	allocs      map[string][]*ssa.Alloc // by struct type
	elems       map[string][]ssa.Instruction
	mapup       map[string][]*ssa.MapUpdate
	reachC      map[*ssa.Function]map[*ssa.Function]bool
	nnBusy      map[string]bool
	nnDone      map[string]bool
	why         string
	poppedLists bool // see popped
	reflected   bool // results of reflective calls are used
	steps       int
	exempt      func(z *pz, in ssa.Instruction) string
	extraCall   func(z *pz, in ssa.Instruction, c ssa.CallInstruction)
}

func newPZ(u *Unit, r *Report, prop string, roots []*ssa.Function) *pz {
	z := &pz{u: u, r: r, prop: prop, in: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, sites: map[*ssa.Function][]ssa.CallInstruction{},
		values: map[*ssa.Function]bool{}, facts_: map[*ssa.BasicBlock][]pfact{}, canon: map[ssa.Value]ssa.Value{}, canond: map[*ssa.Function]bool{},
		stores: map[string][]*ssa.Store{}, allocs: map[string][]*ssa.Alloc{}, elems: map[string][]ssa.Instruction{}, mapup: map[string][]*ssa.MapUpdate{},
		reachC: map[*ssa.Function]map[*ssa.Function]bool{}, nnBusy: map[string]bool{}, nnDone: map[string]bool{}}
	for _, f := range roots {
		z.roots[f] = true
	}
	for f := range u.reachableFrom(roots...) {
		if len(f.Blocks) > 0 && inRepo(f) {
			z.in[f] = true
			z.fns = append(z.fns, f)
		}
	}
	sort.Slice(z.fns, func(i, j int) bool { return z.fns[i].String() < z.fns[j].String() })
	for _, f := range u.Funcs {
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				z.indexInstr(f, in)
			}
		}
	}
	for _, p := range u.Prog.AllPackages() {
		if _, ok := relPkg(p.Pkg); !ok {
			continue
		}
		if f := p.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					z.indexInstr(f, in)
				}
			}
		}
	}
	return z
}

func (z *pz) indexInstr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			z.stores[fieldKey(fa)] = append(z.stores[fieldKey(fa)], x)
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			k := types.TypeString(deref(ia.Type()), nil)
			z.elems[k] = append(z.elems[k], x)
		}
		if _, ok := x.Addr.(*ssa.FieldAddr); !ok {
			// a whole struct is stored: its fields come from elsewhere
			_ = ok
		}
	case *ssa.Alloc:
		k := types.TypeString(deref(x.Type()), nil)
		z.allocs[k] = append(z.allocs[k], x)
	case *ssa.MapUpdate:
		k := types.TypeString(x.Map.Type().Underlying(), nil)
		z.mapup[k] = append(z.mapup[k], x)
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			for _, g := range z.u.implementations(cc) {
				z.sites[g] = append(z.sites[g], c)
			}
		} else if g := cc.StaticCallee(); g != nil {
			z.sites[g] = append(z.sites[g], c)
		}
	}
	var ops [16]*ssa.Value
	c, isCall := in.(ssa.CallInstruction)
	for _, op := range in.Operands(ops[:0]) {
		if op == nil || *op == nil {
			continue
		}
		g, ok := (*op).(*ssa.Function)
		if !ok {
			continue
		}
		if isCall && !c.Common().IsInvoke() && c.Common().Value == ssa.Value(g) {
			continue
		}
		if !z.values[g] {
			z.values[g] = true
			z.sites[g] = append(z.sites[g], z.u.dyn().sites(g)...)
		}
	}
}

func fieldKey(fa *ssa.FieldAddr) string {
	return types.TypeString(deref(fa.X.Type()), nil) + fmt.Sprintf("#%d", fa.Field)
}

// ---------------------------------------------------------------- canonical values

// norm gives one representative to loads of the same place with nothing written between.
func (z *pz) norm(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	in, ok := v.(ssa.Instruction)
	if !ok || in.Parent() == nil {
		if fv, ok := v.(*ssa.FreeVar); ok {
			if b := freeVarBinding(fv); b != nil {
				if _, cell := b.(*ssa.Alloc); !cell {
					return z.norm(b)
				}
			}
		}
		return v
	}
	z.canonFn(in.Parent())
	if c, ok := z.canon[v]; ok {
		return c
	}
	return v
}

func (z *pz) canonFn(fn *ssa.Function) {
	if z.canond[fn] {
		return
	}
	z.canond[fn] = true
	groups := map[string][]*ssa.UnOp{}
	calls := map[string][]*ssa.Call{}
	stored := map[*ssa.Alloc][]*ssa.Store{}
	for _, b := range fn.DomPreorder() {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					stored[al] = append(stored[al], x)
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				k, ok := z.addrKey(x.X)
				if !ok {
					continue
				}
				for _, y := range groups[k] {
					if dominatesInstr(y, x) && !z.writtenBetween(y, x, x.X) {
						if c, ok := z.canon[y]; ok {
							z.canon[x] = c
						} else {
							z.canon[x] = y
						}
						break
					}
				}
				groups[k] = append(groups[k], x)
				if al, ok := x.X.(*ssa.Alloc); ok && cellSimple2(al) {
					// what was stored just before
					for _, st := range stored[al] {
						if dominatesInstr(st, x) && !z.writtenBetween(st, x, x.X) {
							z.canon[x] = z.norm(st.Val)
						}
					}
				}
			case *ssa.Field:
				k, ok := z.pureKey(x)
				if !ok {
					continue
				}
				for _, y := range groups["F"+k] {
					_ = y
				}
			case *ssa.Call:
				// getters of generated messages
				if x.Call.IsInvoke() && len(x.Call.Args) == 0 && pureInvoke[x.Call.Method.Name()] {
					rk, _ := z.pureKey(x.Call.Value)
					k := "invoke " + x.Call.Method.FullName() + "(" + rk
					for _, y := range calls[k] {
						if dominatesInstr(y, x) {
							if c, ok := z.canon[y]; ok {
								z.canon[x] = c
							} else {
								z.canon[x] = y
							}
							break
						}
					}
					calls[k] = append(calls[k], x)
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil {
					continue
				}
				reads, reader := z.reader(g)
				if !z.pureGetter(g) && !reader {
					continue
				}
				rk, ok := z.pureKey(x.Call.Args[0])
				if !ok {
					continue
				}
				k := g.String() + "(" + rk
				for _, y := range calls[k] {
					if dominatesInstr(y, x) && (z.pureGetter(g) && !z.anyWrite(y, x) || reader && !z.readWritten(reads, y, x)) {
						if c, ok := z.canon[y]; ok {
							z.canon[x] = c
						} else {
							z.canon[x] = y
						}
						break
					}
				}
				calls[k] = append(calls[k], x)
			}
		}
	}
}

// pureInvoke: methods of descriptions and values of protobuf that only read.
var pureInvoke = map[string]bool{"Len": true, "Descriptor": true, "Fields": true, "MapKey": true, "MapValue": true, "IsMap": true, "Elem": true, "IsList": true, "Kind": true, "ProtoReflect": true}

// pureGetter: a generated accessor, which only reads.
func (z *pz) pureGetter(g *ssa.Function) bool {
	return strings.HasSuffix(z.u.FileOf(g.Pos()), ".pb.go") && strings.HasPrefix(g.Name(), "Get") && len(g.Params) == 1
}

func (z *pz) pureKey(v ssa.Value) (string, bool) {
	for {
		if c, ok := v.(*ssa.ChangeType); ok {
			v = c.X
			continue
		}
		break
	}
	if c, ok := z.canon[v]; ok {
		v = c
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "c" + x.String(), true
	case *ssa.Global:
		return "g" + x.String(), true
	}
	return fmt.Sprintf("%p", v), true
}

func (z *pz) addrKey(a ssa.Value) (string, bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if k, ok := z.addrKey(x.X); ok && isAddr(x.X) {
			return k + fmt.Sprintf(".%d", x.Field), true
		}
		k, ok := z.pureKey(x.X)
		return k + fmt.Sprintf(".%d", x.Field), ok
	case *ssa.IndexAddr:
		k, ok := z.pureKey(x.X)
		i, ok2 := z.pureKey(x.Index)
		return k + "[" + i + "]", ok && ok2
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.Parameter:
		return fmt.Sprintf("%p", a), true
	}
	return fmt.Sprintf("%p", a), true
}

func isAddr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	}
	return false
}

// between lists the instructions that can run after a and before b.
func between(a, b ssa.Instruction, f func(ssa.Instruction) bool) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) && !inCycle(a.Block()) {
		for _, in := range a.Block().Instrs[instrIndex(a)+1 : instrIndex(b)] {
			if f(in) {
				return true
			}
		}
		return false
	}
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		// within a loop the block runs again, but then a runs again before b
		for _, in := range a.Block().Instrs[instrIndex(a)+1 : instrIndex(b)] {
			if f(in) {
				return true
			}
		}
		return false
	}
	// blocks on a way from a to b that does not pass a again
	fwd := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if fwd[x] || x == a.Block() {
			continue
		}
		fwd[x] = true
		st = append(st, x.Succs...)
	}
	back := map[*ssa.BasicBlock]bool{}
	st = append(st[:0], b.Block().Preds...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if back[x] || x == a.Block() {
			continue
		}
		back[x] = true
		st = append(st, x.Preds...)
	}
	for _, in := range a.Block().Instrs[instrIndex(a)+1:] {
		if f(in) {
			return true
		}
	}
	for x := range fwd {
		if !back[x] || x == b.Block() && !back[x] {
			continue
		}
		for _, in := range x.Instrs {
			if f(in) {
				return true
			}
		}
	}
	if !back[b.Block()] {
		for _, in := range b.Block().Instrs[:instrIndex(b)] {
			if f(in) {
				return true
			}
		}
	}
	return false
}

func (z *pz) writtenBetween(a, b ssa.Instruction, addr ssa.Value) bool {
	return between(a, b, func(in ssa.Instruction) bool { return z.mayWrite(in, addr) })
}

func (z *pz) anyWrite(a, b ssa.Instruction) bool {
	return between(a, b, func(in ssa.Instruction) bool {
		switch in.(type) {
		case *ssa.Store, *ssa.MapUpdate:
			return true
		}
		return false
	})
}

// mayWrite: can the instruction change what is at addr?
func (z *pz) mayWrite(in ssa.Instruction, addr ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return z.mayAlias(x.Addr, addr)
	case ssa.CallInstruction:
		if _, ok := x.Common().Value.(*ssa.Builtin); ok {
			return x.Common().Value.(*ssa.Builtin).Name() == "copy"
		}
		if al := rootAlloc(addr); al != nil && cellSimple2(al) {
			// a local variable nobody else can reach: only closures change it
			if !captured(al) {
				return false
			}
		}
		var key string
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			key = fieldKey(fa)
		} else if g, ok := addr.(*ssa.Global); ok {
			return z.u.onlyStore(g) == nil
		} else if cell := cellOf(addr); cell != nil {
			for _, st := range storesTo(cell) {
				if st.Parent() != in.Parent() && z.callReaches(x, st.Parent()) {
					return true
				}
			}
			return !cellSimple(cell)
		} else if ia, ok := addr.(*ssa.IndexAddr); ok {
			for _, e := range z.elems[types.TypeString(deref(ia.Type()), nil)] {
				if z.callReaches(x, e.Parent()) {
					return true
				}
			}
			return false
		} else {
			return true
		}
		for _, st := range z.stores[key] {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && st.Parent() != in.Parent() {
				if al, ok := fa.X.(*ssa.Alloc); ok && al.Parent() == st.Parent() {
					continue // sets up a value of its own
				}
			}
			if z.callReaches(x, st.Parent()) {
				return true
			}
		}
		return false
	}
	return false
}

func rootAlloc(a ssa.Value) *ssa.Alloc {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.Alloc:
			return x
		}
		return nil
	}
}

// cellSimple2: the address is used for loads, stores and field accesses only.
func cellSimple2(al *ssa.Alloc) bool {
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Val == v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !walk(x) {
					return false
				}
			case *ssa.MakeClosure:
			default:
				return false
			}
		}
		return true
	}
	return walk(al)
}

func captured(al *ssa.Alloc) bool {
	for _, in := range *al.Referrers() {
		if _, ok := in.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func (z *pz) mayAlias(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fieldKey(fa) == fieldKey(fb)
	}
	if ok1 != ok2 {
		// a whole struct stored over its field
		if ok2 {
			return types.Identical(deref(a.Type()), deref(fb.X.Type()))
		}
		return types.Identical(deref(b.Type()), deref(fa.X.Type())) || types.Identical(deref(a.Type()), deref(b.Type())) && cellOf(b) == nil && !isAddr(b)
	}
	ca, cb := cellOf(a), cellOf(b)
	if ca != nil && cb != nil {
		return ca == cb
	}
	if ca != nil && cellSimple(ca) || cb != nil && cellSimple(cb) {
		return false
	}
	return types.Identical(deref(a.Type()), deref(b.Type()))
}

func (z *pz) callReaches(c ssa.CallInstruction, target *ssa.Function) bool {
	var start []*ssa.Function
	cc := c.Common()
	if cc.IsInvoke() {
		start = z.u.implementations(cc)
	} else if g := cc.StaticCallee(); g != nil {
		start = append(start, g)
	} else {
		start = append(start, target) // an unknown function value
	}
	for _, a := range cc.Args {
		switch x := a.(type) {
		case *ssa.MakeClosure:
			start = append(start, x.Fn.(*ssa.Function))
		case *ssa.Function:
			start = append(start, x)
		}
	}
	for _, s := range start {
		if s == target {
			return true
		}
		if z.reachC[s] == nil {
			z.reachC[s] = z.u.reachableFrom(s)
		}
		if z.reachC[s][target] {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- linear terms

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// lin writes an integer as term plus constant. Sums are those of integers that
// stay far below overflow, as lengths and offsets do.
func (z *pz) lin(v ssa.Value) (tm, int64) {
	v = z.norm(v)
	if n, ok := constInt(v); ok {
		return zeroTm, n
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if n, ok := constInt(x.Y); ok {
				t, k := z.lin(x.X)
				if x.Op == token.ADD {
					return t, k + n
				}
				return t, k - n
			}
			if n, ok := constInt(x.X); ok && x.Op == token.ADD {
				t, k := z.lin(x.Y)
				return t, k + n
			}
		}
	case *ssa.Convert:
		if isIntType(x.X.Type()) && isIntType(x.Type()) && z.widens(x.X.Type(), x.Type()) {
			return z.lin(x.X)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return z.length(x.Call.Args[0])
		}
		if g := x.Call.StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) == 1 && g.Signature.Results().Len() == 1 {
			if rs := returnsOf(g); len(rs) == 1 {
				if p, k, ok := z.simpleResult(rs[0].Results[0], x, 4); ok {
					return p, k
				}
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if st := z.u.onlyStore(g); st != nil {
				if n, ok := constInt(st.Val); ok {
					return zeroTm, n
				}
			}
		}
	}
	return tm{'v', v}, 0
}

// simpleResult: what a function returns is a conversion of a parameter, or that and a constant.
func (z *pz) simpleResult(v ssa.Value, c *ssa.Call, depth int) (tm, int64, bool) {
	if depth == 0 {
		return tm{}, 0, false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if i := paramIndex(x); i >= 0 && i < len(c.Call.Args) {
			p, k := z.lin(c.Call.Args[i])
			return p, k, true
		}
	case *ssa.ChangeType:
		return z.simpleResult(x.X, c, depth-1)
	case *ssa.Convert:
		if isIntType(x.X.Type()) && isIntType(x.Type()) && z.widens(x.X.Type(), x.Type()) {
			return z.simpleResult(x.X, c, depth-1)
		}
	case *ssa.BinOp:
		if n, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			p, k, ok := z.simpleResult(x.X, c, depth-1)
			if x.Op == token.SUB {
				n = -n
			}
			return p, k + n, ok
		}
	}
	return tm{}, 0, false
}

func (z *pz) widens(a, b types.Type) bool {
	sz := types.SizesFor("gc", "amd64")
	ua := a.Underlying().(*types.Basic).Info()&types.IsUnsigned != 0
	ub := b.Underlying().(*types.Basic).Info()&types.IsUnsigned != 0
	if ua == ub {
		return sz.Sizeof(b) >= sz.Sizeof(a)
	}
	return ua && sz.Sizeof(b) > sz.Sizeof(a)
}

func (z *pz) length(v ssa.Value) (tm, int64) {
	v = z.norm(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroTm, 0
		}
		if x.Value.Kind() == constant.String {
			return zeroTm, int64(len(constant.StringVal(x.Value)))
		}
	case *ssa.Convert:
		if sameContent(x.X.Type(), x.Type()) {
			return z.length(x.X)
		}
	case *ssa.MakeSlice:
		return z.lin(x.Len)
	case *ssa.Slice:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
				return zeroTm, at.Len()
			}
		}
		lo, loOK := int64(0), true
		if x.Low != nil {
			lo, loOK = constInt(x.Low)
		}
		if loOK {
			if x.High == nil {
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					t, k := z.length(x.X)
					return t, k - lo
				}
			} else {
				t, k := z.lin(x.High)
				return t, k - lo
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			if t, k := z.length(x.Call.Args[1]); t == zeroTm {
				t2, k2 := z.length(x.Call.Args[0])
				return t2, k + k2
			} else if t2, k2 := z.length(x.Call.Args[0]); t2 == zeroTm {
				return t, k + k2 // a copy
			}
		}
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return zeroTm, at.Len()
		}
	}
	if at, ok := v.Type().Underlying().(*types.Array); ok {
		return zeroTm, at.Len()
	}
	return tm{'n', v}, 0
}

// ---------------------------------------------------------------- facts from guards

func (z *pz) facts(b *ssa.BasicBlock) []pfact {
	if f, ok := z.facts_[b]; ok {
		return f
	}
	z.facts_[b] = nil
	var out []pfact
	for _, g := range guardsOf(b) {
		out = append(out, z.condFacts(g.Cond, g.Val, 0)...)
	}
	// a place whose value was used as an index, dereferenced and so on before is not
	// taken as checked: every obligation is decided by itself
	z.facts_[b] = out
	return out
}

// edgeFacts are those of the edge from p to b.
func (z *pz) edgeFacts(p, b *ssa.BasicBlock) []pfact {
	out := append([]pfact(nil), z.facts(p)...)
	if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		for i, s := range p.Succs {
			if s == b {
				for _, g := range expandGuard(ifi.Cond, i == 0, ifi) {
					out = append(out, z.condFacts(g.Cond, g.Val, 0)...)
				}
			}
		}
	}
	return out
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func (z *pz) condFacts(c ssa.Value, val bool, depth int) []pfact {
	var out []pfact
	if depth > 3 {
		return nil
	}
	dif := func(p tm, pk int64, q tm, qk int64, k int64) { // (p+pk) - (q+qk) <= k
		out = append(out, pfact{k: 'd', p: p, q: q, c: k - pk + qk})
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return z.condFacts(x.X, !val, depth)
		}
	case *ssa.BinOp:
		op := x.Op
		if !val {
			op = negOp(op)
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		default:
			return nil
		}
		switch {
		case isIntType(x.X.Type()):
			p, pk := z.lin(x.X)
			q, qk := z.lin(x.Y)
			switch op {
			case token.LSS:
				dif(p, pk, q, qk, -1)
			case token.LEQ:
				dif(p, pk, q, qk, 0)
			case token.GTR:
				dif(q, qk, p, pk, -1)
			case token.GEQ:
				dif(q, qk, p, pk, 0)
			case token.EQL:
				dif(p, pk, q, qk, 0)
				dif(q, qk, p, pk, 0)
			case token.NEQ:
				out = append(out, pfact{k: 'x', p: p, q: q, c: qk - pk}) // p - q is not c
				// x != m where x is known to be at least m
				if q == zeroTm && z.minOf(p) == qk-pk {
					dif(zeroTm, 0, p, 0, -(qk-pk)-1)
				}
				if p == zeroTm && z.minOf(q) == pk-qk {
					dif(zeroTm, 0, q, 0, -(pk-qk)-1)
				}
			}
		case isStringType(x.X.Type()):
			a, b := x.X, x.Y
			if _, ok := a.(*ssa.Const); ok {
				a, b = b, a
			}
			if k, ok := b.(*ssa.Const); ok && k.Value != nil {
				n := int64(len(constant.StringVal(k.Value)))
				p, pk := z.length(a)
				if op == token.EQL {
					dif(p, pk, zeroTm, n, 0)
					dif(zeroTm, n, p, pk, 0)
				}
				if op == token.NEQ && n == 0 {
					dif(zeroTm, 1, p, pk, 0)
				}
			}
		default:
			a, b := x.X, x.Y
			if isNilConst(a) {
				a, b = b, a
			}
			if isNilConst(b) && (op == token.EQL || op == token.NEQ) {
				k := byte('i')
				if op == token.NEQ {
					k = 'n'
				}
				out = append(out, pfact{k: k, v: z.norm(a)})
				if k == 'i' {
					// what a helper's nil error says about its arguments
					out = append(out, z.calleeFacts(a, true, depth)...)
				} else {
					out = append(out, z.calleeFacts(a, false, depth)...)
				}
			}
			// equality of reflect kinds and the like
		}
	case *ssa.Extract:
		if val {
			out = append(out, pfact{k: 't', v: x})
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
				out = append(out, pfact{k: 'y', v: z.norm(ta.X), typ: ta.AssertedType}, pfact{k: 'n', v: z.norm(ta.X)})
			}
		}
		out = append(out, z.calleeFacts(x, val, depth)...)
	case *ssa.Call:
		n := calleeName(&x.Call)
		if val && (n == "strings.HasPrefix" || n == "strings.HasSuffix" || n == "bytes.HasPrefix" || n == "bytes.HasSuffix" || n == "strings.Contains") {
			p, pk := z.length(x.Call.Args[0])
			q, qk := z.length(x.Call.Args[1])
			dif(q, qk, p, pk, 0)
		}
		if val {
			out = append(out, pfact{k: 't', v: x})
			if re := z.regexOf(x, "MatchString", "Match"); re != nil {
				p, pk := z.length(x.Call.Args[1])
				dif(zeroTm, minLen(re, 0), p, pk, 0)
			}
		}
		out = append(out, z.calleeFacts(x, val, depth)...)
	}
	return out
}

// minOf is a constant lower bound of a term by itself.
func (z *pz) minOf(t tm) int64 {
	if t.k == 'n' {
		return 0
	}
	if t.k == 'v' {
		if isUnsigned(t.v.Type()) {
			return 0
		}
		if c, ok := t.v.(*ssa.Call); ok {
			n := calleeName(&c.Call)
			if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") || strings.HasPrefix(n, "bytes.LastIndex") {
				return -1
			}
		}
		if p, ok := t.v.(*ssa.Phi); ok {
			// a counter that only grows from a constant
			m := int64(1 << 40)
			for _, e := range p.Edges {
				q, k := z.lin(e)
				switch {
				case q == zeroTm:
					if k < m {
						m = k
					}
				case q.k == 'v' && q.v == ssa.Value(p) && k >= 0:
				default:
					return -(1 << 50)
				}
			}
			if m < 1<<40 {
				return m
			}
		}
	}
	return -(1 << 50)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// calleeFacts: what the result of a helper of the repository says about its
// arguments. val: the boolean result, or that the error is nil.
func (z *pz) calleeFacts(v ssa.Value, val bool, depth int) []pfact {
	var call *ssa.Call
	idx := 0
	switch x := v.(type) {
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return nil
		}
		call, idx = c, x.Index
	case *ssa.Call:
		call = x
	default:
		return nil
	}
	g := call.Call.StaticCallee()
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
		return nil
	}
	var fs []pfact
	n := 0
	for _, ret := range returnsOf(g) {
		if idx >= len(ret.Results) {
			return nil
		}
		res := ret.Results[idx]
		if c, ok := res.(*ssa.Const); ok {
			if c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) != val {
					continue
				}
			} else if c.Value == nil {
				if !val {
					continue
				}
			}
			n++
			fs = append([]pfact(nil), z.facts(ret.Block())...)
			continue
		}
		if isError(res.Type()) {
			if val && z.nonNil(res, ret.Block(), 2) {
				continue
			}
			n++
			fs = append([]pfact(nil), z.facts(ret.Block())...)
			continue
		}
		n++
		fs = append([]pfact(nil), z.facts(ret.Block())...)
		for _, gd := range expandGuard(res, val, nil) {
			fs = append(fs, z.condFacts(gd.Cond, gd.Val, depth+1)...)
		}
	}
	if n != 1 {
		return nil
	}
	var out []pfact
	sub := func(v ssa.Value) []ssa.Value { return z.inCaller(call, g, v) }
	// values of the callee are named by what the caller passes, or loads again
	for _, f := range fs {
		switch f.k {
		case 'd':
			conv := func(t tm) []tmk {
				if t.k == 'z' {
					return []tmk{{t, 0}}
				}
				var r []tmk
				for _, a := range sub(t.v) {
					q, k := z.lin, int64(0)
					var p tm
					if t.k == 'n' {
						p, k = z.length(a)
					} else {
						p, k = q(a)
					}
					r = append(r, tmk{p, k})
				}
				return r
			}
			ps, qs := conv(f.p), conv(f.q)
			for _, p := range ps {
				for _, q := range qs {
					out = append(out, pfact{k: 'd', p: p.t, q: q.t, c: f.c - p.k + q.k})
				}
			}
		case 'x':
			// p - q is not c: kept where both are known to the caller
			if f.p.k == 'z' || f.q.k == 'z' {
				break
			}
		case 'n', 'i', 'y':
			for _, a := range sub(f.v) {
				out = append(out, pfact{k: f.k, v: z.norm(a), typ: f.typ})
			}
		case 't':
			out = append(out, f)
		}
	}
	return out
}

// inCaller: what a value of the function called is called by the caller: an argument,
// or what the caller loads from the same place.
func (z *pz) inCaller(call *ssa.Call, g *ssa.Function, v ssa.Value) []ssa.Value {
	arg := func(v ssa.Value) ssa.Value {
		for i, p := range g.Params {
			if v == ssa.Value(p) && i < len(call.Call.Args) {
				return call.Call.Args[i]
			}
		}
		return nil
	}
	if a := arg(v); a != nil {
		return []ssa.Value{a}
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	var bases []ssa.Value
	var like func(a ssa.Value) ssa.Value // the base of an address of the same kind
	switch fa := ld.X.(type) {
	case *ssa.FieldAddr:
		bases = z.inCaller(call, g, z.norm(fa.X))
		k := fieldKey(fa)
		like = func(a ssa.Value) ssa.Value {
			if x, ok := a.(*ssa.FieldAddr); ok && fieldKey(x) == k {
				return x.X
			}
			return nil
		}
	case *ssa.IndexAddr:
		i, ok := constInt(fa.Index)
		if !ok {
			return nil
		}
		bases = z.inCaller(call, g, z.norm(fa.X))
		like = func(a ssa.Value) ssa.Value {
			if x, ok := a.(*ssa.IndexAddr); ok {
				if j, ok := constInt(x.Index); ok && j == i {
					return x.X
				}
			}
			return nil
		}
	}
	if len(bases) == 0 {
		return nil
	}
	// the function leaves the place alone
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if z.mayWrite(in, ld.X) {
				return nil
			}
		}
	}
	var out []ssa.Value
	for _, b := range call.Parent().Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			x := like(u.X)
			if x == nil {
				continue
			}
			same := false
			for _, base := range bases {
				same = same || z.norm(x) == z.norm(base)
			}
			if !same {
				continue
			}
			if dominatesInstr(call, u) && !z.writtenBetween(call, u, u.X) || dominatesInstr(u, call) && !z.writtenBetween(u, call, u.X) {
				out = append(out, z.norm(u))
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- regular expressions

func (z *pz) regexOf(c *ssa.Call, names ...string) *syntax.Regexp {
	n := calleeName(&c.Call)
	if !strings.HasPrefix(n, "regexp.(Regexp).") {
		return nil
	}
	m := n[len("regexp.(Regexp)."):]
	for _, x := range names {
		if x == m {
			p, ok := z.patternOf(c.Call.Args[0])
			if !ok {
				return nil
			}
			re, err := syntax.Parse(p, syntax.Perl)
			if err != nil {
				return nil
			}
			return re
		}
	}
	return nil
}

func (z *pz) patternOf(v ssa.Value) (string, bool) {
	v = z.norm(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return z.u.globalRE(g)
		}
	}
	if p, ok := z.u.compiledRE(v, nil, 0); ok {
		return p, true
	}
	return "", false
}

// minLen is the least number of bytes a match of re takes; with grp>0 only what
// lies outside of that group is counted.
func minLen(re *syntax.Regexp, grp int) int64 {
	switch re.Op {
	case syntax.OpLiteral:
		return int64(len(string(re.Rune)))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture:
		if re.Cap == grp {
			return 0
		}
		return minLen(re.Sub[0], grp)
	case syntax.OpConcat:
		n := int64(0)
		for _, s := range re.Sub {
			n += minLen(s, grp)
		}
		return n
	case syntax.OpAlternate:
		n := minLen(re.Sub[0], grp)
		for _, s := range re.Sub[1:] {
			if m := minLen(s, grp); m < n {
				n = m
			}
		}
		return n
	case syntax.OpPlus:
		return minLen(re.Sub[0], grp)
	case syntax.OpRepeat:
		return int64(re.Min) * minLen(re.Sub[0], grp)
	}
	return 0
}

// groupMin is the least length of the text of a group that takes part; must
// tells whether it takes part in every match.
func groupMin(re *syntax.Regexp, grp int, must bool) (n int64, always, found bool) {
	if re.Op == syntax.OpCapture && re.Cap == grp {
		return minLen(re.Sub[0], 0), must, true
	}
	for _, s := range re.Sub {
		m := must
		switch re.Op {
		case syntax.OpAlternate, syntax.OpStar, syntax.OpQuest:
			m = false
		case syntax.OpRepeat:
			m = must && re.Min > 0
		}
		if n, a, ok := groupMin(s, grp, m); ok {
			return n, a, true
		}
	}
	return 0, false, false
}

// submatch: v is the text of group k of a match of re in text.
func (z *pz) submatch(v ssa.Value) (re *syntax.Regexp, k int64, text ssa.Value, arr ssa.Value, ok bool) {
	u, isU := v.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return
	}
	ia, isI := u.X.(*ssa.IndexAddr)
	if !isI {
		return
	}
	k, isC := constInt(ia.Index)
	if !isC {
		return
	}
	arr = z.norm(ia.X)
	if c, isCall := arr.(*ssa.Call); isCall {
		if re = z.regexOf(c, "FindStringSubmatch", "FindSubmatch"); re != nil {
			return re, k, c.Call.Args[1], arr, true
		}
		return
	}
	if c := z.elemOfCall(arr); c != nil {
		if re = z.regexOf(c, "FindAllStringSubmatch", "FindAllSubmatch"); re != nil {
			return re, k, c.Call.Args[1], arr, true
		}
	}
	return
}

// elemOfCall: v is an element of the list that a call gives.
func (z *pz) elemOfCall(v ssa.Value) *ssa.Call {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	c, _ := z.norm(ia.X).(*ssa.Call)
	return c
}

// ---------------------------------------------------------------- difference constraints

type pgoal struct {
	a, b tm
	c    int64
	phi  bool
}

// prove decides a - b <= c at the end of facts fs in block at.
func (z *pz) prove(a, b tm, c int64, fs []pfact, at *ssa.BasicBlock) bool {
	z.steps = 0
	return z.dif(a, b, c, fs, at, nil, 14)
}

func (z *pz) dif(a, b tm, c int64, fs []pfact, at *ssa.BasicBlock, stack []pgoal, depth int) bool {
	z.steps++
	if a == b {
		return c >= 0
	}
	if a.k == 'z' && b.k == 'z' {
		return c >= 0
	}
	if a.k == 'z' && b.k == 'n' && c >= 0 {
		return true
	}
	if a.k == 'z' && b.k == 'v' && z.minOf(b) >= -c {
		return true
	}
	if depth == 0 || z.steps > 4000 {
		return false
	}
	phi := false
	for i := len(stack) - 1; i >= 0; i-- {
		g := stack[i]
		phi = phi || g.phi
		if g.a == a && g.b == b {
			return phi && c >= g.c
		}
	}
	stack = append(stack, pgoal{a, b, c, false})
	if a.k == 'v' && b.k == 'n' && c >= -1 {
		if p, ok := a.v.(*ssa.Parameter); ok {
			if lst := z.sortedList(p); lst != nil && z.sameSlice(lst, b.v) {
				return true
			}
		}
	}
	if z.invariants(a, b, c) {
		return true
	}
	for _, f := range fs {
		if f.k != 'x' {
			continue
		}
		if f.p == a && f.q == b && c == f.c-1 && z.dif(a, b, f.c, fs, at, stack[:len(stack)-1], depth-1) {
			return true
		}
		if f.p == b && f.q == a && c == -f.c-1 && z.dif(a, b, -f.c, fs, at, stack[:len(stack)-1], depth-1) {
			return true
		}
	}
	// guards
	for _, f := range fs {
		if f.k != 'd' {
			continue
		}
		if f.p == a && f.q != a && z.dif(f.q, b, c-f.c, fs, at, stack, depth-1) {
			return true
		}
		if f.q == b && f.p != b && f.p != a && z.dif(a, f.p, c-f.c, fs, at, stack, depth-1) {
			return true
		}
	}
	for _, s := range z.upper(a, fs, at) {
		if z.dif(s.t, b, c-s.k, fs, at, stack, depth-1) {
			return true
		}
	}
	for _, s := range z.lower(b, fs, at) {
		if z.dif(a, s.t, c+s.k, fs, at, stack, depth-1) {
			return true
		}
	}
	if z.phis(a, b, c, fs, at, stack, depth) {
		return true
	}
	if z.results(a, b, c, stack, depth) {
		return true
	}
	return z.callers(a, b, c, stack, depth)
}

type tmk struct {
	t tm
	k int64
}

// definedBefore: the value of t is the same whenever blk runs (it is not made in
// a loop around blk, or outside of it).
func definedBefore(t tm, blk *ssa.BasicBlock) bool {
	if t.k == 'z' {
		return true
	}
	in, ok := t.v.(ssa.Instruction)
	if !ok {
		return true
	}
	return in.Block() != blk && in.Block().Dominates(blk)
}

func (z *pz) phis(a, b tm, c int64, fs []pfact, at *ssa.BasicBlock, stack []pgoal, depth int) bool {
	try := func(p *ssa.Phi) bool {
		blk := p.Block()
		side := func(t tm, i int) (tm, int64, bool) {
			if t.k == 'z' {
				return t, 0, true
			}
			if q, ok := t.v.(*ssa.Phi); ok && q.Block() == blk {
				if t.k == 'n' {
					x, k := z.length(q.Edges[i])
					return x, k, true
				}
				x, k := z.lin(q.Edges[i])
				return x, k, true
			}
			return t, 0, definedBefore(t, blk)
		}
		// the ways in that what is known of the other values met there rules out
		impossible := func(i int, pred *ssa.BasicBlock) bool {
			if depth < 4 {
				return false
			}
			for _, f := range fs {
				if f.k != 'd' {
					continue
				}
				p, ok1 := f.p.v.(*ssa.Phi)
				q, ok2 := f.q.v.(*ssa.Phi)
				if !(ok1 && p.Block() == blk) && !(ok2 && q.Block() == blk) {
					continue
				}
				x, xk, ok1 := side(f.p, i)
				y, yk, ok2 := side(f.q, i)
				if ok1 && ok2 && z.dif(y, x, -f.c-1+xk-yk, z.edgeFacts(pred, blk), pred, nil, 4) {
					return true
				}
			}
			return false
		}
		st := append(append([]pgoal(nil), stack...), pgoal{phi: true})
		for i, pred := range blk.Preds {
			x, xk, ok1 := side(a, i)
			y, yk, ok2 := side(b, i)
			if !ok1 || !ok2 {
				return false
			}
			if !z.dif(x, y, c-xk+yk, z.edgeFacts(pred, blk), pred, st, depth-1) && !impossible(i, pred) {
				return false
			}
		}
		return true
	}
	if a.k != 'z' {
		if p, ok := a.v.(*ssa.Phi); ok && try(p) {
			return true
		}
	}
	if b.k != 'z' {
		if p, ok := b.v.(*ssa.Phi); ok && (a.k == 'z' || a.v != b.v) && try(p) {
			return true
		}
	}
	return false
}

// results goes into functions of the repository that give a value.
func (z *pz) results(a, b tm, c int64, stack []pgoal, depth int) bool {
	try := func(t, o tm, up bool) bool {
		if t.k == 'z' {
			return false
		}
		var call *ssa.Call
		idx := 0
		switch x := t.v.(type) {
		case *ssa.Call:
			call = x
		case *ssa.Extract:
			cl, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			call, idx = cl, x.Index
		default:
			return false
		}
		g := call.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 || len(stack) > 20 {
			return false
		}
		var ot tm
		switch {
		case o.k == 'z':
			ot = o
		default:
			found := false
			for i, p := range g.Params {
				if i < len(call.Call.Args) {
					arg := call.Call.Args[i]
					if o.k == 'n' {
						if x, k := z.length(arg); x == o && k == 0 {
							ot, found = tm{'n', p}, true
						}
					} else if x, k := z.lin(arg); x == o && k == 0 {
						ot, found = tm{'v', p}, true
					}
				}
			}
			if !found {
				return false
			}
		}
		rets := returnsOf(g)
		if len(rets) == 0 {
			return false
		}
		for _, r := range rets {
			if idx >= len(r.Results) {
				return false
			}
			var x tm
			var k int64
			if t.k == 'n' {
				x, k = z.length(r.Results[idx])
			} else {
				x, k = z.lin(r.Results[idx])
			}
			ok := false
			if up {
				ok = z.dif(x, ot, c-k, z.facts(r.Block()), r.Block(), stack, depth-3)
			} else {
				ok = z.dif(ot, x, c+k, z.facts(r.Block()), r.Block(), stack, depth-3)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if depth < 4 {
		return false
	}
	return try(a, b, true) || try(b, a, false)
}

// callers carries a constraint on parameters to every place the function is called.
func (z *pz) callers(a, b tm, c int64, stack []pgoal, depth int) bool {
	var fn *ssa.Function
	plain := true
	for _, t := range []tm{a, b} {
		if t.k == 'z' {
			continue
		}
		p, ok := t.v.(*ssa.Parameter)
		if !ok {
			plain = false
			if p = z.fromParam(t.v); p == nil {
				return false
			}
		}
		if fn != nil && p.Parent() != fn {
			return false
		}
		fn = p.Parent()
	}
	if fn == nil || depth < 4 {
		return false
	}
	if z.roots[fn] {
		return false
	}
	if plain {
		if r, known := z.callbackBounds(fn, a, b, c); known {
			return r
		}
	}
	sites := z.liveSites(fn)
	if len(sites) == 0 {
		return false
	}
	args := func(s ssa.CallInstruction, t tm) []tmk {
		if t.k == 'z' {
			return []tmk{{t, 0}}
		}
		var xs []ssa.Value
		if p, ok := t.v.(*ssa.Parameter); ok {
			if x := z.argOf(s, fn, p); x != nil {
				xs = append(xs, x)
			}
		} else if call, ok := s.(*ssa.Call); ok {
			xs = z.inCaller(call, fn, t.v)
		}
		var r []tmk
		for _, x := range xs {
			var y tm
			var k int64
			if t.k == 'n' {
				y, k = z.length(x)
			} else {
				y, k = z.lin(x)
			}
			r = append(r, tmk{y, k})
		}
		return r
	}
	for _, s := range sites {
		good := false
		for _, x := range args(s, a) {
			for _, y := range args(s, b) {
				good = good || z.dif(x.t, y.t, c-x.k+y.k, z.facts(s.Block()), s.Block(), stack, depth-3)
			}
		}
		if !good {
			return false
		}
	}
	return true
}

// fromParam: v is loaded from a place inside a parameter.
func (z *pz) fromParam(v ssa.Value) *ssa.Parameter {
	for i := 0; i < 6; i++ {
		v = z.norm(v)
		switch x := v.(type) {
		case *ssa.Parameter:
			return x
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// liveSites are the calls of fn in functions under analysis.
func (z *pz) liveSites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, s := range z.sites[fn] {
		if z.in[s.Parent()] {
			out = append(out, s)
		}
	}
	return out
}

func (z *pz) argOf(s ssa.CallInstruction, fn *ssa.Function, p *ssa.Parameter) ssa.Value {
	i := paramIndex(p)
	cc := s.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < 0 || i >= len(cc.Args) {
		return nil
	}
	return cc.Args[i]
}

// sameSlice: what a closure sees as v is the slice the sorting function got. The
// closure's captured variable is only set before.
func (z *pz) sameSlice(arg, v ssa.Value) bool {
	arg = z.norm(strip(arg))
	v = z.norm(strip(v))
	if arg == v {
		return true
	}
	la, ok1 := arg.(*ssa.UnOp)
	lv, ok2 := v.(*ssa.UnOp)
	if ok1 && ok2 {
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fv, ok2 := lv.X.(*ssa.FieldAddr)
		if ok1 && ok2 && fa.Field == fv.Field && types.Identical(fa.X.Type(), fv.X.Type()) {
			for _, st := range z.stores[fieldKey(fv)] {
				if st.Parent() == lv.Parent() {
					return false
				}
			}
			return z.once(fa.X) == z.once(fv.X)
		}
	}
	if ok2 {
		cell := cellOf(lv.X)
		if cell == nil {
			return false
		}
		for _, st := range storesTo(cell) {
			if st.Parent() == lv.Parent() {
				return false // the closure sets the variable
			}
		}
		if ok1 {
			return cellOf(la.X) == cell
		}
		sts := storesTo(cell)
		return len(sts) == 1 && z.norm(strip(sts[0].Val)) == arg
	}
	return false
}

// once: what a variable that is set only once holds.
func (z *pz) once(v ssa.Value) ssa.Value {
	v = z.norm(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if cell := cellOf(u.X); cell != nil {
			if sts := storesTo(cell); len(sts) == 1 {
				return z.norm(sts[0].Val)
			}
		}
	}
	return v
}

// callbackBounds: parameters of functions that libraries call.
func (z *pz) callbackBounds(fn *ssa.Function, a, b tm, c int64) (bool, bool) {
	if fn.Parent() == nil {
		return false, false
	}
	for _, blk := range fn.Parent().Blocks {
		for _, in := range blk.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, ar := range cl.Call.Args {
				if mc, ok := ar.(*ssa.MakeClosure); !(ok && mc.Fn == ssa.Value(fn)) && ar != ssa.Value(fn) {
					continue
				}
				n := calleeName(&cl.Call)
				switch {
				case strings.HasPrefix(n, "regexp.(Regexp).ReplaceAllStringFunc"):
					if re := z.regexOf(cl, "ReplaceAllStringFunc"); re != nil && a.k == 'z' && b.k == 'n' {
						return minLen(re, 0) >= -c, true
					}
				case (n == "sort.Slice" || n == "sort.SliceStable") && a.k == 'z' && b.k == 'v':
					return c >= 0, true
				case (n == "sort.Slice" || n == "sort.SliceStable") && a.k == 'v' && b.k == 'n':
					return c >= -1 && z.sameSlice(cl.Call.Args[0], b.v), true
				case n == "sort.Search" && a.k == 'z' && b.k == 'v':
					return c >= 0, true
				case n == "sort.Search" && a.k == 'v':
					t, k := z.lin(cl.Call.Args[0])
					return (t == b || t.k == 'n' && b.k == 'n' && z.sameSlice(t.v, b.v)) && c >= k-1, true
				}
			}
		}
	}
	return false, false
}

func (z *pz) upper(t tm, fs []pfact, at *ssa.BasicBlock) []tmk {
	var out []tmk
	add := func(t tm, k int64) { out = append(out, tmk{t, k}) }
	switch t.k {
	case 'v':
		switch x := t.v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.SUB:
				p, k := z.lin(x.X)
				y, yk := z.lin(x.Y)
				if z.dif(zeroTm, y, yk, fs, at, nil, 6) { // y+yk >= 0
					m := int64(0)
					if z.dif(zeroTm, y, yk-1, fs, at, nil, 6) {
						m = 1
					}
					add(p, k-m)
				}
			case token.ADD:
				// x + y where y is at most zero plus something
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					p, k := z.lin(pr[0])
					// y <= len(s) - lo when the first is lo: searched texts that begin there
					if u, uk, ok := z.restBound(pr[1], p, k); ok {
						add(u, uk)
					}
				}
			case token.QUO:
				if n, ok := constInt(x.Y); ok && n >= 1 {
					p, k := z.lin(x.X)
					if z.dif(zeroTm, p, k, fs, at, nil, 6) {
						add(p, k)
					}
				}
				if n, ok := constInt(x.Y); ok && n == 2 {
					// the middle of two lies below the greater one
					if s, ok := x.X.(*ssa.BinOp); ok && s.Op == token.ADD {
						_ = s
					}
				}
			case token.SHR:
				p, k := z.lin(x.X)
				if z.dif(zeroTm, p, k, fs, at, nil, 6) {
					add(p, k)
				}
			case token.REM:
				if n, ok := constInt(x.Y); ok && n >= 1 {
					add(zeroTm, n-1)
				}
			case token.AND:
				for _, o := range []ssa.Value{x.X, x.Y} {
					if n, ok := constInt(o); ok && n >= 0 {
						add(zeroTm, n)
					}
				}
			case token.MUL:
				v, n := x.X, x.Y
				if _, ok := constInt(v); ok {
					v, n = n, v
				}
				if m, ok := constInt(n); ok && m > 0 {
					z.reachUpper(v, fs, at, func(q tm, k int64) {
						if q.k == 'z' {
							add(q, k*m)
						}
						if q.k == 'v' {
							if d, ok := q.v.(*ssa.BinOp); ok && d.Op == token.QUO {
								if w, ok := constInt(d.Y); ok && w == m {
									p, pk := z.lin(d.X)
									add(p, pk+k*m)
								}
							}
						}
					})
				}
			}
		case *ssa.Convert:
			if isUnsigned(x.X.Type()) {
				if sz := types.SizesFor("gc", "amd64").Sizeof(x.X.Type()); sz <= 2 {
					add(zeroTm, 1<<(8*uint(sz))-1)
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch {
			case strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") || strings.HasPrefix(n, "bytes.LastIndex"):
				p, k := z.length(x.Call.Args[0])
				m := int64(1)
				if n == "strings.Index" || n == "strings.LastIndex" || n == "bytes.Index" || n == "bytes.LastIndex" {
					q, qk := z.length(x.Call.Args[1])
					m = 0
					if q == zeroTm {
						m = qk
					}
				}
				add(p, k-m)
			case n == "builtin.min":
				for _, a := range x.Call.Args {
					p, k := z.lin(a)
					add(p, k)
				}
			case n == "builtin.copy":
				for _, a := range x.Call.Args {
					p, k := z.length(a)
					add(p, k)
				}
			case n == "sort.Search":
				p, k := z.lin(x.Call.Args[0])
				add(p, k)
			case n == "sort.SearchInts" || n == "sort.SearchStrings":
				p, k := z.length(x.Call.Args[0])
				add(p, k)
			case n == "unicode/utf8.EncodeRune" || n == "unicode/utf8.RuneLen":
				add(zeroTm, 4)
			}
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					p, k := z.length(rg.X)
					add(p, k-1)
				}
			}
			if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
				n := calleeName(&c.Call)
				if strings.HasPrefix(n, "unicode/utf8.Decode") {
					p, k := z.length(c.Call.Args[0])
					add(p, k)
					add(zeroTm, 4)
				}
			}
		case *ssa.UnOp:
			if re, i, min, text := z.matchIndex(x); re != nil {
				p, k := z.length(text)
				add(p, k)
				if i%2 == 0 {
					add(p, k-min)
					if m1 := z.loadOf(z.norm(x.X.(*ssa.IndexAddr).X), i+1, x); m1 != nil {
						add(tm{'v', m1}, -min)
					}
				}
			}
		case *ssa.Parameter:
			// indexes that sort.Slice passes are those of the list
			if lst := z.sortedList(x); lst != nil {
				p, k := z.length(lst)
				add(p, k-1)
			}
		}
		if isUnsigned(t.v.Type()) {
			if sz := types.SizesFor("gc", "amd64").Sizeof(t.v.Type()); sz == 1 {
				add(zeroTm, 255)
			}
		}
	case 'n':
		switch x := t.v.(type) {
		case *ssa.Slice:
			if x.High != nil {
				p, k := z.lin(x.High)
				if x.Low == nil {
					add(p, k)
				} else if y, yk := z.lin(x.Low); z.dif(zeroTm, y, yk, fs, at, nil, 6) {
					add(p, k)
				}
			} else {
				p, k := z.length(x.X)
				add(p, k)
				if x.Low != nil {
					if y, yk := z.lin(x.Low); z.dif(zeroTm, y, yk-1, fs, at, nil, 6) {
						add(p, k-1)
					}
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "bytes.Trim") {
				p, k := z.length(x.Call.Args[0])
				add(p, k)
			}
			if re := z.regexOf(x, "FindString"); re != nil {
				p, k := z.length(x.Call.Args[1])
				add(p, k)
			}
			if re := z.regexOf(x, "FindStringSubmatch", "FindSubmatch"); re != nil {
				add(zeroTm, int64(re.MaxCap()+1))
			}
		}
		if re, k, text, arr, ok := z.submatch(t.v); ok {
			p, pk := z.length(text)
			add(p, pk)
			if k > 0 {
				if m0 := z.loadOf(arr, 0, t.v); m0 != nil {
					add(tm{'n', m0}, -minLen(re, int(k)))
				}
				add(p, pk-minLen(re, int(k)))
			}
		}
		if c := z.elemOfCall(t.v); c != nil {
			n := calleeName(&c.Call)
			if strings.HasPrefix(n, "strings.Split") || n == "strings.Fields" {
				p, k := z.length(c.Call.Args[0])
				add(p, k)
			}
		}
	}
	return out
}

// restBound: v is an index or a length within a text that begins at offset p+k of
// another one; gives the bound of the sum.
func (z *pz) restBound(v ssa.Value, p tm, k int64) (tm, int64, bool) {
	t, tk := z.lin(v)
	var whole func(s ssa.Value, d int) (tm, int64, bool)
	whole = func(s ssa.Value, d int) (tm, int64, bool) {
		s = z.norm(s)
		sl, ok := s.(*ssa.Slice)
		if !ok || sl.Low == nil {
			return tm{}, 0, false
		}
		q, qk := z.lin(sl.Low)
		if q != p {
			return tm{}, 0, false
		}
		if sl.High != nil {
			h, hk := z.lin(sl.High)
			return h, hk + k - qk, true
		}
		l, lk := z.length(sl.X)
		return l, lk + k - qk, true
	}
	switch t.k {
	case 'n':
		if l, lk, ok := whole(t.v, 0); ok {
			return l, lk + tk, true
		}
	case 'v':
		switch x := t.v.(type) {
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") {
				if l, lk, ok := whole(x.Call.Args[0], 0); ok {
					return l, lk + tk - 1, true
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 && strings.HasPrefix(calleeName(&c.Call), "unicode/utf8.Decode") {
				if l, lk, ok := whole(c.Call.Args[0], 0); ok {
					return l, lk + tk, true
				}
			}
		}
	}
	return tm{}, 0, false
}

// sortedList: p is an index parameter of the order given to sort.Slice; the list it is about.
func (z *pz) sortedList(p *ssa.Parameter) ssa.Value {
	fn := p.Parent()
	if fn.Parent() == nil {
		return nil
	}
	for _, blk := range fn.Parent().Blocks {
		for _, in := range blk.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(&cl.Call)
			if n != "sort.Slice" && n != "sort.SliceStable" && n != "sort.Search" {
				continue
			}
			a := cl.Call.Args[1]
			if mc, ok := a.(*ssa.MakeClosure); !(ok && mc.Fn == ssa.Value(fn)) && a != ssa.Value(fn) {
				continue
			}
			if n == "sort.Search" {
				if lc, ok := cl.Call.Args[0].(*ssa.Call); ok {
					if b, ok := lc.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						return z.norm(lc.Call.Args[0])
					}
				}
				return nil
			}
			return z.norm(strip(cl.Call.Args[0]))
		}
	}
	return nil
}

// loadOf finds a load of element k of arr that stands for it at v.
func (z *pz) loadOf(arr ssa.Value, k int64, v ssa.Value) ssa.Value {
	refs := arr.Referrers()
	if refs == nil {
		return nil
	}
	for _, in := range *refs {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if n, ok := constInt(ia.Index); !ok || n != k {
			continue
		}
		for _, in2 := range *ia.Referrers() {
			if u, ok := in2.(*ssa.UnOp); ok {
				return z.norm(u)
			}
		}
	}
	return nil
}

// matchIndex: v is start (0) or end (1) of the match in a text.
func (z *pz) matchIndex(v *ssa.UnOp) (re *syntax.Regexp, k, min int64, text ssa.Value) {
	if v.Op != token.MUL {
		return nil, 0, 0, nil
	}
	ia, ok := v.X.(*ssa.IndexAddr)
	if !ok {
		return nil, 0, 0, nil
	}
	k, ok = constInt(ia.Index)
	if !ok || k < 0 {
		return nil, 0, 0, nil
	}
	arr := z.norm(ia.X)
	c, ok := arr.(*ssa.Call)
	if !ok {
		if c = z.elemOfCall(arr); c != nil {
			re = z.regexOf(c, "FindAllStringIndex", "FindAllStringSubmatchIndex")
		}
	} else {
		re = z.regexOf(c, "FindStringIndex", "FindStringSubmatchIndex", "FindIndex")
	}
	if re == nil {
		return nil, 0, 0, nil
	}
	if k > 1 {
		// a group that takes part in every match
		m, always, found := groupMin(re, int(k/2), true)
		if !always || !found {
			return nil, 0, 0, nil
		}
		return re, k, m, c.Call.Args[1]
	}
	return re, k, minLen(re, 0), c.Call.Args[1]
}

func (z *pz) reachUpper(v ssa.Value, fs []pfact, at *ssa.BasicBlock, f func(tm, int64)) {
	t, k := z.lin(v)
	seen := map[tm]bool{}
	var walk func(t tm, k int64, d int)
	walk = func(t tm, k int64, d int) {
		if seen[t] || d == 0 {
			return
		}
		seen[t] = true
		f(t, k)
		for _, g := range fs {
			if g.k == 'd' && g.p == t {
				walk(g.q, k+g.c, d-1)
			}
		}
	}
	walk(t, k, 4)
}

func (z *pz) lower(t tm, fs []pfact, at *ssa.BasicBlock) []tmk {
	var out []tmk
	add := func(t tm, k int64) { out = append(out, tmk{t, k}) }
	switch t.k {
	case 'v':
		if m := z.minOf(t); m > -(1 << 40) {
			add(zeroTm, m)
		}
		switch x := t.v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD:
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					y, yk := z.lin(pr[1])
					p, k := z.lin(pr[0])
					if z.dif(zeroTm, y, yk-1, fs, at, nil, 6) {
						add(p, k+1)
					} else if z.dif(zeroTm, y, yk, fs, at, nil, 6) {
						add(p, k)
					}
				}
			case token.MUL, token.QUO, token.SHR:
				p, k := z.lin(x.X)
				q, qk := z.lin(x.Y)
				if z.dif(zeroTm, p, k, fs, at, nil, 6) && z.dif(zeroTm, q, qk, fs, at, nil, 6) {
					add(zeroTm, 0)
				}
				if n, ok := constInt(x.Y); ok && x.Op == token.MUL && n >= 1 && z.dif(zeroTm, p, k, fs, at, nil, 6) {
					add(p, k)
				}
			case token.REM:
				p, k := z.lin(x.X)
				if z.dif(zeroTm, p, k, fs, at, nil, 6) {
					add(zeroTm, 0)
				}
			case token.AND:
				for _, o := range []ssa.Value{x.X, x.Y} {
					if n, ok := constInt(o); ok && n >= 0 {
						add(zeroTm, 0)
					}
				}
			case token.SUB:
				// x - y is not negative if y <= x
				p, k := z.lin(x.X)
				y, yk := z.lin(x.Y)
				if z.dif(y, p, k-yk, fs, at, nil, 6) {
					m := int64(0)
					if z.dif(y, p, k-yk-1, fs, at, nil, 6) {
						m = 1
					}
					add(zeroTm, m)
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch {
			case n == "builtin.max":
				for _, a := range x.Call.Args {
					p, k := z.lin(a)
					add(p, k)
				}
			case n == "builtin.copy" || n == "sort.Search" || strings.HasPrefix(n, "sort.Search") || n == "builtin.cap":
				add(zeroTm, 0)
			case n == "unicode/utf8.EncodeRune":
				add(zeroTm, 1)
			case strings.HasPrefix(n, "strings.Count") || strings.HasPrefix(n, "unicode/utf8.RuneCount"):
				add(zeroTm, 0)
			}
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
				add(zeroTm, 0)
			}
			if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 && strings.HasPrefix(calleeName(&c.Call), "unicode/utf8.Decode") {
				add(zeroTm, 0)
				p, k := z.length(c.Call.Args[0])
				if z.dif(zeroTm, p, k-1, fs, at, nil, 6) {
					add(zeroTm, 1)
				}
			}
		case *ssa.UnOp:
			if re, i, min, _ := z.matchIndex(x); re != nil {
				add(zeroTm, 0)
				if i%2 == 1 {
					add(zeroTm, min)
					arr := z.norm(x.X.(*ssa.IndexAddr).X)
					if m0 := z.loadOf(arr, i-1, x); m0 != nil {
						add(tm{'v', m0}, min)
					}
				}
			}
		case *ssa.Parameter:
			if z.sortedList(x) != nil {
				add(zeroTm, 0)
			}
		}
		if isUnsigned(t.v.Type()) {
			add(zeroTm, 0)
		}
	case 'n':
		switch x := t.v.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD {
				p, k := z.length(x.X)
				q, qk := z.length(x.Y)
				if q == zeroTm {
					k += qk
				}
				if p == zeroTm {
					qk += k
				}
				add(p, k)
				add(q, qk)
			}
		case *ssa.Slice:
			if x.High == nil && x.Low != nil {
				// len(x[lo:]) = len(x) - lo
				l, lk := z.length(x.X)
				lo, lok := z.lin(x.Low)
				for m := int64(2); m >= 1; m-- {
					if z.dif(lo, l, lk-lok-m, fs, at, nil, 6) {
						add(zeroTm, m)
						break
					}
				}
			}
			if x.High != nil && x.Low != nil {
				h, hk := z.lin(x.High)
				lo, lok := z.lin(x.Low)
				if h == lo {
					add(zeroTm, hk-lok)
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch {
			case n == "builtin.append" && len(x.Call.Args) == 2:
				for _, a := range x.Call.Args {
					p, k := z.length(a)
					add(p, k)
				}
			case n == "strings.Split" || n == "strings.SplitN" || n == "strings.SplitAfter":
				if q, qk := z.length(x.Call.Args[1]); q == zeroTm && qk >= 1 {
					if n != "strings.SplitN" {
						add(zeroTm, 1)
					} else if c, ok := constInt(x.Call.Args[2]); ok && c != 0 {
						add(zeroTm, 1)
					}
				}
			case n == "fmt.Sprintf" || n == "fmt.Sprint":
				if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil && n == "fmt.Sprintf" {
					add(zeroTm, fmtMin(constant.StringVal(c.Value)))
				}
			}
			if re := z.regexOf(x, "FindString"); re != nil && z.nonEmptyFact(fs, x) {
				add(zeroTm, minLen(re, 0))
			}
			if re := z.regexOf(x, "FindStringSubmatch", "FindSubmatch"); re != nil && (z.has(fs, 'n', x) || z.nonEmptyFact(fs, x) || z.matchesAll(re, x)) {
				add(zeroTm, int64(re.MaxCap()+1))
			}
			if re := z.regexOf(x, "FindStringIndex", "FindIndex"); re != nil && (z.has(fs, 'n', x) || z.nonEmptyFact(fs, x) || z.matchesAll(re, x)) {
				add(zeroTm, 2)
			}
			if re := z.regexOf(x, "FindStringSubmatchIndex"); re != nil && (z.has(fs, 'n', x) || z.nonEmptyFact(fs, x) || z.matchesAll(re, x)) {
				add(zeroTm, int64(2*re.MaxCap()+2))
			}
			if n == "reflect.(Value).Call" {
				// the number of results of the function, which its signature check settles
				_ = n
			}
		}
		if re, k, text, arr, ok := z.submatch(t.v); ok {
			if k == 0 {
				add(zeroTm, minLen(re, 0))
				_ = text
				_ = arr
			} else if n, always, ok := groupMin(re, int(k), true); ok {
				if always || z.nonEmptyFact(fs, t.v) {
					add(zeroTm, n)
				}
			}
		}
		if c := z.elemOfCall(t.v); c != nil {
			if re := z.regexOf(c, "FindAllStringSubmatch", "FindAllSubmatch"); re != nil {
				add(zeroTm, int64(re.MaxCap()+1))
			}
			if re := z.regexOf(c, "FindAllStringIndex"); re != nil {
				add(zeroTm, 2)
			}
			if re := z.regexOf(c, "FindAllStringSubmatchIndex"); re != nil {
				add(zeroTm, int64(2*re.MaxCap()+2))
			}
		}
	}
	return out
}

// fmtMin: the literal characters of a format.
func fmtMin(f string) int64 {
	n := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] == '%' {
			for i++; i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0; i++ {
			}
			continue
		}
		n++
	}
	return n
}

func (z *pz) has(fs []pfact, k byte, v ssa.Value) bool {
	for _, f := range fs {
		if f.k == k && f.v == v {
			return true
		}
	}
	return false
}

// nonEmptyFact: a guard says that v has elements.
func (z *pz) nonEmptyFact(fs []pfact, v ssa.Value) bool {
	for _, f := range fs {
		if f.k == 'd' && f.q == (tm{'n', v}) && f.p == zeroTm && f.c <= -1 {
			return true
		}
	}
	return false
}

// matchesAll: the expression is found in every text.
func (z *pz) matchesAll(re *syntax.Regexp, c *ssa.Call) bool {
	p, ok := z.patternOf(c.Call.Args[0])
	if !ok {
		return false
	}
	return exprMatchesAll(p)
}

var allMemo = map[string]bool{}

func exprMatchesAll(p string) bool {
	if r, ok := allMemo[p]; ok {
		return r
	}
	a := newAlphabet()
	if err := a.addExpr(p); err != nil {
		return false
	}
	a.freeze()
	d, err := a.matchLang(p, nil)
	if err != nil {
		allMemo[p] = false
		return false
	}
	_, ok := a.any().within(d)
	allMemo[p] = ok
	return ok
}
