package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// docOf gives the documentation comment of a function.
func (u *Unit) docOf(fn *ssa.Function) string {
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return d.Doc.Text()
	}
	return ""
}

// entryPoints are the exported functions and methods of packages, without those
// that are documented to panic.
func (u *Unit) entryPoints(pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range u.Funcs {
		if fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" || u.Generated(fn) {
			continue
		}
		rel, ok := relPkg(fn.Pkg.Pkg)
		if !ok {
			continue
		}
		match := false
		for _, p := range pkgs {
			if rel == p {
				match = true
			}
		}
		if !match || !ast.IsExported(fn.Name()) {
			continue
		}
		if docPanics(u, fn) {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func init() {
	for _, n := range []struct {
		id   string
		pkgs string
		// counted by hand, with some left for refactorings
		minEntry, minFns int
	}{
		{"N01", "wirepath", 15, 30},
		{"N02", "rdf/iri rdf/ntriples rdf/rdfxml", 30, 70},
		{"N03", "sexpr", 20, 40},
		{"N04", "recordinfer csvinfer xmlinfer csvtoproto codegen service", 15, 60},
		{"N05", "csvcoder textcoder csvtoprotoparse", 15, 40},
	} {
		n := n
		register(n.id, func(w *World, r *Report) {
			u := w.Host
			roots := u.entryPoints(strings.Fields(n.pkgs)...)
			r.Count("entry points", len(roots))
			z := newPZ(u, r, n.id, roots)
			switch n.id {
			case "N01":
				z.extraCall = protoCalls
			case "N04":
				z.extraCall = builderCalls
			case "N05":
				z.extraCall = structFields
			}
			z.checkAll()
			if z.reflected {
				checkSignatureChecks(u, r)
			}
			if z.poppedLists {
				// that what is taken off was put on is what the walk through the kinds of
				// elements decides
				if rdfDone[w] == nil {
					rdfDone = map[*World]*rdfDom{w: newRDF(u, newReport("rdf"))}
				}
				r.OK("popped", "the lists kept as stacks are as they were after every kind of element")
				for _, f := range rdfDone[w].r.findings {
					if strings.HasPrefix(f.Key, "restored|") && strings.Contains(f.Text, "Stack") {
						r.Bad("popped", f.Key[len("restored|"):], f.Pos, "%s: an element may be taken off an empty list", f.Text)
					}
				}
			}
			r.Floor("entry points", n.minEntry)
			r.Floor("functions", n.minFns)
			r.explanation = "Every index, slice, division, type assertion, dereference, call of a function or interface value, write to a map, panic statement and call of a library function with a documented precondition that can be reached from the exported functions is an obligation: facts of the guards on every way to it, of the lengths that texts and matches have, of what callers pass and of what is stored in fields, must entail it."
			r.assumptions = []string{
				"The caller passes pointers, functions, interfaces and slices of them that are not nil where a function is documented to take one, and uses values as the package made them.",
				"Library functions keep their documentation; implementations of the package's interfaces from elsewhere return values or errors.",
				"Stacks and memory suffice for the depth and size of the input.",
				"Functions named Must… or documented to panic are outside.",
			}
		})
	}
}

// setAgain: the value being made gets another value for the field right away.
func (z *pz) setAgain(s *ssa.Store) bool {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, o := range z.stores[fieldKey(fa)] {
		if ofa, ok := o.Addr.(*ssa.FieldAddr); ok && o != s && ofa.X == ssa.Value(al) && o.Block() == s.Block() && instrIndex(s) < instrIndex(o) {
			return true
		}
	}
	return false
}

// storesNN: whatever is stored into the field is not nil.
func (z *pz) storesNN(a *ssa.FieldAddr, depth int) bool {
	k := fieldKey(a)
	if r, ok := z.nnDone["S"+k]; ok {
		return r
	}
	if z.nnBusy["S"+k] {
		return true
	}
	z.nnBusy["S"+k] = true
	defer delete(z.nnBusy, "S"+k)
	r := len(z.stores[k]) > 0
	for _, s := range z.stores[k] {
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isNilConst(s.Val) {
			if _, fresh := fa.X.(*ssa.Alloc); fresh {
				continue // how a value begins
			}
		}
		if !z.nonNil(s.Val, s.Block(), depth-1) && !z.setAgain(s) {
			r = false
		}
	}
	z.nnDone["S"+k] = r
	return r
}

// setBefore: every way from an entry point into fn passes a store into the field.
func (z *pz) setBefore(fn *ssa.Function, a *ssa.FieldAddr, at ssa.Instruction) bool {
	k := fieldKey(a)
	for _, s := range z.stores[k] {
		if s.Parent() == fn && dominatesInstr(s, at) {
			return true
		}
	}
	key := "B" + k + fmt.Sprintf("%p", fn)
	if r, ok := z.nnDone[key]; ok {
		return r
	}
	if z.nnBusy[key] {
		return true
	}
	z.nnBusy[key] = true
	defer delete(z.nnBusy, key)
	r := !z.roots[fn]
	if fn.Parent() != nil && len(z.liveSites(fn)) == 0 {
		r = false
	}
	sites := z.liveSites(fn)
	if len(sites) == 0 {
		r = false
	}
	for _, s := range sites {
		if r && !z.setBefore(s.Parent(), a, s) {
			r = false
		}
	}
	z.nnDone[key] = r
	return r
}

// getterFact: a guard says that the generated accessor of the field gives a value.
func (z *pz) getterFact(a *ssa.FieldAddr, fs []pfact) bool {
	st, ok := deref(a.X.Type()).Underlying().(*types.Struct)
	if !ok || !isProtoStruct(z.u, deref(a.X.Type())) {
		return false
	}
	name := "Get" + st.Field(a.Field).Name()
	for _, f := range fs {
		if f.k != 'n' || f.v == nil {
			continue
		}
		c, ok := f.v.(*ssa.Call)
		if !ok {
			continue
		}
		if g := c.Call.StaticCallee(); g != nil && z.pureGetter(g) && g.Name() == name && z.norm(c.Call.Args[0]) == z.norm(a.X) {
			return true
		}
	}
	return false
}

// popped: the last element of a list kept in a field is taken off by a function
// that runs after one that put an element on (that every element taken off was put
// on before, and only once, is what R05 decides).
func (z *pz) popped(x *ssa.Slice) bool {
	k := z.fieldOfLoad(x.X)
	if k == nil || x.High == nil {
		return false
	}
	t, c := z.lin(x.High)
	l, lc := z.length(x.X)
	if t != l || c != lc-1 {
		return false
	}
	if x.Low != nil {
		if n, ok := constInt(x.Low); !ok || n != 0 {
			return false
		}
	}
	fn := x.Parent()
	sites := z.liveSites(fn)
	if len(sites) == 0 {
		return false
	}
	z.poppedLists = true
	key := fieldKey(k)
	pushes := func(g *ssa.Function) bool {
		for _, s := range z.stores[key] {
			if s.Parent() != g {
				continue
			}
			if c, ok := strip(s.Val).(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return true
				}
			}
		}
		return false
	}
	for _, s := range sites {
		ok := false
		for f := s.Parent(); f != nil && !ok; f = f.Parent() {
			ok = pushes(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, isC := in.(ssa.CallInstruction); isC && !ok {
						if g := c.Common().StaticCallee(); g != nil && pushes(g) {
							ok = true
						}
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (z *pz) fieldOfLoad(v ssa.Value) *ssa.FieldAddr {
	v = z.norm(v)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, _ := u.X.(*ssa.FieldAddr)
	return fa
}

// ---------------------------------------------------------------- invariants of fields

// invariants decides a - b <= c from what holds of the fields of every value of a
// type: an offset kept in a field is at least zero and at most the length of a list
// beside it, a list kept in a field has at least so many elements, and rows kept in
// a field are as long as the first one. Each is shown of every place that sets the
// field, taking for granted that it held before.
func (z *pz) invariants(a, b tm, c int64) bool {
	if b.k == 'v' && a.k == 'z' && c >= 0 {
		if fa := z.ownField(b.v); fa != nil && z.fieldLo(fa) {
			return true
		}
	}
	if a.k == 'v' && b.k == 'n' {
		fa, fb := z.ownField(a.v), z.ownField(b.v)
		if fa != nil && fb != nil && c >= 0 && z.norm(fa.X) == z.norm(fb.X) && fa.Field != fb.Field && z.fieldHi(fa, fb) {
			return true
		}
		if c >= -1 && fa != nil && z.gridIndex(fa, b.v) {
			return true
		}
	}
	if b.k == 'n' && a.k == 'z' {
		if fb := z.ownField(b.v); fb != nil && c < 0 && c >= -3 && z.fieldLen(fb, -c) {
			return true
		}
	}
	return false
}

// ownField: v is loaded from a field of one of the repository's struct types.
func (z *pz) ownField(v ssa.Value) *ssa.FieldAddr {
	fa := z.fieldOfLoad(v)
	if fa == nil {
		return nil
	}
	n := namedOf(deref(fa.X.Type()))
	if n == nil || n.Obj().Pkg() == nil || isProtoStruct(z.u, n) {
		return nil
	}
	if _, ok := relPkg(n.Obj().Pkg()); !ok {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.Field(fa.Field).Exported() {
		return nil // anybody can set an exported field
	}
	return fa
}

func (z *pz) inductive(key string, f func() bool) bool {
	if r, ok := z.nnDone[key]; ok {
		return r
	}
	if z.nnBusy[key] {
		return true
	}
	z.nnBusy[key] = true
	steps := z.steps
	r := f()
	z.steps = steps
	delete(z.nnBusy, key)
	z.nnDone[key] = r
	return r
}

func (z *pz) fieldLo(fa *ssa.FieldAddr) bool {
	k := fieldKey(fa)
	if len(z.stores[k]) == 0 || z.taken(fa) {
		return false
	}
	return z.inductive("0"+k, func() bool {
		for _, s := range z.stores[k] {
			t, n := z.lin(s.Val)
			if !z.prove(zeroTm, t, n, z.facts(s.Block()), s.Block()) {
				return false
			}
		}
		return true
	})
}

// taken: the address of the field goes somewhere else than into loads and stores.
func (z *pz) taken(fa *ssa.FieldAddr) bool {
	k := fieldKey(fa)
	return z.inductive("T"+k, func() bool {
		for _, f := range z.u.Funcs {
			if !inRepo(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.FieldAddr)
					if !ok || fieldKey(x) != k {
						continue
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if y.Addr != ssa.Value(x) {
								return true
							}
						default:
							return true
						}
					}
				}
			}
		}
		return false
	})
}

func (z *pz) fieldHi(fa, fb *ssa.FieldAddr) bool {
	k, kb := fieldKey(fa), fieldKey(fb)
	if z.taken(fa) {
		return false
	}
	return z.inductive("1"+k+kb, func() bool {
		for _, s := range z.stores[kb] {
			x := s.Addr.(*ssa.FieldAddr)
			if _, ok := x.X.(*ssa.Alloc); !ok {
				return false // the list is replaced later
			}
		}
		for _, s := range z.stores[k] {
			x := s.Addr.(*ssa.FieldAddr)
			t, n := z.lin(s.Val)
			good := false
			if t == zeroTm && n == 0 {
				good = true
			}
			if t.k == 'v' && n <= 0 {
				if y := z.fieldOfLoad(t.v); y != nil && fieldKey(y) == k && z.norm(y.X) == z.norm(x.X) {
					good = true // no further than it was
				}
			}
			for _, b := range s.Parent().Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.UnOp)
					if !ok || good {
						continue
					}
					if y := z.fieldOfLoad(u); y != nil && fieldKey(y) == kb && z.norm(y.X) == z.norm(x.X) {
						if z.prove(t, tm{'n', z.norm(u)}, -n, z.facts(s.Block()), s.Block()) {
							good = true
						}
					}
				}
			}
			if !good && !z.belowByCall(s, x, fb, t, n) {
				return false
			}
		}
		return true
	})
}

// belowByCall: the success of a method called before says that the field is below the
// length of the other one.
func (z *pz) belowByCall(s *ssa.Store, x, fb *ssa.FieldAddr, t tm, n int64) bool {
	k, kb := fieldKey(x), fieldKey(fb)
	u, ok := t.v.(*ssa.UnOp)
	if t.k != 'v' || !ok {
		return false
	}
	y := z.fieldOfLoad(u)
	if y == nil || fieldKey(y) != k || z.norm(y.X) != z.norm(x.X) {
		return false
	}
	for _, gd := range guardsOf(s.Block()) {
		call, val := testOf(gd)
		if call == nil {
			continue
		}
		g := call.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 || !(dominatesInstr(call, u) && !z.writtenBetween(call, u, y) || dominatesInstr(u, call) && !z.writtenBetween(u, call, y)) {
			continue
		}
		for i, p := range g.Params {
			if i >= len(call.Call.Args) || z.norm(call.Call.Args[i]) != z.norm(x.X) {
				continue
			}
			var los, his []ssa.Value
			clean := true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if z.mayWrite(in, x) {
						clean = false
					}
					if w, ok := in.(*ssa.UnOp); ok {
						if f := z.fieldOfLoad(w); f != nil && z.norm(f.X) == ssa.Value(p) {
							switch fieldKey(f) {
							case k:
								los = append(los, w)
							case kb:
								his = append(his, w)
							}
						}
					}
				}
			}
			if !clean {
				continue
			}
			good := true
			for _, r := range returnsOf(g) {
				res := r.Results[len(r.Results)-1]
				fs := append([]pfact(nil), z.facts(r.Block())...)
				if isError(res.Type()) {
					if val && !isNilConst(res) && z.nonNil(res, r.Block(), 2) || !val && isNilConst(res) {
						continue
					}
				} else {
					if c, ok := res.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != val {
						continue
					}
					for _, gg := range expandGuard(res, val, nil) {
						fs = append(fs, z.condFacts(gg.Cond, gg.Val, 0)...)
					}
				}
				one := false
				for _, lo := range los {
					for _, hi := range his {
						p, pk := z.lin(lo)
						one = one || z.prove(p, tm{'n', z.norm(hi)}, -n-pk, fs, r.Block())
					}
				}
				good = good && one
			}
			if good {
				return true
			}
		}
	}
	return false
}

func (z *pz) fieldLen(fa *ssa.FieldAddr, m int64) bool {
	k := fieldKey(fa)
	if len(z.stores[k]) == 0 || z.taken(fa) {
		return false
	}
	return z.inductive(fmt.Sprintf("L%d", m)+k, func() bool {
		for _, al := range z.allocs[types.TypeString(deref(fa.X.Type()), nil)] {
			if !z.setsField(al, fa.Field) {
				return false
			}
		}
		for _, s := range z.stores[k] {
			t, n := z.length(s.Val)
			if !z.prove(zeroTm, t, n-m, z.facts(s.Block()), s.Block()) {
				return false
			}
		}
		return true
	})
}

// grid: rows kept in the field all have the length of the first one.
func (z *pz) grid(fa *ssa.FieldAddr) bool {
	k := fieldKey(fa)
	sl, ok := deref(fa.Type()).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if _, ok := sl.Elem().Underlying().(*types.Slice); !ok || len(z.stores[k]) == 0 {
		return false
	}
	return z.inductive("G"+k, func() bool {
		for _, s := range z.stores[k] {
			if isNilConst(s.Val) {
				continue
			}
			if src := z.ownField(s.Val); src != nil {
				if !z.grid(src) {
					return false
				}
				continue
			}
			c, ok := strip(s.Val).(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
				return false
			}
			src := z.ownField(c.Call.Args[0])
			if src == nil || fieldKey(src) != k {
				return false
			}
			row := singleElement(c.Call.Args[1])
			if row == nil {
				return false
			}
			if !z.firstOrFits(row, src, s.Block(), 4) {
				return false
			}
		}
		return true
	})
}

// singleElement: the one value that append adds.
func singleElement(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	n := 0
	for _, in := range *al.Referrers() {
		if ia, ok := in.(*ssa.IndexAddr); ok {
			for _, in2 := range *ia.Referrers() {
				if st, ok := in2.(*ssa.Store); ok {
					out = st.Val
					n++
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

// firstOrFits: on every way to the block either there are no rows yet or the row
// is as long as the first.
func (z *pz) firstOrFits(row ssa.Value, rows *ssa.FieldAddr, b *ssa.BasicBlock, depth int) bool {
	good := func(fs []pfact) bool {
		t, n := z.length(row)
		for _, f := range fs {
			if f.k != 'd' {
				continue
			}
			// len(rows) <= 0
			if f.q == zeroTm && f.c <= 0 && f.p.k == 'n' {
				if x := z.fieldOfLoad(f.p.v); x != nil && fieldKey(x) == fieldKey(rows) {
					return true
				}
			}
			// len(rows[0]) <= len(row)
			if f.q == t && f.c <= n && f.p.k == 'n' {
				if x, i := z.rowOf(f.p.v); x != nil && i == 0 && fieldKey(x) == fieldKey(rows) && z.prove(t, f.p, -n, fs, b) {
					return true
				}
			}
		}
		return false
	}
	if good(z.facts(b)) {
		return true
	}
	if depth == 0 || len(b.Preds) == 0 {
		return false
	}
	for _, p := range b.Preds {
		if !good(z.edgeFacts(p, b)) && !z.firstOrFits(row, rows, p, depth-1) {
			return false
		}
	}
	return true
}

// rowOf: v is a row of a field's list; gives the index if it is constant, else -1.
func (z *pz) rowOf(v ssa.Value) (*ssa.FieldAddr, int64) {
	v = z.norm(v)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, 0
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil, 0
	}
	i, isC := constInt(ia.Index)
	if !isC {
		i = -1
	}
	x := z.norm(ia.X)
	for {
		sl, ok := x.(*ssa.Slice)
		if !ok {
			break
		}
		x = z.norm(sl.X)
		i = -1
	}
	return z.ownField(x), i
}

// gridIndex: the index kept in a field lies within every row kept in another field
// of the same value.
func (z *pz) gridIndex(idx *ssa.FieldAddr, row ssa.Value) bool {
	rows, _ := z.rowOf(row)
	if rows == nil || z.norm(rows.X) != z.norm(idx.X) || !z.grid(rows) {
		return false
	}
	k, kr := fieldKey(idx), fieldKey(rows)
	return z.inductive("X"+k+kr, func() bool {
		n := 0
		for _, s := range z.stores[k] {
			x := s.Addr.(*ssa.FieldAddr)
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r := range z.stores[kr] {
				y := r.Addr.(*ssa.FieldAddr)
				if y.X != ssa.Value(al) {
					continue
				}
				src := z.ownField(r.Val)
				if src == nil {
					return false
				}
				if !z.belowFirst(s.Val, src, s) {
					return false
				}
				n++
			}
		}
		return n > 0
	})
}

func (z *pz) belowFirst(v ssa.Value, rows *ssa.FieldAddr, at ssa.Instruction) bool {
	t, n := z.lin(v)
	if p, ok := t.v.(*ssa.Parameter); ok && t.k == 'v' && n <= 0 && !z.roots[p.Parent()] && !z.values[p.Parent()] {
		sites := z.liveSites(p.Parent())
		good := len(sites) > 0
		for _, s := range sites {
			a := z.argOf(s, p.Parent(), p)
			good = good && a != nil && s.Parent() != p.Parent() && z.belowFirst(a, rows, s)
		}
		if good {
			return true
		}
	}
	for _, b := range at.Parent().Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok {
				continue
			}
			if x, i := z.rowOf(u); x != nil && i == 0 && fieldKey(x) == fieldKey(rows) {
				if z.prove(t, tm{'n', z.norm(u)}, -1-n, z.facts(at.Block()), at.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// undecided tells of the few places whose safety rests on what this analysis does
// not follow.
func (z *pz) undecided(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Panic:
		for _, g := range guardsOf(in.Block()) {
			// a table of the package has no entry for the key
			if e, ok := g.Cond.(*ssa.Extract); ok && !g.Val && e.Index == 1 {
				if l, ok := e.Tuple.(*ssa.Lookup); ok {
					if u, ok := l.X.(*ssa.UnOp); ok {
						if _, ok := u.X.(*ssa.Global); ok {
							return "panics where a table of the package lacks a key"
						}
					}
				}
			}
			// more attempts than a fixed limit
			if b, ok := g.Cond.(*ssa.BinOp); ok && (b.Op == token.GTR || b.Op == token.GEQ) && g.Val {
				if n, ok := constInt(b.Y); ok && n >= 1000 {
					return "panics after a fixed number of attempts"
				}
			}
		}
	case *ssa.Slice:
		for _, v := range []ssa.Value{x.Low, x.High} {
			if v == nil {
				continue
			}
			t, _ := z.lin(v)
			if t.k != 'v' {
				continue
			}
			if m, ok := t.v.(*ssa.BinOp); ok && m.Op == token.MUL {
				if p, ok := strip(m.X).(*ssa.Phi); ok {
					for _, e := range p.Edges {
						if a, ok := e.(*ssa.BinOp); ok && a.Op == token.ADD {
							if _, c := constInt(a.Y); !c {
								return "multiples of offsets that grow by varying amounts"
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// oneSet: the facts say that several fields of one value are all nil, but every
// value of the type has one of them set.
func (z *pz) oneSet(fs []pfact) bool {
	groups := map[string]map[int]bool{}
	typ := map[string]types.Type{}
	for _, f := range fs {
		if f.k != 'i' {
			continue
		}
		u, ok := f.v.(*ssa.UnOp)
		if !ok {
			if fl, ok := f.v.(*ssa.Field); ok {
				k := fmt.Sprintf("%p", z.norm(fl.X))
				if groups[k] == nil {
					groups[k] = map[int]bool{}
				}
				groups[k][fl.Field] = true
				typ[k] = fl.X.Type()
			}
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		k := fmt.Sprintf("%p", z.norm(fa.X))
		if groups[k] == nil {
			groups[k] = map[int]bool{}
		}
		groups[k][fa.Field] = true
		typ[k] = deref(fa.X.Type())
	}
	for k, fields := range groups {
		t := typ[k]
		tn := types.TypeString(t, nil)
		n := namedOf(t)
		if len(fields) < 2 || n == nil || isProtoStruct(z.u, t) || n.Obj().Exported() {
			continue
		}
		if z.inductive("O"+tn+fmt.Sprint(len(fields)), func() bool {
			made := 0
			for _, al := range z.allocs[tn] {
				whole, set := false, false
				for _, in := range *al.Referrers() {
					switch y := in.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(al) {
							whole = true
						}
					case *ssa.FieldAddr:
						if !fields[y.Field] {
							continue
						}
						for _, in2 := range *y.Referrers() {
							if st, ok := in2.(*ssa.Store); ok && st.Addr == ssa.Value(y) && z.nonNil(st.Val, st.Block(), 10) {
								set = true
							}
						}
					}
				}
				if !whole && !set {
					return false
				}
				if set {
					made++
				}
			}
			return made > 0
		}) {
			return true
		}
	}
	return false
}

// closedSet: blk is entered for none of the values that a switch around it admits.
// For every value compared with constants, the set of constants it can be is
// followed along the control flow.
func (z *pz) closedSet(blk *ssa.BasicBlock) bool {
	fn := blk.Parent()
	subjects := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, _, _ := eqConst(z, ifi.Cond); v != nil {
				subjects[v] = true
			}
		}
	}
	for v := range subjects {
		if z.emptyAt(fn, v, blk) {
			return true
		}
	}
	return false
}

func eqConst(z *pz, c ssa.Value) (ssa.Value, string, bool) {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, "", false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return nil, "", false
	}
	return z.norm(x), k.Value.ExactString(), b.Op == token.EQL
}

// emptyAt: no value of v reaches blk.
func (z *pz) emptyAt(fn *ssa.Function, v ssa.Value, blk *ssa.BasicBlock) bool {
	if d, ok := v.(ssa.Instruction); ok && !(d.Block() != blk && d.Block().Dominates(blk)) {
		return false
	}
	return !z.valuesAt(fn, v, blk, 3).seen
}

// constSet is a set of constants: those in m, or all but those in m.
type constSet struct {
	top  bool
	m    map[string]bool
	seen bool
}

// startSet: the constants that v can be where it is made.
func (z *pz) startSet(fn *ssa.Function, v ssa.Value, depth int) constSet {
	all := constSet{top: true, m: map[string]bool{}, seen: true}
	p, ok := v.(*ssa.Parameter)
	if !ok || depth == 0 || z.roots[fn] || len(z.liveSites(fn)) == 0 {
		return all
	}
	out := constSet{m: map[string]bool{}, seen: true}
	for _, s := range z.liveSites(fn) {
		a := z.argOf(s, fn, p)
		if a == nil {
			return all
		}
		if k, ok := a.(*ssa.Const); ok && k.Value != nil {
			out.m[k.Value.ExactString()] = true
			continue
		}
		a = z.norm(a)
		if d, ok := a.(ssa.Instruction); ok && !(d.Block() != s.Block() && d.Block().Dominates(s.Block())) {
			return all
		}
		x := z.valuesAt(s.Parent(), a, s.Block(), depth-1)
		if !x.seen {
			continue
		}
		if x.top {
			return all
		}
		for k := range x.m {
			out.m[k] = true
		}
	}
	return out
}

func (z *pz) valuesAt(fn *ssa.Function, v ssa.Value, blk *ssa.BasicBlock, depth int) constSet {
	type set = constSet
	in := make([]set, len(fn.Blocks))
	start := fn.Blocks[0]
	if d, ok := v.(ssa.Instruction); ok && d.Block() != nil {
		start = d.Block()
	}
	in[start.Index] = z.startSet(fn, v, depth)
	work := []*ssa.BasicBlock{start}
	for steps := 0; len(work) > 0 && steps < 20000; steps++ {
		b := work[0]
		work = work[1:]
		s := in[b.Index]
		for i, succ := range b.Succs {
			o := set{top: s.top, m: map[string]bool{}, seen: true}
			for k := range s.m {
				o.m[k] = true
			}
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				if x, k, eq := eqConst(z, ifi.Cond); x == v {
					is := eq == (i == 0)
					switch {
					case is && o.top && !o.m[k] || is && !o.top && o.m[k]:
						o = set{m: map[string]bool{k: true}, seen: true}
					case is:
						continue
					case o.top:
						o.m[k] = true
					default:
						delete(o.m, k)
						if len(o.m) == 0 {
							continue
						}
					}
				}
			}
			t := &in[succ.Index]
			if succ == start && v != nil {
				if _, ok := v.(ssa.Instruction); ok {
					continue
				}
			}
			if !t.seen {
				*t = o
				work = append(work, succ)
				continue
			}
			ch := false
			switch {
			case t.top && o.top:
				for k := range t.m {
					if !o.m[k] {
						delete(t.m, k)
						ch = true
					}
				}
			case t.top:
				for k := range o.m {
					if t.m[k] {
						delete(t.m, k)
						ch = true
					}
				}
			case o.top:
				for k := range t.m {
					delete(o.m, k)
				}
				*t = o
				ch = true
			default:
				for k := range o.m {
					if !t.m[k] {
						t.m[k] = true
						ch = true
					}
				}
			}
			if ch {
				work = append(work, succ)
			}
		}
	}
	return in[blk.Index]
}

const prPkg = "google.golang.org/protobuf/reflect/protoreflect."

// protoCalls: what the protobuf reflection functions demand of their arguments.
func protoCalls(z *pz, in ssa.Instruction, c ssa.CallInstruction) {
	cc := c.Common()
	b := in.Block()
	fs := z.facts(b)
	if cc.IsInvoke() {
		recv := types.TypeString(cc.Value.Type(), nil)
		switch {
		case recv == prPkg+"List" && (cc.Method.Name() == "Get" || cc.Method.Name() == "Set") && len(cc.Args) > 0:
			t, k := z.lin(cc.Args[0])
			lo := z.prove(zeroTm, t, k, fs, b)
			hi := false
			if v := z.lenOf(in, cc.Value); v != nil {
				q, qk := z.lin(v)
				hi = z.prove(t, q, qk-1-k, fs, b)
			}
			z.ok(lo && hi, "list-index", in, "the index into a list of the message may be negative or too large")
		case recv == prPkg+"Message" && (cc.Method.Name() == "Get" || cc.Method.Name() == "NewField" || cc.Method.Name() == "Has" || cc.Method.Name() == "Set" || cc.Method.Name() == "Mutable"):
			z.ok(z.nonNil(cc.Args[0], b, 40), "descriptor", in, "the field may be nil")
			z.ok(z.fieldOf(cc.Args[0], cc.Value, 6), "descriptor", in, "the field may belong to another kind of message")
		case recv == prPkg+"Map" && (cc.Method.Name() == "Get" || cc.Method.Name() == "Has" || cc.Method.Name() == "Set"):
			z.ok(z.keyKindChecked(b), "map-key", in, "the key may not be of the kind of the map's keys")
		}
		return
	}
	n := calleeName(cc)
	if !strings.HasPrefix(n, prPkg+"(Value).") {
		return
	}
	if fn := in.Parent(); z.roots[fn] && len(fn.Blocks) == 1 && fn.Signature.Recv() != nil {
		z.r.Count("kinds chosen by the caller", 1)
		return // an accessor that hands the call on
	}
	switch m := n[len(prPkg+"(Value)."):]; m {
	case "Map", "List", "Message":
		good := false
		for _, f := range fs {
			if f.k == 'y' && types.TypeString(f.typ, nil) == prPkg+m {
				good = true
			}
			if f.k == 't' {
				if x, ok := f.v.(*ssa.Call); ok && x.Call.IsInvoke() && x.Call.Method.Name() == "Is"+m {
					good = true
				}
			}
		}
		z.ok(good, "value-kind", in, "the value may not be a %s", strings.ToLower(m))
	case "MapKey":
		good := false
		if x, ok := strip(cc.Args[0]).(*ssa.Call); ok {
			if f := calleeName(&x.Call); f == prPkg+"ValueOf" {
				if mi, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
					if bt, ok := mi.X.Type().(*types.Basic); ok {
						switch bt.Kind() {
						case types.Bool, types.Int32, types.Int64, types.Uint32, types.Uint64, types.String:
							good = true
						}
					}
				}
			} else if strings.HasPrefix(f, prPkg+"ValueOf") {
				switch f[len(prPkg+"ValueOf"):] {
				case "Bool", "Int32", "Int64", "Uint32", "Uint64", "String":
					good = true
				}
			}
		}
		z.ok(good, "map-key", in, "the value may not be of a kind that keys have")
	case "Bool", "Int", "Uint", "Float", "Bytes", "Enum":
		z.bad("value-kind", in, "the value may be of another kind than %s expects", m)
	}
}

// lenOf finds the length of the same list, taken before.
func (z *pz) lenOf(in ssa.Instruction, lst ssa.Value) ssa.Value {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Len" && z.norm(c.Call.Value) == z.norm(lst) && dominatesInstr(c, in) {
				return c
			}
		}
	}
	return nil
}

// fieldOf: the field was looked up in the description of the message.
func (z *pz) fieldOf(fd, m ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	fd = z.norm(fd)
	switch x := fd.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return z.fieldFromCall(c, x.Index, m, depth)
		}
	case *ssa.Call:
		if !x.Call.IsInvoke() {
			return z.fieldFromCall(x, 0, m, depth)
		}
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Descriptor" {
			return z.norm(x.Call.Value) == z.norm(m)
		}
		if x.Call.IsInvoke() {
			return z.fieldOf(x.Call.Value, m, depth-1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isNilConst(e) && !z.fieldOf(e, m, depth-1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := z.liveSites(x.Parent())
		mp, ok := z.norm(m).(*ssa.Parameter)
		if !ok || len(sites) == 0 || z.roots[x.Parent()] {
			return false
		}
		for _, s := range sites {
			a, b := z.argOf(s, x.Parent(), x), z.argOf(s, x.Parent(), mp)
			if a == nil || b == nil || !z.fieldOf(a, b, depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

// fieldFromCall: a helper looked the field up in the description of a message it was given.
func (z *pz) fieldFromCall(c *ssa.Call, idx int, m ssa.Value, depth int) bool {
	g := c.Call.StaticCallee()
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	for i, p := range g.Params {
		if i >= len(c.Call.Args) || z.norm(c.Call.Args[i]) != z.norm(m) {
			continue
		}
		good := true
		for _, r := range returnsOf(g) {
			if idx >= len(r.Results) || !isNilConst(r.Results[idx]) && !z.fieldOf(r.Results[idx], p, depth-1) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

// deepGuards are the guards of a block, with those that helpers imply by their result.
func (z *pz) deepGuards(b *ssa.BasicBlock) []Guard {
	out := guardsOf(b)
	for i := 0; i < len(out) && i < 200; i++ {
		gd := out[i]
		call, val := testOf(gd)
		if call == nil {
			if c, ok := gd.Cond.(*ssa.Call); ok {
				call, val = c, gd.Val
			} else {
				continue
			}
		}
		g := call.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
			continue
		}
		var more []Guard
		n := 0
		for _, r := range returnsOf(g) {
			res := r.Results[len(r.Results)-1]
			if isError(res.Type()) {
				if isNilConst(res) != val && (isNilConst(res) || z.nonNil(res, r.Block(), 2)) {
					continue
				}
				n++
				more = guardsOf(r.Block())
				continue
			}
			if c, ok := res.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != val {
				continue
			}
			n++
			more = append(guardsOf(r.Block()), expandGuard(res, val, nil)...)
		}
		if n == 1 {
			out = append(out, more...)
		}
	}
	return out
}

// keyKindChecked: a guard compares the kind of the map's keys.
func (z *pz) keyKindChecked(b *ssa.BasicBlock) bool {
	isKeyKind := func(v ssa.Value) bool {
		c, ok := z.norm(v).(*ssa.Call)
		if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Kind" {
			return false
		}
		k, ok := z.norm(c.Call.Value).(*ssa.Call)
		return ok && k.Call.IsInvoke() && k.Call.Method.Name() == "MapKey"
	}
	for _, g := range z.deepGuards(b) {
		x, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if (x.Op.String() == "==") == g.Val && (x.Op.String() == "==" || x.Op.String() == "!=") && (isKeyKind(x.X) || isKeyKind(x.Y)) {
			return true
		}
	}
	return false
}

// builderCalls: the functions that build descriptions of messages panic if a name
// is not one that protobuf can express or is taken already.
func builderCalls(z *pz, in ssa.Instruction, c ssa.CallInstruction) {
	cc := c.Common()
	g := cc.StaticCallee()
	if g == nil || g.Pkg == nil && g.Object() == nil {
		return
	}
	pkg := ""
	if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	if pkg != "github.com/jhump/protoreflect/desc/builder" {
		return
	}
	b := in.Block()
	name := g.Name()
	checkedName := func(v ssa.Value) bool {
		v = z.norm(v)
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			return true
		}
		if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "fmt.Sprintf" {
			// a valid name with a number behind it
			f, okF := z.u.constStr(call.Call.Args[0], nil)
			if !okF {
				return false
			}
			return strings.HasPrefix(f, "%s") && strings.Trim(f[2:], "%d_0123456789abcdefghijklmnopqrstuvwxyz") == ""
		}
		for _, gd := range guardsOf(b) {
			call, means := testOf(gd)
			if call == nil || !means {
				continue
			}
			for _, a := range call.Call.Args {
				if z.norm(a) == v {
					return true
				}
			}
		}
		return false
	}
	switch {
	case g.Signature.Recv() == nil && strings.HasPrefix(name, "New") && len(cc.Args) > 0 && isStringType(cc.Args[0].Type()):
		if name == "NewFile" {
			return
		}
		z.ok(checkedName(cc.Args[0]), "builder", in, "%s panics if the name is not one that protobuf can express, and nothing checks it before", name)
	case name == "SetName" && len(cc.Args) == 2:
		z.ok(checkedName(cc.Args[1]), "builder", in, "SetName panics if the name is not one that protobuf can express, and nothing checks it before")
	case g.Signature.Recv() != nil && strings.HasPrefix(name, "Add"):
		if !hasMethod(g.Signature.Recv().Type(), "Try"+name) {
			return
		}
		good := false
		for _, f := range z.facts(b) {
			// no element has the name yet
			if call, ok := f.v.(*ssa.Call); ok && f.k == 'i' && strings.HasSuffix(calleeName(&call.Call), "Get"+name[3:]) && len(call.Call.Args) > 0 && z.norm(call.Call.Args[0]) == z.norm(cc.Args[0]) {
				good = true
			}
		}
		z.ok(good, "builder", in, "%s panics if the name is taken already; Try%s gives an error", name, name)
	}
}

// testOf: the guard is the outcome of a call: an error that is nil, or a true result.
func testOf(g Guard) (*ssa.Call, bool) {
	switch x := g.Cond.(type) {
	case *ssa.Call:
		return x, g.Val
	case *ssa.BinOp:
		v, o := x.X, x.Y
		if isNilConst(v) {
			v, o = o, v
		}
		if !isNilConst(o) || !isError(v.Type()) {
			return nil, false
		}
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		c, _ := v.(*ssa.Call)
		return c, (x.Op == token.EQL) == g.Val
	}
	return nil, false
}
