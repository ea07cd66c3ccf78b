package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V01: every CSV cell reaches the field its column is named for.

// cellTracer finds the values a value of csvcoder may be a plain copy of,
// through variables, parameters, results and the fields of structs, whoever
// stores to them, with the branch outcomes on the way.
type cellTracer struct {
	u      *Unit
	z      *pz
	stores map[string][]*ssa.Store
	stop   func(ssa.Value) bool
}

type cellLeaf struct {
	v  ssa.Value
	gs []Guard
}

func (t *cellTracer) leaves(v ssa.Value) []cellLeaf {
	var out []cellLeaf
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, gs []Guard, depth int)
	results := func(fn *ssa.Function, idx int, gs []Guard, depth int) {
		for _, r := range returnsOf(fn) {
			if n := len(r.Results) - 1; idx < n && isError(r.Results[n].Type()) && !isNilConst(r.Results[n]) && t.z.nonNil(r.Results[n], r.Block(), 4) {
				continue // no value but an error
			}
			if idx < len(r.Results) {
				walk(r.Results[idx], append(append([]Guard{}, gs...), guardsOf(r.Block())...), depth-1)
			}
		}
	}
	walk = func(v ssa.Value, gs []Guard, depth int) {
		if v == nil || depth == 0 {
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
			gs = append(append([]Guard{}, gs...), guardsOf(in.Block())...)
		}
		if t.stop != nil && t.stop(v) {
			out = append(out, cellLeaf{v, gs})
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				walk(e, append(append([]Guard{}, gs...), edgeGuards(x.Block(), i)...), depth-1)
			}
			return
		case *ssa.ChangeType:
			walk(x.X, gs, depth-1)
			return
		case *ssa.ChangeInterface:
			walk(x.X, gs, depth-1)
			return
		case *ssa.MakeInterface:
			walk(x.X, gs, depth-1)
			return
		case *ssa.Convert:
			if types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) || isIntType(x.X.Type()) && isIntType(x.Type()) && !narrow(x.Type()) {
				walk(x.X, gs, depth-1)
				return
			}
		case *ssa.FreeVar:
			if b := freeVarBinding(x); b != nil {
				walk(b, gs, depth-1)
				return
			}
		case *ssa.Parameter:
			n := 0
			for _, s := range t.u.callSites(x.Parent()) {
				if a := siteArg(s, x.Parent(), paramIndex(x)); a != nil {
					walk(a, append(append([]Guard{}, gs...), guardsOf(s.Block())...), depth-1)
					n++
				}
			}
			if n > 0 {
				return
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && inRepo(f) && len(f.Blocks) > 0 {
					results(f, x.Index, gs, depth)
					return
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && inRepo(f) && len(f.Blocks) > 0 {
				results(f, 0, gs, depth)
				return
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				break
			}
			if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
				for _, s := range storesTo(cell) {
					g := append(append([]Guard{}, gs...), guardsOf(s.Block())...)
					walk(s.Val, append(g, keptUntil(cell, s, x)...), depth-1)
				}
				return
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if sts := t.stores[fieldKey(fa)]; len(sts) > 0 {
					for _, s := range sts {
						walk(s.Val, append(append([]Guard{}, gs...), guardsOf(s.Block())...), depth-1)
					}
					return
				}
			}
		case *ssa.Field:
			if sts := t.stores[fieldKeyOf(x)]; len(sts) > 0 {
				for _, s := range sts {
					walk(s.Val, append(append([]Guard{}, gs...), guardsOf(s.Block())...), depth-1)
				}
				return
			}
		}
		out = append(out, cellLeaf{v, gs})
	}
	walk(v, nil, 40)
	return out
}

// keptUntil finds the branch outcomes taken on every way on which what s
// stored in the variable is still there when it is read: by load, or, where
// load is in a closure, once the closure is made.
func keptUntil(cell *ssa.Alloc, s *ssa.Store, load *ssa.UnOp) []Guard {
	fn := cell.Parent()
	if s.Parent() != fn {
		return nil
	}
	stops, targets := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	others := 0
	for _, o := range storesTo(cell) {
		if o.Parent() != fn {
			return nil
		}
		if o != s {
			others++
			if o.Block() == s.Block() {
				return nil
			}
		}
		stops[o.Block()] = true
	}
	if others == 0 {
		return nil
	}
	if load.Parent() == fn {
		targets[load.Block()] = true
	} else {
		for _, ref := range *cell.Referrers() {
			if mc, ok := ref.(*ssa.MakeClosure); ok {
				targets[mc.Block()] = true
			}
		}
	}
	for b := range targets {
		if stops[b] {
			return nil // read in a block that stores: the order is not followed
		}
	}
	if len(targets) == 0 {
		return nil
	}
	reach := func(without *ssa.BasicBlock, succ int) bool {
		seen := map[*ssa.BasicBlock]bool{}
		todo := []*ssa.BasicBlock{s.Block()}
		for len(todo) > 0 {
			b := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for i, n := range b.Succs {
				if b == without && i == succ || seen[n] || stops[n] {
					continue
				}
				if targets[n] {
					return true
				}
				seen[n] = true
				todo = append(todo, n)
			}
		}
		return false
	}
	var out []Guard
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 || len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i := range b.Succs {
			if !reach(b, i) {
				out = append(out, Guard{Cond: br.Cond, Val: i == 0})
			}
		}
	}
	return out
}

// headerPlace: keep, which records a name and a place, is run for each cell of
// a header with the cell and its index.
func headerPlace(u *Unit, z *pz, keep ssa.Instruction, key, place ssa.Value, cellsOf func(ssa.Value) string, depth int) (bool, string) {
	const other = "it is not the place its name was read from"
	key = z.norm(key)
	at, off := z.lin(place)
	if ld, isLoad := key.(*ssa.UnOp); isLoad {
		ia, isIdx := ld.X.(*ssa.IndexAddr)
		if !isIdx {
			return false, other
		}
		if a, k := z.lin(ia.Index); a != at || k != off {
			return false, other
		}
		if w := cellsOf(ia.X); w != "" {
			return false, w
		}
		why, ok := eachTurn(z, keep, nil)
		return ok && why == "", why
	}
	// a helper that is given both
	k, ok1 := key.(*ssa.Parameter)
	p, ok2 := at.v.(*ssa.Parameter)
	if !ok1 || !ok2 || at.k != 'v' || off != 0 || depth == 0 || k.Parent() != p.Parent() || k.Parent() != keep.Parent() {
		return false, other
	}
	fn := keep.Parent()
	for _, r := range returnsOf(fn) {
		if !keep.Block().Dominates(r.Block()) {
			return false, "not every cell is recorded"
		}
	}
	sites := u.callSites(fn)
	for _, s := range sites {
		ka, pa := siteArg(s, fn, paramIndex(k)), siteArg(s, fn, paramIndex(p))
		if ka == nil || pa == nil {
			return false, other
		}
		if ok, why := headerPlace(u, z, s.(ssa.Instruction), ka, pa, cellsOf, depth-1); !ok {
			return false, why
		}
	}
	return len(sites) > 0, other
}

func fieldKeyOf(f *ssa.Field) string {
	return types.TypeString(f.X.Type(), nil) + fmt.Sprintf("#%d", f.Field)
}

// structFieldPart: v is a part of a reflect.StructField; base is where that is kept.
func structFieldPart(v ssa.Value) (part string, base ssa.Value) {
	isSF := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "StructField"
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isSF(deref(fa.X.Type())) {
			return fieldName(fa), fa.X
		}
	case *ssa.Field:
		if isSF(x.X.Type()) {
			return reflectStruct(x.X.Type(), x.Field), x.X
		}
	}
	return "", nil
}

func reflectStruct(t types.Type, i int) string {
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(i).Name()
	}
	return ""
}

// tagLookup: the call looks up a key of the tag of a field.
func tagLookup(c *ssa.Call) (key string, base ssa.Value) {
	if c == nil || calleeName(&c.Call) != "reflect.(StructTag).Lookup" || len(c.Call.Args) != 2 {
		return "", nil
	}
	k, ok := c.Call.Args[1].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", nil
	}
	if p, b := structFieldPart(c.Call.Args[0]); p == "Tag" {
		return constant.StringVal(k.Value), b
	}
	return constant.StringVal(k.Value), c.Call.Args[0]
}

// tagTest: the outcome says that the field has, or has not, the tag.
func tagTest(cond ssa.Value, key string) bool {
	e, ok := cond.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	c, _ := e.Tuple.(*ssa.Call)
	k, _ := tagLookup(c)
	return k == key && c != nil
}

// fieldSource: the calls of reflect that gave the struct field kept at base.
func (t *cellTracer) fieldSource(base ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	t.sourceInto(base, out, map[ssa.Value]bool{})
	return out
}

func (t *cellTracer) sourceInto(base ssa.Value, out, seen map[ssa.Value]bool) {
	if seen[base] {
		return
	}
	seen[base] = true
	var vs []ssa.Value
	if a := resolveLocal(base); a != nil {
		for _, s := range storesTo(a) {
			vs = append(vs, s.Val)
		}
	}
	if len(vs) == 0 {
		if fa, ok := base.(*ssa.FieldAddr); ok {
			for _, s := range t.stores[fieldKey(fa)] {
				vs = append(vs, s.Val)
			}
		} else {
			vs = append(vs, base)
		}
	}
	for _, v := range vs {
		for _, l := range t.leaves(v) {
			// a copy of a field kept elsewhere
			if ld, ok := l.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
				t.sourceInto(ld.X, out, seen)
				continue
			}
			if a, ok := l.v.(*ssa.Alloc); ok && a != base {
				t.sourceInto(a, out, seen)
				continue
			}
			out[l.v] = true
		}
	}
}

func sameSet(a, b map[ssa.Value]bool) bool {
	if len(a) == 0 || len(a) != len(b) {
		return false
	}
	for v := range a {
		if !b[v] {
			return false
		}
	}
	return true
}

func isReflectNamed(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == name
}

// columnMap: a map from column names to places, or a set of column names.
func columnMap(t types.Type) (places, names bool) {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringType(m.Key()) {
		return false, false
	}
	if isIntType(m.Elem()) {
		return true, false
	}
	switch e := m.Elem().Underlying().(type) {
	case *types.Struct:
		return false, e.NumFields() == 0
	case *types.Basic:
		return false, e.Kind() == types.Bool
	}
	return false, false
}

// nameOfColumn reports what is wrong with a text that names a column, and the
// fields it was taken from.
func (t *cellTracer) nameOfColumn(v ssa.Value) (why string, of map[ssa.Value]bool, tag, name bool) {
	of = map[ssa.Value]bool{}
	for _, l := range t.leaves(v) {
		switch x := l.v.(type) {
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if k, b := tagLookup(c); k == "csv" && x.Index == 0 {
					tag = true
					for s := range t.fieldSource(b) {
						of[s] = true
					}
					continue
				}
			}
			if _, ok := x.Tuple.(*ssa.Next); ok {
				continue // a key of a set of names
			}
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				continue // an element of a list of names
			}
			if p, b := structFieldPart(x); p == "Name" {
				for s := range t.fieldSource(b) {
					of[s] = true
				}
				name = true
				if !t.untagged(l.gs) {
					return "the name of a field is used although it has a csv tag", of, tag, name
				}
				continue
			}
		case *ssa.Field:
			if p, b := structFieldPart(x); p == "Name" {
				for s := range t.fieldSource(b) {
					of[s] = true
				}
				name = true
				if !t.untagged(l.gs) {
					return "the name of a field is used although it has a csv tag", of, tag, name
				}
				continue
			}
		case *ssa.Parameter:
			continue // the caller's
		}
		return "it is not a plain copy of a csv tag, a field's name or a cell of the header: " + whatIs(l.v), of, tag, name
	}
	return "", of, tag, name
}

func whatIs(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		return "the result of " + calleeName(&c.Call)
	}
	return strings.TrimPrefix(reflect.TypeOf(v).String(), "*ssa.") + " " + v.String()
}

func (t *cellTracer) untagged(gs []Guard) bool {
	for _, g := range gs {
		if t.u.guardGives(g.Cond, g.Val, nil, func(c ssa.Value, val bool, _ *frame) bool { return !val && tagTest(c, "csv") }, 0) {
			return true
		}
	}
	return false
}

// skipReason: the outcome is a reason to leave a field out.
func skipReason(cond ssa.Value, val bool, _ *frame) bool {
	if tagTest(cond, "csv-skip") {
		return val
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		if c, ok := b.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
			if p, _ := structFieldPart(a); p == "PkgPath" {
				return (x.Op == token.NEQ) == val && (x.Op == token.NEQ || x.Op == token.EQL)
			}
		}
	case *ssa.Call:
		return calleeName(&x.Call) == "reflect.(StructField).IsExported" && !val
	}
	return false
}

// byResult: the outcome tells whether a result of a function is nil, and every
// return that fits it is where the fact q holds.
func (t *cellTracer) byResult(q func(ssa.Value, bool, *frame) bool) func(ssa.Value, bool, *frame) bool {
	return func(cond ssa.Value, val bool, fr *frame) bool {
		if q(cond, val, fr) {
			return true
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		v := b.X
		if isNilConst(v) {
			v = b.Y
		} else if !isNilConst(b.Y) {
			return false
		}
		idx := 0
		if e, ok := v.(*ssa.Extract); ok {
			v, idx = e.Tuple, e.Index
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil || !inRepo(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() <= idx || isError(f.Signature.Results().At(idx).Type()) {
			return false
		}
		isNil := (b.Op == token.EQL) == val
		n := 0
		for _, r := range returnsOf(f) {
			res := r.Results[idx]
			if isNilConst(res) != isNil && (isNilConst(res) || t.z.nonNil(res, r.Block(), 4) || isClosure(res)) {
				continue
			}
			if last := r.Results[len(r.Results)-1]; isError(last.Type()) && !isNilConst(last) && t.z.nonNil(last, r.Block(), 4) {
				continue
			}
			if !t.u.established(r.Block(), nil, q) {
				return false
			}
			n++
		}
		return n > 0
	}
}

func isClosure(v ssa.Value) bool {
	if c, ok := v.(*ssa.ChangeType); ok {
		v = c.X
	}
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

// eachTurn checks that every turn of the loop around keep reaches it, unless a
// skip reason holds, and that the loop is left early only with an error.
func eachTurn(z *pz, keep ssa.Instruction, skip func(ssa.Value, bool, *frame) bool) (string, bool) {
	body := sccOf(keep.Block())
	if body == nil {
		return "", false
	}
	var head *ssa.BasicBlock
	for b := range body {
		if head == nil || b.Dominates(head) {
			head = b
		}
	}
	// the innermost loop around keep
	inner := naturalLoop(head)
	for d := keep.Block(); d != nil && body[d]; d = d.Idom() {
		if l := naturalLoop(d); l != nil && l[keep.Block()] {
			head, inner = d, l
			break
		}
	}
	// a turn without it
	seen := map[*ssa.BasicBlock]bool{}
	var turn func(b *ssa.BasicBlock) bool
	turn = func(b *ssa.BasicBlock) bool {
		if b == keep.Block() {
			return false
		}
		ifi, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	next:
		for i, s := range b.Succs {
			if !inner[s] {
				continue
			}
			if ifi != nil && skip != nil && b.Succs[0] != b.Succs[1] {
				for _, g := range expandGuard(ifi.Cond, i == 0, ifi) {
					if z.u.guardGives(g.Cond, g.Val, nil, skip, 0) {
						continue next
					}
				}
			}
			if s == head {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if turn(s) {
					return true
				}
			}
		}
		return false
	}
	if keep.Block() != head && turn(head) {
		return "a turn of the loop may do without it", true
	}
	// an early end
	for b := range inner {
		if b == head {
			continue
		}
		for _, s := range b.Succs {
			if inner[s] {
				continue
			}
			for x := range reach(s, true) {
				if r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) == 0 {
						return "the loop may end early", true
					}
					last := r.Results[len(r.Results)-1]
					if !isError(last.Type()) || !z.nonNil(last, x, 6) && !errAfter(last, b, s) {
						return "the loop may end early without an error", true
					}
				}
			}
		}
	}
	return "", true
}

// naturalLoop: the blocks of the loop that head is the start of.
func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	inner := map[*ssa.BasicBlock]bool{head: true}
	var back []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back = append(back, p)
		}
	}
	if len(back) == 0 {
		return nil
	}
	for len(back) > 0 {
		b := back[0]
		back = back[1:]
		if inner[b] {
			continue
		}
		inner[b] = true
		back = append(back, b.Preds...)
	}
	return inner
}

// errAfter: on the edge the error is known not to be nil.
func errAfter(err ssa.Value, from, to *ssa.BasicBlock) bool {
	ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for i, s := range from.Succs {
		if s != to {
			continue
		}
		for _, g := range expandGuard(ifi.Cond, i == 0, ifi) {
			if b, ok := g.Cond.(*ssa.BinOp); ok && (b.X == err && isNilConst(b.Y) || b.Y == err && isNilConst(b.X)) && (b.Op == token.NEQ) == g.Val {
				return true
			}
		}
	}
	return false
}

func init() {
	register("V01", func(w *World, r *Report) {
		u := w.Host
		z := newPZ(u, newReport("V01"), "V01", u.entryPoints("csvcoder"))
		t := &cellTracer{u: u, z: z, stores: map[string][]*ssa.Store{}}
		var fns []*ssa.Function
		for _, fn := range u.LibFuncs() {
			if p := fnPkg(fn); strings.HasSuffix(p, "/csvcoder") || p == "csvcoder" {
				fns = append(fns, fn)
				r.Count("functions", 1)
			}
		}
		each := func(f func(fn *ssa.Function, in ssa.Instruction)) {
			for _, fn := range fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						f(fn, in)
					}
				}
			}
		}
		each(func(fn *ssa.Function, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					k := fieldKey(fa)
					t.stores[k] = append(t.stores[k], s)
				}
			}
		})
		tags, names, sinks, loops, cols := 0, 0, 0, 0, 0
		read := map[ssa.Value]bool{} // lists of cells that were read
		var cellsOf func(list ssa.Value) (why string)
		cellsOf = func(list ssa.Value) (why string) {
			for _, l := range t.leaves(list) {
				switch x := l.v.(type) {
				case *ssa.Slice:
					if x.Low != nil {
						if n, ok := constInt(x.Low); !ok || n != 0 {
							return "the first cells of the row are cut off"
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 {
						// a copy
						if isNilConst(x.Call.Args[0]) || z.emptyList(x.Call.Args[0]) {
							if why := cellsOf(x.Call.Args[1]); why != "" {
								return why
							}
							continue
						}
					}
					if !x.Call.IsInvoke() {
						return "the cells come from " + whatIs(x)
					}
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); !ok || !c.Call.IsInvoke() {
						return "the cells come from " + whatIs(x)
					}
				}
				read[l.v] = true
			}
			return ""
		}
		// names of columns
		each(func(fn *ssa.Function, in ssa.Instruction) {
			var m, key ssa.Value
			switch x := in.(type) {
			case *ssa.Lookup:
				m, key = x.X, x.Index
			case *ssa.MapUpdate:
				m, key = x.Map, x.Key
			default:
				return
			}
			places, set := columnMap(m.Type())
			if !places && !set {
				return
			}
			r.Count("names of columns", 1)
			why, _, tag, name := t.nameOfColumn(key)
			if tag {
				tags++
			}
			if name {
				names++
			}
			r.Check(why == "", "column-name", fnName(fn), u.InstrPos(in), "a column is not looked up by the very name the field's tag or the header has: %s", why)
			if up, ok := in.(*ssa.MapUpdate); ok && places {
				// the place of a header's cell
				cols++
				ok, why := headerPlace(u, z, up, key, up.Value, cellsOf, 4)
				r.Check(ok, "header-place", fnName(fn), u.InstrPos(in), "the place of a column is not recorded for each cell of the header: %s", why)
			}
		})
		// cells and the fields they go to
		done := map[*ssa.Function]bool{}
		each(func(fn *ssa.Function, in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			var text, dst ssa.Value
			args := c.Common().Args
			for _, a := range args {
				if isStringType(a.Type()) {
					text = a
				}
				if isReflectNamed(a.Type(), "Value") {
					dst = a
				}
			}
			if text == nil || dst == nil {
				return
			}
			var at *ssa.Call
			d := dst
			for i := 0; i < 6; i++ {
				ls := t.leaves(d)
				if len(ls) != 1 {
					break
				}
				call, ok := ls[0].v.(*ssa.Call)
				if !ok || len(call.Call.Args) == 0 {
					break
				}
				if n := calleeName(&call.Call); n == "reflect.(Value).FieldByIndex" || n == "reflect.(Value).Field" {
					at = call
					break
				}
				d = call.Call.Args[0]
			}
			if at == nil || at.Parent() != fn && !strings.Contains(calleeName(c.Common()), ".") {
				return
			}
			sinks++
			key := fnName(fn)
			// the cell
			var cells []*ssa.IndexAddr
			why := ""
			for _, l := range t.leaves(text) {
				ld, _ := l.v.(*ssa.UnOp)
				ia, ok := (*ssa.IndexAddr)(nil), false
				if ld != nil {
					ia, ok = ld.X.(*ssa.IndexAddr)
				}
				if !ok {
					why = "it is not a plain copy of a cell of the row: " + whatIs(l.v)
					break
				}
				if why = cellsOf(ia.X); why != "" {
					break
				}
				cells = append(cells, ia)
			}
			r.Check(why == "" && len(cells) > 0, "cell-text", key, u.InstrPos(in), "the text decoded into a field is not the cell as it was read: %s", why)
			of := map[ssa.Value]bool{}
			for _, ia := range cells {
				why := ""
				tm, k := z.lin(ia.Index)
				if k != 0 || tm.v == nil {
					why = "something is added to the place of its column"
				} else {
					for _, l := range t.leaves(tm.v) {
						var lk *ssa.Lookup
						switch x := l.v.(type) {
						case *ssa.Lookup:
							lk = x
						case *ssa.Extract:
							lk, _ = x.Tuple.(*ssa.Lookup)
						case *ssa.Const:
							if n, ok := constInt(x); ok && n < 0 {
								continue
							}
						}
						if lk == nil {
							why = "its place is not that of a column of the header: " + whatIs(l.v)
							break
						}
						_, o, _, _ := t.nameOfColumn(lk.Index)
						for s := range o {
							of[s] = true
						}
					}
				}
				r.Check(why == "", "cell-place", key, u.InstrPos(ia), "the cell decoded into a field is not the one of its column: %s", why)
			}
			// the field
			to := map[ssa.Value]bool{}
			for _, l := range t.leaves(at.Call.Args[1]) {
				if p, b := structFieldPart(l.v); p == "Index" {
					for s := range t.fieldSource(b) {
						to[s] = true
					}
				} else {
					// the number the field was asked for
					for s := range of {
						if sc, ok := s.(*ssa.Call); ok && len(sc.Call.Args) == 1 {
							a, ka := z.lin(sc.Call.Args[0])
							b, kb := z.lin(l.v)
							if a == b && ka == kb {
								to[s] = true
							}
						}
					}
				}
			}
			r.Check(sameSet(of, to), "same-field", key, u.InstrPos(in), "the cell of one field's column may be decoded into another field")
			// every field has its turn
			var climb func(call ssa.Instruction, depth int)
			climb = func(call ssa.Instruction, depth int) {
				f := call.Parent()
				if depth == 0 {
					return
				}
				if why, in := eachTurn(z, call, t.byResult(skipReason)); in {
					loops++
					r.Check(why == "", "every-field", fnName(f), u.InstrPos(call), "a field may be left without its cell: %s", why)
					return
				}
				if !done[f] {
					done[f] = true
					for _, ret := range returnsOf(f) {
						last := ssa.Value(nil)
						if n := len(ret.Results); n > 0 {
							last = ret.Results[n-1]
						}
						if call.Block().Dominates(ret.Block()) || last != nil && isError(last.Type()) && z.nonNil(last, ret.Block(), 6) {
							continue
						}
						r.Check(false, "every-field", fnName(f), u.InstrPos(ret), "a field may be left without its cell: the function may return without an error before it is decoded")
					}
				}
				for _, s := range u.callSites(f) {
					climb(s, depth-1)
				}
			}
			climb(in, 4)
		})
		// nothing changes the cells that were read
		each(func(fn *ssa.Function, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isStringType(st.Val.Type()) {
				return
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				return
			}
			own := false
			for _, l := range t.leaves(ia.X) {
				own = own || read[l.v]
			}
			if !own {
				return
			}
			same := false
			if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if from, ok := ld.X.(*ssa.IndexAddr); ok {
					a, ka := z.lin(from.Index)
					b, kb := z.lin(ia.Index)
					same = a == b && ka == kb
				}
			}
			r.Check(same, "cell-text", fnName(fn), u.InstrPos(in), "a cell that was read is replaced by another text")
		})
		// every public field is found
		found := 0
		each(func(fn *ssa.Function, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !isReflectNamed(c.Type(), "StructField") || len(c.Call.Args) != 1 || !c.Call.IsInvoke() {
				return
			}
			found++
			// the number counts from 0 to the number of fields
			why := "it does not count through all fields"
			idx := c.Call.Args[0]
			if sl, ok := idx.(*ssa.Slice); ok {
				if a, ok := sl.X.(*ssa.Alloc); ok {
					if els := arrayElems(a); len(els) == 1 {
						idx = els[0]
					}
				}
			}
			if phi, ok := z.norm(idx).(*ssa.Phi); ok {
				zero, step := false, false
				for _, e := range phi.Edges {
					tm, k := z.lin(e)
					zero = zero || tm.k == 'z' && k == 0
					step = step || tm.v == ssa.Value(phi) && k == 1
				}
				bound := false
				for _, g := range guardsOf(c.Block()) {
					b, ok := g.Cond.(*ssa.BinOp)
					if !ok {
						continue
					}
					x, y, op := b.X, b.Y, b.Op
					if op == token.GTR || op == token.LEQ {
						x, y = y, x
						op = map[token.Token]token.Token{token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
					}
					if z.norm(x) != ssa.Value(phi) || !((op == token.LSS || op == token.NEQ) && g.Val || op == token.GEQ && !g.Val) {
						continue
					}
					for _, l := range t.leaves(y) {
						if n, ok := l.v.(*ssa.Call); ok && n.Call.IsInvoke() && n.Call.Method.Name() == "NumField" {
							bound = true
						}
					}
				}
				if zero && step && bound && len(phi.Edges) >= 2 {
					why = ""
				}
			}
			r.Check(why == "", "all-fields", fnName(fn), u.InstrPos(in), "not every field of the struct is looked at: %s", why)
		})
		// what is kept of them
		skip := t.byResult(skipReason)
		unskipped := t.byResult(func(c ssa.Value, val bool, _ *frame) bool { return !val && tagTest(c, "csv-skip") })
		kept := 0
		filtered := true
		var lists []*ssa.Call
		each(func(fn *ssa.Function, in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			bi, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" {
				return
			}
			sl, ok := call.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			if _, basic := sl.Elem().Underlying().(*types.Basic); basic {
				return
			}
			// in a loop over the fields
			body := sccOf(call.Block())
			over := false
			for b := range body {
				for _, k := range b.Instrs {
					switch x := k.(type) {
					case *ssa.Call:
						over = over || x.Call.IsInvoke() && isReflectNamed(x.Type(), "StructField")
					case *ssa.IndexAddr:
						over = over || isReflectNamed(deref(x.Type()), "StructField")
					}
				}
			}
			if !over {
				return
			}
			kept++
			why, _ := eachTurn(z, call, skip)
			r.Check(why == "", "all-fields", fnName(fn), u.InstrPos(call), "a public field may be left out: %s", why)
			if isReflectNamed(sl.Elem(), "StructField") {
				filtered = filtered && u.established(call.Block(), nil, unskipped)
			} else {
				lists = append(lists, call)
			}
		})
		for _, call := range lists {
			r.Check(u.established(call.Block(), nil, unskipped) || filtered && kept > len(lists), "skipped-fields", fnName(call.Parent()), u.InstrPos(call), "a field with a csv-skip tag is not left out")
		}
		r.Count("kept fields", kept)
		r.Check(tags > 0 && names > 0, "column-name", "csvcoder", "csvcoder", "columns are not looked up by the csv tag or, without one, the name of the field")
		r.Check(cols > 0, "header-place", "csvcoder", "csvcoder", "the places of the columns are not recorded")
		r.Check(sinks > 0 && loops > 0, "cell-text", "csvcoder", "csvcoder", "no cell is decoded into a field")
		r.Check(found > 0 && kept > 0, "all-fields", "csvcoder", "csvcoder", "the fields of the struct are not looked at")
	})
}

// emptyList: v has no elements.
func (z *pz) emptyList(v ssa.Value) bool {
	t, n := z.length(v)
	return t.k == 'z' && n == 0
}

// arrayElems: what is stored in a local array.
func arrayElems(a *ssa.Alloc) (out []ssa.Value) {
	for _, in := range *a.Referrers() {
		if ia, ok := in.(*ssa.IndexAddr); ok {
			for _, in2 := range *ia.Referrers() {
				if s, ok := in2.(*ssa.Store); ok && s.Addr == ia {
					out = append(out, s.Val)
				}
			}
		}
	}
	return
}
