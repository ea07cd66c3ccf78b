package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// What decoding rows and texts relies on (N05): results of functions called by
// reflection, values kept in a context under a key of its own, entries that are
// filled in after they are made, and fields of structs of the user.

// byReflection: v is the list of results of a function called by reflection, one
// of them, or what one of them holds.
func (z *pz) byReflection(v ssa.Value, depth int) bool {
	if depth == 0 || v == nil {
		return false
	}
	v = z.norm(v)
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "reflect.(Value).Call":
			return true
		case "reflect.(Value).Interface":
			return z.byReflection(x.Call.Args[0], depth-1)
		}
		if g := x.Call.StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
			rs := returnsOf(g)
			for _, r := range rs {
				if !z.byReflection(r.Results[0], depth-1) {
					return false
				}
			}
			return len(rs) > 0
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 {
				rs := returnsOf(g)
				for _, r := range rs {
					if !z.byReflection(r.Results[x.Index], depth-1) {
						return false
					}
				}
				return len(rs) > 0
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return z.byReflection(ia.X, depth-1)
		}
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			sts := storesTo(cell)
			for _, st := range sts {
				if !z.byReflection(st.Val, depth-1) {
					return false
				}
			}
			return len(sts) > 0
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !z.byReflection(e, depth-1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if z.roots[x.Parent()] {
			return false
		}
		sites := z.liveSites(x.Parent())
		for _, s := range sites {
			if !z.byReflection(z.argOf(s, x.Parent(), x), depth-1) {
				return false
			}
		}
		return len(sites) > 0
	}
	return false
}

// keyOf: the constant under which something is kept in a map with keys of any type.
func keyOf(v ssa.Value) (*ssa.Const, types.Type) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return nil, nil
	}
	c, _ := mi.X.(*ssa.Const)
	return c, mi.X.Type()
}

// lookedUp: v is what a lookup in a map kept in a field gives; key is the key in
// the frame of v's function, or the argument of the call whose result v is.
func (z *pz) lookedUp(v ssa.Value, depth int) (fa *ssa.FieldAddr, key ssa.Value) {
	if depth == 0 {
		return nil, nil
	}
	v = z.norm(v)
	idx := 0
	if e, ok := v.(*ssa.Extract); ok {
		idx = e.Index
		v = e.Tuple
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		if idx != 0 {
			return nil, nil
		}
		if ld, ok := z.norm(x.X).(*ssa.UnOp); ok && ld.Op == token.MUL {
			if f, ok := ld.X.(*ssa.FieldAddr); ok {
				return f, x.Index
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !inRepo(g) {
			return nil, nil
		}
		for i, r := range returnsOf(g) {
			f, k := z.lookedUp(r.Results[idx], depth-1)
			if f == nil {
				return nil, nil
			}
			if p, ok := k.(*ssa.Parameter); ok && p.Parent() == g {
				k = z.argOf(x, g, p)
			}
			if i > 0 && (fieldKey(fa) != fieldKey(f) || key != k) {
				return nil, nil
			}
			fa, key = f, k
		}
		return fa, key
	}
	return nil, nil
}

// keptUnder: whatever the map in the field holds under the key is of type t, and
// it holds something. The key's type belongs to the package, so that nobody else
// has a key like it.
func (z *pz) keptUnder(fa *ssa.FieldAddr, key ssa.Value, t types.Type) bool {
	kc, kt := keyOf(key)
	if kc == nil || kc.Value == nil {
		return false
	}
	n := namedOf(kt)
	fk := fieldKey(fa)
	private := n != nil && n.Obj().Pkg() != nil && !n.Obj().Exported()
	ofField := func(m ssa.Value) bool {
		if ld, ok := z.norm(m).(*ssa.UnOp); ok && ld.Op == token.MUL {
			if f, ok := ld.X.(*ssa.FieldAddr); ok && fieldKey(f) == fk {
				return true
			}
		}
		for _, st := range z.stores[fk] {
			if z.norm(st.Val) == z.norm(m) {
				return true
			}
		}
		return false
	}
	var keyed func(k, v ssa.Value, at *ssa.BasicBlock, depth int) (ok, hit bool)
	keyed = func(k, v ssa.Value, at *ssa.BasicBlock, depth int) (ok, hit bool) {
		if depth == 0 {
			return false, false
		}
		c, ct := keyOf(k)
		switch {
		case ct != nil && !types.Identical(ct, kt):
			return true, false
		case c != nil && c.Value != nil && c.Value.ExactString() != kc.Value.ExactString():
			return true, false
		case c != nil && c.Value != nil:
			return z.dynType(v, t, at, 4), true
		}
		if e, ok := k.(*ssa.Extract); ok {
			// copied from another one
			nx, ok1 := e.Tuple.(*ssa.Next)
			e2, ok2 := z.norm(v).(*ssa.Extract)
			if !ok1 || !ok2 || e2.Tuple != e.Tuple || e.Index != 1 || e2.Index != 2 {
				return false, false
			}
			rg, ok := nx.Iter.(*ssa.Range)
			return ok && ofField(rg.X), false
		}
		if p, ok := k.(*ssa.Parameter); ok {
			fn := p.Parent()
			if z.roots[fn] && !private {
				return false, false
			}
			for _, s := range z.sites[fn] {
				val := v
				if q, ok := z.norm(v).(*ssa.Parameter); ok && q.Parent() == fn {
					val = z.argOf(s, fn, q)
				}
				if ok, _ := keyed(z.argOf(s, fn, p), val, s.Block(), depth-1); !ok {
					return false, false
				}
			}
			return z.roots[fn] || len(z.sites[fn]) > 0, false
		}
		return false, false
	}
	// every value made of the type gets an entry under the key before it is handed out
	entered := map[*ssa.Function][]*ssa.MapUpdate{}
	for _, ups := range z.mapup {
		for _, up := range ups {
			if !ofField(up.Map) {
				continue
			}
			ok, hit := keyed(up.Key, up.Value, up.Block(), 4)
			if !ok {
				return false
			}
			if hit {
				entered[up.Parent()] = append(entered[up.Parent()], up)
			}
		}
	}
	n2 := 0
	for _, st := range z.stores[fk] {
		n2++
		ok := false
		for _, up := range entered[st.Parent()] {
			all := true
			for _, r := range returnsOf(st.Parent()) {
				if !mustPass(st.Parent(), up.Block(), r.Block()) && reachBlock(st.Block(), r.Block()) {
					all = false
				}
			}
			ok = ok || all
		}
		if !ok {
			return false
		}
	}
	return n2 > 0
}

func reachBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// onlyForItsType: the value is made to ask reflection for its type.
func onlyForItsType(al *ssa.Alloc) bool {
	n := 0
	for _, in := range *al.Referrers() {
		mi, ok := in.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		for _, in2 := range *mi.Referrers() {
			c, ok := in2.(*ssa.Call)
			if !ok || calleeName(&c.Call) != "reflect.TypeOf" {
				return false
			}
			n++
		}
	}
	return n > 0
}

// setLater: on every way from the making of the value to the end of the function
// the field is given a value (through the same variable).
func (z *pz) setLater(al *ssa.Alloc, field int, depth int) bool {
	return z.setFrom(al, types.TypeString(deref(al.Type()), nil)+"#"+strconv.Itoa(field), depth, 3)
}

func (z *pz) setFrom(al ssa.Instruction, k string, depth, up int) bool {
	if up == 0 {
		return false
	}
	aliases := map[ssa.Value]bool{al.(ssa.Value): true}
	grow := []ssa.Value{al.(ssa.Value)}
	for len(grow) > 0 {
		v := grow[0]
		grow = grow[1:]
		if v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Phi:
				if !aliases[x] {
					aliases[x] = true
					grow = append(grow, x)
				}
			case *ssa.Store:
				if cell := cellOf(x.Addr); cell != nil && x.Val == v && cellSimple(cell) {
					for _, r := range *cell.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL && !aliases[ld] {
							aliases[ld] = true
							grow = append(grow, ld)
						}
					}
				}
			}
		}
	}
	set := map[*ssa.BasicBlock]bool{}
	for _, s := range z.stores[k] {
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !aliases[fa.X] || s.Parent() != al.Parent() {
			continue
		}
		if isNilConst(s.Val) || !z.nonNil(s.Val, s.Block(), depth-1) {
			continue
		}
		if s.Block() == al.Block() && instrIndex(s) < instrIndex(al) {
			continue
		}
		set[s.Block()] = true
	}
	// or by a helper it is handed to
	for v := range aliases {
		if v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			c, ok := in.(*ssa.Call)
			if !ok || c.Parent() != al.Parent() {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
				continue
			}
			for i, a := range c.Call.Args {
				if a == v && i < len(g.Params) && z.setsParamField(g, g.Params[i], k, depth-1) {
					set[c.Block()] = true
				}
			}
		}
	}
	if len(set) == 0 {
		// or by the functions it is returned to
		fn := al.Parent()
		rs := returnsOf(fn)
		for _, r := range rs {
			if len(r.Results) != 1 || !aliases[r.Results[0]] {
				return false
			}
		}
		if z.roots[fn] || len(rs) == 0 || len(z.sites[fn]) == 0 {
			return false
		}
		for _, s := range z.sites[fn] {
			c, ok := s.(*ssa.Call)
			if !ok || !z.setFrom(c, k, depth, up-1) {
				return false
			}
		}
		return true
	}
	// nothing leaves the function before
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{al.Block()}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || set[x] {
			continue
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

// setsParamField: before it returns, g gives the field of its parameter a value.
func (z *pz) setsParamField(g *ssa.Function, p *ssa.Parameter, k string, depth int) bool {
	for _, s := range z.stores[k] {
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || s.Parent() != g || z.onlyValue(fa.X) != ssa.Value(p) || isNilConst(s.Val) || !z.nonNil(s.Val, s.Block(), depth) {
			continue
		}
		all := true
		for _, r := range returnsOf(g) {
			all = all && mustPass(g, s.Block(), r.Block())
		}
		if all {
			return true
		}
	}
	return false
}

// reader: a method that only reads fields of its receiver, and gives what they
// hold or a constant.
func (z *pz) reader(g *ssa.Function) ([]*ssa.FieldAddr, bool) {
	if !inRepo(g) || len(g.Blocks) == 0 || len(g.Params) != 1 || g.Signature.Recv() == nil {
		return nil, false
	}
	var reads []*ssa.FieldAddr
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if x.X != ssa.Value(g.Params[0]) {
					return nil, false
				}
				reads = append(reads, x)
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil, false
				}
				if _, ok := x.X.(*ssa.FieldAddr); !ok {
					return nil, false
				}
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
			default:
				return nil, false
			}
		}
	}
	return reads, len(reads) > 0
}

// readWritten: something the reader reads may be written between a and b.
func (z *pz) readWritten(reads []*ssa.FieldAddr, a, b ssa.Instruction) bool {
	return between(a, b, func(in ssa.Instruction) bool {
		for _, fa := range reads {
			if st, ok := in.(*ssa.Store); ok {
				if f2, ok := st.Addr.(*ssa.FieldAddr); ok {
					if fieldKey(f2) == fieldKey(fa) {
						return true
					}
					continue
				}
				if types.Identical(deref(st.Addr.Type()), deref(fa.X.Type())) {
					return true
				}
				continue
			}
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				if _, ok := z.reader(c.Call.StaticCallee()); ok {
					continue
				}
			}
			if z.mayWrite(in, fa) {
				return true
			}
		}
		return false
	})
}

// structFields: a field of a struct of the user is set through reflection only if
// the field is exported.
func structFields(z *pz, in ssa.Instruction, c ssa.CallInstruction) {
	cc := c.Common()
	if cc.IsInvoke() && typeIs(cc.Value.Type(), "reflect", "Type") {
		switch cc.Method.Name() {
		case "Elem":
			z.ok(z.kindChecked(cc.Value, kindsWithElem, in.Block(), 5), "kind", in, "the type may be one that has no element type")
		case "NumField", "Field", "FieldByIndex":
			z.ok(z.kindChecked(cc.Value, kindStruct, in.Block(), 5), "kind", in, "the type may be one that is not a struct")
		}
		return
	}
	n := calleeName(cc)
	switch n {
	case "reflect.(Value).FieldByIndex", "reflect.(Value).Field", "reflect.(Value).FieldByName":
	default:
		return
	}
	z.ok(z.exportedChecked(cc.Args[1], in.Block(), 4), "exported", in, "the field may be one that is not exported, whose value reflection does not give")
}

// exportedChecked: on the way to blk, or to where the function of blk was made,
// something was asked about the field's being exported.
func (z *pz) exportedChecked(idx ssa.Value, blk *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	for _, g := range z.deepGuards(blk) {
		if asksExported(g.Cond, 6, map[ssa.Value]bool{}) {
			return true
		}
	}
	fn := blk.Parent()
	if mk := closureSite(fn); mk != nil {
		return z.exportedChecked(idx, mk.Block(), depth-1)
	}
	if z.roots[fn] {
		return false
	}
	sites := z.liveSites(fn)
	for _, s := range sites {
		if !z.exportedChecked(idx, s.Block(), depth-1) {
			return false
		}
	}
	return len(sites) > 0
}

func asksExported(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if depth == 0 || v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if c, ok := v.(*ssa.Call); ok {
		n := calleeName(&c.Call)
		if n == "reflect.(StructField).IsExported" || n == "reflect.(Value).CanSet" || n == "reflect.(Value).CanInterface" {
			return true
		}
		if g := c.Call.StaticCallee(); g != nil && inRepo(g) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if w, ok := in.(ssa.Value); ok && asksExported(w, depth-1, seen) {
						return true
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if typeIs(deref(x.X.Type()), "reflect", "StructField") && fieldName(x) == "PkgPath" {
			return true
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok && typeIs(x.X.Type(), "reflect", "StructField") && st.Field(x.Field).Name() == "PkgPath" {
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	var ops [8]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if op != nil && *op != nil && asksExported(*op, depth, seen) {
			return true
		}
	}
	return false
}

var (
	kindsWithElem = map[int64]bool{int64(reflect.Array): true, int64(reflect.Chan): true, int64(reflect.Map): true, int64(reflect.Ptr): true, int64(reflect.Slice): true}
	kindStruct    = map[int64]bool{int64(reflect.Struct): true}
)

// kindChecked: at blk the kind of the type v is one of the given ones.
func (z *pz) kindChecked(v ssa.Value, kinds map[int64]bool, blk *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	v = z.onlyValue(v)
	if t := z.u.reflectTypeOf(v, 0); t != nil {
		switch t.Underlying().(type) {
		case *types.Struct:
			return kinds[int64(reflect.Struct)]
		case *types.Pointer, *types.Slice, *types.Array, *types.Map, *types.Chan:
			return kinds[int64(reflect.Ptr)]
		}
		return false
	}
	if c, ok := v.(*ssa.Call); ok {
		switch calleeName(&c.Call) {
		case "reflect.PtrTo", "reflect.PointerTo":
			return kinds[int64(reflect.Ptr)]
		}
	}
	for _, g := range z.deepGuards(blk) {
		b, ok := g.Cond.(*ssa.BinOp)
		if !ok || !(b.Op == token.EQL && g.Val || b.Op == token.NEQ && !g.Val) {
			continue
		}
		x, y := b.X, b.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		c, ok := y.(*ssa.Const)
		if !ok || c.Value == nil || !typeIs(c.Type(), "reflect", "Kind") || !kinds[c.Int64()] {
			continue
		}
		k, ok := z.onlyValue(x).(*ssa.Call)
		if !ok || !k.Call.IsInvoke() || k.Call.Method.Name() != "Kind" {
			continue
		}
		if b.Parent() != blk.Parent() || z.sameType(k.Call.Value, v) {
			return true
		}
	}
	// seen where the value comes from
	fn := blk.Parent()
	if o := valueParent(v); o != nil && o != fn || o == nil {
		if mk := closureSite(fn); mk != nil {
			return z.kindChecked(v, kinds, mk.Block(), depth-1)
		}
	}
	if e, ok := v.(*ssa.Call); ok && e.Call.IsInvoke() && fn.Parent() != nil {
		// the element type of a type of the enclosing function
		if o := valueParent(z.onlyValue(e.Call.Value)); o != fn {
			if mk := closureSite(fn); mk != nil {
				return z.kindChecked(v, kinds, mk.Block(), depth-1)
			}
		}
	}
	if p, ok := v.(*ssa.Parameter); ok && !z.roots[p.Parent()] {
		sites := z.liveSites(p.Parent())
		for _, s := range sites {
			if !z.kindChecked(z.argOf(s, p.Parent(), p), kinds, s.Block(), depth-1) {
				return false
			}
		}
		return len(sites) > 0
	}
	return false
}

// sameType: two values that are the same reflect.Type.
func (z *pz) sameType(a, b ssa.Value) bool {
	a, b = z.onlyValue(a), z.onlyValue(b)
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	return ok1 && ok2 && x.Call.IsInvoke() && y.Call.IsInvoke() && x.Call.Method == y.Call.Method && x.Call.Method.Name() == "Elem" && z.sameType(x.Call.Value, y.Call.Value)
}

// onlyValue: what a variable that is set once holds.
func (z *pz) onlyValue(v ssa.Value) ssa.Value {
	v = z.norm(v)
	for i := 0; i < 4; i++ {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return v
		}
		cell := cellOf(ld.X)
		if cell == nil || !cellSimple(cell) {
			return v
		}
		sts := storesTo(cell)
		if len(sts) != 1 {
			return v
		}
		v = z.norm(sts[0].Val)
	}
	return v
}
