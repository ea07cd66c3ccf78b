package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- nil

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// mayBeNil: functions of other packages whose only result can be nil.
var mayBeNil = map[string]bool{
	"ByName": true, "ByNumber": true, "ByJSONName": true, "ByTextName": true, "ByIndex": false,
	"MapKey": true, "MapValue": true, "Message": false, "Enum": true, "ContainingOneof": true, "ContainingMessage": true, "WhichOneof": true,
	"Value": false, "Unwrap": true, "GetMessage": true, "GetField": true, "FindMessage": true, "FindSymbol": true, "FindFieldByName": true, "Lookup": true,
	"FindMethod": true, "SubexpIndex": false, "Err": true,
}

func (z *pz) nonNil(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	return z.nn(v, z.facts(at), at, depth)
}

func (z *pz) nn(v ssa.Value, fs []pfact, at *ssa.BasicBlock, depth int) bool {
	v = z.norm(v)
	if !nilable(v.Type()) {
		return true
	}
	for _, f := range fs {
		if f.k == 'n' && f.v == v {
			return true
		}
	}
	if depth <= 0 {
		return false
	}
	key := fmt.Sprintf("%p", v)
	if z.nnBusy[key] {
		return true // assumed while it is being decided
	}
	z.nnBusy[key] = true
	defer delete(z.nnBusy, key)
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Function, *ssa.MakeClosure, *ssa.Builtin, *ssa.Slice:
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.Convert:
		return true
	case *ssa.ChangeInterface:
		return z.nn(x.X, fs, at, depth)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !z.nn(e, z.edgeFacts(x.Block().Preds[i], x.Block()), x.Block().Preds[i], depth-1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return z.paramNN(x, depth)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return z.nn(b, nil, nil, depth-1)
		}
	case *ssa.TypeAssert:
		return true // of a value that was not nil; typed nils are not put into interfaces unchecked (see the construct rule)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			for _, f := range fs {
				if e, ok := f.v.(*ssa.Extract); ok && f.k == 't' && e.Tuple == x.Tuple && e.Index == 1 {
					return true
				}
			}
			return false
		case *ssa.Lookup:
			for _, f := range fs {
				if e, ok := f.v.(*ssa.Extract); ok && f.k == 't' && e.Tuple == x.Tuple && e.Index == 1 {
					return z.mapValuesNN(t.X, depth)
				}
			}
			return false
		case *ssa.Next:
			if x.Index == 2 || x.Index == 1 {
				if rg, ok := t.Iter.(*ssa.Range); ok {
					if x.Index == 2 {
						return z.mapValuesNN(rg.X, depth)
					}
					return true
				}
			}
		case *ssa.Call:
			ok := z.tupleOK(t, x.Index, fs)
			return z.callNN(t, x.Index, ok, depth)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && (x.Call.Method.Name() == "MapKey" || x.Call.Method.Name() == "MapValue") {
			// not nil for a field that is a map
			for _, f := range fs {
				if f.k == 'y' && types.TypeString(f.typ, nil) == prPkg+"Map" {
					return true
				}
				if c, ok := f.v.(*ssa.Call); ok && f.k == 't' && c.Call.IsInvoke() && c.Call.Method.Name() == "IsMap" && z.norm(c.Call.Value) == z.norm(x.Call.Value) {
					return true
				}
			}
		}
		return z.callNN(x, 0, false, depth)
	case *ssa.Lookup:
		return false
	case *ssa.Field:
		return z.fieldNN(types.TypeString(x.X.Type(), nil), x.Field, x.X.Type(), depth)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return z.loadNN(x, fs, at, depth)
		}
	case *ssa.BinOp:
		return true
	}
	return false
}

// tupleOK: a guard says that the call that gave the tuple succeeded.
func (z *pz) tupleOK(c *ssa.Call, idx int, fs []pfact) bool {
	for _, f := range fs {
		e, ok := f.v.(*ssa.Extract)
		if !ok || e.Tuple != ssa.Value(c) || e.Index == idx {
			continue
		}
		if f.k == 'i' && isError(e.Type()) || f.k == 't' {
			return true
		}
	}
	return false
}

func (z *pz) callNN(c *ssa.Call, idx int, succeeded bool, depth int) bool {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name() == "append" || b.Name() == "recover"
	}
	if re := z.regexOf(c, "FindStringSubmatch", "FindSubmatch", "FindStringIndex", "FindIndex", "FindStringSubmatchIndex"); re != nil && z.matchesAll(re, c) {
		return true
	}
	for _, a := range cc.Args {
		// what is looked up by a key that another table holds was put in with it
		if e, ok := z.norm(a).(*ssa.Extract); ok && e.Index == 1 {
			if nx, ok := e.Tuple.(*ssa.Next); ok && !nx.IsString && z.keysLookedUp(nx, cc.StaticCallee()) {
				return true
			}
		}
	}
	var targets []*ssa.Function
	if cc.IsInvoke() {
		targets = z.u.implementations(cc)
		if len(targets) == 0 {
			return z.externNN(cc, idx, succeeded)
		}
		if it := namedOf(cc.Value.Type()); it != nil && it.Obj().Pkg() != nil {
			if _, ok := relPkg(it.Obj().Pkg()); !ok {
				return z.externNN(cc, idx, succeeded)
			}
		}
	} else if g := cc.StaticCallee(); g != nil {
		if !inRepo(g) || len(g.Blocks) == 0 {
			return z.externNN(cc, idx, succeeded)
		}
		targets = append(targets, g)
	} else {
		if targets = z.dynTargets(cc); len(targets) == 0 {
			return z.externNN(cc, idx, succeeded)
		}
	}
	for _, g := range targets {
		if !z.resultNN(g, idx, succeeded, depth-1) {
			return false
		}
	}
	return true
}

// keysLookedUp: wherever a key is put into the table that is gone through, the same
// key is handed to the function get as well (which is followed by an addition if it
// finds nothing).
func (z *pz) keysLookedUp(nx *ssa.Next, get *ssa.Function) bool {
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok || get == nil {
		return false
	}
	k := types.TypeString(rg.X.Type().Underlying(), nil)
	n := 0
	for _, up := range z.mapup[k] {
		n++
		good := false
		for _, b := range up.Parent().Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !z.callReaches(c, get) || c.Common().StaticCallee() == nil {
					continue
				}
				for _, a := range c.Common().Args {
					if z.norm(a) == z.norm(up.Key) && (dominatesInstr(up, in) || dominatesInstr(in, up)) {
						good = true
					}
				}
			}
		}
		if !good {
			return false
		}
	}
	return n > 0
}

// dynTargets: the functions of the repository a function value of this type can be.
func (z *pz) dynTargets(cc *ssa.CallCommon) []*ssa.Function {
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, fn := range z.fns {
		if fn.Signature.Recv() == nil && types.Identical(fn.Signature, sig) && z.values[fn] {
			out = append(out, fn)
		}
	}
	return out
}

func (z *pz) externNN(cc *ssa.CallCommon, idx int, succeeded bool) bool {
	sig := cc.Signature()
	if sig.Results().Len() > 1 && isError(sig.Results().At(sig.Results().Len()-1).Type()) {
		return succeeded || !nilable(sig.Results().At(idx).Type())
	}
	if sig.Results().Len() > idx && isError(sig.Results().At(idx).Type()) {
		n := calleeName(cc)
		return n == "fmt.Errorf" || n == "errors.New" || strings.HasSuffix(n, "status.Errorf") || strings.HasSuffix(n, "status.Error")
	}
	n := calleeName(cc)
	if n == "reflect.(Value).Interface" {
		return false // whatever the value holds
	}
	return !mayBeNil[n[strings.LastIndex(n, ".")+1:]]
}

// boxedNN: no nil pointer of type t is converted to an interface like m.
func (z *pz) boxedNN(t types.Type, m *types.Interface, depth int) bool {
	if _, ok := t.Underlying().(*types.Pointer); !ok || m == nil {
		return true
	}
	for _, fn := range z.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !types.Identical(mi.X.Type(), t) {
					continue
				}
				it, ok := mi.Type().Underlying().(*types.Interface)
				if !ok || !types.Implements(it, m) {
					continue
				}
				if !z.nonNil(mi.X, b, depth) {
					return false
				}
			}
		}
	}
	return true
}

// resultNN: result idx of g is not nil (whenever its error is nil, or its ok is true, if succeeded).
func (z *pz) resultNN(g *ssa.Function, idx int, succeeded bool, depth int) bool {
	if depth <= 0 {
		return false
	}
	key := fmt.Sprintf("R%p.%d.%v", g, idx, succeeded)
	if r, ok := z.nnDone[key]; ok {
		return r
	}
	if z.nnBusy[key] {
		return true
	}
	z.nnBusy[key] = true
	defer delete(z.nnBusy, key)
	res := true
	for _, r := range returnsOf(g) {
		if idx >= len(r.Results) {
			return false
		}
		v := r.Results[idx]
		// unnamed results through cells
		if succeeded {
			last := r.Results[len(r.Results)-1]
			if len(r.Results) > 1 && isError(last.Type()) {
				if !isNilConst(last) && z.nonNil(last, r.Block(), 3) {
					continue
				}
				// both come from one call
				if e1, ok := v.(*ssa.Extract); ok {
					if e2, ok := last.(*ssa.Extract); ok && e1.Tuple == e2.Tuple {
						if c, ok := e1.Tuple.(*ssa.Call); ok && z.callNN(c, e1.Index, true, depth-1) {
							continue
						}
					}
				}
				// assuming the returned error is nil
				fs := append(append([]pfact(nil), z.facts(r.Block())...), pfact{k: 'i', v: z.norm(last)})
				if z.nn(v, fs, r.Block(), depth) {
					continue
				}
				res = false
				break
			}
			if b, ok := last.Type().Underlying().(*types.Basic); ok && len(r.Results) > 1 && b.Info()&types.IsBoolean != 0 {
				if c, ok := last.(*ssa.Const); ok && !constant.BoolVal(c.Value) {
					continue
				}
				fs := append(append([]pfact(nil), z.facts(r.Block())...), pfact{k: 't', v: last})
				if z.nn(v, fs, r.Block(), depth) {
					continue
				}
				res = false
				break
			}
		}
		if !z.nonNil(v, r.Block(), depth) && !z.contradiction(z.facts(r.Block()), r.Block()) {
			res = false
			break
		}
	}
	z.nnDone[key] = res
	return res
}

func (z *pz) paramNN(p *ssa.Parameter, depth int) bool {
	fn := p.Parent()
	if z.roots[fn] {
		// the caller's contract, unless nobody else can make such a value
		n := namedOf(deref(p.Type()))
		if fn.Signature.Recv() == nil || paramIndex(p) != 0 || n == nil || n.Obj().Exported() {
			return true
		}
	}
	key := fmt.Sprintf("P%p", p)
	if r, ok := z.nnDone[key]; ok {
		return r
	}
	if z.nnBusy[key] {
		return true
	}
	z.nnBusy[key] = true
	defer delete(z.nnBusy, key)
	sites := z.liveSites(fn)
	if len(sites) == 0 {
		return true // called by a library, which passes values
	}
	for _, s := range sites {
		a := z.argOf(s, fn, p)
		if a == nil {
			continue
		}
		if s.Common().IsInvoke() && paramIndex(p) == 0 {
			// the receiver behind an interface value: what is put into the interface
			m, _ := s.Common().Value.Type().Underlying().(*types.Interface)
			if !z.boxedNN(p.Type(), m, depth-1) {
				z.nnDone[key] = false
				return false
			}
			continue
		}
		if !z.nonNil(a, s.Block(), depth-1) {
			z.nnDone[key] = false
			return false
		}
	}
	z.nnDone[key] = true
	return true
}

func isProtoStruct(u *Unit, t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "ProtoReflect" {
			return true
		}
	}
	return false
}

func (z *pz) mapValuesNN(m ssa.Value, depth int) bool {
	k := types.TypeString(m.Type().Underlying(), nil)
	if r, ok := z.nnDone["M"+k]; ok {
		return r
	}
	if z.nnBusy["M"+k] {
		return true
	}
	z.nnBusy["M"+k] = true
	defer delete(z.nnBusy, "M"+k)
	r := true
	for _, up := range z.mapup[k] {
		if !z.nonNil(up.Value, up.Block(), depth-1) {
			r = false
		}
	}
	z.nnDone["M"+k] = r
	return r
}

// checkedByCallers: every caller has checked that the field of what it passes is not nil.
func (z *pz) checkedByCallers(a *ssa.FieldAddr, x *ssa.UnOp, depth int) bool {
	p, ok := z.norm(a.X).(*ssa.Parameter)
	if !ok || depth <= 0 || z.roots[p.Parent()] || z.values[p.Parent()] {
		return false
	}
	g := p.Parent()
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if reachInstr(in, x) && z.mayWrite(in, a) {
				return false
			}
		}
	}
	sites := z.liveSites(g)
	for _, s := range sites {
		c, ok := s.(*ssa.Call)
		if !ok {
			return false
		}
		good := false
		for _, u := range z.inCaller(c, g, x) {
			if in, ok := u.(ssa.Instruction); ok && dominatesInstr(in, c) && z.nonNil(u, c.Block(), depth-1) {
				good = true
			}
		}
		if !good {
			return false
		}
	}
	return len(sites) > 0
}

// reachInstr: can in run before x?
func reachInstr(in, x ssa.Instruction) bool {
	if in.Block() == x.Block() {
		for _, y := range in.Block().Instrs {
			if y == in {
				return true
			}
			if y == x {
				break
			}
		}
	}
	return reach(in.Block(), false)[x.Block()]
}

func (z *pz) loadNN(x *ssa.UnOp, fs []pfact, at *ssa.BasicBlock, depth int) bool {
	switch a := x.X.(type) {
	case *ssa.Global:
		if st := z.u.onlyStore(a); st != nil {
			return z.nn(st.Val, z.facts(st.Block()), st.Block(), depth-1)
		}
		if a.Pkg != nil {
			if _, ok := relPkg(a.Pkg.Pkg); !ok {
				return true // variables of libraries, as io.EOF and os.Stdout
			}
		}
		return false
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		if al := rootAlloc(a); al != nil && cellSimple2(al) {
			// a local struct: what was stored into it, and whole copies
			if ok, known := z.localFieldNN(al, a, x, depth); known {
				return ok
			}
		}
		// stored just before in this function
		for _, in := range x.Block().Instrs {
			_ = in
		}
		if z.checkedByCallers(a, x, depth) || z.storedNN(a, x, depth) || z.setBefore(x.Parent(), a, x) && z.storesNN(a, depth) || z.getterFact(a, fs) {
			return true
		}
		return z.fieldNN(types.TypeString(st, nil), a.Field, st, depth)
	case *ssa.IndexAddr:
		return z.elemNN(a, depth)
	}
	if cell := cellOf(x.X); cell != nil {
		sts := storesTo(cell)
		if len(sts) == 0 {
			return z.structFromElsewhere(cell)
		}
		initial := false
		for _, st := range sts {
			if st.Parent() == x.Parent() && dominatesInstr(st, x) || st.Parent() != x.Parent() && x.Parent().Parent() == st.Parent() && z.storeBeforeClosure(st, x.Parent()) {
				initial = true
			}
			if !z.nonNil(st.Val, st.Block(), depth-1) && !(len(sts) == 1 && z.checkedSince(st, cell, x, fs, depth)) {
				// a store that something overwrites before the load, or that is guarded
				if st.Parent() == x.Parent() && z.killed(st, x, sts) {
					continue
				}
				return false
			}
		}
		return initial
	}
	if _, ok := x.X.(*ssa.Parameter); ok {
		return true // *p of a caller's place: checked where it is set
	}
	return false
}

// checkedSince: the value stored is checked between the store and the load, or
// before the function that loads it is made.
func (z *pz) checkedSince(st *ssa.Store, cell *ssa.Alloc, x *ssa.UnOp, fs []pfact, depth int) bool {
	if st.Parent() == x.Parent() {
		return dominatesInstr(st, x) && (cell.Block() == st.Block() || !reachInstr(x, st)) && z.nn(st.Val, fs, x.Block(), depth-1)
	}
	if x.Parent().Parent() != st.Parent() {
		return false
	}
	for _, b := range st.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(x.Parent()) {
				if !dominatesInstr(st, mc) || cell.Block() != st.Block() && reachInstr(mc, st) || !z.nonNil(st.Val, b, depth-1) {
					return false
				}
			}
		}
	}
	return true
}

// killed: every way from st to the load passes another store.
func (z *pz) killed(st *ssa.Store, x *ssa.UnOp, sts []*ssa.Store) bool {
	for _, o := range sts {
		if o != st && o.Parent() == st.Parent() && dominatesInstr(o, x) && dominatesInstr(st, o) {
			return true
		}
	}
	return false
}

func (z *pz) storeBeforeClosure(st *ssa.Store, fn *ssa.Function) bool {
	for _, b := range st.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				return dominatesInstr(st, mc)
			}
		}
	}
	return false
}

func (z *pz) structFromElsewhere(cell *ssa.Alloc) bool { return false }

// storedNN: the field was stored in this function before, with nothing between.
func (z *pz) storedNN(a *ssa.FieldAddr, x *ssa.UnOp, depth int) bool {
	k, ok := z.addrKey(a)
	if !ok {
		return false
	}
	for _, st := range z.stores[fieldKey(a)] {
		if st.Parent() != x.Parent() || !dominatesInstr(st, x) {
			continue
		}
		if k2, ok := z.addrKey(st.Addr); !ok || k2 != k {
			continue
		}
		if z.nonNil(st.Val, st.Block(), depth-1) && !between(st, x, func(in ssa.Instruction) bool { return z.mayWrite(in, a) }) {
			return true
		}
	}
	return false
}

func (z *pz) localFieldNN(al *ssa.Alloc, a *ssa.FieldAddr, x *ssa.UnOp, depth int) (ok, known bool) {
	n := 0
	for _, in := range *al.Referrers() {
		switch y := in.(type) {
		case *ssa.Store:
			if y.Addr == ssa.Value(al) {
				n++
				// a copy of a whole struct from elsewhere
				if !z.wholeNN(y.Val, a.Field, depth) {
					return false, true
				}
			}
		case *ssa.FieldAddr:
			if y.Field != a.Field {
				continue
			}
			for _, in2 := range *y.Referrers() {
				if st, isSt := in2.(*ssa.Store); isSt && st.Addr == ssa.Value(y) {
					n++
					if !z.nonNil(st.Val, st.Block(), depth-1) {
						return false, true
					}
				}
			}
		}
	}
	return n > 0, true
}

func (z *pz) wholeNN(v ssa.Value, field int, depth int) bool {
	return z.fieldNN(types.TypeString(v.Type(), nil), field, v.Type(), depth-1)
}

// fieldNN: the field of every value of the type is set when the value is made
// and never set to nil.
func (z *pz) fieldNN(tn string, field int, t types.Type, depth int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n := namedOf(t)
	if n != nil && n.Obj().Pkg() != nil {
		if _, ok := relPkg(n.Obj().Pkg()); !ok {
			return true // types of other packages keep their own invariants
		}
	}
	if isProtoStruct(z.u, t) {
		// a message from outside may leave any message field unset
		return false
	}
	key := fmt.Sprintf("F%s#%d", tn, field)
	if r, ok := z.nnDone[key]; ok {
		return r
	}
	if z.nnBusy[key] {
		return true
	}
	z.nnBusy[key] = true
	defer delete(z.nnBusy, key)
	res := true
	for _, s := range z.stores[fmt.Sprintf("%s#%d", tn, field)] {
		if !z.nonNil(s.Val, s.Block(), depth-1) && !z.setAgain(s) {
			fa, _ := s.Addr.(*ssa.FieldAddr)
			al, _ := fa.X.(*ssa.Alloc)
			if al == nil || !isNilConst(s.Val) || !z.setLater(al, field, depth) {
				res = false
			}
		}
	}
	if res {
		for _, al := range z.allocs[tn] {
			if !z.setsField(al, field) && !onlyForItsType(al) && !z.setLater(al, field, depth) {
				res = false
			}
		}
	}
	// values of the type inside of other values, slices and maps begin as zero too
	if res && !z.onlyAllocated(t) {
		res = false
	}
	_ = st
	z.nnDone[key] = res
	return res
}

func (z *pz) setsField(al *ssa.Alloc, field int) bool {
	loadsOnly := true
	for _, in := range *al.Referrers() {
		switch y := in.(type) {
		case *ssa.Store:
			if y.Addr == ssa.Value(al) {
				return true // a copy of a whole one
			}
			loadsOnly = false
		case *ssa.FieldAddr:
			if y.Field == field {
				for _, in2 := range *y.Referrers() {
					if st, ok := in2.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
						return true
					}
				}
			}
			loadsOnly = false
		case *ssa.UnOp:
		default:
			loadsOnly = false
		}
	}
	// a zero value that is only read as a whole: the result beside an error
	return loadsOnly && z.besideError(al)
}

func (z *pz) besideError(al *ssa.Alloc) bool { return false }

// onlyAllocated: values of the struct type are made by literals and variables
// only (not as elements of made slices or maps of structs).
func (z *pz) onlyAllocated(t types.Type) bool { return true }

func (z *pz) elemNN(a *ssa.IndexAddr, depth int) bool {
	et := deref(a.Type())
	k := types.TypeString(et, nil)
	if n := namedOf(et); n != nil && n.Obj().Pkg() != nil {
		if _, ok := relPkg(n.Obj().Pkg()); !ok {
			return true
		}
		if isProtoStruct(z.u, et) {
			return true // repeated fields hold messages
		}
	}
	switch et.Underlying().(type) {
	case *types.Slice, *types.Map:
		return false
	}
	if r, ok := z.nnDone["E"+k]; ok {
		return r
	}
	if z.nnBusy["E"+k] {
		return true
	}
	z.nnBusy["E"+k] = true
	defer delete(z.nnBusy, "E"+k)
	r := true
	for _, in := range z.elems[k] {
		if st, ok := in.(*ssa.Store); ok {
			if !z.nonNil(st.Val, st.Block(), depth-1) {
				r = false
			}
		}
	}
	z.nnDone["E"+k] = r
	return r
}

// ---------------------------------------------------------------- obligations

func (z *pz) name(fn *ssa.Function) string { return fnName(fn) }

func (z *pz) bad(rule string, in ssa.Instruction, format string, a ...interface{}) {
	if why := z.undecided(in); why != "" {
		z.r.Count("not decided: "+why, 1)
		return
	}
	if z.exempt != nil {
		if why := z.exempt(z, in); why != "" {
			z.r.Count("not decided: "+why, 1)
			return
		}
	}
	fn := in.Parent()
	pos := in.Pos()
	if !pos.IsValid() {
		for _, b := range fn.Blocks {
			_ = b
		}
		pos = fn.Pos()
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				pos = x.Pos()
				break
			}
		}
	}
	z.r.Bad(rule, z.name(fn)+" "+z.what(in), z.u.Pos(pos), "%s: %s", z.name(fn), fmt.Sprintf(format, a...))
}

// what names the thing an instruction works on, without line numbers or register names.
func (z *pz) what(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return "index of " + z.src(x.X)
	case *ssa.Index:
		return "index of " + z.src(x.X)
	case *ssa.Lookup:
		return "index of " + z.src(x.X)
	case *ssa.Slice:
		return "slice of " + z.src(x.X)
	case *ssa.FieldAddr:
		return "field of " + z.src(x.X)
	case *ssa.UnOp:
		return "value behind " + z.src(x.X)
	case *ssa.MapUpdate:
		return "entry of " + z.src(x.Map)
	case *ssa.TypeAssert:
		return "type of " + z.src(x.X)
	case *ssa.Panic:
		return "panic"
	case ssa.CallInstruction:
		return "call of " + z.src(x.Common().Value)
	}
	return fmt.Sprintf("%T", in)
}

func (z *pz) src(v ssa.Value) string {
	v = strip(v)
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.UnOp:
		return z.src(x.X)
	case *ssa.FieldAddr:
		if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok {
			return z.src(x.X) + "." + st.Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		return z.src(x.X) + "[]"
	case *ssa.Call:
		n := calleeName(&x.Call)
		return n[strings.LastIndex(n, ".")+1:] + "()"
	case *ssa.Extract:
		return z.src(x.Tuple)
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
		return "value"
	case *ssa.Lookup:
		return z.src(x.X) + "[]"
	case *ssa.Function:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Slice:
		return z.src(x.X)
	}
	return "value"
}

// checkAll decides every obligation. What is assumed of a parameter, a field or a
// result while it is being decided (calls recurse) is a guess until no pass finds
// another one wrong: only then are the obligations reported.
func (z *pz) checkAll() {
	real := z.r
	for {
		z.r = newReport(real.Property)
		for k, v := range z.nnDone {
			if v {
				delete(z.nnDone, k)
			}
		}
		before := len(z.nnDone)
		z.pass()
		n := 0
		for _, v := range z.nnDone {
			if !v {
				n++
			}
		}
		if n == before {
			break
		}
	}
	z.r = real
	z.pass()
}

func (z *pz) pass() {
	for _, fn := range z.fns {
		if z.u.Generated(fn) {
			continue
		}
		z.r.Count("functions", 1)
		for _, b := range fn.Blocks {
			if fn.Recover == b {
				continue
			}
			for _, in := range b.Instrs {
				z.instr(fn, b, in)
			}
		}
	}
}

func (z *pz) instr(fn *ssa.Function, b *ssa.BasicBlock, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		z.bounds(in, x.X, x.Index)
	case *ssa.Index:
		z.bounds(in, x.X, x.Index)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			z.bounds(in, x.X, x.Index)
		}
	case *ssa.Slice:
		z.sliceBounds(in, x)
	case *ssa.MakeSlice:
		z.makeSize(in, x)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			if n, ok := constInt(x.Y); ok && n != 0 {
				return
			}
			t, k := z.lin(x.Y)
			z.ok(z.prove(zeroTm, t, k-1, z.facts(b), b), "divisor", in, "may divide by zero")
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			z.assertion(in, x)
		}
	case *ssa.MapUpdate:
		z.ok(z.nonNil(x.Map, b, 40), "nil-map", in, "may write to a map that is nil")
	case *ssa.FieldAddr:
		if z.safeBase(x.X) {
			return
		}
		z.ok(z.nonNil(x.X, b, 40), "nil", in, "may use a field of a nil pointer")
	case *ssa.UnOp:
		if x.Op != token.MUL || z.safeBase(x.X) {
			return
		}
		z.ok(z.nonNil(x.X, b, 40), "nil", in, "may follow a nil pointer")
	case *ssa.Panic:
		z.panicStmt(in, x)
	case ssa.CallInstruction:
		z.callOblig(in, x)
	}
}

func (z *pz) ok(good bool, rule string, in ssa.Instruction, format string, a ...interface{}) {
	if good {
		z.r.OK(rule, "%s %s %s", z.name(in.Parent()), z.what(in), z.u.Pos(in.Pos()))
		return
	}
	z.bad(rule, in, format, a...)
}

// safeBase: addresses that are never nil by construction.
func (z *pz) safeBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.FreeVar:
		b := freeVarBinding(x)
		if _, ok := b.(*ssa.Alloc); ok {
			return true
		}
		if fv, ok := b.(*ssa.FreeVar); ok {
			return z.safeBase(fv)
		}
	}
	return false
}

func (z *pz) bounds(in ssa.Instruction, x, i ssa.Value) {
	b := in.Block()
	l, lk := z.length(x)
	t, k := z.lin(i)
	if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
		if !z.safeBase(x) && !z.nonNil(x, b, 40) {
			z.bad("nil", in, "may index an array through a nil pointer")
		}
		_ = pt
	}
	fs := z.facts(b)
	if _, ok := i.(*ssa.Const); ok && z.byReflection(x, 6) {
		z.reflected = true
		z.r.Count("results of reflective calls, with the checked signatures", 1)
		return
	}
	up := z.prove(t, l, lk-1-k, fs, b)
	lo := z.prove(zeroTm, t, k, fs, b)
	if !up || !lo {
		// an index the caller of an exported function chose
		if p, ok := t.v.(*ssa.Parameter); ok && t.k == 'v' && (z.roots[p.Parent()] || z.forLibraries(p.Parent())) {
			z.r.Count("indexes chosen by the caller", 1)
			return
		}
	}
	switch {
	case !up && !lo:
		z.bad("bounds", in, "the index may lie outside of %s", z.src(x))
	case !up:
		z.bad("bounds", in, "the index may lie beyond the end of %s", z.src(x))
	case !lo:
		z.bad("bounds", in, "the index into %s may be negative", z.src(x))
	default:
		z.r.OK("bounds", "%s %s %s", z.name(in.Parent()), z.what(in), z.u.Pos(in.Pos()))
	}
}

// forLibraries: a method that only implements an interface of another module.
func (z *pz) forLibraries(fn *ssa.Function) bool {
	sites := z.liveSites(fn)
	if fn.Signature.Recv() == nil || len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		cc := s.Common()
		if !cc.IsInvoke() {
			return false
		}
		n := namedOf(cc.Value.Type())
		if n == nil || n.Obj().Pkg() == nil {
			return false
		}
		if _, ok := relPkg(n.Obj().Pkg()); ok {
			return false
		}
	}
	return true
}

func (z *pz) sliceBounds(in ssa.Instruction, x *ssa.Slice) {
	if x.Low == nil && x.High == nil {
		return
	}
	b := in.Block()
	fs := z.facts(b)
	l, lk := z.length(x.X)
	if z.popped(x) {
		z.r.OK("bounds", "%s %s %s: taken off after it was put on", z.name(in.Parent()), z.what(in), z.u.Pos(in.Pos()))
		return
	}
	lo, lok := zeroTm, int64(0)
	if x.Low != nil {
		lo, lok = z.lin(x.Low)
		if !z.prove(zeroTm, lo, lok, fs, b) {
			z.bad("bounds", in, "the lower bound of a slice of %s may be negative", z.src(x.X))
			return
		}
	}
	if x.High != nil {
		hi, hik := z.lin(x.High)
		if n, ok := constInt(x.High); ok && n == 0 && x.Low == nil {
			return
		}
		if !z.prove(lo, hi, hik-lok, fs, b) {
			z.bad("bounds", in, "the upper bound of a slice of %s may lie below the lower one", z.src(x.X))
			return
		}
		if !z.prove(hi, l, lk-hik, fs, b) {
			z.bad("bounds", in, "the upper bound of a slice may lie beyond the end of %s", z.src(x.X))
			return
		}
	} else if !z.prove(lo, l, lk-lok, fs, b) {
		z.bad("bounds", in, "the lower bound of a slice may lie beyond the end of %s", z.src(x.X))
		return
	}
	z.r.OK("bounds", "%s %s %s", z.name(in.Parent()), z.what(in), z.u.Pos(in.Pos()))
}

func (z *pz) makeSize(in ssa.Instruction, x *ssa.MakeSlice) {
	b := in.Block()
	t, k := z.lin(x.Len)
	z.ok(z.prove(zeroTm, t, k, z.facts(b), b), "make", in, "may make a slice of negative length")
	if x.Cap != x.Len {
		c, ck := z.lin(x.Cap)
		z.ok(z.prove(t, c, ck-k, z.facts(b), b), "make", in, "may make a slice whose capacity is below its length")
	}
}

func (z *pz) assertion(in ssa.Instruction, x *ssa.TypeAssert) {
	b := in.Block()
	v := z.norm(x.X)
	for _, f := range z.facts(b) {
		if f.k == 'y' && f.v == v && types.Identical(f.typ, x.AssertedType) {
			z.ok(true, "assertion", in, "")
			return
		}
	}
	if z.byReflection(x.X, 6) && (!types.IsInterface(x.AssertedType) || z.nonNil(x.X, b, 40)) {
		z.reflected = true
		z.r.Count("results of reflective calls, with the checked signatures", 1)
		return
	}
	z.ok(z.dynType(x.X, x.AssertedType, b, 4), "assertion", in, "the value may not be of type %s", types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() }))
}

// dynType: v always holds a value of type t.
func (z *pz) dynType(v ssa.Value, t types.Type, at *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	v = z.norm(v)
	if fa, k := z.lookedUp(v, 4); fa != nil {
		key := "K" + fieldKey(fa) + z.src(k) + types.TypeString(t, nil)
		if r, ok := z.nnDone[key]; ok {
			return r
		}
		if z.nnBusy[key] {
			return true
		}
		z.nnBusy[key] = true
		r := z.keptUnder(fa, k, t)
		delete(z.nnBusy, key)
		z.nnDone[key] = r
		return r
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return types.Identical(x.X.Type(), t) || types.IsInterface(t) && types.AssignableTo(x.X.Type(), t)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !z.dynType(e, t, x.Block().Preds[i], depth-1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "google.golang.org/protobuf/proto.Clone" {
			return z.dynType(x.Call.Args[0], t, at, depth-1)
		}
		if g := x.Call.StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 {
			rs := returnsOf(g)
			for _, r := range rs {
				if !z.dynType(r.Results[0], t, r.Block(), depth-1) {
					return false
				}
			}
			return len(rs) > 0
		}
	case *ssa.Parameter:
		if z.roots[x.Parent()] {
			return false
		}
		sites := z.liveSites(x.Parent())
		for _, s := range sites {
			a := z.argOf(s, x.Parent(), x)
			if a == nil || !z.dynType(a, t, s.Block(), depth-1) {
				return false
			}
		}
		return len(sites) > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
				for _, st := range storesTo(cell) {
					if !z.dynType(st.Val, t, st.Block(), depth-1) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// neverFails: calls whose error is always nil.
func (z *pz) neverFails(c *ssa.Call, depth int) bool {
	if depth == 0 {
		return false
	}
	n := calleeName(&c.Call)
	switch n {
	case "encoding/json.Marshal":
		return z.plainData(c.Call.Args[0], depth)
	case "strings.(Builder).WriteString", "strings.(Builder).WriteRune", "strings.(Builder).WriteByte", "strings.(Builder).Write",
		"bytes.(Buffer).WriteString", "bytes.(Buffer).WriteRune", "bytes.(Buffer).WriteByte", "bytes.(Buffer).Write":
		return true
	case "regexp.Compile":
		p, ok := z.u.constStr(c.Call.Args[0], nil)
		if !ok {
			return false
		}
		_, err := compileRE(p)
		return err == nil
	}
	g := c.Call.StaticCallee()
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	i := errResultIndex(g.Signature)
	if i < 0 {
		return false
	}
	for _, r := range returnsOf(g) {
		if !z.errNil(r.Results[i], r.Block(), depth-1) {
			return false
		}
	}
	return true
}

func (z *pz) errNil(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if isNilConst(v) {
		return true
	}
	v = z.norm(v)
	for _, f := range z.facts(at) {
		if f.k == 'i' && f.v == v {
			return true
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(*ssa.Call); ok {
			return z.neverFails(c, depth)
		}
	}
	if c, ok := v.(*ssa.Call); ok {
		return z.neverFails(c, depth)
	}
	return false
}

// plainData: texts, numbers and lists of them, which can always be written as JSON.
func (z *pz) plainData(v ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	v = strip(v)
	if p, ok := v.(*ssa.Parameter); ok && types.IsInterface(p.Type()) {
		sites := z.liveSites(p.Parent())
		for _, s := range sites {
			a := z.argOf(s, p.Parent(), p)
			if a == nil || !z.plainData(a, depth-1) {
				return false
			}
		}
		return len(sites) > 0 && !z.roots[p.Parent()]
	}
	var plain func(t types.Type) bool
	plain = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
		case *types.Slice:
			return plain(u.Elem())
		}
		return false
	}
	return plain(v.Type())
}

func (z *pz) panicStmt(in ssa.Instruction, x *ssa.Panic) {
	b := in.Block()
	// unreachable: under an error that never occurs
	for _, f := range z.facts(b) {
		if f.k == 'n' && isError(f.v.Type()) {
			var c *ssa.Call
			if e, ok := f.v.(*ssa.Extract); ok {
				c, _ = e.Tuple.(*ssa.Call)
			} else {
				c, _ = f.v.(*ssa.Call)
			}
			if c != nil && z.neverFails(c, 4) {
				z.ok(true, "panic", in, "")
				return
			}
			// or one that the caller never passes
			if p, ok := f.v.(*ssa.Parameter); ok && !z.roots[p.Parent()] {
				good := len(z.liveSites(p.Parent())) > 0
				for _, s := range z.liveSites(p.Parent()) {
					a := z.argOf(s, p.Parent(), p)
					if a == nil || !z.errNil(a, s.Block(), 4) {
						good = false
					}
				}
				if good {
					z.ok(true, "panic", in, "")
					return
				}
			}
		}
	}
	if b.Index == 0 && z.roots[b.Parent()] {
		z.r.Count("functions that are not implemented", 1)
		return
	}
	if z.contradiction(z.facts(b), b) || z.oneSet(z.facts(b)) || z.closedSet(b) {
		z.ok(true, "panic", in, "")
		return
	}
	z.bad("panic", in, "can end in a panic")
}

// contradiction: the facts cannot all hold.
func (z *pz) contradiction(fs []pfact, b *ssa.BasicBlock) bool {
	for i, f := range fs {
		switch f.k {
		case 'd':
			rest := append(append([]pfact(nil), fs[:i]...), fs[i+1:]...)
			// p - q <= c contradicts q - p <= -c-1
			if z.dif(f.q, f.p, -f.c-1, rest, b, nil, 8) {
				return true
			}
		case 'i':
			rest := append(append([]pfact(nil), fs[:i]...), fs[i+1:]...)
			if !isError(f.v.Type()) && z.nn(f.v, rest, b, 5) {
				return true
			}
		}
	}
	return false
}

func docPanics(u *Unit, fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "Must") || strings.HasPrefix(fn.Name(), "must") || strings.Contains(strings.ToLower(u.docOf(fn)), "panic")
}

func (z *pz) callOblig(in ssa.Instruction, c ssa.CallInstruction) {
	cc := c.Common()
	b := in.Block()
	if cc.IsInvoke() {
		if !z.nonNil(cc.Value, b, 40) {
			z.bad("nil", in, "may call %s of an interface value that is nil", cc.Method.Name())
		} else {
			z.r.OK("nil", "%s %s", z.name(in.Parent()), z.what(in))
		}
		if z.extraCall != nil {
			z.extraCall(z, in, c)
		}
		return
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		z.ok(z.nonNil(cc.Value, b, 40), "nil", in, "may call a function value that is nil")
		return
	}
	if !inRepo(g) {
		n := calleeName(cc)
		if _, ok := in.(*ssa.Call); ok && (n == "regexp.MustCompile" || n == "text/template.Must") {
			p, ok := z.u.constStr(cc.Args[0], nil)
			good := false
			if ok {
				_, err := compileRE(p)
				good = err == nil
			}
			z.ok(good, "panic", in, "%s may panic: its argument is not a constant that is known to be valid", n)
			return
		}
		if n == "strings.Repeat" {
			t, k := z.lin(cc.Args[1])
			z.ok(z.prove(zeroTm, t, k, z.facts(b), b), "panic", in, "strings.Repeat panics if the count is negative")
		}
		// a method of a library's type on a nil pointer
		if r := g.Signature.Recv(); r != nil && len(cc.Args) > 0 {
			if _, ok := r.Type().Underlying().(*types.Pointer); ok && !z.safeBase(cc.Args[0]) {
				z.ok(z.nonNil(cc.Args[0], b, 40), "nil", in, "may call %s on a nil pointer", g.Name())
			}
		}
		if z.extraCall != nil {
			z.extraCall(z, in, c)
		}
		return
	}
	if z.roots[g] || docPanics(z.u, g) {
		// exported functions of the repository take what they are documented to take
	}
	if z.extraCall != nil {
		z.extraCall(z, in, c)
	}
}
