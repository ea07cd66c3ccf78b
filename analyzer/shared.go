package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// L01: values produced one after another must not share storage.

// loopSet gives, for a block, the strongly connected component it is on (nil when not on a cycle).
func sccOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	fwd := reach(b, false)
	if !fwd[b] {
		return nil
	}
	for x := range fwd {
		if reach(x, true)[b] {
			out[x] = true
		}
	}
	return out
}

// keeper decides whether a value outlives the statement that uses it: stored
// in memory that survives the iteration, sent, deferred, run in a goroutine, or
// passed to a repository function that keeps it.
type keeper struct {
	u     *Unit
	seen  map[ssa.Value]bool
	param map[*ssa.Parameter]int // 0 unknown 1 in progress/no 2 yes
}

func (k *keeper) kept(v ssa.Value, within map[*ssa.BasicBlock]bool) (string, bool) {
	k.seen = map[ssa.Value]bool{}
	return k.walk(v, within)
}

func (k *keeper) walk(v ssa.Value, within map[*ssa.BasicBlock]bool) (string, bool) {
	if k.seen[v] || v.Referrers() == nil {
		return "", false
	}
	k.seen[v] = true
	for _, in := range *v.Referrers() {
		if within != nil && in.Parent() == firstFn(within) && !within[in.Block()] {
			continue
		}
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if cell, ok := x.Addr.(*ssa.Alloc); ok && cellSimple(cell) {
				// a local variable: what happens to its loads inside the loop
				for _, r := range *cell.Referrers() {
					if ld, ok := r.(*ssa.UnOp); ok {
						if why, bad := k.walk(ld, within); bad {
							return why, true
						}
					}
				}
				continue
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if a, ok := ia.X.(*ssa.Alloc); ok && (within == nil || within[a.Block()]) {
					// a slice literal or variadic argument built here
					for _, r := range *a.Referrers() {
						if sl, ok := r.(*ssa.Slice); ok {
							if why, bad := k.walk(sl, within); bad {
								return why, true
							}
						}
					}
					continue
				}
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if a, ok := fa.X.(*ssa.Alloc); ok && (within == nil || within[a.Block()]) {
					if why, bad := k.walk(a, within); bad {
						return why, true
					}
					continue
				}
			}
			return "stored at " + k.u.InstrPos(x), true
		case *ssa.MapUpdate:
			if x.Value == v || x.Key == v {
				return "put in a map at " + k.u.InstrPos(x), true
			}
		case *ssa.Send:
			if x.X == v {
				return "sent at " + k.u.InstrPos(x), true
			}
		case *ssa.Go:
			return "used by a goroutine started at " + k.u.InstrPos(x), true
		case *ssa.Defer:
			return "used by a call deferred at " + k.u.InstrPos(x), true
		case *ssa.MakeClosure:
			if why, bad := k.walk(x, within); bad {
				return why, true
			}
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Slice:
			if why, bad := k.walk(in.(ssa.Value), within); bad {
				return why, true
			}
		case *ssa.Phi:
			if within != nil {
				for i, e := range x.Edges {
					if e == v && within[x.Block()] && within[x.Block().Preds[i]] && x.Block().Dominates(x.Block().Preds[i]) {
						return "kept in variable " + x.Comment + " for later iterations (" + k.u.Pos(x.Pos()) + ")", true
					}
				}
			}
			if why, bad := k.walk(x, within); bad {
				return why, true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && len(x.Call.Args) == 2 && x.Call.Args[1] == v {
					// elements are copied into the result; storing pointers keeps them
					if _, isArr := v.(*ssa.Slice); isArr && holdsRef(v.Type()) {
						return "appended at " + k.u.InstrPos(x), true
					}
				}
				continue
			}
			fn := x.Call.StaticCallee()
			if fn == nil {
				// a callback or an interface method: the receiver of a yielded pointer or closure may keep it
				if x.Call.Value == v {
					continue // only called, here and now
				}
				if x.Call.IsInvoke() {
					if _, repo := relPkg(x.Call.Method.Pkg()); !repo {
						continue
					}
				} else if k.localOnly(x.Call.Value) {
					continue
				}
				return "handed out by the dynamic call at " + k.u.InstrPos(x), true
			}
			if !inRepo(fn) || fn.Blocks == nil {
				if keepsForeign(fn, v) {
					return "handed to " + fn.String() + " at " + k.u.InstrPos(x), true
				}
				continue
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(fn.Params) && k.keepsParam(fn.Params[i]) {
					return "kept by " + fnName(fn) + " called at " + k.u.InstrPos(x), true
				}
			}
		}
	}
	return "", false
}

// localOnly reports that a function value is one of the closures of the same function.
func (k *keeper) localOnly(v ssa.Value) bool {
	ls := k.u.LocalLeaves(v)
	for _, l := range ls {
		if _, ok := l.(*ssa.MakeClosure); !ok {
			if _, ok := l.(*ssa.Function); !ok {
				return false
			}
		}
	}
	return len(ls) > 0
}

// keepsForeign says whether a function outside the repository keeps the argument v:
// function values are kept unless the package is known to call them at once;
// pointers are only kept by containers.
func keepsForeign(fn *ssa.Function, v ssa.Value) bool {
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if _, ok := v.Type().Underlying().(*types.Signature); ok {
		switch pkg {
		case "sort", "slices", "strings", "bytes", "path/filepath", "regexp", "sync", "go/ast", "io/fs", "unicode", "maps", "os":
			return false
		}
		return true
	}
	switch pkg {
	case "container/list", "container/heap", "container/ring", "flag", "sync/atomic":
		return true
	case "sync":
		return fn.Name() == "Store" || fn.Name() == "Put" || fn.Name() == "LoadOrStore"
	}
	return false
}

func holdsRef(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	switch s.Elem().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Slice, *types.Map, *types.Struct:
		return true
	}
	return false
}

func firstFn(m map[*ssa.BasicBlock]bool) *ssa.Function {
	for b := range m {
		return b.Parent()
	}
	return nil
}

func (k *keeper) keepsParam(p *ssa.Parameter) bool {
	switch k.param[p] {
	case 1:
		return false
	case 2:
		return true
	}
	k.param[p] = 1
	sub := &keeper{u: k.u, seen: map[ssa.Value]bool{}, param: k.param}
	_, bad := sub.walk(p, nil)
	if !bad {
		// returned, and so possibly kept by the caller's caller: treated as kept only through results
		return false
	}
	k.param[p] = 2
	return true
}

func init() {
	register("L01", func(w *World, r *Report) {
		r.explanation = "For every variable of every repository function that lives outside a loop, is assigned inside it, and whose address or closure capture is kept during an iteration (stored, appended, put in a map, deferred, given to a goroutine or to a function that keeps it), the next iteration changes a value already handed out. The SSA form is built with the loop-variable semantics of the language version in go.mod, so a shared loop variable is such a variable and a per-iteration copy is not. The same is decided for slices that are truncated and refilled, for record-reuse options and for token buffers that are only valid until the next read."
		r.assumptions = []string{"Functions outside the repository do not keep the pointers and closures given to them, except through append, channels, goroutines and the listed readers."}
		for _, u := range []*Unit{w.Host, w.Wasm} {
			var fs []*ssa.Function
			if u == w.Host {
				fs = append(u.LibFuncs(), u.MainFuncs()...)
			} else {
				fs = u.MainFuncs()
			}
			checkShared(u, r, fs)
		}
		r.Floor("functions", 400)
		r.Floor("variables captured or addressed", 60)
		r.Floor("loops", 60)
	})
}

func checkShared(u *Unit, r *Report, fs []*ssa.Function) {
	k := &keeper{u: u, param: map[*ssa.Parameter]int{}}
	for _, f := range fs {
		r.Count("functions", 1)
		sccs := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			sccs[b] = sccOf(b)
			if sccs[b] != nil && b.Dominates(b) {
				for _, p := range b.Preds {
					if b.Dominates(p) {
						r.Count("loops", 1)
						break
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap {
					r.Count("variables captured or addressed", 1)
					checkAlloc(u, r, k, f, a, sccs)
				}
				if sl, ok := in.(*ssa.Slice); ok && isZero(sl.High) && !isStringType(sl.X.Type()) {
					checkReslice(u, r, k, f, sl, sccs)
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIs(fa, "encoding/csv", "Reader", "ReuseRecord") {
						c, ok := st.Val.(*ssa.Const)
						if !ok || c.Value == nil || constant.BoolVal(c.Value) {
							r.Bad("record-reuse", fnName(f), u.InstrPos(st), "the CSV reader is told to reuse the memory of one record for the next")
						}
					}
				}
				if v, ok := in.(ssa.Value); ok && transientToken(v) {
					if why, bad := k.kept(v, nil); bad {
						r.Bad("token-buffer", fnName(f), u.InstrPos(in), "the bytes of an XML token, only valid until the next token is read, are %s", why)
					} else {
						r.OK("token-buffer", "%s %s", fnName(f), u.InstrPos(in))
					}
				}
			}
		}
		checkScratch(u, r, f)
		checkFactory(u, r, f)
		checkRepeatedElement(u, r, f, sccs)
	}
}

// checkFactory: a parameterless closure that is kept and called repeatedly must
// make what it returns, not return one captured object every time.
func checkFactory(u *Unit, r *Report, f *ssa.Function) {
	if f.Parent() == nil || len(f.Params) != 0 || f.Signature.Results().Len() != 1 || isError(f.Signature.Results().At(0).Type()) {
		return
	}
	switch f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
	default:
		return
	}
	// only closures that are stored or passed on, not those called on the spot
	stored := false
	for _, in := range u.refs[f] {
		if mc, ok := in.(*ssa.MakeClosure); ok {
			for _, x := range *mc.Referrers() {
				if c, ok := x.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(mc) {
					stored = true
				}
			}
		}
	}
	if !stored {
		return
	}
	for _, ret := range returnsOf(f) {
		v := ret.Results[0]
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.TypeAssert:
				v = x.X
				continue
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "reflect.(Value).Interface", "reflect.(Value).Addr", "reflect.(Value).Elem":
					v = x.Call.Args[0]
					continue
				}
			case *ssa.UnOp:
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					r.Bad("factory-makes-fresh", fnName(f), u.InstrPos(ret), "every call of this function returns the one captured object %s", fv.Name())
				}
			case *ssa.FreeVar:
				r.Bad("factory-makes-fresh", fnName(f), u.InstrPos(ret), "every call of this function returns the one captured object %s", x.Name())
			}
			break
		}
		r.OK("factory-makes-fresh", "%s %s", fnName(f), u.InstrPos(ret))
	}
}

// checkRepeatedElement: the same pointer, made before the loop, is filled and
// appended again on every iteration.
func checkRepeatedElement(u *Unit, r *Report, f *ssa.Function, sccs map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) {
	for _, b := range f.Blocks {
		l := sccs[b]
		if l == nil {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || len(c.Call.Args) != 2 {
				continue
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
				continue
			}
			sl, ok := c.Call.Args[1].(*ssa.Slice)
			if !ok {
				continue
			}
			arr, ok := sl.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, ref := range *arr.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, ref2 := range *ia.Referrers() {
					st, ok := ref2.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(ia) {
						continue
					}
					v := strip(st.Val)
					switch v.Type().Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
					default:
						continue
					}
					def, ok := v.(ssa.Instruction)
					if !ok || l[def.Block()] {
						continue
					}
					// filled in the loop: written through, or given to a call
					filled := ""
					for _, use := range aliasUses(v) {
						if !l[use.Block()] {
							continue
						}
						switch y := use.(type) {
						case *ssa.MapUpdate:
							filled = u.InstrPos(y)
						case *ssa.Call:
							if _, isB := y.Call.Value.(*ssa.Builtin); !isB {
								filled = u.InstrPos(y)
							}
						case *ssa.FieldAddr:
							for _, q := range *y.Referrers() {
								if s2, ok := q.(*ssa.Store); ok && s2.Addr == ssa.Value(y) {
									filled = u.InstrPos(q)
								}
							}
						}
					}
					if filled != "" {
						r.Bad("repeated-element", fnName(f), u.InstrPos(c), "the element appended here was made before the loop (%s) and is filled again on every iteration (%s)", u.InstrPos(def), filled)
					} else {
						r.OK("repeated-element", "%s %s", fnName(f), u.InstrPos(c))
					}
				}
			}
		}
	}
}

// aliasUses are the uses of v and of its interface and type conversions.
func aliasUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			out = append(out, in)
			switch x := in.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.TypeAssert:
				walk(x.(ssa.Value))
			}
		}
	}
	walk(v)
	return out
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func fieldIs(fa *ssa.FieldAddr, pkg, typ, field string) bool {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	return ok && typeIs(deref(fa.X.Type()), pkg, typ) && st.Field(fa.Field).Name() == field
}

// transientToken reports a byte-slice view of a token that encoding/xml only
// lends: the result of asserting a token to CharData, Comment, Directive or ProcInst.
func transientToken(v ssa.Value) bool {
	ta, ok := v.(*ssa.TypeAssert)
	if !ok {
		return false
	}
	if !typeIs(ta.AssertedType, "encoding/xml", "CharData") && !typeIs(ta.AssertedType, "encoding/xml", "Comment") && !typeIs(ta.AssertedType, "encoding/xml", "Directive") {
		return false
	}
	// copied tokens are safe
	for _, x := range []ssa.Value{ta.X} {
		if c, ok := x.(*ssa.Call); ok && calleeName(&c.Call) == "encoding/xml.CopyToken" {
			return false
		}
	}
	return true
}

func checkAlloc(u *Unit, r *Report, k *keeper, f *ssa.Function, a *ssa.Alloc, sccs map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) {
	// stores to the variable (or to a part of it) inside a loop that the variable outlives
	type loopKey = map[*ssa.BasicBlock]bool
	done := map[*ssa.BasicBlock]bool{}
	bad := false
	var stores []*ssa.Store
	var gather func(addr ssa.Value)
	gather = func(addr ssa.Value) {
		for _, in := range *addr.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					stores = append(stores, x)
				}
			case *ssa.FieldAddr:
				gather(x)
			case *ssa.IndexAddr:
				if x.X == addr {
					gather(x)
				}
			}
		}
	}
	gather(a)
	for _, s := range stores {
		var l loopKey = sccs[s.Block()]
		if l == nil || l[a.Block()] && sameIteration(a, s) || done[s.Block()] {
			continue
		}
		done[s.Block()] = true
		region := l
		if l[a.Block()] {
			// an inner loop may still exclude the variable
			region = innerLoop(s.Block(), a.Block())
			if region == nil {
				continue
			}
		}
		why, kept := k.kept(a, region)
		if kept {
			bad = true
			r.Bad("shared-variable", fnName(f)+"|"+a.Comment, u.Pos(a.Pos()), "variable %s lives outside the loop that assigns it at %s, but a reference to it is kept in the loop: %s", a.Comment, u.InstrPos(s), why)
		}
	}
	if !bad {
		r.OK("shared-variable", "%s %s %s", fnName(f), a.Comment, u.Pos(a.Pos()))
	}
}

// sameIteration: the variable is created on the loop that assigns it.
func sameIteration(a *ssa.Alloc, s *ssa.Store) bool {
	return innerLoop(s.Block(), a.Block()) == nil
}

// innerLoop finds the blocks of a cycle through b that avoid without, or nil.
func innerLoop(b, without *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	reachAvoid := func(x *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock(nil), x.Succs...)
		for len(st) > 0 {
			y := st[len(st)-1]
			st = st[:len(st)-1]
			if y == without || seen[y] {
				continue
			}
			seen[y] = true
			st = append(st, y.Succs...)
		}
		return seen
	}
	if b == without {
		return nil
	}
	fw := reachAvoid(b)
	if !fw[b] {
		return nil
	}
	out := map[*ssa.BasicBlock]bool{}
	for x := range fw {
		if reachAvoid(x)[b] {
			out[x] = true
		}
	}
	return out
}

// checkReslice: s[:0] in a loop where the slice was kept before being refilled.
func checkReslice(u *Unit, r *Report, k *keeper, f *ssa.Function, sl *ssa.Slice, sccs map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) {
	if _, ok := sl.X.Type().Underlying().(*types.Slice); !ok {
		return
	}
	// the web of values that share the backing array
	web := map[ssa.Value]bool{}
	var addWeb func(v ssa.Value)
	addWeb = func(v ssa.Value) {
		if web[v] {
			return
		}
		web[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				addWeb(e)
			}
		case *ssa.Slice:
			addWeb(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				addWeb(x.Call.Args[0])
			}
		}
		if v.Referrers() == nil {
			return
		}
		for _, in := range *v.Referrers() {
			switch y := in.(type) {
			case *ssa.Phi:
				addWeb(y)
			case *ssa.Slice:
				if y.X == v {
					addWeb(y)
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && y.Call.Args[0] == v {
					addWeb(y)
				}
			}
		}
	}
	addWeb(sl.X)
	l := sccs[sl.Block()]
	if l == nil {
		return
	}
	for v := range web {
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		for _, in := range *v.Referrers() {
			if !l[in.Block()] {
				continue
			}
			switch x := in.(type) {
			case *ssa.Store:
				if x.Val == v {
					r.Bad("refilled-slice", fnName(f), u.InstrPos(sl), "the slice emptied here for reuse was stored at %s in the same loop", u.InstrPos(x))
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					r.Bad("refilled-slice", fnName(f), u.InstrPos(sl), "the slice emptied here for reuse was put in a map at %s in the same loop", u.InstrPos(x))
				}
			}
		}
	}
}

// checkScratch: a method must not hand out the address of, or a slice stored
// in, a field of its receiver that a later call overwrites in place.
func checkScratch(u *Unit, r *Report, f *ssa.Function) {
	if f.Signature.Recv() == nil || len(f.Params) == 0 {
		return
	}
	for _, ret := range returnsOf(f) {
		for _, v := range ret.Results {
			for _, l := range u.LocalLeaves(v) {
				fa, ok := l.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(f.Params[0]) {
					continue
				}
				// stored in this function?
				for _, in := range *fa.Referrers() {
					if s, ok := in.(*ssa.Store); ok && s.Addr == fa {
						r.Bad("shared-result", fnName(f), u.InstrPos(ret), "the result points at a field of the receiver that each call overwrites (%s)", u.InstrPos(s))
					}
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						if fb, ok := s.Addr.(*ssa.FieldAddr); ok {
							if base, ok := fb.X.(*ssa.FieldAddr); ok && base.X == fa.X && base.Field == fa.Field {
								r.Bad("shared-result", fnName(f), u.InstrPos(ret), "the result points at a field of the receiver that each call overwrites (%s)", u.InstrPos(s))
							}
							if fb.X == fa.X && fb.Field == fa.Field && fb != fa {
								r.Bad("shared-result", fnName(f), u.InstrPos(ret), "the result points at a field of the receiver that each call overwrites (%s)", u.InstrPos(s))
							}
						}
					}
				}
			}
		}
	}
}
