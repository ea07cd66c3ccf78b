package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fval is a value in the context of the calls that led to it.
type fval struct {
	v  ssa.Value
	fr *frame
}

// edgeGuards are the outcomes established when control reaches phi block b from its i-th predecessor.
func edgeGuards(b *ssa.BasicBlock, i int) []Guard {
	pb := b.Preds[i]
	out := guardsOf(pb)
	if ifi, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && pb.Succs[0] != pb.Succs[1] {
		for k, s := range pb.Succs {
			if s == b {
				out = append(out, expandGuard(ifi.Cond, k == 0, ifi)...)
			}
		}
	}
	return out
}

func contradicts(a, b []Guard) bool {
	for _, x := range a {
		for _, y := range b {
			if x.Cond == y.Cond && x.Val != y.Val {
				return true
			}
		}
	}
	return false
}

// origins resolves v (used at block at) to the values it can have: through
// parameters of the calling frames, local variables, feasible phi edges and the
// results of repository functions on their successful returns.
func (u *Unit) origins(v ssa.Value, fr *frame, at *ssa.BasicBlock) []fval {
	var out []fval
	seen := map[fval]bool{}
	var walk func(v ssa.Value, fr *frame, at *ssa.BasicBlock, depth int)
	walk = func(v ssa.Value, fr *frame, at *ssa.BasicBlock, depth int) {
		w, wf := u.inFrameV(v, fr)
		if wf != fr {
			at = nil
			for f := fr; f != nil; f = f.up {
				if f.up == wf {
					at = f.call.Block()
				}
			}
		}
		k := fval{w, wf}
		if seen[k] || depth > 30 {
			return
		}
		seen[k] = true
		switch x := w.(type) {
		case *ssa.Phi:
			var g []Guard
			if at != nil && at.Parent() == x.Parent() {
				g = guardsOf(at)
			}
			for i, e := range x.Edges {
				if contradicts(g, edgeGuards(x.Block(), i)) {
					continue
				}
				walk(e, wf, at, depth+1)
			}
			return
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && u.inlinable(c) {
				u.walkResults(c, x.Index, wf, depth, walk)
				return
			}
		case *ssa.Call:
			if u.inlinable(x) && x.Call.Signature().Results().Len() == 1 {
				u.walkResults(x, 0, wf, depth, walk)
				return
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					if vals, ok := u.fieldStores(fa, wf); ok {
						for _, s := range vals {
							walk(s.v, s.fr, nil, depth+1)
						}
						return
					}
				}
				if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
					ss := storesTo(cell)
					for _, s := range ss {
						walk(s.Val, wf, s.Block(), depth+1)
					}
					if len(ss) > 0 {
						return
					}
				}
			}
		case *ssa.Field:
			for _, o := range u.origins(x.X, wf, at) {
				if ld, ok := o.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						if vals, ok := u.allocField(al, x.Field, o.fr); ok {
							for _, s := range vals {
								walk(s.v, s.fr, nil, depth+1)
							}
							continue
						}
					}
				}
				out = append(out, fval{x, wf})
			}
			return
		}
		out = append(out, k)
	}
	walk(v, fr, at, 0)
	return out
}

func (u *Unit) allocField(al *ssa.Alloc, field int, fr *frame) (out []fval, ok bool) {
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, r2 := range *x.Referrers() {
				switch y := r2.(type) {
				case *ssa.Store:
					if y.Addr != ssa.Value(x) {
						return nil, false
					}
					out = append(out, fval{y.Val, fr})
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil, false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Return, *ssa.MakeInterface:
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				return nil, false
			}
		case *ssa.Call, *ssa.Phi:
		default:
			return nil, false
		}
	}
	return out, len(out) > 0
}

// fieldStores: what a field of a locally built object can hold.
func (u *Unit) fieldStores(fa *ssa.FieldAddr, fr *frame) ([]fval, bool) {
	if _, ok := fa.X.(*ssa.Parameter); ok && fr == nil {
		return nil, false
	}
	var out []fval
	os := u.origins(fa.X, fr, fa.Block())
	if len(os) == 0 {
		return nil, false
	}
	for _, o := range os {
		al, ok := o.v.(*ssa.Alloc)
		if !ok {
			if isNilConst(o.v) {
				continue
			}
			return nil, false
		}
		vs, ok := u.allocField(al, fa.Field, o.fr)
		if !ok {
			return nil, false
		}
		out = append(out, vs...)
	}
	return out, len(out) > 0
}

func (u *Unit) inlinable(c *ssa.Call) bool {
	fn := c.Call.StaticCallee()
	return fn != nil && inRepo(fn) && fn.Blocks != nil && !u.Generated(fn) && fnPkg(fn) == fnPkg(c.Parent())
}

func (u *Unit) walkResults(c *ssa.Call, idx int, fr *frame, depth int, walk func(ssa.Value, *frame, *ssa.BasicBlock, int)) {
	fn := c.Call.StaticCallee()
	for f := fr; f != nil; f = f.up { // recursion
		if f.call.Common().StaticCallee() == fn {
			return
		}
	}
	ei := errResultIndex(fn.Signature)
	for _, r := range returnsOf(fn) {
		if ei >= 0 && ei != idx && (neverNilErr(r.Results[ei]) || (&errWalk{u: u, fn: fn}).nonNil(r.Results[ei], r.Block(), 0)) {
			continue
		}
		walk(r.Results[idx], &frame{c, fr}, r.Block(), depth+1)
	}
}

// sameOrigin: two values denote the same thing: the same SSA value, equal
// constants, the same field of the same thing, or the same function of the same
// things (the functions this is used for are getters and string functions).
func (u *Unit) sameOrigin(a, b fval) bool { return u.sameOriginD(a, b, 0) }

func (u *Unit) sameOriginD(a, b fval, d int) bool {
	if d > 12 {
		return false
	}
	av, af := u.inFrameV(a.v, a.fr)
	bv, bf := u.inFrameV(b.v, b.fr)
	if av == bv && frameEq(af, bf) {
		return true
	}
	switch x := av.(type) {
	case *ssa.Const:
		y, ok := bv.(*ssa.Const)
		if !ok {
			return false
		}
		if x.Value == nil || y.Value == nil {
			return x.Value == nil && y.Value == nil
		}
		return constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Call:
		y, ok := bv.(*ssa.Call)
		if !ok || calleeName(&x.Call) == "" || calleeName(&x.Call) != calleeName(&y.Call) || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		if x.Call.IsInvoke() && !u.sameOriginD(fval{x.Call.Value, af}, fval{y.Call.Value, bf}, d+1) {
			return false
		}
		for i := range x.Call.Args {
			xe, ok1 := literalElems(x.Call.Args[i])
			ye, ok2 := literalElems(y.Call.Args[i])
			if ok1 && ok2 && len(xe) > 0 {
				if len(xe) != len(ye) {
					return false
				}
				for j := range xe {
					if !u.sameOriginD(fval{xe[j], af}, fval{ye[j], bf}, d+1) {
						return false
					}
				}
				continue
			}
			if !u.sameOriginD(fval{x.Call.Args[i], af}, fval{y.Call.Args[i], bf}, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		y, ok := bv.(*ssa.Extract)
		return ok && x.Index == y.Index && u.sameOriginD(fval{x.Tuple, af}, fval{y.Tuple, bf}, d+1)
	case *ssa.UnOp:
		y, ok := bv.(*ssa.UnOp)
		return ok && x.Op == y.Op && u.sameOriginD(fval{x.X, af}, fval{y.X, bf}, d+1)
	case *ssa.FieldAddr:
		y, ok := bv.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && u.sameOriginD(fval{x.X, af}, fval{y.X, bf}, d+1)
	case *ssa.BinOp:
		y, ok := bv.(*ssa.BinOp)
		return ok && x.Op == y.Op && u.sameOriginD(fval{x.X, af}, fval{y.X, bf}, d+1) && u.sameOriginD(fval{x.Y, af}, fval{y.Y, bf}, d+1)
	}
	return false
}

func frameEq(a, b *frame) bool {
	for a != nil && b != nil {
		if a.call != b.call {
			return false
		}
		a, b = a.up, b.up
	}
	return a == nil && b == nil
}

// established reports whether a fact recognised by q holds at block b: some
// branch outcome on every path to b satisfies q, directly or inside a repository
// function whose success (nil error, or a known boolean result) is required.
func (u *Unit) established(b *ssa.BasicBlock, fr *frame, q func(cond ssa.Value, val bool, fr *frame) bool) bool {
	return u.establishedD(b, fr, q, 0)
}

func (u *Unit) establishedD(b *ssa.BasicBlock, fr *frame, q func(cond ssa.Value, val bool, fr *frame) bool, d int) bool {
	for _, g := range guardsOf(b) {
		if u.guardGives(g.Cond, g.Val, fr, q, d) {
			return true
		}
	}
	if b.Parent() != nil && !u.reachWithout(b.Parent().Blocks[0], b, fr, q, d) {
		return true
	}
	// the caller's guards hold too
	if fr != nil && d < 8 {
		if u.establishedD(fr.call.Block(), fr.up, q, d+1) {
			return true
		}
	}
	return false
}

// reachWithout: control can get from the start of `from` to `to` without taking a
// branch whose outcome gives the fact q.
func (u *Unit) reachWithout(from, to *ssa.BasicBlock, fr *frame, q func(cond ssa.Value, val bool, fr *frame) bool, d int) bool {
	seen := map[*ssa.BasicBlock]bool{from: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if b == to {
			return true
		}
		ifi, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	succ:
		for k, s := range b.Succs {
			if seen[s] {
				continue
			}
			if ifi != nil && b.Succs[0] != b.Succs[1] {
				for _, g := range expandGuard(ifi.Cond, k == 0, ifi) {
					if u.guardGives(g.Cond, g.Val, fr, q, d) {
						continue succ
					}
				}
			}
			seen[s] = true
			work = append(work, s)
		}
	}
	return false
}

func (u *Unit) guardGives(cond ssa.Value, val bool, fr *frame, q func(cond ssa.Value, val bool, fr *frame) bool, d int) bool {
	if d > 8 {
		return false
	}
	w, wf := u.inFrame(cond, fr)
	for {
		n, ok := w.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		val = !val
		w, wf = u.inFrame(n.X, wf)
	}
	if q(w, val, wf) {
		return true
	}
	callHolds := func(c *ssa.Call, succ func(r *ssa.Return) (applies bool, extra ssa.Value, extraVal bool)) bool {
		if !u.inlinable(c) {
			return false
		}
		fn := c.Call.StaticCallee()
		any := false
		nf := &frame{c, wf}
		for _, r := range returnsOf(fn) {
			ap, ex, ev := succ(r)
			if !ap {
				continue
			}
			any = true
			if u.inCallee(r.Block(), nf, q, d+1) {
				continue
			}
			if ex != nil {
				ok := false
				for _, g := range expandGuard(ex, ev, nil) {
					if u.guardGives(g.Cond, g.Val, nf, q, d+1) {
						ok = true
					}
				}
				if ok {
					continue
				}
			}
			return false
		}
		return any
	}
	switch x := w.(type) {
	case *ssa.Phi:
		if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			return false
		}
	edges:
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && constant.BoolVal(c.Value) != val {
				continue
			}
			for _, g := range edgeGuards(x.Block(), i) {
				if u.guardGives(g.Cond, g.Val, wf, q, d+1) {
					continue edges
				}
			}
			if _, ok := e.(*ssa.Const); !ok && u.guardGives(e, val, wf, q, d+1) {
				continue
			}
			return false
		}
		return true
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		o, other := x.X, x.Y
		if isNilConst(o) {
			o, other = other, o
		}
		if !isNilConst(other) || !isError(o.Type()) || (x.Op == token.EQL) != val {
			return false
		}
		// o is nil
		ov, of := u.inFrame(o, wf)
		idx := 0
		if ex, ok := ov.(*ssa.Extract); ok {
			idx = ex.Index
			ov = ex.Tuple
		}
		c, ok := ov.(*ssa.Call)
		if !ok {
			return false
		}
		save := wf
		wf = of
		defer func() { wf = save }()
		return callHolds(c, func(r *ssa.Return) (bool, ssa.Value, bool) {
			v := r.Results[idx]
			if neverNilErr(v) || nonNilAt(v, r.Block()) {
				return false, nil, false
			}
			// return other(...): the error is nil exactly when other's is
			if !isNilConst(v) {
				if inner, ok := strip(v).(*ssa.Call); ok {
					_ = inner
				}
			}
			return true, nil, false
		})
	case *ssa.Call:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return callHolds(x, func(r *ssa.Return) (bool, ssa.Value, bool) {
				v := r.Results[0]
				if c, ok := v.(*ssa.Const); ok {
					return constant.BoolVal(c.Value) == val, nil, false
				}
				return true, v, val
			})
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if ok {
			return callHolds(c, func(r *ssa.Return) (bool, ssa.Value, bool) {
				v := r.Results[x.Index]
				if c, ok := v.(*ssa.Const); ok {
					return constant.BoolVal(c.Value) == val, nil, false
				}
				return true, v, val
			})
		}
	}
	return false
}

// inCallee is established without looking at the caller's guards again.
func (u *Unit) inCallee(b *ssa.BasicBlock, fr *frame, q func(cond ssa.Value, val bool, fr *frame) bool, d int) bool {
	for _, g := range guardsOf(b) {
		if u.guardGives(g.Cond, g.Val, fr, q, d) {
			return true
		}
	}
	return !u.reachWithout(b.Parent().Blocks[0], b, fr, q, d)
}
