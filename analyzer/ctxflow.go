package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ctxKind names the context types of the repository.
func ctxKind(t types.Type) string {
	t = types.Unalias(t)
	if typeIs(t, "context", "Context") {
		return "context.Context"
	}
	if p, ok := t.(*types.Pointer); ok {
		switch {
		case typeIs(p.Elem(), modPath+"/textcoder", "Context"):
			return "*textcoder.Context"
		case typeIs(p.Elem(), modPath+"/csvcoder", "CellContext"):
			return "*csvcoder.CellContext"
		case typeIs(p.Elem(), modPath+"/csvcoder", "Row"):
			return "*csvcoder.Row"
		}
	}
	return ""
}

// ctxParams: the context parameters in force in fn, by kind: its own, else those of the enclosing function.
func ctxParams(fn *ssa.Function) map[string][]*ssa.Parameter {
	out := map[string][]*ssa.Parameter{}
	for f := fn; f != nil; f = f.Parent() {
		here := map[string][]*ssa.Parameter{}
		for _, p := range f.Params {
			if k := ctxKind(p.Type()); k != "" {
				here[k] = append(here[k], p)
			}
		}
		for k, ps := range here {
			if out[k] == nil {
				out[k] = ps
			}
		}
	}
	return out
}

type ctxFlow struct {
	u *Unit
	r *Report
}

// derives: every value v can be is one of own, or was made from one.
func (c *ctxFlow) derives(v ssa.Value, own []*ssa.Parameter, seen map[ssa.Value]bool) bool {
	v = strip(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		for _, p := range own {
			if p == x {
				return true
			}
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.derives(e, own, seen) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return c.derives(b, own, seen)
		}
		return false
	case *ssa.Extract:
		return c.derives(x.Tuple, own, seen)
	case *ssa.TypeAssert:
		return c.derives(x.X, own, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			ss := storesTo(cell)
			for _, s := range ss {
				if !c.derives(s.Val, own, seen) {
					return false
				}
			}
			return len(ss) > 0
		}
		return c.u.DependsOn(x, func(w ssa.Value) bool {
			for _, p := range own {
				if w == ssa.Value(p) {
					return true
				}
			}
			return false
		})
	case *ssa.Call:
		n := 0
		args := x.Call.Args
		if x.Call.IsInvoke() {
			args = append([]ssa.Value{x.Call.Value}, args...)
		}
		for _, a := range args {
			b := strip(a)
			if k := ctxKind(b.Type()); k == "" {
				continue
			}
			n++
			if c.derives(b, own, map[ssa.Value]bool{}) {
				return true
			}
		}
		return false
	case *ssa.Alloc:
		// a context built as a literal from the caller's
		for _, ref := range *x.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(fa) && c.derives(s.Val, own, seen) {
					return true
				}
			}
		}
	}
	return false
}

// fresh: v is a context made out of nothing.
func (c *ctxFlow) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = strip(v)
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil {
			return false
		}
		args := 0
		for _, a := range x.Call.Args {
			if k := ctxKind(a.Type()); k != "" {
				args++
				if c.fresh(a, seen) {
					return true
				}
			}
		}
		return args == 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.fresh(e, seen) {
				return true
			}
		}
	case *ssa.Extract:
		return c.fresh(x.Tuple, seen)
	case *ssa.UnOp:
		if cell := cellOf(x.X); x.Op == token.MUL && cell != nil && cellSimple(cell) {
			for _, s := range storesTo(cell) {
				if c.fresh(s.Val, seen) {
					return true
				}
			}
		}
	case *ssa.Const:
		return x.Value == nil
	}
	return false
}

// startsAnew: fn takes no context of the kind and hands a fresh one to something it calls.
func (c *ctxFlow) startsAnew(fn *ssa.Function, depth int) string {
	if fn == nil || !inRepo(fn) || fn.Blocks == nil || depth > 4 {
		return ""
	}
	for k := range ctxParams(fn) {
		if k != "*csvcoder.Row" {
			return ""
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range ctxArgs(ci) {
				if k := ctxKind(a.Type()); k != "*csvcoder.Row" && c.fresh(a, map[ssa.Value]bool{}) {
					return k + " made in " + fnName(fn)
				}
			}
			if callee := ci.Common().StaticCallee(); callee != nil && callee != fn {
				if s := c.startsAnew(callee, depth+1); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// ctxArgs are the context values handed to a call (receivers do not count).
func ctxArgs(ci ssa.CallInstruction) (out []ssa.Value) {
	cc := ci.Common()
	args := cc.Args
	if !cc.IsInvoke() {
		if callee := cc.StaticCallee(); callee != nil && callee.Signature.Recv() != nil && len(args) > 0 {
			args = args[1:]
		}
	}
	for _, a := range args {
		b := strip(a)
		if ctxKind(a.Type()) != "" {
			out = append(out, a)
		} else if ctxKind(b.Type()) != "" {
			out = append(out, b)
		}
	}
	return out
}

func init() {
	register("T03", func(w *World, r *Report) {
		r.explanation = "Value-flow rule over SSA: in every function that has a context parameter (of its own or of the function it is nested in), every context handed to a call, boxed for a reflective call, or placed into a derived context derives from that parameter on every path; a function that takes a context never calls one that starts over with a fresh context; and an operation that derives a context keeps everything its receiver holds."
		c := &ctxFlow{w.Host, r}
		for _, u := range []*Unit{w.Host, w.Wasm} {
			c.u = u
			for _, fn := range u.Funcs {
				rel := fnPkg(fn)
				if !inRepo(fn) || u.Generated(fn) || len(rel) > 9 && rel[:9] == "examples/" || u == w.Wasm && rel != "playground" {
					continue
				}
				if rel == "playground" && u == w.Host {
					continue
				}
				c.function(fn)
			}
		}
		r.Floor("functions given a context", 20)
		r.Floor("contexts handed on", 15)
		r.Floor("context-derived", 1)
	})
}

func (c *ctxFlow) function(fn *ssa.Function) {
	u, r := c.u, c.r
	ps := ctxParams(fn)
	if len(ps) == 0 {
		return
	}
	r.Count("functions given a context", 1)
	var all []*ssa.Parameter
	for _, p := range ps {
		all = append(all, p...)
	}
	onlyRow := len(ps) == 1 && ps["*csvcoder.Row"] != nil
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range ctxArgs(ci) {
				k := ctxKind(a.Type())
				own := ps[k]
				what := "the " + k + " of its caller"
				if own == nil {
					own = all
					what = "its caller's context"
					if onlyRow && k != "*csvcoder.CellContext" {
						continue
					}
				}
				if k == "*csvcoder.Row" && fn.Signature.Recv() == nil && ps[k] == nil {
					continue
				}
				r.Count("contexts handed on", 1)
				r.Check(c.derives(a, own, map[ssa.Value]bool{}), "context-passed-on", fnName(fn)+" -> "+calleeLabel(ci.Common()), u.InstrPos(in),
					"%s hands %s a %s that does not come from %s", fnName(fn), calleeLabel(ci.Common()), k, what)
			}
			if callee := ci.Common().StaticCallee(); callee != nil && !onlyRow {
				s := c.startsAnew(callee, 0)
				r.Check(s == "", "no-fresh-context", fnName(fn)+" -> "+fnName(callee), u.InstrPos(in),
					"%s was given a context but calls %s, which goes on with a fresh one (%s)", fnName(fn), fnName(callee), s)
			}
		}
	}
	// deriving operations
	var res string
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if k := ctxKind(fn.Signature.Results().At(i).Type()); k != "" && k != "*csvcoder.Row" {
			res = k
		}
	}
	if res == "" || fn.Parent() != nil {
		return
	}
	own := ps[res]
	if own == nil {
		own = all
	}
	for _, ret := range returnsOf(fn) {
		for _, v := range ret.Results {
			if ctxKind(v.Type()) != res || isNilConst(v) {
				continue
			}
			why := ""
			if !c.derives(v, own, map[ssa.Value]bool{}) {
				why = c.copiesAll(fn, own[0], v, ret)
			}
			r.Check(why == "", "context-derived", fnName(fn), u.InstrPos(ret), "the context %s returns does not hold everything its receiver holds: %s", fnName(fn), why)
		}
	}
}

// calleeLabel names a call for reports.
func calleeLabel(c *ssa.CallCommon) string {
	n := calleeName(c)
	if n == "" {
		if f, ok := strip(c.Value).(*ssa.UnOp); ok {
			if fa, ok := f.X.(*ssa.FieldAddr); ok {
				if v := fieldVar(fa.X.Type(), fa.Field); v != nil {
					return "the function in field " + v.Name()
				}
			}
		}
		return "a function value"
	}
	if len(n) > len(modPath) && n[:len(modPath)] == modPath {
		n = n[len(modPath)+1:]
	}
	return n
}

// copiesAll: ret's value v is a new context into whose map every entry of p's map
// was put, before any entry that is to replace one of them.
func (c *ctxFlow) copiesAll(fn *ssa.Function, p *ssa.Parameter, v ssa.Value, ret *ssa.Return) string {
	fromP := func(m ssa.Value) bool {
		return c.u.DependsOn(m, func(w ssa.Value) bool { return w == ssa.Value(p) })
	}
	intoV := func(m ssa.Value) bool {
		return c.u.DependsOn(m, func(w ssa.Value) bool { return w == strip(v) })
	}
	var copyUp *ssa.MapUpdate
	var hdr *ssa.BasicBlock
	var others []*ssa.MapUpdate
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			up, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if fromP(up.Map) && !intoV(up.Map) {
				return "it changes its receiver"
			}
			kx, ok1 := up.Key.(*ssa.Extract)
			vx, ok2 := up.Value.(*ssa.Extract)
			if ok1 && ok2 && kx.Tuple == vx.Tuple && kx.Index == 1 && vx.Index == 2 {
				if nx, ok := kx.Tuple.(*ssa.Next); ok {
					if rg, ok := nx.Iter.(*ssa.Range); ok && fromP(rg.X) {
						copyUp, hdr = up, nx.Block()
						continue
					}
				}
			}
			others = append(others, up)
		}
	}
	if copyUp == nil {
		return "its entries are not copied"
	}
	if !mustPass(fn, hdr, ret.Block()) {
		return "its entries are copied only on some paths"
	}
	// inside the loop the update must not be skipped
	ifi, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok || !loopAlwaysThrough(hdr, ifi.Block().Succs[0], copyUp.Block()) {
		return "some entries are skipped when copying"
	}
	for _, o := range others {
		if canReach(o, copyUp) {
			return "a copied entry may replace the new value"
		}
	}
	return ""
}

// loopAlwaysThrough: from body every path back to hdr goes through b.
func loopAlwaysThrough(hdr, body, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	st := []*ssa.BasicBlock{body}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == hdr {
			return false
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return true
}
