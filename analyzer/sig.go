package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inFrameV is inFrame that also follows free variables to the value captured.
func (u *Unit) inFrameV(v ssa.Value, fr *frame) (ssa.Value, *frame) {
	for i := 0; i < 20; i++ {
		w, fr2 := u.inFrame(v, fr)
		if fv, ok := w.(*ssa.FreeVar); ok {
			if b := freeVarBinding(fv); b != nil {
				w = b
				fr2 = nil
			}
		}
		if w == v {
			return w, fr2
		}
		v, fr = w, fr2
	}
	return v, fr
}

// literalElems are the elements of a slice built by a composite literal (or a
// variadic call), in order; ok is false when the length or an element is unknown.
func literalElems(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.IndexAddr:
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *x.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || out[c.Int64()] != nil {
					return nil, false
				}
				out[c.Int64()] = st.Val
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	for _, e := range out {
		if e == nil {
			return nil, false
		}
	}
	return out, true
}

// reflectCall is one use of reflection to call a function.
type reflectCall struct {
	call *ssa.Call
	fr   *frame    // how the frame of the call was reached
	fn   ssa.Value // resolved function value
	args []ssa.Value
	argF *frame
	at   *ssa.BasicBlock // where the decision to make this call possible was taken
}

func (u *Unit) reflectCalls(fs []*ssa.Function) (out []reflectCall, unresolved []*ssa.Call) {
	var expand func(c *ssa.Call, fnV, argV ssa.Value, fr *frame, blk *ssa.BasicBlock, depth int) bool
	expand = func(c *ssa.Call, fnV, argV ssa.Value, fr *frame, blk *ssa.BasicBlock, depth int) bool {
		av, af := u.inFrame(argV, fr)
		fv, ff := u.inFrame(fnV, fr)
		up := func(p *ssa.Parameter) bool {
			// the values come from the callers of a helper
			if depth > 4 {
				return false
			}
			fn := p.Parent()
			sites := u.callSites(fn)
			if len(sites) == 0 {
				return false
			}
			ok := true
			for _, s := range sites {
				if s.Common().StaticCallee() != fn {
					return false
				}
				if !expand(c, fnV, argV, pushFrame(fr, &frame{call: s}), s.Block(), depth+1) {
					ok = false
				}
			}
			return ok
		}
		elems, lit := literalElems(av)
		if !lit {
			if p, ok := av.(*ssa.Parameter); ok {
				return up(p)
			}
			return false
		}
		at := blk
		if fvv, ok := fv.(*ssa.FreeVar); ok {
			b := freeVarBinding(fvv)
			if b == nil {
				return false
			}
			fv, ff = u.inFrame(b, nil)
		}
		// a value of an enclosing function: the call became possible where the closure was made
		if o := valueParent(fv); o != nil {
			for fn := blk.Parent(); fn != nil && fn != o; fn = fn.Parent() {
				if mk := closureSite(fn); mk != nil {
					at = mk.Block()
				}
			}
			if p, ok := fv.(*ssa.Parameter); ok && o == blk.Parent() && len(u.guardCall(fv, at)) == 0 && len(u.callSites(p.Parent())) > 0 && up(p) {
				return true
			}
		}
		_ = ff
		out = append(out, reflectCall{c, fr, fv, elems, af, at})
		return true
	}
	eachInstr(fs, func(fn *ssa.Function, in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		n := calleeName(&c.Call)
		if n != "reflect.(Value).Call" && n != "reflect.(Value).CallSlice" {
			return
		}
		if !expand(c, c.Call.Args[0], c.Call.Args[1], nil, c.Block(), 0) {
			unresolved = append(unresolved, c)
		}
	})
	return out, unresolved
}

// pushFrame appends outer at the outermost end of fr.
func pushFrame(fr, outer *frame) *frame {
	if fr == nil {
		return outer
	}
	return &frame{call: fr.call, up: pushFrame(fr.up, outer)}
}

func valueParent(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent()
	case ssa.Instruction:
		return x.Parent()
	}
	return nil
}

func closureSite(fn *ssa.Function) *ssa.MakeClosure {
	if fn.Parent() == nil {
		return nil
	}
	var mk *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				if mk != nil {
					return nil
				}
				mk = m
			}
		}
	}
	return mk
}

// guardCall finds the call of a signature check on fv whose success is established at b.
func (u *Unit) guardCall(fv ssa.Value, b *ssa.BasicBlock) []*ssa.Call {
	var out []*ssa.Call
	for _, g := range guardsOf(b) {
		var c *ssa.Call
		switch x := g.Cond.(type) {
		case *ssa.BinOp:
			if (x.Op == token.EQL) != g.Val || x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			v := x.X
			if isNilConst(v) {
				v = x.Y
			} else if !isNilConst(x.Y) {
				continue
			}
			v, _ = u.inFrame(v, nil)
			c, _ = v.(*ssa.Call)
		case *ssa.Call:
			if g.Val {
				c = x
			}
		}
		if c == nil || c.Call.StaticCallee() == nil || !inRepo(c.Call.StaticCallee()) {
			continue
		}
		for _, a := range c.Call.Args {
			av, _ := u.inFrame(a, nil)
			if tc, ok := av.(*ssa.Call); ok && calleeName(&tc.Call) == "reflect.(Value).Type" {
				if rv, _ := u.inFrame(tc.Call.Args[0], nil); rv == fv {
					out = append(out, c)
				}
			}
			if av == fv {
				out = append(out, c)
			}
		}
	}
	return out
}

// typeMethod recognises a call of a method of reflect.Type, also through a
// method value handed to a helper.
func (u *Unit) typeMethod(v ssa.Value, fr *frame) (name string, recv ssa.Value, rf *frame, idx ssa.Value) {
	v, fr = u.inFrame(v, fr)
	c, ok := v.(*ssa.Call)
	if !ok {
		return
	}
	n := calleeName(&c.Call)
	if strings.HasPrefix(n, "reflect.(Type).") && c.Call.IsInvoke() {
		recv, rf = u.inFrame(c.Call.Value, fr)
		if len(c.Call.Args) > 0 {
			idx = c.Call.Args[0]
		}
		return strings.TrimPrefix(n, "reflect.(Type)."), recv, rf, idx
	}
	if n == "" {
		fv, ff := u.inFrame(c.Call.Value, fr)
		if mc, ok := fv.(*ssa.MakeClosure); ok {
			bf := mc.Fn.(*ssa.Function)
			if bf.Object() != nil && strings.HasPrefix(objName(bf.Object()), "reflect.(Type).") && len(mc.Bindings) == 1 {
				recv, rf = u.inFrame(mc.Bindings[0], ff)
				if len(c.Call.Args) > 0 {
					idx = c.Call.Args[0]
				}
				return strings.TrimPrefix(objName(bf.Object()), "reflect.(Type)."), recv, rf, idx
			}
		}
	}
	return
}

type sigChecker struct {
	u        *Unit
	typ      ssa.Value // parameter (or value) that holds the reflect.Type
	in, out  ssa.Value
	rootFn   *ssa.Function
	have     map[string]bool
	problems []string
}

func (s *sigChecker) isType(v ssa.Value) bool {
	if v == s.typ {
		return true
	}
	if c, ok := v.(*ssa.Call); ok && calleeName(&c.Call) == "reflect.(Value).Type" {
		r, _ := s.u.inFrame(c.Call.Args[0], nil)
		return r == s.typ
	}
	return false
}

// success blocks of a checker: returns of nil error, or true.
func (u *Unit) successReturns(fn *ssa.Function) (out []*ssa.Return) {
	for _, r := range returnsOf(fn) {
		if len(r.Results) == 0 {
			continue
		}
		v := r.Results[len(r.Results)-1]
		if neverNilErr(v) || nonNilAt(v, r.Block()) {
			continue
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
			continue
		}
		out = append(out, r)
	}
	return out
}

// collect gathers what fn establishes on every successful return.
func (s *sigChecker) collect(fn *ssa.Function, fr *frame, depth int) {
	u := s.u
	if depth > 3 || fn.Blocks == nil {
		return
	}
	succ := u.successReturns(fn)
	forced := func(b *ssa.BasicBlock) bool {
		for _, r := range succ {
			if !mustPass(fn, b, r.Block()) {
				return false
			}
		}
		return true
	}
	failsAt := func(b *ssa.BasicBlock) bool {
		rs := reach(b, true)
		for _, r := range succ {
			if rs[r.Block()] {
				return false
			}
		}
		return true
	}
	lenOf := func(v ssa.Value, fr *frame) (ssa.Value, bool) {
		v, fr = u.inFrame(v, fr)
		if c, ok := v.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" {
			l, _ := u.inFrame(c.Call.Args[0], fr)
			return l, true
		}
		return nil, false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				callee := c.Call.StaticCallee()
				if callee != nil && inRepo(callee) && errResultIndex(callee.Signature) >= 0 && forced(b) && (errFlow(u, c) == "") {
					s.collect(callee, &frame{c, fr}, depth+1)
				}
			}
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		gs := expandGuard(ifi.Cond, true, ifi)
		if len(gs) != 1 {
			continue
		}
		cond, val := gs[0].Cond, gs[0].Val
		edge := func(truth bool) *ssa.BasicBlock { // successor taken when cond has the truth value
			if truth == val {
				return b.Succs[0]
			}
			return b.Succs[1]
		}
		if n, recv, _, _ := u.typeMethod(cond, fr); n == "IsVariadic" && s.isType(recv) {
			if failsAt(edge(true)) && forced(b) {
				s.have["not variadic"] = true
			}
			continue
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		bad := edge(bo.Op == token.NEQ)
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			n, recv, _, idx := u.typeMethod(pr[0], fr)
			if n == "" || !s.isType(recv) || !failsAt(bad) {
				continue
			}
			switch n {
			case "Kind":
				if c, ok := pr[1].(*ssa.Const); ok && c.Value != nil && c.Int64() == 19 && forced(b) {
					s.have["is a function"] = true
				}
			case "NumIn", "NumOut":
				l, ok := lenOf(pr[1], fr)
				if !ok || !forced(b) {
					continue
				}
				if n == "NumIn" && l == s.in {
					s.have["number of arguments"] = true
				}
				if n == "NumOut" && l == s.out {
					s.have["number of results"] = true
				}
			case "In", "Out":
				ev, ef := u.inFrame(pr[1], fr)
				ld, ok := ev.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				ia, ok := ld.X.(*ssa.IndexAddr)
				if !ok || !sameIndex(ia.Index, idx) {
					continue
				}
				list, _ := u.inFrame(ia.X, ef)
				if why := fullLoop(u, fn, b, ia.Index, forced, func(v ssa.Value) bool {
					l, ok := lenOf(v, fr)
					if ok && l == list {
						return true
					}
					m, rcv, _, _ := u.typeMethod(v, fr)
					return (m == "NumIn" || m == "NumOut") && s.isType(rcv)
				}); why != "" {
					s.problems = append(s.problems, why)
					continue
				}
				if n == "In" && list == s.in {
					s.have["argument types"] = true
				}
				if n == "Out" && list == s.out {
					s.have["result types"] = true
				}
			}
		}
	}
}

func sameIndex(a, b ssa.Value) bool { return a != nil && b != nil && strip(a) == strip(b) }

// fullLoop: block b runs for every index from 0 to the bound before fn can succeed.
func fullLoop(u *Unit, fn *ssa.Function, b *ssa.BasicBlock, idx ssa.Value, forced func(*ssa.BasicBlock) bool, bound func(ssa.Value) bool) string {
	for _, h := range fn.Blocks {
		ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS || bo.X != idx || !bound(bo.Y) {
			continue
		}
		if !edgeDominates(h, h.Succs[0], b) || !forced(h) {
			continue
		}
		if !countsUp(idx) {
			return "the index does not run over every position"
		}
		// no way around b inside the loop
		seen := map[*ssa.BasicBlock]bool{b: true}
		st := []*ssa.BasicBlock{h.Succs[0]}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == h {
				return "some positions are not compared"
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, x.Succs...)
		}
		return ""
	}
	return "the comparison is not in a loop over all positions"
}

// countsUp: v takes the values 0,1,2,... in successive iterations.
func countsUp(v ssa.Value) bool {
	isC := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
	}
	if p, ok := v.(*ssa.Phi); ok { // for i := 0; ...; i++
		zero, inc := false, false
		for _, e := range p.Edges {
			if isC(e, 0) {
				zero = true
			} else if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(p) && isC(bo.Y, 1) {
				inc = true
			} else {
				return false
			}
		}
		return zero && inc
	}
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && isC(bo.Y, 1) { // range
		p, ok := bo.X.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range p.Edges {
			if !isC(e, -1) && e != ssa.Value(bo) {
				return false
			}
		}
		return true
	}
	return false
}

func checkSignatureChecks(u *Unit, r *Report) {
	calls, unresolved := u.reflectCalls(u.LibFuncs())
	for _, c := range unresolved {
		r.Bad("reflective-call", fnName(topFn(c.Parent())), u.InstrPos(c), "the function or the argument list of this reflective call could not be resolved")
	}
	r.Count("reflective calls of registered functions", len(calls))
	r.Floor("reflective calls of registered functions", 4)
	for _, rc := range calls {
		key := fnName(topFn(rc.call.Parent()))
		pos := u.InstrPos(rc.call)
		gcs := u.guardCall(rc.fn, rc.at)
		if len(gcs) == 0 {
			r.Bad("signature-checked", key, pos, "a registered function is called by reflection, but nothing on the way has checked its signature")
			continue
		}
		why := ""
		okAny := false
		for _, gc := range gcs {
			w := u.sigMatches(rc, gc)
			if w == "" {
				okAny = true
			} else {
				why = w
			}
		}
		r.Check(okAny, "signature-checked", key, pos, "a registered function is called by reflection with arguments its signature was not checked for: %s", why)
	}
}

func (u *Unit) sigMatches(rc reflectCall, gc *ssa.Call) string {
	checker := gc.Call.StaticCallee()
	// find the type and list parameters
	var tp ssa.Value
	var lists []ssa.Value
	var listVals [][]ssa.Value
	for i, a := range gc.Call.Args {
		if i >= len(checker.Params) {
			break
		}
		p := checker.Params[i]
		av, _ := u.inFrame(a, nil)
		if typeIs(p.Type(), "reflect", "Type") || typeIs(p.Type(), "reflect", "Value") {
			if tp == nil {
				tp = p
			}
			continue
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && typeIs(sl.Elem(), "reflect", "Type") {
			els, ok := literalElems(av)
			if !ok {
				return "the list of expected types could not be resolved"
			}
			lists = append(lists, p)
			listVals = append(listVals, els)
		}
	}
	if tp == nil || len(lists) != 2 {
		return "the check " + fnName(checker) + " has an unexpected form"
	}
	// which of the two lists the checker treats as arguments is decided by what it compares
	var last string
	for _, ord := range [][2]int{{0, 1}, {1, 0}} {
		s := &sigChecker{u: u, typ: tp, in: lists[ord[0]], out: lists[ord[1]], rootFn: checker, have: map[string]bool{}}
		s.collect(checker, nil, 0)
		miss := []string{}
		for _, q := range []string{"is a function", "not variadic", "number of arguments", "number of results", "argument types", "result types"} {
			if !s.have[q] {
				miss = append(miss, q)
			}
		}
		if len(miss) > 0 {
			if ord[0] == 0 {
				last = fnName(checker) + " does not establish: " + strings.Join(miss, ", ")
				if len(s.problems) > 0 {
					last += " (" + s.problems[0] + ")"
				}
			}
			continue
		}
		ins, outs := listVals[ord[0]], listVals[ord[1]]
		if len(ins) != len(rc.args) {
			return fmt.Sprintf("%d arguments are passed, %d were checked", len(rc.args), len(ins))
		}
		decoder := false
		for p := rc.call.Parent(); p != nil; p = p.Parent() {
			if textParam(p) != nil {
				decoder = true
			}
		}
		if fr := rc.fr; fr != nil && textParam(fr.call.Parent()) != nil {
			decoder = true
		}
		for i, a := range rc.args {
			av, _ := u.inFrame(a, rc.argF)
			c, ok := av.(*ssa.Call)
			if !ok || calleeName(&c.Call) != "reflect.ValueOf" {
				return fmt.Sprintf("argument %d is not made with reflect.ValueOf", i)
			}
			var at types.Type
			if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
				at = mi.X.Type()
			}
			wt := u.reflectTypeOf(ins[i], 0)
			switch {
			case at != nil && wt != nil:
				if !types.Identical(at, wt) {
					return fmt.Sprintf("argument %d has type %s, the check asks for %s", i, at, wt)
				}
			case at == nil && wt == nil:
				iv, _ := u.inFrame(ins[i], nil)
				isPtr := false
				if pc, ok := iv.(*ssa.Call); ok && (calleeName(&pc.Call) == "reflect.PtrTo" || calleeName(&pc.Call) == "reflect.PointerTo") {
					isPtr = true
				}
				if isPtr != decoder {
					return fmt.Sprintf("argument %d of a decoder must be checked to be a pointer to the registered type, of an encoder the type itself", i)
				}
			default:
				return fmt.Sprintf("argument %d does not correspond to the type checked at that position", i)
			}
		}
		return u.resultsMatch(rc.call, rc.fr, outs)
	}
	return last
}

// resultsMatch: every use of the results of the call agrees with the checked types.
func (u *Unit) resultsMatch(c *ssa.Call, fr *frame, outs []ssa.Value) string {
	var why string
	type seenKey struct {
		v ssa.Value
		n int
	}
	seen := map[seenKey]bool{}
	var visit func(v ssa.Value, t types.Type, n int)
	visit = func(v ssa.Value, t types.Type, n int) {
		if seen[seenKey{v, n}] || v.Referrers() == nil {
			return
		}
		seen[seenKey{v, n}] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.IndexAddr:
				k, ok := u.constInt(x.Index, nil)
				if !ok || k >= len(outs) {
					why = "a result is used that was not checked for"
					continue
				}
				for _, r2 := range *x.Referrers() {
					if ld, ok := r2.(*ssa.UnOp); ok {
						visit(ld, u.reflectTypeOf(outs[k], 0), k)
					}
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "reflect.(Value).Interface":
					visit(x, t, n)
				case "reflect.(Value).String":
					if t == nil || !isStringType(t) {
						why = fmt.Sprintf("result %d is read as a string", n)
					}
				default:
					// a helper that takes the result
					if g := x.Call.StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 {
						for i, a := range x.Call.Args {
							if a == v && i < len(g.Params) {
								visit(g.Params[i], t, n)
							}
						}
					}
				}
			case *ssa.Return:
				// a helper that gives the result to the one who called it
				for f := fr; f != nil; f = f.up {
					if f.call.Common().StaticCallee() != x.Parent() {
						continue
					}
					cv, ok := f.call.(*ssa.Call)
					if !ok {
						continue
					}
					for i, res := range x.Results {
						if res != v {
							continue
						}
						if len(x.Results) == 1 {
							visit(cv, t, n)
							continue
						}
						for _, r2 := range *cv.Referrers() {
							if e, ok := r2.(*ssa.Extract); ok && e.Index == i {
								visit(e, t, n)
							}
						}
					}
				}
			case *ssa.Phi:
				visit(x, t, n)
			case *ssa.TypeAssert:
				if !x.CommaOk && (t == nil || !types.Identical(t, x.AssertedType)) {
					why = fmt.Sprintf("result %d is used as %s, but %v was checked", n, x.AssertedType, t)
				}
			}
		}
	}
	visit(c, nil, -1)
	return why
}
