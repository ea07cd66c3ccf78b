package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- W02

var reflectMutators = map[string]bool{}

func init() {
	for _, m := range []string{
		"(Message).Set", "(Message).Clear", "(Message).Mutable", "(Message).SetUnknown",
		"(List).Set", "(List).Append", "(List).AppendMutable", "(List).Truncate",
		"(Map).Set", "(Map).Clear", "(Map).Mutable",
	} {
		reflectMutators[prPath+"."+m] = true
	}
	for _, f := range []string{"Merge", "Reset", "Unmarshal", "SetExtension", "ClearExtension"} {
		reflectMutators["google.golang.org/protobuf/proto."+f] = true
	}
	for _, f := range []string{"Merge", "Reset", "Unmarshal"} {
		reflectMutators["github.com/golang/protobuf/proto."+f] = true
	}
}

// freshMakers are calls whose result is a new object.
func freshCall(name string) bool {
	switch name {
	case "google.golang.org/protobuf/proto.Clone", "github.com/golang/protobuf/proto.Clone",
		prPath + ".(Message).New", prPath + ".(Message).NewField", prPath + ".(List).NewElement", prPath + ".(Map).NewValue",
		prPath + ".(MessageType).New":
		return true
	}
	return false
}

// fresh says whether every object v may denote was made by the code itself
// (allocated or cloned), following calls back to their sites; why names the first other source.
func (u *Unit) freshObj(v ssa.Value) (bool, ssa.Value) {
	var bad ssa.Value
	var visit func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value, d int) {
		if bad != nil || seen[v] {
			return
		}
		seen[v] = true
		if d > 12 {
			bad = v
			return
		}
		for _, l := range u.Leaves(v) {
			switch x := l.(type) {
			case *ssa.Alloc:
				continue
			case *ssa.Const:
				continue
			case *ssa.TypeAssert:
				visit(x.X, d+1)
				continue
			case *ssa.UnOp:
				if ia, ok := elemIndex(x); ok {
					if els, ok := appended(ia.X); ok {
						for _, e := range els {
							visit(e, d+1)
						}
						continue
					}
				}
			case *ssa.Extract:
				visit(x.Tuple, d+1)
				continue
			case *ssa.Call:
				n := calleeName(&x.Call)
				if freshCall(n) {
					continue
				}
				// views of a fresh object
				if strings.HasSuffix(n, ".ProtoReflect") || strings.HasSuffix(n, ").Interface") || strings.HasSuffix(n, ").Message") || strings.HasSuffix(n, ").List") || strings.HasSuffix(n, ").Map") {
					if x.Call.IsInvoke() {
						visit(x.Call.Value, d+1)
					} else if len(x.Call.Args) > 0 {
						visit(x.Call.Args[0], d+1)
					}
					continue
				}
			}
			if bad == nil {
				bad = l
			}
		}
	}
	visit(v, 0)
	return bad == nil, bad
}

// appended lists the values put into a slice that is built in the same
// function by appending; ok is false when it has other sources.
func appended(s ssa.Value) (out []ssa.Value, ok bool) {
	ok = true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
				walk(x.Call.Args[0])
				els, ok2 := varargElems(x.Call.Args[1])
				if !ok2 {
					ok = false
				}
				out = append(out, els...)
				return
			}
			ok = false
		case *ssa.MakeSlice:
		case *ssa.Slice:
			if _, isA := x.X.(*ssa.Alloc); isA {
				els, ok2 := varargElems(x)
				if !ok2 {
					els = nil
				}
				out = append(out, els...)
				return
			}
			walk(x.X)
		default:
			ok = false
		}
	}
	walk(s)
	return out, ok
}

func checkW02(w *World, r *Report) {
	u := w.Host
	m := newWireModel(u)
	r.explanation = "Effect analysis over every function reachable from GetValue, String and FromProto: no reflection call that changes a message (Set, Mutable, Append, Clear, ...) unless its receiver is an object made by the code itself, no store into a path component that is not freshly allocated or cloned, and no path object that keeps the message a caller of an exported function handed in."
	r.assumptions = append(r.assumptions, "read methods of the protobuf runtime do not change messages", "Proto is documented to return a value that must not be modified, which its callers respect")
	roots := []*ssa.Function{u.MustFunc(wpPkg, "GetValue"), u.MustMethod(wpPkg, "WirePath", "String"), u.MustFunc(wpPkg, "FromProto"), u.MustMethod(wpPkg, "WirePath", "Proto"), u.MustFunc(wpPkg, "ParseString")}
	readOnly := u.reachableFrom(roots[0], roots[1], roots[2], roots[3])
	all := u.reachableFrom(roots...)
	n := 0
	desc := func(v ssa.Value) string {
		if v == nil {
			return "?"
		}
		return fmt.Sprintf("%s of type %s", v.Name(), v.Type())
	}
	for fn := range all {
		if fnPkg(fn) != wpPkg {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					cc := x.Common()
					name := calleeName(cc)
					if !reflectMutators[name] || !readOnly[fn] {
						continue
					}
					recv := cc.Value
					if !cc.IsInvoke() {
						recv = cc.Args[0]
						if strings.HasSuffix(name, ".Unmarshal") {
							recv = cc.Args[1]
						}
					}
					ok, bad := u.freshObj(recv)
					r.Check(ok, "read-only", fnName(fn)+" "+strings.TrimPrefix(name, prPath+"."), u.InstrPos(in),
						"%s changes an object that the caller owns (%s)", name, desc(bad))
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						if ia, isIdx := x.Addr.(*ssa.IndexAddr); isIdx {
							if fa2, isF := loadOfField(ia.X); isF && m.isPathStruct(fa2.X.Type()) {
								fa, ok = fa2, true
							}
						}
						if !ok {
							continue
						}
					}
					if !m.isPathStruct(fa.X.Type()) {
						continue
					}
					fresh, bad := u.freshObj(fa.X)
					r.Check(fresh, "no-mutation", fnName(fn)+" "+fieldNameOf(fa), u.InstrPos(in),
						"field %s of a path that already exists is changed (%s)", fieldNameOf(fa), desc(bad))
					if types.Identical(fa.X.Type(), m.wp) {
						m.checkNotShared(r, fn, in, x.Val)
					}
				}
			}
		}
	}
	r.Count("functions of the package", n)
	r.Floor("functions of the package", 6)
	r.Floor("not-shared", 1)
	r.Floor("no-mutation", 3)
}

func loadOfField(v ssa.Value) (*ssa.FieldAddr, bool) {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		fa, ok := ld.X.(*ssa.FieldAddr)
		return fa, ok
	}
	return nil, false
}

func (m *wireModel) isPathStruct(t types.Type) bool {
	if types.Identical(t, m.pbWP) || types.Identical(t, m.wp) {
		return true
	}
	for _, v := range append(append([]wireVariant{}, m.slots...), m.elms...) {
		if types.Identical(t, v.typ) {
			return true
		}
	}
	return false
}

// checkNotShared: the message put into a path object is not one that a caller
// of an exported function still holds.
func (m *wireModel) checkNotShared(r *Report, fn *ssa.Function, at ssa.Instruction, v ssa.Value) {
	var visit func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value, d int) {
		if seen[v] || d > 10 {
			return
		}
		seen[v] = true
		for _, l := range m.u.Leaves(v) {
			switch x := l.(type) {
			case *ssa.Parameter:
				pf := x.Parent()
				shared := types.Identical(x.Type(), m.pbWP) && pf.Object() != nil && pf.Object().Exported()
				r.Check(!shared, "not-shared", fnName(pf)+" "+fnName(fn), m.u.InstrPos(at),
					"the path keeps the message that a caller passes to %s, so the caller can change the path", fnName(pf))
				if !shared && (pf.Object() == nil || !pf.Object().Exported()) {
					for _, s := range m.u.callSites(pf) {
						if a := siteArg(s, pf, paramIndex(x)); a != nil {
							visit(a, d+1)
						}
					}
				}
			case *ssa.TypeAssert:
				if c, ok := x.X.(*ssa.Call); ok && freshCall(calleeName(&c.Call)) {
					r.OK("not-shared", "%s clones", fnName(fn))
					continue
				}
				visit(x.X, d+1)
			case *ssa.Call:
				n := calleeName(&x.Call)
				if freshCall(n) {
					r.OK("not-shared", "%s clones", fnName(fn))
					continue
				}
				if strings.HasSuffix(n, ".GetChild") && len(x.Call.Args) > 0 {
					visit(x.Call.Args[0], d+1)
				}
			}
		}
	}
	visit(v, 0)
}

// ---------------------------------------------------------------- W03

func checkW03(w *World, r *Report) {
	u := w.Host
	m := newWireModel(u)
	r.explanation = "(1) Printing and evaluating are specialised to paths in which every component has a next one: no successful return may be reachable, so neither can stop before the last component. (2) Every store that links a component into the chain, in the functions reachable from ParseString, is a loop-carried tail that is advanced to the new component on every way round the loop (or an equivalent construction), and no iteration skips it. (3) The constant regular expression that splits a path ends a match exactly at the end of a component, for a witness of every kind of component."
	r.assumptions = append(r.assumptions, "components are linked through the Child field of the generated message")
	str := u.MustMethod(wpPkg, "WirePath", "String")
	get := u.MustFunc(wpPkg, "GetValue")
	parse := u.MustFunc(wpPkg, "ParseString")
	for _, f := range []*ssa.Function{str, get} {
		s, c := m.run(f, wireAssume{endless: true})
		var at ssa.Instruction
		for _, rt := range returnsOf(c.fn) {
			if c.reach[rt.Block()] && s.returns(c, rt) && isSuccessReturn(c, rt) {
				at = rt
			}
		}
		pos := u.Pos(f.Pos())
		where := ""
		if at != nil {
			// the innermost function that gives up
			for _, sub := range s.order {
				if sub == c || fnPkg(sub.fn) != wpPkg {
					continue
				}
				for _, rt := range returnsOf(sub.fn) {
					if where == "" && sub.reach[rt.Block()] && s.returns(sub, rt) && isSuccessReturn(sub, rt) && takesPath(sub.fn, m) && resultMatches(sub.fn, c.fn) {
						where, pos = " (return in "+fnName(sub.fn)+")", u.InstrPos(rt)
					}
				}
			}
		}
		r.Check(at == nil, "every-component", fnName(f), pos, "%s can finish although the path has further components%s", fnName(f), where)
	}
	links := 0
	fns := u.reachableFrom(parse)
	for fn := range fns {
		if fnPkg(fn) != wpPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !types.Identical(st.Val.Type(), m.pbWP) {
					continue
				}
				if fa, isF := st.Addr.(*ssa.FieldAddr); isF {
					if !types.Identical(fa.X.Type(), m.pbWP) || isNilConst(st.Val) {
						continue
					}
				} else if _, isPhi := st.Addr.(*ssa.Phi); !isPhi {
					continue
				}
				links++
				m.checkLink(r, fn, st, fns)
			}
		}
	}
	if links == 0 {
		r.Bad("link", "ParseString", u.Pos(parse.Pos()), "no code reachable from ParseString links one component to the next")
	}
	m.checkSplit(r)
}

func takesPath(fn *ssa.Function, m *wireModel) bool { return len(fn.Params) > 0 }
func resultMatches(a, b *ssa.Function) bool {
	return types.Identical(a.Signature.Results(), b.Signature.Results())
}

// returns says whether a return in a reachable block is itself reached.
func (s *specRun) returns(c *specCtx, rt *ssa.Return) bool {
	for _, in := range rt.Block().Instrs {
		if call, ok := in.(*ssa.Call); ok && c.vals[call].k == sBot {
			return false
		}
	}
	return true
}

// checkLink decides whether a store to the Child field extends the chain at its end.
func (m *wireModel) checkLink(r *Report, fn *ssa.Function, st *ssa.Store, fns map[*ssa.Function]bool) {
	u := m.u
	pos := u.InstrPos(st)
	name := fnName(fn)
	// pointer to the next link
	if phi, ok := st.Addr.(*ssa.Phi); ok {
		bad := ""
		for _, e := range backEdges(phi) {
			fa, ok := e.(*ssa.FieldAddr)
			if !ok || m.ident(fa.X) != m.ident(st.Val) {
				bad = "is not always moved to the component just linked"
			}
		}
		r.Check(bad == "", "link", name, pos, "the pointer to the end of the chain %s", bad)
		return
	}
	fa := st.Addr.(*ssa.FieldAddr)
	base, val := m.ident(fa.X), m.ident(st.Val)
	sites := []struct {
		base, val ssa.Value
		at        ssa.Instruction
	}{{base, val, st}}
	// a helper that links its arguments: look at its calls
	if pb, ok := base.(*ssa.Parameter); ok {
		sites = sites[:0]
		for _, s := range u.callSites(fn) {
			if !fns[s.Parent()] {
				continue
			}
			b := siteArg(s, fn, paramIndex(pb))
			v := val
			if pv, ok := val.(*ssa.Parameter); ok {
				v = siteArg(s, fn, paramIndex(pv))
			}
			if b == nil || v == nil {
				continue
			}
			sites = append(sites, struct {
				base, val ssa.Value
				at        ssa.Instruction
			}{m.ident(b), m.ident(v), s})
		}
	}
	for _, s := range sites {
		m.checkTail(r, s.base, s.val, s.at)
	}
}

// ident sees through calls that return one of their arguments.
func (m *wireModel) ident(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		c, ok := v.(*ssa.Call)
		if !ok {
			return v
		}
		f := c.Call.StaticCallee()
		if f == nil || !inRepo(f) || len(f.Blocks) == 0 {
			return v
		}
		var p *ssa.Parameter
		for _, rt := range returnsOf(f) {
			if len(rt.Results) != 1 {
				return v
			}
			q, ok := rt.Results[0].(*ssa.Parameter)
			if !ok || (p != nil && p != q) {
				return v
			}
			p = q
		}
		if p == nil {
			return v
		}
		v = c.Call.Args[paramIndex(p)]
	}
	return v
}

// backEdges gives the values a loop phi takes on its back edges, with inner
// phis resolved; nil when it is not a loop phi.
func backEdges(phi *ssa.Phi) (out []ssa.Value) {
	h := phi.Block()
	for i, e := range phi.Edges {
		if h.Dominates(h.Preds[i]) {
			out = append(out, innerEdges(e, phi, map[ssa.Value]bool{})...)
		}
	}
	return
}

func innerEdges(v ssa.Value, stop *ssa.Phi, seen map[ssa.Value]bool) (out []ssa.Value) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	if p, ok := v.(*ssa.Phi); ok && p != stop && stop.Block().Dominates(p.Block()) {
		for _, e := range p.Edges {
			out = append(out, innerEdges(e, stop, seen)...)
		}
		return out
	}
	return []ssa.Value{v}
}

func (m *wireModel) checkTail(r *Report, base, val ssa.Value, at ssa.Instruction) {
	u := m.u
	fn := at.Parent()
	name, pos := fnName(fn), u.InstrPos(at)
	if phi, ok := base.(*ssa.Phi); ok && len(backEdges(phi)) > 0 {
		// walking to the end of the chain before linking
		walk := true
		for _, e := range backEdges(phi) {
			if fa, isF := loadOfField(e); isF && fa.X == phi {
				continue
			}
			if c, isC := e.(*ssa.Call); isC && strings.HasSuffix(calleeName(&c.Call), ".GetChild") && len(c.Call.Args) > 0 && c.Call.Args[0] == phi {
				continue
			}
			walk = false
		}
		if walk {
			r.OK("link", "%s walks to the end %s", name, pos)
			return
		}
		for _, e := range backEdges(phi) {
			if !m.sameObj(m.ident(e), val) {
				r.Bad("link", name, pos, "a component is linked to a tail that is not advanced to it on every way round the loop, so a later component replaces it")
				return
			}
		}
		// no iteration skips the link unless there is no tail yet
		var def *ssa.BasicBlock
		if d, ok := val.(ssa.Instruction); ok {
			def = d.Block()
		}
		if def != nil && skipsLink(def, phi, at) {
			r.Bad("link", name, pos, "an iteration can advance the tail to a component without linking it to the one before")
			return
		}
		// the head stays the first component
		for _, in := range phi.Block().Instrs {
			h, ok := in.(*ssa.Phi)
			if !ok || h == phi || !types.Identical(h.Type(), phi.Type()) {
				continue
			}
			for i, e := range h.Edges {
				if !h.Block().Dominates(h.Block().Preds[i]) {
					continue
				}
				if m.headReplaced(e, h, phi, val, map[ssa.Value]bool{}, edgeGuards(h.Block(), i)) {
					r.Bad("link", name+" head", pos, "the first component of the chain can be replaced by a later one")
					return
				}
			}
		}
		r.OK("link", "%s tail advances %s", name, pos)
		return
	}
	if phi, ok := val.(*ssa.Phi); ok && len(backEdges(phi)) > 0 {
		for _, e := range backEdges(phi) {
			if !m.sameObj(m.ident(e), base) {
				r.Bad("link", name, pos, "the chain is built from its end, but a component is not made its new head on every way round the loop")
				return
			}
		}
		r.OK("link", "%s builds from the end %s", name, pos)
		return
	}
	// the rest of the path parsed recursively
	for _, l := range u.LocalLeaves(val) {
		var c *ssa.Call
		switch x := l.(type) {
		case *ssa.Call:
			c = x
		case *ssa.Extract:
			c, _ = x.Tuple.(*ssa.Call)
		}
		if c != nil && c.Call.StaticCallee() != nil {
			if u.reachableFrom(c.Call.StaticCallee())[fn] {
				r.OK("link", "%s recursive %s", name, pos)
				return
			}
		}
	}
	if bi, ok := elemIndex(base); ok {
		if vi, ok2 := elemIndex(val); ok2 && consecutive(bi, vi) {
			r.OK("link", "%s consecutive elements %s", name, pos)
			return
		}
	}
	r.Bad("link", name, pos, "undecided: this store to the Child field is none of the constructions known to extend the chain at its end")
}

// sameObj: the same SSA value, or two loads of the same slice element in one
// iteration.
func (m *wireModel) sameObj(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := elemIndex(a)
	y, ok2 := elemIndex(b)
	return ok1 && ok2 && x.Index == y.Index && (x.X == y.X || sameCellLoad(x.X, y.X))
}

// headReplaced says whether v, arriving over a back edge of the head phi, can be
// the new component although a tail exists already.
func (m *wireModel) headReplaced(v ssa.Value, head, tail *ssa.Phi, val ssa.Value, seen map[ssa.Value]bool, gs []Guard) bool {
	if v == head || seen[v] {
		return false
	}
	if p, ok := v.(*ssa.Phi); ok && head.Block().Dominates(p.Block()) && p != tail {
		seen[v] = true
		for i, e := range p.Edges {
			if m.headReplaced(e, head, tail, val, seen, edgeGuards(p.Block(), i)) {
				return true
			}
		}
		return false
	}
	if !m.sameObj(m.ident(v), val) && v != ssa.Value(tail) {
		return false
	}
	for _, g := range gs {
		for _, e := range expandGuard(g.Cond, g.Val, g.If) {
			b, ok := e.Cond.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
				continue
			}
			if (b.Op == token.EQL) != e.Val {
				continue
			}
			x := b.X
			if _, isC := x.(*ssa.Const); isC {
				x = b.Y
			}
			if x == head || x == tail {
				return false
			}
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 0 {
				return false
			}
		}
	}
	return true
}

// skipsLink: from the definition of the component the loop can be closed
// without passing the link, on a way on which the tail is not known to be nil.
func skipsLink(def *ssa.BasicBlock, tail *ssa.Phi, at ssa.Instruction) bool {
	h := tail.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == at.Block() || seen[b] {
			return false
		}
		seen[b] = true
		for i, n := range b.Succs {
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				cut := false
				for _, e := range expandGuard(ifi.Cond, i == 0, ifi) {
					if c, ok := e.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL) == e.Val && (c.Op == token.EQL || c.Op == token.NEQ) {
						nilCmp := isNilConst(c.X) || isNilConst(c.Y)
						zero := false
						if k, ok := c.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 0 {
							zero = true
						}
						if nilCmp && ptrLike(c.X) || zero {
							cut = true
						}
					}
				}
				if cut {
					continue
				}
			}
			if n == h {
				return true
			}
			if h.Dominates(n) && walk(n) {
				return true
			}
		}
		return false
	}
	return walk(def)
}

func ptrLike(v ssa.Value) bool {
	_, ok := v.Type().Underlying().(*types.Pointer)
	return ok
}

func elemIndex(v ssa.Value) (*ssa.IndexAddr, bool) {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		ia, ok := ld.X.(*ssa.IndexAddr)
		return ia, ok
	}
	return nil, false
}

func consecutive(a, b *ssa.IndexAddr) bool {
	if a.X != b.X && !sameCellLoad(a.X, b.X) {
		return false
	}
	baseOff := func(v ssa.Value) (ssa.Value, int64) {
		if bo, ok := v.(*ssa.BinOp); ok {
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
				switch bo.Op {
				case token.ADD:
					return bo.X, k.Int64()
				case token.SUB:
					return bo.X, -k.Int64()
				}
			}
		}
		return v, 0
	}
	ab, ao := baseOff(a.Index)
	bb, bo := baseOff(b.Index)
	if ab == bb {
		return bo-ao == 1
	}
	// range over s[1:] or the like
	return false
}

func sameCellLoad(a, b ssa.Value) bool {
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL && la.X == lb.X
}

var splitWitnesses = []string{`1`, `12(name)`, `3[0]`, `3[-1]`, `4["a"]`, `4["a/b"]`, `4["]["]`, `4["\""]`, `4["\\"]`, `5[1:bool]`, `6[-3:sint64]`, `.`}

// checkSplit: the regular expression that cuts off one component stops at its end.
func (m *wireModel) checkSplit(r *Report) {
	for _, p := range m.u.regexpsOf(wpPkg) {
		if !(strings.HasPrefix(p, "^") || strings.HasPrefix(p, `\A`)) || strings.HasSuffix(p, "$") {
			continue
		}
		re, err := regexp.Compile(p)
		if err != nil {
			continue
		}
		if x := re.FindString("12/34"); x != "12" {
			continue // not a splitter
		}
		for _, a := range splitWitnesses {
			for _, b := range splitWitnesses {
				got := re.FindString(a + "/" + b)
				if got != a {
					r.Bad("split", a, "-", "the regular expression that cuts off one component matches %q at the start of %q", got, a+"/"+b)
					return
				}
			}
			r.OK("split", "%s", a)
		}
	}
}
