package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P01: typestate of a record copy and of the composite destination.

// copyModel are the interfaces of package protocp, found by their shape.
type copyModel struct {
	u                     *Unit
	reader, writer        *types.Named
	read, deliver, finish string
}

func isMessageType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Name() == "Message" && strings.HasSuffix(n.Obj().Pkg().Path(), "/proto") || n.Obj().Name() == "ProtoMessage"
}

func newCopyModel(u *Unit) *copyModel {
	m := &copyModel{u: u}
	p := u.SSA["protocp"]
	if p == nil {
		fatalf("package protocp not found")
	}
	for _, mem := range p.Members {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		n, _ := t.Type().(*types.Named)
		it, ok := t.Type().Underlying().(*types.Interface)
		if !ok || n == nil {
			continue
		}
		read, deliver, finish := "", "", ""
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			sig := f.Type().(*types.Signature)
			if errResultIndex(sig) != sig.Results().Len()-1 || sig.Results().Len() == 0 {
				continue
			}
			takes := false
			for j := 0; j < sig.Params().Len(); j++ {
				takes = takes || isMessageType(sig.Params().At(j).Type())
			}
			switch {
			case sig.Results().Len() == 2 && isMessageType(sig.Results().At(0).Type()):
				read = f.Name()
			case sig.Results().Len() == 1 && takes:
				deliver = f.Name()
			case sig.Results().Len() == 1:
				finish = f.Name()
			}
		}
		if read != "" && it.NumMethods() == 1 {
			m.reader, m.read = n, read
		}
		if deliver != "" && finish != "" {
			m.writer, m.deliver, m.finish = n, deliver, finish
		}
	}
	if m.reader == nil || m.writer == nil {
		fatalf("the record reader and writer interfaces of package protocp were not found")
	}
	return m
}

// kind of a call: read, deliver, finish.
func (m *copyModel) kind(cc *ssa.CallCommon) string {
	if !cc.IsInvoke() {
		return ""
	}
	n := namedOf(cc.Value.Type())
	switch {
	case n == m.reader && cc.Method.Name() == m.read:
		return "read"
	case n == m.writer && cc.Method.Name() == m.deliver:
		return "deliver"
	case n == m.writer && cc.Method.Name() == m.finish:
		return "finish"
	}
	return ""
}

type copyTS struct {
	phase     string // "", have, delivered, ended, failed, finished
	msg       int
	writer    int
	err       int // first failure
	carriers  map[int]bool
	loaded    bool // composite: a destination was fetched and not used yet
	exhausted bool
}

func (t *copyTS) clone() pts {
	c := *t
	c.carriers = map[int]bool{}
	for k := range t.carriers {
		c.carriers[k] = true
	}
	return &c
}
func (t *copyTS) roots() []int {
	var out []int
	for _, x := range []int{t.msg, t.writer, t.err} {
		if x != 0 {
			out = append(out, x)
		}
	}
	for k := range t.carriers {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
func (t *copyTS) key(name func(int) string) string {
	n := func(i int) string {
		if i == 0 {
			return "-"
		}
		return name(i)
	}
	var cs []int
	for k := range t.carriers {
		cs = append(cs, k)
	}
	sort.Ints(cs)
	s := fmt.Sprintf("%s m%s w%s e%s %v%v", t.phase, n(t.msg), n(t.writer), n(t.err), t.loaded, t.exhausted)
	for _, c := range cs {
		s += " " + name(c)
	}
	return s
}

type copyCheck struct {
	m    *copyModel
	r    *Report
	mode string // copy, deliver, finish
	root *ssa.Function
}

func (cc *copyCheck) bad(rule string, at ssa.Instruction, format string, a ...interface{}) {
	cc.r.Bad(rule, fnName(cc.root)+"|"+fnName(at.Parent()), cc.m.u.InstrPos(at), format, a...)
}

// carry propagates "tells about the first failure" through error construction.
func (cc *copyCheck) carry(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) bool {
	t := s.ts.(*copyTS)
	n := callName(in)
	if !errorMaker(n) && n != "errors.Join" || t.err == 0 {
		return false
	}
	has := false
	is := func(v pval) bool { return v.k == pSym && (v.id == t.err || t.carriers[v.id]) }
	for _, a := range args {
		if is(a) {
			has = true
		}
		if a.k == pAddr {
			for l, x := range s.mem {
				if l.obj == a.loc.obj && is(x) {
					has = true
				}
			}
		}
	}
	if !has {
		return false
	}
	v := e.nonNil(s, in.Value())
	s.objs[v.id].tags = "made"
	t.carriers[v.id] = true
	e.setResult(s, in, v)
	return true
}

func (cc *copyCheck) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	c := in.Common()
	kind := cc.m.kind(c)
	if kind == "" {
		if cc.carry(e, s, in, args) {
			return []*pstate{s}, true
		}
		return nil, false
	}
	cc.r.Count("events followed", 1)
	outcome := func(fail bool, errv func(o *pstate) pval, more ...func(o *pstate)) *pstate {
		o := s.clone()
		for _, f := range more {
			f(o)
		}
		return o
	}
	_ = outcome
	t := s.ts.(*copyTS)
	who := fnName(in.Parent())
	if _, ok := in.(*ssa.Call); !ok {
		cc.bad("in-order", in, "%s: records are handled in a deferred or concurrent call", who)
		return nil, false
	}
	fail := func(phase string) *pstate {
		o := s.clone()
		ot := o.ts.(*copyTS)
		v := e.nonNil(o, in.Value())
		eof, _ := globalNamed(cc.m.u, "io.EOF")
		if kind == "read" && eof != nil {
			o.objs[v.id].ne = append(o.objs[v.id].ne, pval{k: pGlobal, g: eof})
		}
		if ot.err == 0 {
			ot.err = v.id
		}
		ot.phase = phase
		if kind == "read" {
			e.setResult(o, in, e.fresh(o, in.Value()), v)
		} else {
			e.setResult(o, in, v)
		}
		return o
	}
	switch kind {
	case "read":
		switch t.phase {
		case "have":
			cc.bad("every-record-delivered", in, "%s: the next record is read although the last one was not delivered", who)
		case "ended", "failed", "finished":
			cc.bad("stops-at-the-end", in, "%s: reading goes on after the input ended, a step failed or the destination was finished", who)
			return nil, true
		}
		ok := s.clone()
		ot := ok.ts.(*copyTS)
		msg := e.nonNil(ok, in.Value())
		ot.msg, ot.phase = msg.id, "have"
		e.setResult(ok, in, msg, pval{k: pNil})
		outs := []*pstate{ok, fail("failed")}
		if eof, ok := globalNamed(cc.m.u, "io.EOF"); ok {
			o := s.clone()
			o.ts.(*copyTS).phase = "ended"
			e.setResult(o, in, e.fresh(o, in.Value()), pval{k: pGlobal, g: eof})
			outs = append(outs, o)
		}
		return outs, true
	case "deliver", "finish":
		w := args[0]
		if cc.mode == "copy" {
			if t.writer == 0 && w.k == pSym {
				t.writer = w.id
			} else if w.k != pSym || w.id != t.writer {
				cc.bad("one-destination", in, "%s: not every call goes to the destination that was given", who)
			}
		}
	}
	switch {
	case kind == "deliver" && cc.mode == "copy":
		switch t.phase {
		case "have":
		case "delivered":
			cc.bad("delivered-once", in, "%s: a record is delivered twice", who)
		default:
			cc.bad("delivered-once", in, "%s: something is delivered although no record was just read (state %q)", who, t.phase)
		}
		given := false
		for _, a := range args[1:] {
			given = given || a.k == pSym && a.id == t.msg
		}
		if !given && t.phase == "have" {
			cc.bad("delivered-once", in, "%s: what is delivered is not the record that was just read", who)
		}
		ok := s.clone()
		ok.ts.(*copyTS).phase = "delivered"
		ok.ts.(*copyTS).msg = 0
		e.setResult(ok, in, pval{k: pNil})
		return []*pstate{ok, fail("failed")}, true
	case kind == "finish" && cc.mode == "copy":
		if t.phase != "ended" {
			cc.bad("finished-after-clean-end", in, "%s: the destination is finished although the input has not just ended cleanly (state %q)", who, t.phase)
		}
		ok := s.clone()
		ok.ts.(*copyTS).phase = "finished"
		e.setResult(ok, in, pval{k: pNil})
		return []*pstate{ok, fail("finished")}, true
	case kind == cc.mode: // composite
		if !t.loaded {
			cc.bad("each-destination-once", in, "%s: a destination is given the record (or finished) more than once, or it is not one of the list", who)
		}
		if kind == "deliver" {
			given := false
			for _, a := range args[1:] {
				given = given || a.k == pSym && a.id == t.msg
			}
			if !given {
				cc.bad("same-record", in, "%s: a destination is not given the record that the composite was given", who)
			}
		}
		ok := s.clone()
		ok.ts.(*copyTS).loaded = false
		e.setResult(ok, in, pval{k: pNil})
		f := fail(t.phase)
		f.ts.(*copyTS).loaded = false
		return []*pstate{ok, f}, true
	}
	cc.bad("wrong-step", in, "%s: calls %s of a destination, which is not its job", who, kind)
	e.unknownResult(s, in)
	return []*pstate{s}, true
}

// isElemLoad: a destination is fetched from a list.
func (cc *copyCheck) isElemLoad(in ssa.Instruction) *ssa.IndexAddr {
	l, ok := in.(*ssa.UnOp)
	if !ok || l.Op != token.MUL || namedOf(l.Type()) != cc.m.writer {
		return nil
	}
	ia, _ := l.X.(*ssa.IndexAddr)
	return ia
}

func (cc *copyCheck) instr(e *pathEng, s *pstate, in ssa.Instruction) {
	t := s.ts.(*copyTS)
	if g, ok := in.(*ssa.Go); ok {
		cc.bad("in-order", g, "%s: records are handled concurrently", fnName(in.Parent()))
	}
	if cc.mode == "copy" {
		return
	}
	if ia := cc.isElemLoad(in); ia != nil {
		if t.loaded {
			cc.bad("each-destination-once", in, "%s: a destination is passed over", fnName(in.Parent()))
		}
		if why := cc.fullRange(ia); why != "" {
			cc.bad("every-destination", in, "%s: the loop over the destinations does not visit all of them: %s", fnName(in.Parent()), why)
		}
		t.loaded = true
	}
}

// bound finds the comparison that bounds an index.
func indexBound(ia *ssa.IndexAddr) (ifi *ssa.If, why string) {
	idx := ia.Index
	for b := ia.Block(); b != nil; b = b.Idom() {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS || c.X != idx {
			continue
		}
		return i, ""
	}
	return nil, "the index is not bounded by the length of the list"
}

func (cc *copyCheck) fullRange(ia *ssa.IndexAddr) string {
	ifi, why := indexBound(ia)
	if why != "" {
		return why
	}
	c := ifi.Cond.(*ssa.BinOp)
	call, ok := c.Y.(*ssa.Call)
	if !ok {
		return "the bound is not the length of the list"
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || !cc.sameList(call.Call.Args[0], ia.X) {
		return "the bound is not the length of the list"
	}
	for _, l := range cc.m.u.LocalLeaves(ia.X) {
		if _, ok := l.(*ssa.Slice); ok {
			return "only a part of the list is visited"
		}
	}
	if !startsAt(ia.Index, 0) {
		return "it does not start at the first one or skips some"
	}
	return ""
}

func (cc *copyCheck) sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := loadOfField(a)
	fb, ok2 := loadOfField(b)
	return ok1 && ok2 && fa.Field == fb.Field && (fa.X == fb.X || cc.m.u.sameOrigin(fval{v: fa.X}, fval{v: fb.X}))
}

// startsAt: an index that runs from n upwards in steps of one.
func startsAt(idx ssa.Value, n int64) bool {
	isC := func(v ssa.Value, want int64) bool {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false
		}
		got, ok := constant.Int64Val(k.Value)
		return ok && got == want
	}
	inc := func(v ssa.Value, phi ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == phi && isC(b.Y, 1)
	}
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD && isC(b.Y, 1) {
		phi, ok := b.X.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range phi.Edges {
			if !isC(e, n-1) && e != idx {
				return false
			}
		}
		return true
	}
	phi, ok := idx.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if !isC(e, n) && !inc(e, phi) {
			return false
		}
	}
	return true
}

func (cc *copyCheck) edge(e *pathEng, s *pstate, from, to *ssa.BasicBlock) {
	if cc.mode == "copy" {
		return
	}
	ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || to != from.Succs[1] || from.Succs[0] == from.Succs[1] {
		return
	}
	for _, b := range from.Parent().Blocks {
		for _, in := range b.Instrs {
			if ia := cc.isElemLoad(in); ia != nil {
				if i, _ := indexBound(ia); i == ifi {
					t := s.ts.(*copyTS)
					if t.loaded {
						cc.bad("each-destination-once", ifi, "%s: a destination is passed over", fnName(from.Parent()))
						t.loaded = false
					}
					t.exhausted = true
				}
			}
		}
	}
}

func (cc *copyCheck) ret(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
	if len(s.frames) != 1 {
		return
	}
	t := s.ts.(*copyTS)
	ei := errResultIndex(cc.root.Signature)
	if ei < 0 {
		cc.bad("failure-reported", in, "%s cannot report a failure", fnName(cc.root))
		return
	}
	v := s.resolve(vals[ei])
	nilness := s.isNil(v)
	cc.r.Count("ways out", 1)
	if t.err != 0 {
		ok := v.k == pSym && (v.id == t.err || t.carriers[v.id])
		if !ok {
			what := "another error"
			if nilness != -1 {
				what = "success"
			}
			cc.bad("first-failure-reported", in, "%s: after a failed step it can end with %s instead of the first failure", fnName(cc.root), what)
		}
	}
	switch cc.mode {
	case "copy":
		if nilness == -1 || t.err != 0 {
			return
		}
		if t.phase != "finished" {
			cc.bad("finished-on-success", in, "%s: it can report success in state %q without having finished the destination", fnName(cc.root), t.phase)
		}
	case "deliver":
		if nilness == -1 {
			return
		}
		if t.loaded || !t.exhausted {
			cc.bad("every-destination", in, "%s: it can report success without having handed the record to every destination", fnName(cc.root))
		}
	case "finish":
		if t.loaded || !t.exhausted {
			cc.bad("every-destination", in, "%s: it can return without having finished every destination", fnName(cc.root))
		}
	}
}

// wholeList: a stored list of destinations is the list that was given.
func wholeList(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !wholeList(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			return (isNilConst(x.Call.Args[0]) || emptySlice(x.Call.Args[0])) && wholeList(x.Call.Args[1], d+1)
		}
	case *ssa.MakeSlice:
		// filled by copy(x, param) where the length is len(param)
		ln, ok := x.Len.(*ssa.Call)
		if !ok || len(ln.Call.Args) != 1 {
			return false
		}
		for _, ref := range *x.Referrers() {
			if c, ok := ref.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == x && c.Call.Args[1] == ln.Call.Args[0] {
					return wholeList(c.Call.Args[1], d+1)
				}
			}
		}
	case *ssa.Slice:
		return x.Low == nil && x.High == nil && wholeList(x.X, d+1)
	}
	return false
}

func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		k, ok := x.Len.(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) == 0
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if arr, ok := deref(a.Type()).Underlying().(*types.Array); ok {
				if arr.Len() == 0 {
					return true
				}
				k, ok := x.High.(*ssa.Const)
				return ok && k.Value != nil && constant.Sign(k.Value) == 0
			}
		}
	}
	return false
}

func checkCopy(w *World, r *Report) {
	u := w.Host
	m := newCopyModel(u)
	direct := map[string]map[*ssa.Function]bool{"read": {}, "deliver": {}, "finish": {}}
	fs := u.PkgFuncs("protocp")
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if k := m.kind(c.Common()); k != "" {
						direct[k][f] = true
						r.Count("reading, delivering and finishing calls", 1)
					}
				}
			}
		}
	}
	reaches := func(root *ssa.Function, k string) bool {
		for f := range u.reachableFrom(root) {
			if direct[k][f] {
				return true
			}
		}
		return false
	}
	run := func(root *ssa.Function, mode string) {
		cc := &copyCheck{m: m, r: r, mode: mode, root: root}
		e := newPathEng(u, pclient{call: cc.call, instr: cc.instr, ret: cc.ret, edge: cc.edge})
		t := &copyTS{carriers: map[int]bool{}}
		n := len(r.findings)
		ok := e.run(root, t, func(s *pstate) {
			for _, p := range root.Params {
				if isMessageType(p.Type()) {
					s.ts.(*copyTS).msg = s.top().env[p].id
				}
			}
		})
		if !ok {
			r.Bad("undecided", fnName(root), u.Pos(root.Pos()), "the ways through this function could not be enumerated within %d states", e.limit)
		}
		r.Count("abstract states", e.states)
		if len(r.findings) == n {
			r.OK(mode, "%s: %d abstract states", fnName(root), e.states)
		}
	}
	for _, f := range fs {
		if f.Parent() != nil || f.Object() == nil {
			continue
		}
		impl := f.Signature.Recv() != nil && (types.Implements(f.Signature.Recv().Type(), m.writer.Underlying().(*types.Interface)))
		switch {
		case impl && f.Name() == m.deliver && reaches(f, "deliver"):
			r.Count("composite destinations", 1)
			run(f, "deliver")
		case impl && f.Name() == m.finish && reaches(f, "finish"):
			run(f, "finish")
		case impl && (f.Name() == m.deliver || f.Name() == m.finish):
			// a destination that holds others must use them
			if holdsWriters(f.Signature.Recv().Type(), m) {
				r.Bad("every-destination", fnName(f), u.Pos(f.Pos()), "%s: a composite destination does not pass the call on to the destinations it holds", fnName(f))
			}
		case f.Object().Exported() && reaches(f, "read"):
			r.Count("copy operations", 1)
			run(f, "copy")
		}
	}
	// the list of a composite is the whole list it was given
	eachInstr(fs, func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		sl, ok := st.Val.Type().Underlying().(*types.Slice)
		if !ok || namedOf(sl.Elem()) != m.writer || !holdsWriters(fa.X.Type(), m) {
			return
		}
		r.Check(wholeList(st.Val, 0), "list-kept-whole", fnName(fn), u.InstrPos(in), "%s: the destinations kept are not exactly the list that was given", fnName(fn))
	})
}

func holdsWriters(t types.Type, m *copyModel) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && namedOf(sl.Elem()) == m.writer {
			return true
		}
	}
	return false
}

func init() {
	register("P01", func(w *World, r *Report) {
		r.explanation = "Typestate analysis of package protocp. Every exported operation that reads records is followed on all its ways (helpers inline) through the states reading, record in hand, delivered, input ended, step failed, finished: a record in hand is delivered exactly once, unchanged and to the destination that was given before the next is read; the destination is finished exactly when the input ended cleanly and before success is reported; after a failure nothing more is read, delivered or finished and that failure is what is returned. The composite destination is followed likewise: its loop starts at the first destination, is bounded by the length of the whole list, hands each one the same record (finishes each one, also after a failure) exactly once, and returns the first failure."
		r.assumptions = []string{"A record reader reports the clean end of its input as io.EOF.", "Record readers and destinations supplied by callers do what their interfaces say."}
		checkCopy(w, r)
		r.Floor("copy operations", 1)
		r.Floor("composite destinations", 1)
		r.Floor("reading, delivering and finishing calls", 5)
		r.Floor("list-kept-whole", 1)
	})
}
