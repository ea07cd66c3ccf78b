package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists for statements about every element. A list is taken as: at most one first
// element of its own (a header), one distinguished element that stands for any, the
// elements that are known one by one, and others. A loop over it meets the
// distinguished element exactly once, at any time; what is shown for it holds for
// every element.

type listDom struct {
	u *Unit
	// sample says whether an unknown slice or map found in a parameter is a
	// collection to be quantified over, and makes the list.
	sample func(e *pathEng, s *pstate, t types.Type, site ssa.Value) (pval, bool)
	// ghost tells the distinguished elements.
	ghost func(s *pstate, v pval) bool
	// only, if set, tells the types of the lists that are followed.
	only func(t types.Type) bool
}

func (d *listDom) skip(t types.Type) bool { return d.only != nil && !d.only(t) }

func (d *listDom) isList(s *pstate, v pval) bool {
	_, ok := s.tagOf(v, "list!")
	return ok
}

func (d *listDom) newList(e *pathEng, s *pstate, site ssa.Value) pval {
	l := e.nonNil(s, site)
	s.addTag(l, "list!")
	return l
}

func at(v pval, p string) ploc { return ploc{v.id, p} }

// elems are the elements of l that are known one by one.
func (d *listDom) elems(s *pstate, l pval) []pval {
	var out []pval
	for i := 0; ; i++ {
		v, ok := s.mem[at(l, fmt.Sprintf(".e%d", i))]
		if !ok {
			return out
		}
		out = append(out, v)
	}
}

func sameP(a, b pval) bool {
	if a.k != b.k || a.id != b.id || a.loc != b.loc || a.fn != b.fn || len(a.parts) != len(b.parts) {
		return false
	}
	if a.k == pConst {
		return atomEq(a, b) == 1
	}
	for i := range a.parts {
		if !sameP(a.parts[i], b.parts[i]) {
			return false
		}
	}
	return a.k == pAddr || a.k == pFunc || a.k == pSym || a.k == pNil
}

// add puts an element into l.
func (d *listDom) add(e *pathEng, s *pstate, l, v pval) {
	v = s.resolve(v)
	if d.ghost(s, v) {
		s.mem[at(l, ".g")] = v
		return
	}
	if _, ok := s.tagOf(v, "header!"); ok {
		s.mem[at(l, ".h")] = v
		return
	}
	switch v.k {
	case pFunc, pAddr:
		es := d.elems(s, l)
		alike := 0
		for _, x := range es {
			if sameP(x, v) {
				return
			}
			if d.alike(s, x, v) {
				if alike++; alike == 2 {
					// of many elements made alike the first is kept, and one that
					// stands for the rest
					d.blur(e, s, x, v)
					return
				}
			}
		}
		if len(es) < 80 {
			s.mem[at(l, fmt.Sprintf(".e%d", len(es)))] = v
			return
		}
	}
	s.mem[at(l, ".o")] = pbool(true)
}

// alike: are two elements made at the same place?
func (d *listDom) alike(s *pstate, a, b pval) bool {
	if a.k != b.k || a.fn != b.fn || len(a.parts) != len(b.parts) {
		return false
	}
	for i := range a.parts {
		if !d.alike(s, a.parts[i], b.parts[i]) {
			return false
		}
	}
	switch a.k {
	case pAddr:
		x, y := s.objs[a.loc.obj], s.objs[b.loc.obj]
		return x != nil && y != nil && x.site != nil && (a.loc.obj != b.loc.obj || a.loc.path == b.loc.path) && x.site == y.site && a.loc.path == b.loc.path
	case pFunc:
		return true
	}
	return sameP(a, b)
}

// blur lets a stand for b as well.
func (d *listDom) blur(e *pathEng, s *pstate, a, b pval) {
	for i := range a.parts {
		d.blur(e, s, a.parts[i], b.parts[i])
	}
	if a.k != pAddr || a.loc.obj == b.loc.obj {
		return
	}
	for l, x := range s.mem {
		if l.obj != a.loc.obj || !strings.HasPrefix(l.path, a.loc.path) {
			continue
		}
		y, ok := s.mem[ploc{b.loc.obj, l.path}]
		if ok && sameP(x, y) {
			continue
		}
		if ok && d.alike(s, x, y) {
			d.blur(e, s, x, y)
			continue
		}
		if x.k == pSym {
			continue
		}
		s.mem[l] = e.fresh(s, s.objs[a.loc.obj].site)
	}
}

// merge puts what is in from into l.
func (d *listDom) merge(e *pathEng, s *pstate, l, from pval) {
	if !d.isList(s, from) {
		s.mem[at(l, ".o")] = pbool(true)
		return
	}
	if g, ok := s.mem[at(from, ".g")]; ok {
		s.mem[at(l, ".g")] = g
	}
	if h, ok := s.mem[at(from, ".h")]; ok {
		s.mem[at(l, ".h")] = h
	}
	if o, ok := s.mem[at(from, ".o")]; ok {
		s.mem[at(l, ".o")] = o
	}
	for _, x := range d.elems(s, from) {
		d.add(e, s, l, x)
	}
}

// copyOf is a list with the elements of l.
func (d *listDom) copyOf(e *pathEng, s *pstate, l pval, site ssa.Value) pval {
	n := d.newList(e, s, site)
	d.merge(e, s, n, l)
	return n
}

// fromArray reads the elements of an array that is sliced whole.
func (d *listDom) fromArray(e *pathEng, s *pstate, a pval, arr *types.Array, site ssa.Value) pval {
	l := d.newList(e, s, site)
	_, st := arr.Elem().Underlying().(*types.Struct)
	for i := int64(0); i < arr.Len(); i++ {
		slot := pval{k: pAddr, loc: ploc{a.loc.obj, fmt.Sprintf("%s[%d]", a.loc.path, i)}}
		if st {
			d.add(e, s, l, slot)
			continue
		}
		d.add(e, s, l, e.load(s, slot, arr.Elem(), site))
	}
	return l
}

func ifaceElem(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// value evaluates what touches lists.
func (d *listDom) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return pval{}, false
		}
		a := s.resolve(e.get(s, x.X))
		if a.k != pAddr || a.loc.obj < 0 || s.objs[a.loc.obj] == nil {
			return pval{}, false
		}
		if _, ok := s.mem[a.loc]; ok {
			return pval{}, false
		}
		if d.sample != nil && !s.objs[a.loc.obj].zero {
			switch x.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				if l, ok := d.sample(e, s, x.Type(), x); ok {
					s.mem[a.loc] = l
					return l, true
				}
			}
		}
	case *ssa.MakeSlice, *ssa.MakeMap:
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && ifaceElem(sl.Elem()) || d.skip(v.Type()) {
			return pval{}, false
		}
		l := d.newList(e, s, v)
		s.addTag(l, "made")
		return l, true
	case *ssa.Slice:
		b := s.resolve(e.get(s, x.X))
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && b.k == pAddr && x.Low == nil && x.High == nil {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok && !ifaceElem(arr.Elem()) && !d.skip(x.Type()) {
				return d.fromArray(e, s, b, arr, x), true
			}
		}
		if !d.isList(s, b) {
			return pval{}, false
		}
		n := d.copyOf(e, s, b, x)
		if x.Low != nil {
			lo, ok := s.intOf(e.get(s, x.Low))
			_, hasH := s.mem[at(n, ".h")]
			switch {
			case ok && lo == 0:
			case ok && lo == 1 && hasH:
				delete(s.mem, at(n, ".h"))
			default:
				delete(s.mem, at(n, ".h"))
				s.addTag(n, "cut!")
			}
		}
		if x.High != nil {
			h := s.resolve(e.get(s, x.High))
			if of, ok := s.mem[ploc{h.id, ".lenof"}]; h.k != pSym || !ok || of.id != b.id {
				s.addTag(n, "cut!")
			}
		}
		return n, true
	case *ssa.IndexAddr:
		b := s.resolve(e.get(s, x.X))
		if d.isList(s, b) {
			return d.index(e, s, b, s.resolve(e.get(s, x.Index)), x), true
		}
	case *ssa.Next:
		it := e.get(s, x.Iter)
		if x.IsString || it.k != pSym {
			return pval{}, false
		}
		l, ok := s.mem[at(it, ".over")]
		if !ok {
			return pval{}, false
		}
		ch, ok := s.mem[at(l, ".next")]
		if !ok {
			return pval{}, false
		}
		delete(s.mem, at(l, ".next"))
		if ch.k == pNil {
			return pval{k: pTuple, parts: []pval{pbool(false), {}, {}}}, true
		}
		return pval{k: pTuple, parts: []pval{pbool(true), d.key(ch), e.fresh(s, x)}}, true
	case *ssa.Range:
		b := s.resolve(e.get(s, x.X))
		if d.isList(s, b) {
			it := e.fresh(s, x)
			s.mem[at(it, ".over")] = b
			delete(s.mem, at(b, ".seen"))
			delete(s.mem, at(b, ".from"))
			return it, true
		}
	case *ssa.Lookup:
		b := s.resolve(e.get(s, x.X))
		if d.isList(s, b) {
			if x.CommaOk {
				return pval{k: pTuple, parts: []pval{e.fresh(s, x), e.fresh(s, x)}}, true
			}
			return e.fresh(s, x), true
		}
	case *ssa.BinOp:
		if l, _, ok := d.bound(e, s, x); ok {
			ch, ok := s.mem[at(l, ".next")]
			if !ok {
				return pval{}, false
			}
			delete(s.mem, at(l, ".next"))
			more := ch.k != pNil
			if more {
				s.mem[at(l, ".cur")] = d.key(ch)
			} else {
				delete(s.mem, at(l, ".cur"))
			}
			switch x.Op {
			case token.LSS, token.NEQ, token.GTR:
				return pbool(more), true
			}
			return pbool(!more), true
		}
		// how long a list is
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			a := s.resolve(e.get(s, p[0]))
			if a.k != pSym {
				continue
			}
			if of, ok := s.mem[at(a, ".lenof")]; ok {
				if n, ok := s.intOf(e.get(s, p[1])); ok && n == 0 && (x.Op == token.EQL || x.Op == token.NEQ) {
					if _, g := s.mem[at(of, ".g")]; g {
						return pbool(x.Op == token.NEQ), true
					}
				}
				return e.fresh(s, x), true
			}
		}
	}
	return pval{}, false
}

func (d *listDom) key(ch pval) pval {
	return ch
}

// bound: does x compare a running index with the length of a list?
func (d *listDom) bound(e *pathEng, s *pstate, x *ssa.BinOp) (pval, pval, bool) {
	i, n := x.X, x.Y
	switch x.Op {
	case token.LSS, token.GEQ, token.NEQ, token.EQL:
	case token.GTR, token.LEQ:
		i, n = n, i
	default:
		return pval{}, pval{}, false
	}
	if !running(i, map[ssa.Value]bool{}) {
		return pval{}, pval{}, false
	}
	l := s.resolve(e.get(s, n))
	if l.k != pSym {
		return pval{}, pval{}, false
	}
	of, ok := s.mem[at(l, ".lenof")]
	return of, s.resolve(e.get(s, i)), ok
}

// running: is v an index that a loop counts?
func running(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.BinOp:
		return (x.Op == token.ADD || x.Op == token.SUB) && (running(x.X, seen) || running(x.Y, seen))
	}
	return false
}

// fork makes the choices of the next element before in is evaluated.
func (d *listDom) fork(e *pathEng, s *pstate, in ssa.Instruction) {
	var l pval
	first := false
	switch x := in.(type) {
	case *ssa.BinOp:
		of, i, ok := d.bound(e, s, x)
		if !ok {
			return
		}
		l = of
		n, isInt := s.intOf(i)
		first = isInt && n == 0
		if _, pending := s.mem[at(l, ".next")]; isInt && !pending {
			delete(s.mem, at(l, ".seen"))
			s.mem[at(l, ".from")] = pint(n)
		}
	case *ssa.Next:
		it := e.get(s, x.Iter)
		if x.IsString || it.k != pSym {
			return
		}
		of, ok := s.mem[at(it, ".over")]
		if !ok {
			return
		}
		l = of
	default:
		return
	}
	if _, pending := s.mem[at(l, ".next")]; pending {
		return
	}
	_, cut := s.tagOf(l, "cut!")
	g, hasG := s.mem[at(l, ".g")]
	h, hasH := s.mem[at(l, ".h")]
	_, seen := s.mem[at(l, ".seen")]
	if from, ok := s.mem[at(l, ".from")]; ok {
		// the loop begins further on
		n, _ := s.intOf(from)
		cut = cut || n > 1 || n == 1 && !hasH
	}
	push := func(v pval, ghost, other bool) {
		o := s.clone()
		if other {
			v = e.fresh(o, in.(ssa.Value))
			o.addTag(v, "other!")
		}
		if ghost {
			o.mem[at(l, ".seen")] = pbool(true)
		}
		o.mem[at(l, ".next")] = v
		e.work = append(e.work, o)
	}
	if first && hasH {
		s.mem[at(l, ".next")] = h
		return
	}
	if hasG && !seen && cut {
		push(g, true, false)
	}
	if _, ok := s.mem[at(l, ".o")]; ok {
		push(pval{}, false, true)
	}
	for _, x := range d.elems(s, l) {
		push(x, false, false)
	}
	s.mem[at(l, ".next")] = pval{k: pNil}
	if hasG && !seen && !cut {
		// the end is not reached before the distinguished element was met
		s.mem[at(l, ".next")] = g
		s.mem[at(l, ".seen")] = pbool(true)
	}
}

// index is the address of an element.
func (d *listDom) index(e *pathEng, s *pstate, l, i pval, x *ssa.IndexAddr) pval {
	if cur, ok := s.mem[at(l, ".cur")]; ok {
		if running(x.Index, map[ssa.Value]bool{}) {
			return d.slot(e, s, l, cur, x)
		}
	}
	if n, ok := s.intOf(i); ok && n == 0 {
		if h, ok := s.mem[at(l, ".h")]; ok {
			return d.slot(e, s, l, h, x)
		}
	}
	if _, made := s.tagOf(l, "made"); made {
		return pval{k: pAddr, loc: at(l, ".slot")}
	}
	o := e.fresh(s, x)
	s.addTag(o, "other!")
	return d.slot(e, s, l, o, x)
}

func (d *listDom) slot(e *pathEng, s *pstate, l, v pval, x *ssa.IndexAddr) pval {
	if _, ok := deref(x.Type()).Underlying().(*types.Struct); ok {
		if v.k == pAddr {
			return v
		}
		if v.k == pSym {
			return pval{k: pAddr, loc: ploc{v.id, ""}}
		}
	}
	h := e.fresh(s, x)
	s.mem[at(h, ".el")] = v
	return pval{k: pAddr, loc: at(h, ".el")}
}

// stored notices what is put into a list by its index or key.
func (d *listDom) stored(e *pathEng, s *pstate, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		a := e.get(s, x.Addr)
		if a.k == pAddr && a.loc.path == ".slot" {
			l := pval{k: pSym, id: a.loc.obj}
			if d.isList(s, l) {
				d.add(e, s, l, e.get(s, x.Val))
			}
		}
	case *ssa.MapUpdate:
		m := s.resolve(e.get(s, x.Map))
		if d.isList(s, m) {
			d.add(e, s, m, e.get(s, x.Key))
		}
	}
}

func (d *listDom) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	one := func(v ...pval) ([]*pstate, bool) {
		e.setResult(s, in, v...)
		return []*pstate{s}, true
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			a := s.resolve(args[0])
			if sl, ok := c.Type().Underlying().(*types.Slice); ok && ifaceElem(sl.Elem()) || d.skip(c.Type()) {
				return nil, false
			}
			l := d.newList(e, s, c)
			if a.k != pNil {
				d.merge(e, s, l, a)
			}
			if len(args) > 1 {
				if y := s.resolve(args[1]); y.k != pNil {
					d.merge(e, s, l, y)
				}
			}
			if t, ok := s.tagOf(a, "cut!"); ok {
				s.addTag(l, "cut!"+t)
			}
			return one(l)
		case "len":
			if a := s.resolve(args[0]); d.isList(s, a) {
				n := e.fresh(s, c)
				s.mem[at(n, ".lenof")] = a
				return one(n)
			}
		case "copy":
			a, y := s.resolve(args[0]), s.resolve(args[1])
			if d.isList(s, a) && d.isList(s, y) {
				d.merge(e, s, a, y)
				return one(e.fresh(s, c))
			}
		}
		return nil, false
	}
	n := callName(in)
	if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
		if c.Call.Signature().Results().Len() == 0 {
			return []*pstate{s}, true
		}
	}
	return nil, false
}
