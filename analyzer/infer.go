package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// I01: a type is chosen only when every sample value was found to be of it.

var inferPkgs = map[string]bool{"recordinfer": true, "xmlinfer": true, "csvinfer": true}

// numTypes says which parses show that a text is of a type: the kind of parse and
// the greatest width it may be asked for.
var numTypes = map[string]struct {
	kind string
	bits int64
}{
	"int64": {"int", 64}, "sint64": {"int", 64}, "sfixed64": {"int", 64},
	"int32": {"int", 32}, "sint32": {"int", 32}, "sfixed32": {"int", 32},
	"uint64": {"uint", 64}, "fixed64": {"uint", 64}, "uint32": {"uint", 32}, "fixed32": {"uint", 32},
	"float": {"float", 32}, "double": {"float", 64}, "bool": {"bool", 0},
	"google.protobuf.Timestamp": {"time", 0},
}

type inferDom struct {
	u  *Unit
	r  *Report
	ls *listDom

	decider, collector map[*ssa.Function]bool
	feeding            bool
	isUser             map[*ssa.Function]bool
	inlined            func(fn *ssa.Function) bool
	cutAt              map[ssa.Instruction]bool
}

func (d *inferDom) ghost(s *pstate, v pval) bool {
	if v.k == pAddr {
		v = pval{k: pSym, id: v.loc.obj}
	}
	_, ok := s.tagOf(v, "ghost!")
	return ok
}

// keep holds on to a symbol until the end.
func keep(s *pstate, v pval) {
	ts := s.ts.(*paramTS)
	n := append([]pval(nil), ts.params...)
	ts.params = append(n, v)
}

func (d *inferDom) newGhost(e *pathEng, s *pstate, site ssa.Value, tag string) pval {
	g := e.fresh(s, site)
	s.addTag(g, tag)
	return g
}

func isStrSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isStringType(sl.Elem())
}

func isRows(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isStrSlice(sl.Elem())
}

func isCounts(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key())
}

// sampleType: is t a collection of sample values?
func sampleType(t types.Type) bool { return isRows(t) || isCounts(t) || isStrSlice(t) }

// carries: is the text of the distinguished token in v?
func (d *inferDom) carries(s *pstate, v pval) bool {
	v = s.resolve(v)
	if _, ok := s.tagOf(v, "carries!"); ok {
		return true
	}
	_, ok := s.tagOf(v, "value!")
	return ok
}

// attrValue is the value of the distinguished attribute; copies of the attribute
// share it.
func (d *inferDom) attrValue(e *pathEng, s *pstate, obj int, path string, site ssa.Value) (pval, bool) {
	i := strings.LastIndex(path, ".")
	if i < 0 || path[i:] != ".1" {
		return pval{}, false
	}
	v, ok := s.mem[ploc{obj, path[:i] + ".attrval"}]
	return v, ok
}

func isXML(t types.Type, name string) bool {
	return typeIs(t, "encoding/xml", name)
}

// sample makes the list for a collection that is handed in.
func (d *inferDom) sample(e *pathEng, s *pstate, t types.Type, site ssa.Value) (pval, bool) {
	if sl, ok := t.Underlying().(*types.Slice); ok && isXML(sl.Elem(), "Attr") {
		l := d.ls.newList(e, s, site)
		s.mem[at(l, ".o")] = pbool(true)
		a := e.nonNil(s, site)
		s.addTag(a, "ghost!")
		g := d.newGhost(e, s, site, "value!")
		s.addTag(g, "attribute!")
		s.mem[at(a, ".attrval")] = g
		s.mem[at(l, ".g")] = a
		keep(s, a)
		keep(s, g)
		return l, true
	}
	if !sampleType(t) || d.feeding {
		return pval{}, false
	}
	l := d.ls.newList(e, s, site)
	s.mem[at(l, ".o")] = pbool(true)
	if isRows(t) {
		h := e.nonNil(s, site)
		s.addTag(h, "header!")
		s.mem[at(l, ".h")] = h
		row := e.nonNil(s, site)
		s.addTag(row, "ghost!")
		s.addTag(row, "row!")
		s.mem[at(l, ".g")] = row
		keep(s, row)
		return l, true
	}
	g := d.newGhost(e, s, site, "ghost!")
	s.addTag(g, "value!")
	s.mem[at(l, ".g")] = g
	keep(s, g)
	return l, true
}

func (d *inferDom) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		b := s.resolve(e.get(s, x.X))
		if _, ok := s.tagOf(b, "row!"); ok {
			i := s.resolve(e.get(s, x.Index))
			if _, ok := s.tagOf(i, "column!"); ok {
				return pval{k: pAddr, loc: at(b, ".value")}, true
			}
			return pval{k: pAddr, loc: at(e.fresh(s, x), ".elsewhere")}, true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			for _, o := range []pval{e.get(s, x.X), e.get(s, x.Y)} {
				if d.carries(s, o) {
					t := e.fresh(s, x)
					s.addTag(t, "carries!")
					return t, true
				}
			}
		}
	case *ssa.Slice:
		if b := s.resolve(e.get(s, x.X)); isStringType(x.X.Type()) {
			if _, ok := s.tagOf(b, "input!"); ok {
				v := e.fresh(s, x)
				s.addTag(v, "part!")
				return v, true
			}
		}
	case *ssa.Field:
		if b := s.resolve(e.get(s, x.X)); b.k == pSym {
			if g, ok := d.attrValue(e, s, b.id, fmt.Sprintf(".%d", x.Field), x); ok {
				return g, true
			}
		}
	case *ssa.UnOp:
		a := s.resolve(e.get(s, x.X))
		if a.k == pAddr && a.loc.obj >= 0 {
			if g, ok := d.attrValue(e, s, a.loc.obj, a.loc.path, x); ok {
				return g, true
			}
		}
		if a.k == pAddr && a.loc.path == ".value" {
			if _, ok := s.mem[a.loc]; !ok {
				g := d.newGhost(e, s, x, "ghost!")
				s.addTag(g, "value!")
				s.mem[a.loc] = g
				keep(s, g)
				return g, true
			}
		}
		if a.k == pAddr && a.loc.obj >= 0 && s.objs[a.loc.obj] != nil && !s.objs[a.loc.obj].zero {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if _, ok := s.mem[a.loc]; !ok {
					n := e.fresh(s, x)
					s.addTag(n, "column!")
					s.mem[a.loc] = n
					return n, true
				}
			}
		}
	}
	return d.ls.value(e, s, v)
}

var parseKinds = map[string]string{
	"strconv.ParseInt": "int", "strconv.ParseUint": "uint", "strconv.ParseFloat": "float", "strconv.ParseBool": "bool", "strconv.Atoi": "int",
	"time.Parse": "time", "time.ParseInLocation": "time",
}

var fieldTypeFn = regexp.MustCompile(`builder\.FieldType([A-Za-z0-9]+)$`)

func (d *inferDom) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	n := callName(in)
	kind, isParse := parseKinds[n]
	if !isParse {
		if fn := c.Call.StaticCallee(); fn == nil {
			if f := s.resolve(e.get(s, c.Call.Value)); f.k == pFunc && !c.Call.IsInvoke() {
				if m := fieldTypeFn.FindStringSubmatch(f.fn.String()); m != nil {
					return d.fieldType(e, s, c, m[1])
				}
				if k, ok := parseKinds[qualName(f.fn)]; ok {
					kind, isParse, n = k, true, qualName(f.fn)
				}
			}
		} else if m := fieldTypeFn.FindStringSubmatch(fn.String()); m != nil {
			return d.fieldType(e, s, c, m[1])
		}
	}
	if isParse {
		arg := args[0]
		if kind == "time" {
			arg = args[1]
		}
		x := s.resolve(arg)
		if !d.ghost(s, x) {
			e.setResult(s, in, e.fresh(s, c), e.fresh(s, c))
			return []*pstate{s}, true
		}
		fail := s.clone()
		e.setResult(fail, in, e.fresh(fail, c), e.nonNil(fail, c))
		num := func(i int, def int64) string {
			if i >= len(args) {
				return fmt.Sprint(def)
			}
			if k, ok := s.intOf(args[i]); ok {
				return fmt.Sprint(k)
			}
			return "?"
		}
		var fact pval
		switch n {
		case "strconv.ParseInt", "strconv.ParseUint":
			fact = pstr(num(1, 10) + ":" + num(2, 64))
		case "strconv.Atoi":
			fact = pstr("10:64")
		case "strconv.ParseFloat":
			fact = pstr("10:" + num(1, 64))
		case "strconv.ParseBool":
			fact = pstr("10:0")
		default:
			fact = s.resolve(args[0])
		}
		s.mem[at(x, ".is-"+kind)] = fact
		e.setResult(s, in, e.fresh(s, c), pval{k: pNil})
		return []*pstate{fail, s}, true
	}
	return d.feeds(e, s, c, n, args)
}

// feeds models where samples come from and go to.
func (d *inferDom) feeds(e *pathEng, s *pstate, c *ssa.Call, n string, args []pval) ([]*pstate, bool) {
	fork := func(err func(o *pstate), ok func(o *pstate)) ([]*pstate, bool) {
		o := s.clone()
		err(o)
		ok(s)
		return []*pstate{o, s}, true
	}
	fn := c.Call.StaticCallee()
	sig := c.Call.Signature()
	// the call gives an error, or succeeds
	succeed := func(ok func(o *pstate)) ([]*pstate, bool) {
		rs := sig.Results()
		give := func(o *pstate, err pval) {
			var vs []pval
			for i := 0; i < rs.Len(); i++ {
				if isError(rs.At(i).Type()) {
					vs = append(vs, err)
				} else if err.k == pNil {
					vs = append(vs, e.nonNil(o, c))
				} else {
					vs = append(vs, e.fresh(o, c))
				}
			}
			e.setResult(o, c, vs...)
		}
		if errResultIndex(sig) < 0 {
			ok(s)
			give(s, pval{k: pNil})
			return []*pstate{s}, true
		}
		return fork(func(o *pstate) { give(o, e.nonNil(o, c)) }, func(o *pstate) { ok(o); give(o, pval{k: pNil}) })
	}
	if fn != nil && len(s.frames) > 0 {
		if d.decider[fn] && s.frames[0].fn != fn {
			if !d.whole(s, fn, args) && !d.cutAt[c] {
				d.cutAt[c] = true
				d.r.Bad("whole-sample", fnName(c.Parent()), d.u.InstrPos(c), "%s: %s is not given every sample value", fnName(c.Parent()), fnName(fn))
			}
			return succeed(func(*pstate) {})
		}
		if d.collector[fn] && s.frames[0].fn != fn {
			return succeed(func(o *pstate) {
				for _, a := range args {
					if x := o.resolve(a); x.k == pSym {
						if _, ok := o.tagOf(x, "row!"); ok {
							o.addTag(x, "fed!")
						}
					}
				}
			})
		}
		if takesElement(fn) && inRepo(fn) && s.frames[0].fn != fn || fn != nil && takesElement(fn) && s.frames[0].fn == fn {
			return succeed(func(o *pstate) {
				for _, a := range args {
					if x := o.resolve(a); x.k == pSym {
						if m, ok := o.mem[at(x, ".mark")]; ok {
							o.addTag(m, "consumed!")
						}
					}
				}
			})
		}
	}
	part := false
	for _, a := range args {
		_, p := s.tagOf(s.resolve(a), "part!")
		part = part || p
	}
	if n == "io.LimitReader" && d.feeding || part && sig.Results().Len() == 1 && (fn == nil || !inRepo(fn)) && n != "encoding/csv.NewReader" {
		v := e.nonNil(s, c)
		s.addTag(v, "part!")
		e.setResult(s, c, v)
		return []*pstate{s}, true
	}
	if n == "encoding/csv.NewReader" && part && !d.cutAt[c] {
		d.cutAt[c] = true
		d.r.Bad("whole-input", fnName(c.Parent()), d.u.InstrPos(c), "%s: only a part of the input can be read", fnName(c.Parent()))
	}
	switch {
	case strings.HasSuffix(n, "csv.(Reader).ReadAll"):
		return fork(func(o *pstate) { e.setResult(o, c, pval{k: pNil}, e.nonNil(o, c)) }, func(o *pstate) {
			l := d.ls.newList(e, o, c)
			o.mem[at(l, ".o")] = pbool(true)
			o.mem[at(l, ".g")] = d.newRow(e, o, c)
			e.setResult(o, c, l, pval{k: pNil})
		})
	case strings.HasSuffix(n, "csv.(Reader).Read"):
		outs, _ := fork(func(o *pstate) { e.setResult(o, c, pval{k: pNil}, e.nonNil(o, c)) }, func(o *pstate) {
			v := e.nonNil(o, c)
			e.setResult(o, c, v, pval{k: pNil})
		})
		if !d.made(s, "row!") {
			o := s.clone()
			e.setResult(o, c, d.newRow(e, o, c), pval{k: pNil})
			outs = append(outs, o)
		}
		return outs, true
	case sig.Results().Len() == 2 && isXML(sig.Results().At(0).Type(), "Token") && !(fn != nil && inRepo(fn)):
		return d.token(e, s, c)
	}
	if i := strings.LastIndex(n, "."); i > 0 && len(args) > 0 && (strings.HasPrefix(n, "strings.(Builder)") || strings.HasPrefix(n, "bytes.(Buffer)")) {
		b := s.resolve(args[0])
		if b.k != pAddr || b.loc.obj < 0 {
			return nil, false
		}
		l := ploc{b.loc.obj, b.loc.path + ".txt"}
		switch n[i+1:] {
		case "WriteString", "Write":
			if d.carries(s, args[1]) {
				t := e.fresh(s, c)
				s.addTag(t, "carries!")
				s.mem[l] = t
			}
			e.setResult(s, c, pval{}, pval{k: pNil})
			return []*pstate{s}, true
		case "String", "Bytes":
			if t, ok := s.mem[l]; ok {
				e.setResult(s, c, t)
			} else {
				e.setResult(s, c, e.fresh(s, c))
			}
			return []*pstate{s}, true
		case "Reset":
			delete(s.mem, l)
			return []*pstate{s}, true
		case "Len", "Grow":
			if sig.Results().Len() == 1 {
				e.setResult(s, c, e.fresh(s, c))
			}
			return []*pstate{s}, true
		}
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(args) == 2 {
		if d.carries(s, args[0]) || d.carries(s, args[1]) {
			t := e.fresh(s, c)
			s.addTag(t, "carries!")
			e.setResult(s, c, t)
			return []*pstate{s}, true
		}
	}
	if (strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.")) && sig.Results().Len() == 1 && len(args) > 0 {
		if t := sig.Results().At(0).Type(); isStringType(t) && d.carries(s, args[0]) {
			v := e.fresh(s, c)
			s.addTag(v, "carries!")
			e.setResult(s, c, v)
			return []*pstate{s}, true
		}
	}
	if n == "strings.Join" || n == "bytes.Join" {
		v := e.fresh(s, c)
		if g, ok := s.mem[at(s.resolve(args[0]), ".g")]; ok && d.carries(s, g) {
			if _, cut := s.tagOf(s.resolve(args[0]), "cut!"); !cut {
				s.addTag(v, "carries!")
			}
		}
		e.setResult(s, c, v)
		return []*pstate{s}, true
	}
	row := false
	if len(args) == 2 {
		_, row = s.tagOf(s.resolve(args[1]), "row!")
	}
	outs, ok := d.ls.call(e, s, c, args)
	if ok && row {
		if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
			for _, o := range outs {
				o.addTag(o.top().env[c], "ghost!")
				o.addTag(o.top().env[c], "row!")
			}
		}
	}
	return outs, ok
}

func takesElement(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isXML(deref(p.Type()), "StartElement") {
			return true
		}
	}
	return false
}

func (d *inferDom) newRow(e *pathEng, s *pstate, site ssa.Value) pval {
	row := e.nonNil(s, site)
	s.addTag(row, "ghost!")
	s.addTag(row, "row!")
	keep(s, row)
	return row
}

// made: is there a distinguished token of a kind yet?
func (d *inferDom) made(s *pstate, tag string) bool {
	for _, p := range s.ts.(*paramTS).params {
		if _, ok := s.tagOf(p, tag); ok {
			return true
		}
	}
	return false
}

// token is what the next XML token can be.
func (d *inferDom) token(e *pathEng, s *pstate, c *ssa.Call) ([]*pstate, bool) {
	var outs []*pstate
	give := func(mk func(o *pstate) pval, err bool) {
		o := s.clone()
		if err {
			e.setResult(o, c, pval{k: pNil}, e.nonNil(o, c))
		} else {
			e.setResult(o, c, mk(o), pval{k: pNil})
		}
		outs = append(outs, o)
	}
	give(nil, true)
	xt := d.u.xmlTypes(c)
	for _, n := range []string{"StartElement", "EndElement", "CharData", "Comment", "ProcInst", "Directive"} {
		t := xt[n]
		if t == nil {
			continue
		}
		tok := func(o *pstate) pval {
			v := e.nonNil(o, c)
			o.objs[v.id].dyn = t
			return v
		}
		give(tok, false)
		switch {
		case n == "CharData" && !d.made(s, "text!"):
			give(func(o *pstate) pval {
				v := tok(o)
				o.addTag(v, "value!")
				o.addTag(v, "text!")
				o.addTag(v, "ghost!")
				keep(o, v)
				return v
			}, false)
		case n == "StartElement" && !d.made(s, "element!"):
			give(func(o *pstate) pval {
				v := tok(o)
				m := e.fresh(o, c)
				o.addTag(m, "element!")
				o.mem[at(v, ".mark")] = m
				keep(o, m)
				return v
			}, false)
		}
	}
	return outs, true
}

func (u *Unit) xmlTypes(c *ssa.Call) map[string]types.Type {
	out := map[string]types.Type{}
	n := namedOf(c.Call.Signature().Results().At(0).Type())
	if n == nil {
		return out
	}
	for _, x := range []string{"StartElement", "EndElement", "CharData", "Comment", "ProcInst", "Directive"} {
		if o := n.Obj().Pkg().Scope().Lookup(x); o != nil {
			out[x] = o.Type()
		}
	}
	return out
}

// whole: do the arguments hold the distinguished sample?
func (d *inferDom) whole(s *pstate, fn *ssa.Function, args []pval) bool {
	has := func(v pval) bool {
		v = s.resolve(v)
		if !d.ls.isList(s, v) {
			return v.k == pTop
		}
		_, g := s.mem[at(v, ".g")]
		_, cut := s.tagOf(v, "cut!")
		return g && !cut
	}
	for i, p := range fn.Params {
		if i >= len(args) || !holdsSamples(p.Type(), 0) {
			continue
		}
		if sampleType(p.Type()) {
			return has(args[i])
		}
		st, ok := deref(p.Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		a := s.resolve(args[i])
		loc := ploc{a.id, ""}
		if a.k == pAddr {
			loc = a.loc
		} else if a.k != pSym {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			if !sampleType(st.Field(k).Type()) {
				continue
			}
			if v, ok := s.mem[ploc{loc.obj, fmt.Sprintf("%s.%d", loc.path, k)}]; ok {
				return has(v)
			}
			return a.k == pSym // as handed in
		}
	}
	return true
}

func qualName(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	return fn.Pkg.Pkg.Path() + "." + fn.Name()
}

func (d *inferDom) fieldType(e *pathEng, s *pstate, c *ssa.Call, name string) ([]*pstate, bool) {
	t := e.nonNil(s, c)
	s.addTag(t, "type:"+strings.ToLower(name))
	e.setResult(s, c, t)
	return []*pstate{s}, true
}

// verdict names the type a result stands for, and the layout that goes with it.
func (d *inferDom) verdict(e *pathEng, s *pstate, v pval, t types.Type) (string, pval, bool) {
	v = s.resolve(v)
	if n, ok := s.tagOf(v, "type:"); ok {
		return n, pval{}, true
	}
	if c, ok := s.strOf(v); ok {
		return c, pval{}, true
	}
	var dyn types.Type
	var obj int
	switch {
	case v.k == pAddr && v.loc.path == "" && s.objs[v.loc.obj] != nil && s.objs[v.loc.obj].site != nil:
		dyn, obj = s.objs[v.loc.obj].site.Type(), v.loc.obj
	case v.k == pSym && s.objs[v.id].dyn != nil:
		dyn, obj = s.objs[v.id].dyn, v.id
	default:
		return "", pval{}, false
	}
	fields := map[string]pval{}
	for l, x := range s.mem {
		switch {
		case l.obj != obj:
		case x.k == pConst || x.k == pNil:
			fields[l.path] = x
		case x.k == pSym:
			fields[l.path] = pstr(symText(x))
		}
	}
	zero := s.objs[obj].zero
	name, layout := "", pval{}
	ms := d.u.Prog.MethodSets.MethodSet(dyn)
	for i := 0; i < ms.Len(); i++ {
		m := d.u.Prog.MethodValue(ms.At(i))
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		sig := m.Signature
		givesText := sig.Params().Len() == 0 && sig.Results().Len() == 1 && isStringType(sig.Results().At(0).Type())
		fills := sig.Params().Len() == 1 && sig.Results().Len() == 0
		if !givesText && !fills {
			continue
		}
		e2 := newPathEng(d.u, pclient{
			inline: func(fn *ssa.Function) bool { return inferPkgs[fnPkg(fn)] },
			instr: func(e *pathEng, s *pstate, in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldNameOf(fa) == "GoLayout" {
						layout = s.resolve(e.get(s, st.Val))
					}
				}
			},
			ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
				if len(s.frames) == 1 && givesText {
					if c, ok := s.strOf(s.resolve(vals[0])); ok {
						if _, known := numTypes[c]; known || c == "string" || c == "bytes" {
							name = c
						}
					}
				}
			}})
		e2.run(m, nil, func(s *pstate) {
			p := m.Params[0]
			id := e2.newObj(s, p)
			s.objs[id].zero = zero
			for path, x := range fields {
				s.mem[ploc{id, path}] = x
			}
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				s.frames[0].env[p] = pval{k: pAddr, loc: ploc{id, ""}}
			} else {
				s.frames[0].env[p] = pval{k: pSym, id: id}
			}
		})
	}
	return name, layout, name != ""
}

// symText stands for a text that is not known.
func symText(v pval) string { return fmt.Sprintf("\x00%d", v.id) }

// isVerdict: can a result of this type say what type a column is of?
func (d *inferDom) isVerdict(t types.Type) bool {
	if isError(t) {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "FieldType" {
			return true
		}
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if p, _ := relPkg(n.Obj().Pkg()); !inferPkgs[p] {
		return false
	}
	i, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		sig := i.Method(k).Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isStringType(sig.Results().At(0).Type()) {
			return true
		}
	}
	return false
}

// holdsSamples: does a value of type t hold a collection of samples?
func holdsSamples(t types.Type, depth int) bool {
	if sampleType(t) {
		return true
	}
	if depth > 2 {
		return false
	}
	if st, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if sampleType(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// deciders are the functions that get samples and say what type they are of.
func (d *inferDom) deciders() []*ssa.Function {
	all := map[*ssa.Function]bool{}
	for _, fn := range d.u.Funcs {
		if !inferPkgs[fnPkg(fn)] || len(fn.Blocks) == 0 || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !d.isVerdict(res.At(0).Type()) {
			continue
		}
		for _, p := range fn.Params {
			if holdsSamples(p.Type(), 0) {
				all[fn] = true
			}
		}
	}
	var out []*ssa.Function
	for fn := range all {
		outside := len(d.u.callSites(fn)) == 0
		for _, c := range d.u.callSites(fn) {
			if !all[c.Parent()] {
				outside = true
			}
		}
		if outside {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (d *inferDom) engine(ret func(e *pathEng, s *pstate, in *ssa.Return, vals []pval)) *pathEng {
	e := newPathEng(d.u, pclient{
		call:   d.call,
		value:  d.value,
		inline: func(fn *ssa.Function) bool { return inferPkgs[fnPkg(fn)] && (d.inlined == nil || d.inlined(fn)) },
		instr: func(e *pathEng, s *pstate, in ssa.Instruction) {
			d.ls.fork(e, s, in)
			d.ls.stored(e, s, in)
			if st, ok := in.(*ssa.Store); ok && !d.cutAt[in] {
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok && typeIs(deref(fa.X.Type()), "encoding/csv", "Reader") && fieldNameOf(fa) == "Comment" {
					if z, ok := s.intOf(e.get(s, st.Val)); !ok || z != 0 {
						d.cutAt[in] = true
						d.r.Bad("whole-input", fnName(in.Parent()), d.u.InstrPos(in), "%s: rows that look like comments are not read", fnName(in.Parent()))
					}
				}
			}
			if m, ok := in.(*ssa.MapUpdate); ok {
				k := s.resolve(e.get(s, m.Key))
				if _, isText := s.tagOf(k, "attribute!"); isText {
					s.addTag(k, "recorded!")
				} else if d.carries(s, k) {
					for _, p := range s.ts.(*paramTS).params {
						if _, ok := s.tagOf(p, "text!"); ok {
							s.addTag(p, "recorded!")
						}
					}
				}
			}
		},
		ret: ret,
	})
	e.limit, e.fold = 600000, 0
	return e
}

func (d *inferDom) setup(e *pathEng, root *ssa.Function) func(s *pstate) {
	return func(s *pstate) {
		for _, p := range root.Params {
			if l, ok := d.sample(e, s, p.Type(), p); ok {
				s.frames[0].env[p] = l
				continue
			}
			x := s.frames[0].env[p]
			keep(s, x)
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				s.addTag(x, "column!")
			}
		}
	}
}

// decide analyses one function that chooses a type.
func (d *inferDom) decide(root *ssa.Function) {
	r, u := d.r, d.u
	name := fnName(root)
	types_ := map[string]int{}
	bad := map[string]bool{}
	ways := 0
	report := func(rule string, in *ssa.Return, f string, a ...interface{}) {
		if !bad[rule] {
			bad[rule] = true
			r.Bad(rule, name, u.InstrPos(in), f, a...)
		}
	}
	e := d.engine(func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
		if len(s.frames) != 1 {
			return
		}
		if i := errResultIndex(root.Signature); i >= 0 && s.isNil(s.resolve(vals[i])) == -1 {
			return
		}
		v := s.resolve(vals[0])
		if s.isNil(v) == 1 {
			return
		}
		t, layout, ok := d.verdict(e, s, v, root.Signature.Results().At(0).Type())
		if !ok {
			r.notes = append(r.notes, name+": a chosen type is not recognised; not decided")
			return
		}
		ways++
		types_[t]++
		want, ok := numTypes[t]
		if !ok {
			if t != "string" && t != "bytes" {
				r.notes = append(r.notes, fmt.Sprintf("%s: nothing is known of the type %q; not decided", name, t))
			}
			return
		}
		var x pval
		for _, p := range s.ts.(*paramTS).params {
			if _, ok := s.tagOf(p, "value!"); ok {
				x = p
			}
		}
		if x.k != pSym {
			report("every-value", in, "%s: %s is chosen although not every sample value is looked at", name, t)
			return
		}
		fact, ok := s.mem[at(x, ".is-"+want.kind)]
		if !ok {
			report("every-value", in, "%s: %s is chosen although there may be a sample value that was not parsed as one, or that does not parse", name, t)
			return
		}
		switch want.kind {
		case "time":
			if layout.k == pTop {
				r.notes = append(r.notes, name+": the layout that goes with a time type is not followed; not decided")
				return
			}
			a, okA := s.strOf(layout)
			f := s.resolve(fact)
			b, okB := s.strOf(f)
			if f.k == pSym {
				b, okB = symText(f), true
			}
			if okA && okB && a != b {
				report("same-format", in, "%s: the values were parsed by the layout %q, but the mapping gets %q", name, b, a)
			} else if !okA || !okB {
				r.notes = append(r.notes, name+": the layout that goes with a time type is not fixed; not decided")
			}
		case "int", "uint", "float":
			t2, _ := s.strOf(fact)
			var base, bits string
			if i := strings.Index(t2, ":"); i >= 0 {
				base, bits = t2[:i], t2[i+1:]
			}
			var n int64
			fmt.Sscan(bits, &n)
			if base != "10" || bits == "?" || n == 0 || n > want.bits {
				report("same-format", in, "%s: %s is chosen when the values parse with base %s and %s bits, which takes texts that are none", name, t, base, bits)
			}
		}
	})
	if !e.run(root, &paramTS{}, d.setup(e, root)) {
		r.Bad("analysable", name, u.Pos(root.Pos()), "%s has too many ways to follow", name)
		return
	}
	r.Count("functions that choose a type", 1)
	r.Count("ways to a type", ways)
	r.Count("abstract states", e.states)
	var ts []string
	for t := range types_ {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	r.Count("types that can be chosen", len(ts))
	if len(bad) == 0 {
		r.OK("every-value", "%s: each of %s is chosen on %d ways, on each of which any sample value was parsed as one", name, strings.Join(ts, ", "), ways)
	}
}

// collectors are the methods that take one row and keep it.
func (d *inferDom) collectors() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range d.u.Funcs {
		if !inferPkgs[fnPkg(fn)] || len(fn.Blocks) == 0 || fn.Signature.Recv() == nil || fn.Synthetic != "" || len(fn.Params) != 2 || !isStrSlice(fn.Params[1].Type()) {
			continue
		}
		if rowsField(fn) >= 0 && d.stores(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// stores: does fn write a collection of rows?
func (d *inferDom) stores(fn *ssa.Function) bool {
	for f := range d.u.reachableFrom(fn) {
		if !inferPkgs[fnPkg(f)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isRows(st.Val.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func rowsField(fn *ssa.Function) int {
	st, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if isRows(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// collect: a row that is taken without error is among the rows kept, and none of
// those is lost.
func (d *inferDom) collect(root *ssa.Function) {
	r, name := d.r, fnName(root)
	ways, bad := 0, false
	fi := rowsField(root)
	e := d.engine(func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
		if len(s.frames) != 1 {
			return
		}
		if i := errResultIndex(root.Signature); i >= 0 && s.isNil(s.resolve(vals[i])) == -1 {
			return
		}
		ways++
		ps := s.ts.(*paramTS).params
		l := s.resolve(s.mem[ploc{ps[0].id, fmt.Sprintf(".%d", fi)}])
		if bad || l.k == pTop {
			return
		}
		g, hasG := s.mem[at(l, ".g")]
		_, hasO := s.mem[at(l, ".o")]
		_, hasH := s.mem[at(l, ".h")]
		_, cut := s.tagOf(l, "cut!")
		_, row := s.tagOf(g, "row!")
		switch {
		case !d.ls.isList(s, l):
		case !hasG || !row:
			bad = true
			r.Bad("row-kept", name, d.u.InstrPos(in), "%s: a row can be taken without error and not be kept", name)
		case !hasO || !hasH || cut:
			bad = true
			r.Bad("row-kept", name, d.u.InstrPos(in), "%s: rows taken earlier can be lost", name)
		}
	})
	ok := e.run(root, &paramTS{}, func(s *pstate) {
		keep(s, s.frames[0].env[root.Params[0]])
		recv := s.frames[0].env[root.Params[0]]
		l := d.ls.newList(e, s, root.Params[0])
		s.mem[at(l, ".o")] = pbool(true)
		h := e.nonNil(s, root.Params[0])
		s.addTag(h, "header!")
		s.mem[at(l, ".h")] = h
		s.mem[ploc{recv.id, fmt.Sprintf(".%d", fi)}] = l
		s.frames[0].env[root.Params[1]] = d.newRow(e, s, root.Params[1])
	})
	if !ok {
		r.Bad("analysable", name, d.u.Pos(root.Pos()), "%s has too many ways to follow", name)
		return
	}
	r.Count("functions that take rows", 1)
	if ways > 0 && !bad {
		r.OK("row-kept", "%s: on %d ways to success the row is kept with all earlier ones", name, ways)
	}
}

// feed: everything read is handed on before success is reported.
func (d *inferDom) feed(root *ssa.Function) {
	r, name := d.r, fnName(root)
	ways := 0
	bad := map[string]bool{}
	d.feeding = true
	d.ls.only = func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && isXML(sl.Elem(), "Attr") || isRows(t) || isStrSlice(t)
	}
	d.inlined = func(f *ssa.Function) bool { return !d.isUser[f] }
	defer func() { d.ls.only, d.feeding, d.inlined = nil, false, nil }()
	e := d.engine(func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
		if len(s.frames) != 1 {
			return
		}
		if i := errResultIndex(root.Signature); i >= 0 && s.isNil(s.resolve(vals[i])) == -1 {
			return
		}
		ways++
		for _, p := range s.ts.(*paramTS).params {
			need := func(kind, done, rule, why string) {
				if _, ok := s.tagOf(p, kind); !ok || bad[rule] {
					return
				}
				if _, ok := s.tagOf(p, done); !ok {
					bad[rule] = true
					r.Bad(rule, name, d.u.InstrPos(in), "%s: %s", name, why)
				}
			}
			need("row!", "fed!", "rows-fed", "a row that was read can be left out")
			if takesElement(root) {
				need("attribute!", "recorded!", "values-recorded", "the value of an attribute can be left out")
				need("text!", "recorded!", "values-recorded", "text of an element can be left out")
			}
			need("element!", "consumed!", "elements-fed", "an element can be skipped with all its values")
		}
	})
	ok := e.run(root, &paramTS{}, func(s *pstate) {
		for _, p := range root.Params {
			keep(s, s.frames[0].env[p])
			if isStringType(p.Type()) {
				s.addTag(s.frames[0].env[p], "input!")
			}
		}
	})
	if !ok {
		r.Bad("analysable", name, d.u.Pos(root.Pos()), "%s has too many ways to follow", name)
		return
	}
	if ways == 0 {
		r.Bad("analysable", name, d.u.Pos(root.Pos()), "%s: no way to success was found", name)
	}
	r.Count("functions that read samples", 1)
	r.Count("abstract states", e.states)
	if len(bad) == 0 {
		r.OK("all-fed", "%s: on %d ways to success everything read is handed on", name, ways)
	}
}

// feeders are the functions that read samples: those that take an element's start,
// and the outermost others.
func (d *inferDom) feeders() []*ssa.Function {
	reads := map[*ssa.Function]bool{}
	direct := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if fn := c.Call.StaticCallee(); fn != nil && inRepo(fn) {
					continue
				}
				if n := callName(c); strings.HasSuffix(n, "csv.(Reader).ReadAll") || strings.HasSuffix(n, "csv.(Reader).Read") {
					return true
				}
				rs := c.Call.Signature().Results()
				if rs.Len() == 2 && isXML(rs.At(0).Type(), "Token") {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range d.u.Funcs {
		if !inferPkgs[fnPkg(fn)] || len(fn.Blocks) == 0 {
			continue
		}
		for f := range d.u.reachableFrom(fn) {
			if inferPkgs[fnPkg(f)] && direct(f) {
				reads[fn] = true
			}
		}
	}
	var out []*ssa.Function
	for fn := range reads {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		inner := false
		for _, c := range d.u.callSites(fn) {
			if reads[c.Parent()] {
				inner = true
			}
		}
		if !inner || takesElement(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// users are the functions that give samples to a decider, and those that give them
// to such functions.
func (d *inferDom) users() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		for _, c := range d.u.callSites(fn) {
			p := c.Parent()
			for p.Parent() != nil {
				p = p.Parent()
			}
			if seen[p] || d.decider[p] || !inferPkgs[fnPkg(p)] {
				continue
			}
			seen[p] = true
			out = append(out, p)
			if givenSamples(p) {
				add(p)
			}
		}
	}
	for fn := range d.decider {
		add(fn)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// givenSamples: do samples come to fn as an argument?
func givenSamples(fn *ssa.Function) bool {
	for i, p := range fn.Params {
		if (i > 0 || fn.Signature.Recv() == nil) && holdsSamples(p.Type(), 0) {
			return true
		}
	}
	return false
}

// use: the samples a function has are all given to the decider.
func (d *inferDom) use(fn *ssa.Function) {
	n := len(d.cutAt)
	d.ls.only = func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return sampleType(t) || ok && holdsSamples(sl.Elem(), 0)
	}
	memo := map[*ssa.Function]bool{}
	d.inlined = func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		v := f.Parent() != nil || d.handles(f)
		if !v && !d.isUser[f] {
			for g := range d.u.reachableFrom(f) {
				if d.decider[g] {
					v = true
				}
			}
			for g := range d.u.reachableFrom(f) {
				if d.isUser[g] && !givenSamples(g) {
					v = false
				}
			}
		}
		memo[f] = v
		return v
	}
	defer func() { d.ls.only, d.inlined = nil, nil }()
	e := d.engine(nil)
	if !e.run(fn, &paramTS{}, d.setup(e, fn)) {
		d.r.Bad("analysable", fnName(fn), d.u.Pos(fn.Pos()), "%s has too many ways to follow", fnName(fn))
		return
	}
	d.r.Count("functions that hand samples on", 1)
	if len(d.cutAt) == n {
		d.r.OK("whole-sample", "%s hands on every sample value it has", fnName(fn))
	}
}

// handles: do samples come into f as an argument or out of it as a result?
func (d *inferDom) handles(f *ssa.Function) bool {
	if givenSamples(f) || f.Signature.Recv() != nil && holdsSamples(f.Signature.Recv().Type(), 0) && !d.leads(f) {
		return true
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if holdsSamples(rs.At(i).Type(), 0) {
			return true
		}
	}
	return false
}

// leads: does f come to a decider?
func (d *inferDom) leads(f *ssa.Function) bool {
	for g := range d.u.reachableFrom(f) {
		if d.decider[g] {
			return true
		}
	}
	return false
}

func init() {
	register("I01", func(w *World, r *Report) {
		u := w.Host
		d := &inferDom{u: u, r: r}
		d.ls = &listDom{u: u, sample: d.sample, ghost: d.ghost}
		d.decider, d.collector, d.cutAt = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[ssa.Instruction]bool{}
		for _, fn := range d.deciders() {
			d.decider[fn] = true
		}
		for _, fn := range d.collectors() {
			d.collector[fn] = true
		}
		for _, fn := range d.deciders() {
			d.decide(fn)
		}
		for _, fn := range d.collectors() {
			d.collect(fn)
		}
		d.isUser = map[*ssa.Function]bool{}
		for _, fn := range d.users() {
			d.isUser[fn] = true
		}
		for _, fn := range d.users() {
			d.use(fn)
		}
		for _, fn := range d.feeders() {
			d.feed(fn)
		}
		r.Floor("functions that choose a type", 2)
		r.Floor("types that can be chosen", 2)
		r.Floor("functions that take rows", 1)
		r.Floor("functions that hand samples on", 2)
		r.Floor("functions that read samples", 2)
	})
}
