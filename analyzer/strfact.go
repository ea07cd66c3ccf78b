package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts about texts on a way through a function: which constant expressions a
// text matches, what its groups, prefixes and trimmed forms are. At a point of
// interest the facts describe a regular language (lang) that contains every text
// the way can be taken with.

type strDom struct {
	u    *Unit
	pats []string
	idx  map[string]int
	res  map[*ssa.Global]string
	bad  map[*ssa.Global]bool
}

func newStrDom(u *Unit) *strDom {
	return &strDom{u: u, idx: map[string]int{}, res: map[*ssa.Global]string{}, bad: map[*ssa.Global]bool{}}
}

func (d *strDom) pat(p string) int {
	if i, ok := d.idx[p]; ok {
		return i
	}
	d.idx[p] = len(d.pats)
	d.pats = append(d.pats, p)
	return len(d.pats) - 1
}

// constStr evaluates a text that is fixed at compile time.
func (u *Unit) constStr(v ssa.Value, env map[ssa.Value]string) (string, bool) {
	if s, ok := env[v]; ok {
		return s, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := u.constStr(x.X, env)
			b, ok2 := u.constStr(x.Y, env)
			return a + b, ok1 && ok2
		}
	case *ssa.ChangeType:
		return u.constStr(x.X, env)
	case *ssa.Convert:
		return u.constStr(x.X, env)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if st := u.onlyStore(g); st != nil {
				return u.constStr(st.Val, nil)
			}
		}
	}
	return "", false
}

// onlyStore is the one store to a package-level variable, in its initialiser.
func (u *Unit) onlyStore(g *ssa.Global) *ssa.Store {
	if u.gstores == nil {
		u.gstores = map[*ssa.Global][]*ssa.Store{}
		u.gtaken = map[*ssa.Global]bool{}
		for _, p := range u.Prog.AllPackages() {
			if _, ok := relPkg(p.Pkg); !ok {
				continue
			}
			fs := u.allOf(p)
			eachInstr(fs, func(fn *ssa.Function, in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						u.gstores[g] = append(u.gstores[g], st)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if y.Addr != g {
								u.gtaken[g] = true
							}
						default:
							u.gtaken[g] = true
						}
					}
				}
			})
		}
	}
	if ss := u.gstores[g]; len(ss) == 1 && !u.gtaken[g] && ss[0].Parent().Name() == "init" {
		return ss[0]
	}
	return nil
}

// allOf are all functions of a package, its initialiser included.
func (u *Unit) allOf(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := u.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := u.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// globalRE is the constant pattern a package-level expression is compiled from.
func (u *Unit) globalRE(g *ssa.Global) (string, bool) {
	st := u.onlyStore(g)
	if st == nil {
		return "", false
	}
	return u.compiledRE(st.Val, nil, 0)
}

func (u *Unit) compiledRE(v ssa.Value, env map[ssa.Value]string, depth int) (string, bool) {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || depth > 4 {
		return "", false
	}
	switch n := callName(c); n {
	case "regexp.MustCompile", "regexp.Compile":
		return u.constStr(c.Call.Args[0], env)
	}
	fn := c.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || !inRepo(fn) {
		return "", false
	}
	inner := map[ssa.Value]string{}
	for i, p := range fn.Params {
		if s, ok := u.constStr(c.Call.Args[i], env); ok {
			inner[p] = s
		}
	}
	pat, found := "", false
	for _, r := range returnsOf(fn) {
		for _, x := range r.Results {
			if !strings.HasSuffix(x.Type().String(), "regexp.Regexp") || isNilConst(x) {
				continue
			}
			p, ok := u.compiledRE(x, inner, depth+1)
			if !ok || found && p != pat {
				return "", false
			}
			pat, found = p, true
		}
	}
	return pat, found
}

// cons gives the one symbol that stands for a derived value of another symbol.
func (e *pathEng) cons(s *pstate, id int, what string, site ssa.Value) pval {
	l := ploc{id, what}
	if v, ok := s.mem[l]; ok {
		return v
	}
	v := e.fresh(s, site)
	s.mem[l] = v
	return v
}

func (s *pstate) tagOf(v pval, prefix string) (string, bool) {
	if v.k != pSym || s.objs[v.id] == nil {
		return "", false
	}
	for _, t := range strings.Split(s.objs[v.id].tags, ";") {
		if strings.HasPrefix(t, prefix) {
			return t[len(prefix):], true
		}
	}
	return "", false
}

func (s *pstate) addTag(v pval, t string) {
	if v.k != pSym || s.objs[v.id] == nil {
		return
	}
	o := s.objs[v.id]
	for _, x := range strings.Split(o.tags, ";") {
		if x == t {
			return
		}
	}
	all := append(strings.Split(strings.Trim(o.tags, ";"), ";"), t)
	var out []string
	for _, x := range all {
		if x != "" {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	o.tags = strings.Join(out, ";") + ";"
}

func pint(n int64) pval { return pval{k: pConst, c: constant.MakeInt64(n)} }
func pstr(s string) pval {
	return pval{k: pConst, c: constant.MakeString(s)}
}

func (s *pstate) strOf(v pval) (string, bool) {
	v = s.resolve(v)
	if v.k == pConst && v.c.Kind() == constant.String {
		return constant.StringVal(v.c), true
	}
	return "", false
}

func (s *pstate) intOf(v pval) (int64, bool) {
	v = s.resolve(v)
	if v.k == pConst && v.c.Kind() == constant.Int {
		return constant.Int64Val(v.c)
	}
	return 0, false
}

// value evaluates instructions on texts.
func (d *strDom) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && strings.HasSuffix(g.Type().String(), "regexp.Regexp") {
			p, ok := d.res[g]
			if !ok && !d.bad[g] {
				if p, ok = d.u.globalRE(g); ok {
					d.res[g] = p
				} else {
					d.bad[g] = true
				}
			}
			if ok {
				r := e.nonNil(s, x)
				s.addTag(r, fmt.Sprintf("re%d", d.pat(p)))
				return r, true
			}
		}
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isStringType(deref(g.Type())) {
			if t, ok := d.u.constStr(x, nil); ok {
				return pstr(t), true
			}
		}
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if b, ok := deref(g.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if st := d.u.onlyStore(g); st != nil {
					if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
						return pval{k: pConst, c: c.Value}, true
					}
				}
			}
		}
	case *ssa.IndexAddr:
		b := s.resolve(e.get(s, x.X))
		if _, ok := s.tagOf(b, "list"); ok {
			if k, ok := s.intOf(e.get(s, x.Index)); ok {
				return pval{k: pAddr, loc: ploc{b.id, fmt.Sprintf("[%d]", k)}}, true
			}
		}
		if n, ok := s.tagOf(b, "match"); ok {
			k, okk := s.intOf(e.get(s, x.Index))
			if !okk {
				return pval{}, false
			}
			d.element(e, s, b, n, int(k), x)
			return pval{k: pAddr, loc: ploc{b.id, fmt.Sprintf("[%d]", k)}}, true
		}
	case *ssa.Slice:
		return d.slice(e, s, x)
	case *ssa.Index:
		if isStringType(x.X.Type()) {
			return d.char(e, s, x, x.X, x.Index)
		}
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			return d.char(e, s, x, x.X, x.Index)
		}
	case *ssa.BinOp:
		a, b := s.resolve(e.get(s, x.X)), s.resolve(e.get(s, x.Y))
		switch x.Op {
		case token.ADD:
			if sep, ok := s.tagOf(a, "at:"); ok {
				if n, ok := s.intOf(b); ok && int(n) == len(sep) {
					r := e.cons(s, a.id, ".after", x)
					s.mem[ploc{r.id, ".of"}] = s.mem[ploc{a.id, ".of"}]
					s.addTag(r, "after:"+sep)
					return r, true
				}
			}
			if p, ok := s.strOf(a); ok {
				if q, ok := s.strOf(b); ok {
					return pstr(p + q), true
				}
			}
		case token.SUB:
			if _, ok := s.tagOf(a, "end"); ok {
				if n, ok := s.intOf(b); ok {
					r := e.cons(s, a.id, fmt.Sprintf(".minus%d", n), x)
					s.mem[ploc{r.id, ".of"}] = a
					s.addTag(r, fmt.Sprintf("endminus%d", n))
					return r, true
				}
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op, l, c := x.Op, a, b
			if a.k == pConst {
				l, c = b, a
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			if _, ok := s.tagOf(l, "at:"); ok {
				if n, ok := s.intOf(c); ok {
					switch {
					case op == token.GEQ && n <= 0 || op == token.GTR && n < 0:
						return pbool(true), true
					case op == token.LSS && n <= 0 || op == token.LEQ && n < 0:
						return pbool(false), true
					}
				}
			}
			if _, ok := s.tagOf(l, "len"); ok {
				if n, ok := s.intOf(c); ok {
					zero := pint(0)
					isZero := pval{k: pCond, op: token.EQL, x: &l, y: &zero}
					switch {
					case op == token.GTR && n == 0 || op == token.GEQ && n == 1:
						return notP(isZero), true
					case op == token.LSS && n == 1 || op == token.LEQ && n == 0:
						return isZero, true
					case op == token.LSS && n <= 0:
						return pbool(false), true
					case op == token.GEQ && n <= 0:
						return pbool(true), true
					}
				}
			}
		}
	}
	return pval{}, false
}

func (d *strDom) char(e *pathEng, s *pstate, at ssa.Value, x, i ssa.Value) (pval, bool) {
	b := s.resolve(e.get(s, x))
	n, ok := s.intOf(e.get(s, i))
	if t, isC := s.strOf(b); isC && ok && n >= 0 && int(n) < len(t) {
		return pint(int64(t[n])), true
	}
	if b.k == pSym && ok {
		return e.cons(s, b.id, fmt.Sprintf(".h%d", n), at), true
	}
	return pval{}, false
}

// element makes sure element k of a match result exists.
func (d *strDom) element(e *pathEng, s *pstate, m pval, n string, k int, site ssa.Value) {
	l := ploc{m.id, fmt.Sprintf("[%d]", k)}
	if _, ok := s.mem[l]; ok {
		return
	}
	src := s.mem[ploc{m.id, ".of"}]
	if _, idx := s.tagOf(m, "index"); idx {
		switch k {
		case 0:
			pi, _ := strconv.Atoi(n)
			if re, err := parseRE(d.pats[pi]); err == nil {
				if _, begin, _ := stripAnchors(re); begin {
					s.mem[l] = pint(0)
				}
			}
		case 1:
			s.mem[l] = d.end(e, s, m, n, site)
		}
		return
	}
	if src.k == pSym {
		g := e.cons(s, src.id, fmt.Sprintf(".g%s.%d", n, k), site)
		if k == 0 {
			s.mem[ploc{g.id, ".match"}] = m
			s.addTag(g, "whole"+n)
		}
		s.mem[l] = g
	}
}

func (d *strDom) end(e *pathEng, s *pstate, m pval, n string, site ssa.Value) pval {
	v := e.cons(s, m.id, ".end", site)
	s.mem[ploc{v.id, ".of"}] = m
	s.addTag(v, "end"+n)
	return v
}

func (d *strDom) slice(e *pathEng, s *pstate, x *ssa.Slice) (pval, bool) {
	if !isStringType(x.X.Type()) {
		return pval{}, false
	}
	b := s.resolve(e.get(s, x.X))
	if b.k != pSym {
		return pval{}, false
	}
	lo := pint(0)
	if x.Low != nil {
		lo = s.resolve(e.get(s, x.Low))
	}
	if n, ok := s.intOf(lo); ok && x.High == nil {
		if n == 0 {
			return b, true
		}
		return e.cons(s, b.id, fmt.Sprintf(".tail%d", n), x), true
	}
	at := func(v pval, tag string) (string, bool) {
		sep, ok := s.tagOf(v, tag)
		if !ok {
			return "", false
		}
		of := s.mem[ploc{v.id, ".of"}]
		return sep, of.k == pSym && of.id == b.id
	}
	if n, ok := s.intOf(lo); ok && n == 0 && x.High != nil {
		if sep, ok := at(s.resolve(e.get(s, x.High)), "at:"); ok {
			return e.cons(s, b.id, ".pre:"+sep, x), true
		}
	}
	if x.High == nil {
		if sep, ok := at(lo, "after:"); ok {
			return e.cons(s, b.id, ".post:"+sep, x), true
		}
	}
	matchOf := func(v pval) (pval, string, bool) {
		n, ok := s.tagOf(v, "end")
		if !ok {
			return pval{}, "", false
		}
		if strings.HasPrefix(n, "minus") {
			return pval{}, "", false
		}
		m := s.mem[ploc{v.id, ".of"}]
		if m.k != pSym {
			return pval{}, "", false
		}
		src := s.mem[ploc{m.id, ".of"}]
		return m, n, src.k == pSym && src.id == b.id
	}
	if x.High == nil {
		if _, n, ok := matchOf(lo); ok {
			return e.cons(s, b.id, ".suf"+n, x), true
		}
	} else if k, ok := s.intOf(lo); ok {
		hi := s.resolve(e.get(s, x.High))
		if m, n, ok := matchOf(hi); ok && k == 0 {
			d.element(e, s, m, n, 0, x)
			return e.cons(s, b.id, fmt.Sprintf(".g%s.0", n), x), true
		}
	}
	return pval{}, false
}

// call models the operations on texts.
func (d *strDom) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	one := func(v pval) ([]*pstate, bool) {
		e.setResult(s, in, v)
		return []*pstate{s}, true
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			a := s.resolve(args[0])
			if a.k == pAddr && a.loc.path == "" && s.objs[a.loc.obj] != nil {
				if al, ok := s.objs[a.loc.obj].site.(*ssa.Alloc); ok {
					if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
						return one(pint(arr.Len()))
					}
				}
			}
			if a.k == pSym {
				if v, ok := s.mem[ploc{a.id, ".len"}]; ok {
					return one(v)
				}
				if n, ok := s.tagOf(a, "whole"); ok {
					if m := s.mem[ploc{a.id, ".match"}]; m.k == pSym {
						return one(d.end(e, s, m, n, c))
					}
				}
				v := e.cons(s, a.id, ".len", c)
				s.addTag(v, "len")
				return one(v)
			}
		}
		return nil, false
	}
	n := callName(in)
	reOf := func() (int, bool) {
		t, ok := s.tagOf(args[0], "re")
		if !ok {
			return 0, false
		}
		i, err := strconv.Atoi(t)
		return i, err == nil
	}
	if strings.HasPrefix(n, "regexp.") && len(args) > 0 {
		if n == "regexp.MustCompile" {
			if p, ok := s.strOf(args[0]); ok {
				r := e.nonNil(s, c)
				s.addTag(r, fmt.Sprintf("re%d", d.pat(p)))
				return one(r)
			}
		}
		meth := n[strings.LastIndex(n, ".")+1:]
		if len(args) < 2 {
			return nil, false
		}
		pi, ok := reOf()
		if !ok {
			return nil, false
		}
		x := s.resolve(args[1])
		switch meth {
		case "MatchString", "Match":
			if t, ok := s.strOf(x); ok {
				if re, err := compileRE(d.pats[pi]); err == nil {
					return one(pbool(re.MatchString(t)))
				}
			}
			if x.k == pSym {
				return one(e.cons(s, x.id, fmt.Sprintf(".m%d", pi), c))
			}
		case "FindStringIndex", "FindStringSubmatch", "FindIndex", "FindString", "FindSubmatch", "FindStringSubmatchIndex":
			if x.k != pSym || meth == "FindStringSubmatchIndex" {
				return nil, false
			}
			did := e.cons(s, x.id, fmt.Sprintf(".m%d", pi), c)
			var outs []*pstate
			if o := s.clone(); o.assume(did, false) {
				if meth == "FindString" {
					e.setResult(o, in, pstr(""))
				} else {
					e.setResult(o, in, pval{k: pNil})
				}
				outs = append(outs, o)
			}
			if s.assume(did, true) {
				m := e.nonNil(s, c)
				s.addTag(m, fmt.Sprintf("match%d", pi))
				s.mem[ploc{m.id, ".of"}] = x
				re, err := compileRE(d.pats[pi])
				if err == nil {
					s.mem[ploc{m.id, ".len"}] = pint(int64(re.NumSubexp() + 1))
				}
				if strings.HasSuffix(meth, "Index") {
					s.addTag(m, "index")
					s.mem[ploc{m.id, ".len"}] = pint(2)
				}
				if meth == "FindString" {
					d.element(e, s, m, fmt.Sprint(pi), 0, c)
					e.setResult(s, in, s.mem[ploc{m.id, "[0]"}])
				} else {
					e.setResult(s, in, m)
				}
				outs = append(outs, s)
			}
			return outs, true
		}
		return nil, false
	}
	if !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "bytes.") || len(args) == 0 {
		return nil, false
	}
	x := s.resolve(args[0])
	meth := n[strings.Index(n, ".")+1:]
	arg := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		if t, ok := s.strOf(args[i]); ok {
			return t, true
		}
		if k, ok := s.intOf(args[i]); ok {
			return string(rune(k)), true
		}
		return "", false
	}
	if t, ok := s.strOf(x); ok {
		a, ok := arg(1)
		switch {
		case meth == "TrimSpace":
			return one(pstr(strings.TrimSpace(t)))
		case meth == "ToLower":
			return one(pstr(strings.ToLower(t)))
		case meth == "ToUpper":
			return one(pstr(strings.ToUpper(t)))
		case !ok:
		case meth == "HasPrefix":
			return one(pbool(strings.HasPrefix(t, a)))
		case meth == "HasSuffix":
			return one(pbool(strings.HasSuffix(t, a)))
		case meth == "Contains" || meth == "ContainsRune":
			return one(pbool(strings.Contains(t, a)))
		case meth == "EqualFold":
			return one(pbool(strings.EqualFold(t, a)))
		}
		return nil, false
	}
	if x.k != pSym {
		return nil, false
	}
	switch meth {
	case "TrimSpace":
		return one(e.cons(s, x.id, ".trimspace", c))
	}
	if meth == "TrimPrefix" {
		// the whole match of an anchored expression is a prefix
		if y := s.resolve(args[1]); y.k == pSym {
			if w, ok := s.tagOf(y, "whole"); ok {
				m := s.mem[ploc{y.id, ".match"}]
				if src := s.mem[ploc{m.id, ".of"}]; m.k == pSym && src.k == pSym && src.id == x.id {
					return one(e.cons(s, x.id, ".suf"+w, c))
				}
			}
		}
	}
	a, ok := arg(1)
	if !ok {
		return nil, false
	}
	switch meth {
	case "Index", "IndexByte", "IndexRune", "Cut":
		has := e.cons(s, x.id, ".contains:"+a, c)
		var outs []*pstate
		if o := s.clone(); o.assume(has, false) {
			if meth == "Cut" {
				e.setResult(o, in, x, pstr(""), pbool(false))
			} else {
				e.setResult(o, in, pint(-1))
			}
			outs = append(outs, o)
		}
		if s.assume(has, true) {
			if meth == "Cut" {
				e.setResult(s, in, e.cons(s, x.id, ".pre:"+a, c), e.cons(s, x.id, ".post:"+a, c), pbool(true))
			} else {
				i := e.cons(s, x.id, ".at:"+a, c)
				s.mem[ploc{i.id, ".of"}] = x
				s.addTag(i, "at:"+a)
				s.objs[i.id].ne = []pval{pint(-1)}
				e.setResult(s, in, i)
			}
			outs = append(outs, s)
		}
		return outs, true
	case "SplitN":
		n := int64(0)
		if len(args) > 2 {
			n, _ = s.intOf(args[2])
		}
		if n != 2 || a == "" {
			return nil, false
		}
		has := e.cons(s, x.id, ".contains:"+a, c)
		var outs []*pstate
		if o := s.clone(); o.assume(has, false) {
			l := e.nonNil(o, c)
			o.mem[ploc{l.id, ".len"}] = pint(1)
			o.mem[ploc{l.id, "[0]"}] = x
			o.addTag(l, "list")
			e.setResult(o, in, l)
			outs = append(outs, o)
		}
		if s.assume(has, true) {
			l := e.nonNil(s, c)
			s.mem[ploc{l.id, ".len"}] = pint(2)
			s.mem[ploc{l.id, "[0]"}] = e.cons(s, x.id, ".pre:"+a, c)
			s.mem[ploc{l.id, "[1]"}] = e.cons(s, x.id, ".post:"+a, c)
			s.addTag(l, "list")
			e.setResult(s, in, l)
			outs = append(outs, s)
		}
		return outs, true
	case "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix":
		return one(e.cons(s, x.id, "."+strings.ToLower(meth)+":"+a, c))
	case "HasPrefix", "HasSuffix", "Contains", "ContainsRune", "ContainsAny":
		if meth == "ContainsRune" {
			meth = "Contains"
		}
		return one(e.cons(s, x.id, "."+strings.ToLower(meth)+":"+a, c))
	}
	return nil, false
}

// addAlphabet adds what the facts of all states can mention.
func (d *strDom) addAlphabet(a *alphabet) error {
	for _, p := range d.pats {
		if err := a.addExpr(p); err != nil {
			return err
		}
	}
	return nil
}

const spaceSet = "\t\n\v\f\r \u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

// texts are the constants the facts of a state mention.
func (s *pstate) factTexts(f func(string)) {
	add := func(v pval) {
		if v.k == pConst && v.c.Kind() == constant.String {
			f(constant.StringVal(v.c))
		}
	}
	for _, o := range s.objs {
		if o.eq != nil {
			add(*o.eq)
		}
		for _, n := range o.ne {
			add(n)
		}
	}
	for l := range s.mem {
		if i := strings.Index(l.path, ":"); i >= 0 {
			f(l.path[i+1:])
		}
	}
}

// lang is a regular language that contains every text v can be.
func (d *strDom) lang(a *alphabet, s *pstate, v pval, depth int) (*dfa, error) {
	v = s.resolve(v)
	if t, ok := s.strOf(v); ok {
		return a.lit(t), nil
	}
	out := a.any()
	if v.k != pSym || depth > 40 {
		return out, nil
	}
	o := s.objs[v.id]
	if o == nil {
		return out, nil
	}
	for _, n := range o.ne {
		if t, ok := s.strOf(n); ok {
			out = out.minus(a.lit(t))
		}
	}
	truth := func(x pval) int { return s.eval(x) }
	cut := func(set string) *dfa {
		m := make([]bool, a.n)
		for _, r := range set {
			a.set(m, r, r)
		}
		return a.oneOf(m)
	}
	any := a.any()
	for l, x := range s.mem {
		if l.obj != v.id {
			continue
		}
		p := l.path
		arg := ""
		if i := strings.Index(p, ":"); i >= 0 {
			p, arg = p[:i], p[i+1:]
		}
		var c *dfa
		switch {
		case strings.HasPrefix(p, ".g") && strings.Contains(p, "."):
			continue // taken with .m
		case strings.HasPrefix(p, ".m") && len(p) > 2 && p[2] >= '0' && p[2] <= '9':
			n, _ := strconv.Atoi(p[2:])
			t := truth(x)
			if t == 0 {
				continue
			}
			groups := map[int]*dfa{}
			if t == 1 {
				pre := fmt.Sprintf(".g%d.", n)
				for gl, gx := range s.mem {
					if gl.obj == v.id && strings.HasPrefix(gl.path, pre) {
						k, err := strconv.Atoi(gl.path[len(pre):])
						if err != nil || k == 0 {
							continue
						}
						g, err := d.lang(a, s, gx, depth+1)
						if err != nil {
							return nil, err
						}
						groups[k] = g
					}
				}
			}
			m, err := a.matchLang(d.pats[n], groups)
			if err != nil {
				return nil, err
			}
			if t == -1 {
				m = m.not()
			}
			c = m
		case strings.HasPrefix(p, ".suf"):
			n, _ := strconv.Atoi(p[4:])
			groups := map[int]*dfa{}
			pl, begin, err := a.prefixLang(d.pats[n], groups)
			if err != nil {
				return nil, err
			}
			r, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			c = pl.then(r)
			if !begin {
				c = any.then(c)
			}
		case strings.HasPrefix(p, ".tail"):
			n, _ := strconv.Atoi(p[5:])
			r, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			// an index counts bytes: exact only for what is known to be ASCII
			ch := make([]bool, a.n)
			for i := range ch {
				ch[i] = true
			}
			one := a.oneOf(ch)
			c = r
			for i := 0; i < n; i++ {
				h := one
				if hv, ok := s.mem[ploc{v.id, fmt.Sprintf(".h%d", i)}]; ok {
					if b, ok := s.intOf(hv); ok && b < 0x80 {
						h = a.lit(string(rune(b)))
					}
				}
				c = h.then(c)
			}
		case strings.HasPrefix(p, ".h") && len(p) == 3 && p[2] == '0':
			b, ok := s.intOf(x)
			first := func(n int64) *dfa {
				if n < 0x80 {
					return a.lit(string(rune(n))).then(any)
				}
				return nil
			}
			if ok {
				c = first(b)
			} else if x.k == pSym && s.objs[x.id] != nil {
				c = any.minus(a.epsilon())
				for _, n := range s.objs[x.id].ne {
					if b, ok := s.intOf(n); ok {
						if f := first(b); f != nil {
							c = c.minus(f)
						}
					}
				}
			}
		case p == ".len":
			if x.k == pSym {
				zero := pint(0)
				switch s.equal(x, zero) {
				case 1:
					c = a.epsilon()
				case -1:
					c = any.minus(a.epsilon())
				}
			}
		case p == ".trimspace" || p == ".trim" || p == ".trimleft" || p == ".trimright":
			set := arg
			if p == ".trimspace" {
				set = spaceSet
			}
			r, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			w := cut(set)
			if p != ".trimright" {
				r = w.star().then(r.minus(w.then(any)))
			}
			if p != ".trimleft" {
				r = r.minus(a.none())
				if p == ".trimright" {
					r = r.minus(any.then(w))
				}
				r = r.then(w.star())
			}
			c = r
		case p == ".pre":
			// the first occurrence of arg: nothing before it contains arg
			pre, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			post := any
			if px, ok := s.mem[ploc{v.id, ".post:" + arg}]; ok {
				if post, err = d.lang(a, s, px, depth+1); err != nil {
					return nil, err
				}
			}
			c = pre.minus(any.then(a.lit(arg)).then(any)).then(a.lit(arg)).then(post)
		case p == ".post":
			post, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			c = any.minus(any.then(a.lit(arg)).then(any)).then(a.lit(arg)).then(post)
		case p == ".trimprefix":
			r, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			pre := a.lit(arg)
			c = pre.then(r).or(r.minus(pre.then(any)))
		case p == ".trimsuffix":
			r, err := d.lang(a, s, x, depth+1)
			if err != nil {
				return nil, err
			}
			suf := a.lit(arg)
			c = r.then(suf).or(r.minus(any.then(suf)))
		case p == ".hasprefix" || p == ".hassuffix" || p == ".contains" || p == ".containsany":
			t := truth(x)
			if t == 0 {
				continue
			}
			switch p {
			case ".hasprefix":
				c = a.lit(arg).then(any)
			case ".hassuffix":
				c = any.then(a.lit(arg))
			case ".contains":
				c = any.then(a.lit(arg)).then(any)
			case ".containsany":
				c = any.then(cut(arg)).then(any)
			}
			if t == -1 {
				c = c.not()
			}
		}
		if c != nil {
			out = out.and(c)
		}
	}
	return out, nil
}

var compiled = map[string]*regexp.Regexp{}

func compileRE(p string) (*regexp.Regexp, error) {
	if re, ok := compiled[p]; ok {
		return re, nil
	}
	re, err := regexp.Compile(p)
	if err == nil {
		compiled[p] = re
	}
	return re, err
}
