package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R01 and R03: which texts the functions that check a text against a published
// grammar can accept. Every way to a success is walked; the facts gathered on it
// (strDom) give a regular language that contains every text it can be taken with,
// and that language has to lie within the grammar's.

const (
	iriPkg      = "rdf/iri"
	ntriplesPkg = "rdf/ntriples"
)

// iriReference is the IRI-reference rule of RFC 3987.
func iriReference() string {
	hex := `[0-9A-Fa-f]`
	ucs := `\x{A0}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFEF}`
	for p := 1; p <= 13; p++ {
		ucs += fmt.Sprintf(`\x{%X0000}-\x{%XFFFD}`, p, p)
	}
	ucs += `\x{E1000}-\x{EFFFD}`
	unres := `A-Za-z0-9\-._~`
	sub := `!$&'()*+,;=`
	pct := `%` + hex + hex
	iun := unres + ucs
	pchar := `(?:[` + iun + sub + `:@]|` + pct + `)`
	seg := `(?:` + pchar + `*)`
	segnz := `(?:` + pchar + `+)`
	segnznc := `(?:(?:[` + iun + sub + `@]|` + pct + `)+)`
	abempty := `(?:(?:/` + seg + `)*)`
	absolute := `(?:/(?:` + segnz + `(?:/` + seg + `)*)?)`
	rootless := `(?:` + segnz + `(?:/` + seg + `)*)`
	noscheme := `(?:` + segnznc + `(?:/` + seg + `)*)`
	dec := `(?:[0-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5])`
	v4 := `(?:` + dec + `\.` + dec + `\.` + dec + `\.` + dec + `)`
	h16 := `(?:` + hex + `{1,4})`
	ls32 := `(?:` + h16 + `:` + h16 + `|` + v4 + `)`
	g := `(?:` + h16 + `:)`
	v6 := `(?:` + strings.Join([]string{
		g + `{6}` + ls32,
		`::` + g + `{5}` + ls32,
		`(?:` + h16 + `)?::` + g + `{4}` + ls32,
		`(?:` + g + `{0,1}` + h16 + `)?::` + g + `{3}` + ls32,
		`(?:` + g + `{0,2}` + h16 + `)?::` + g + `{2}` + ls32,
		`(?:` + g + `{0,3}` + h16 + `)?::` + g + ls32,
		`(?:` + g + `{0,4}` + h16 + `)?::` + ls32,
		`(?:` + g + `{0,5}` + h16 + `)?::` + h16,
		`(?:` + g + `{0,6}` + h16 + `)?::`,
	}, "|") + `)`
	future := `(?:[vV]` + hex + `+\.[` + unres + sub + `:]+)`
	regName := `(?:(?:[` + iun + sub + `]|` + pct + `)*)`
	host := `(?:\[(?:` + v6 + `|` + future + `)\]|` + v4 + `|` + regName + `)`
	user := `(?:(?:[` + iun + sub + `:]|` + pct + `)*)`
	auth := `(?:(?:` + user + `@)?` + host + `(?::[0-9]*)?)`
	scheme := `(?:[A-Za-z][A-Za-z0-9+\-.]*)`
	query := `(?:(?:` + pchar + `|[\x{E000}-\x{F8FF}\x{F0000}-\x{FFFFD}\x{100000}-\x{10FFFD}/?])*)`
	frag := `(?:(?:` + pchar + `|[/?])*)`
	tail := `(?:\?` + query + `)?(?:#` + frag + `)?`
	net := `//` + auth + abempty
	return `(?:` + scheme + `:(?:` + net + `|` + absolute + `|` + rootless + `|)|(?:` + net + `|` + absolute + `|` + noscheme + `|))` + tail
}

// N-Triples terminals (W3C Recommendation, section 7).
func ntTerms() map[string]string {
	hex := `[0-9A-Fa-f]`
	uchar := `(?:\\u` + hex + `{4}|\\U` + hex + `{8})`
	iri := `(?:<(?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)*>)`
	base := `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
	u := base + `_:`
	pn := u + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
	blank := `(?:_:[` + u + `0-9](?:[` + pn + `.]*[` + pn + `])?)`
	str := `(?:"(?:[^\x22\x5C\x0A\x0D]|\\[tbnrf"'\\]|` + uchar + `)*")`
	lang := `(?:@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*)`
	lit := `(?:` + str + `(?:\^\^` + iri + `|` + lang + `)?)`
	return map[string]string{"iri": iri, "blank": blank, "lit": lit,
		"line": `(?:#(?s:.)*)|(?:[ \t]*(?:` + iri + `|` + blank + `)[ \t]*` + iri + `[ \t]*(?:` + iri + `|` + blank + `|` + lit + `)[ \t]*\.[ \t]*(?:#(?s:.)*)?)|(?:[ \t]*(?:#(?s:.)*)?)`,
	}
}

type grammarCheck struct {
	u     *Unit
	r     *Report
	d     *strDom
	pkgs  map[string]bool
	spec  func(a *alphabet) map[string]*dfa
	exprs []string
	root  *ssa.Function
	// accept judges one way to a success; it is given the alphabet.
	accept func(g *grammarCheck, e *pathEng, s *pstate, in *ssa.Return, vals []pval)
	a      *alphabet
	langs  map[string]*dfa
	ok     int
	cache  map[string]*dfa
}

// dry runs once to learn which expressions and constants occur, so that one
// alphabet serves all languages.
func (g *grammarCheck) run(root *ssa.Function) bool {
	g.root = root
	g.ok = 0
	texts := map[string]bool{}
	acc := g.accept
	g.d = newStrDom(g.u)
	for phase := 0; phase < 2; phase++ {
		e := newPathEng(g.u, pclient{
			call:   g.d.call,
			value:  g.d.value,
			inline: func(fn *ssa.Function) bool { return g.pkgs[fnPkg(fn)] },
			ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
				if len(s.frames) != 1 {
					return
				}
				errv := s.resolve(vals[len(vals)-1])
				if s.isNil(errv) == -1 {
					return
				}
				if phase == 0 {
					s.factTexts(func(t string) { texts[t] = true })
					return
				}
				g.ok++
				acc(g, e, s, in, vals)
			},
		})
		e.limit, e.fold = 400000, 8
		var ps []pval
		full := e.run(root, &paramTS{}, func(s *pstate) {
			ts := s.ts.(*paramTS)
			for _, p := range root.Params {
				v := s.frames[0].env[p]
				ps = append(ps, v)
				ts.params = append(ts.params, v)
			}
		})
		if !full {
			g.r.Bad("analysable", fnName(root), g.u.Pos(root.Pos()), "%s has too many ways to follow", fnName(root))
			return false
		}
		if phase == 0 {
			a := newAlphabet()
			for _, x := range g.exprs {
				if err := a.addExpr(x); err != nil {
					panic(err)
				}
			}
			if err := g.d.addAlphabet(a); err != nil {
				g.r.Bad("analysable", fnName(root), g.u.Pos(root.Pos()), "an expression %s uses cannot be read: %v", fnName(root), err)
				return false
			}
			for t := range texts {
				a.addString(t)
			}
			a.addChars(spaceSet)
			a.freeze()
			g.a = a
			g.langs = g.spec(a)
		}
		for fn := range e.funcs {
			g.r.Count("functions followed", 1)
			_ = fn
		}
	}
	return true
}

// paramTS keeps the parameters of the root alive.
type paramTS struct{ params []pval }

func (t *paramTS) clone() pts { return &paramTS{t.params} }
func (t *paramTS) roots() []int {
	var out []int
	for _, p := range t.params {
		if p.k == pSym {
			out = append(out, p.id)
		}
	}
	return out
}
func (t *paramTS) key(name func(int) string) string {
	k := ""
	for _, p := range t.params {
		if p.k == pSym {
			k += name(p.id)
		}
	}
	return k
}

// within reports whether v can only be a text of lang.
func (g *grammarCheck) within(s *pstate, v pval, lang *dfa) (string, bool, error) {
	var err error
	var l *dfa
	func() {
		defer guardLang(&err)
		l, err = g.d.lang(g.a, s, v, 0)
	}()
	if err != nil {
		return "", false, err
	}
	w, ok := l.within(lang)
	return w, ok, nil
}

// onlyText is the one parameter (or receiver) that is a text.
func onlyText(fn *ssa.Function) *ssa.Parameter {
	var out *ssa.Parameter
	for _, p := range fn.Params {
		if isStringType(p.Type()) {
			if out != nil {
				return nil
			}
			out = p
		}
	}
	return out
}

// checkers are the exported functions of a package that are given one text and
// say whether it is well formed.
func (u *Unit) checkers(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range u.Funcs {
		if fnPkg(fn) != pkg || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		o, ok := fn.Object().(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isError(res.At(res.Len()-1).Type()) || onlyText(fn) == nil {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// admits runs one root and judges every text listed by want on every success.
func (g *grammarCheck) admits(root *ssa.Function, lang string, what string, extra func(g *grammarCheck, e *pathEng, s *pstate, in *ssa.Return, vals []pval)) {
	u, r := g.u, g.r
	bad := map[string]bool{}
	c := fnName(root)
	param := onlyText(root)
	judge := func(rule, desc, lang string, s *pstate, in *ssa.Return, v pval) {
		w, ok, err := g.within(s, v, g.langs[lang])
		switch {
		case bad[rule]:
		case err != nil:
			bad[rule] = true
			r.Bad("analysable", c, u.InstrPos(in), "what %s accepts cannot be computed: %v", c, err)
		case !ok:
			bad[rule] = true
			r.Bad(rule, c, u.InstrPos(in), "%s returns without an error for a text that is not %s: %q (%s)", c, what, w, desc)
		default:
			r.OK(rule, "%s: success at %s admits only texts that are %s (%s)", c, u.InstrPos(in), what, desc)
		}
	}
	g.accept = func(g *grammarCheck, e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
		p := s.ts.(*paramTS)
		for i, q := range root.Params {
			if q == param {
				judge("accepted-text", "the argument", lang, s, in, p.params[i])
			}
		}
		if extra != nil {
			extra(g, e, s, in, vals)
			return
		}
		for i, v := range vals[:len(vals)-1] {
			if isStringType(root.Signature.Results().At(i).Type()) {
				judge("returned-text", fmt.Sprintf("result %d", i+1), lang, s, in, v)
			}
		}
	}
	if !g.run(root) {
		return
	}
	r.Count("functions that accept texts", 1)
	r.Count("ways to a success", g.ok)
	if g.ok == 0 {
		r.Bad("vacuous", c, u.Pos(root.Pos()), "%s never succeeds", c)
	}
}

func init() {
	register("R01", func(w *World, r *Report) {
		r.explanation = "Every way through every exported checking function of the IRI package is walked over the SSA (helpers inlined); the facts gathered about the text on it - which constant expressions it, its groups, prefixes and remainders match - give a regular language, computed with automata from the expressions in the source under their exact leftmost-first semantics, that contains every text the way can be taken with. For a way that ends in success that language, and that of a returned text, is included in the IRI-reference language of RFC 3987 (ABNF written down in the checker); an inclusion that fails yields a witness text."
		r.assumptions = []string{"The regexp package implements its documented syntax and semantics.", "The expressions are compiled once, from the constants the source gives (checked: package-level variables with one store)."}
		spec := iriReference()
		g := &grammarCheck{u: w.Host, r: r, pkgs: map[string]bool{iriPkg: true}, exprs: []string{spec},
			spec: func(a *alphabet) map[string]*dfa { return map[string]*dfa{"iri": a.spec(spec)} }}
		for _, root := range w.Host.checkers(iriPkg) {
			g.admits(root, "iri", "an IRI reference of RFC 3987", nil)
		}
		r.Floor("functions that accept texts", 2)
		r.Floor("ways to a success", 4)
	})
	register("R03", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "As for R01, for the exported parsing functions of the N-Triples package: on every way to a success the language of the texts it can be taken with is included in the language of lines (for a line parser) or of a literal followed by anything (for the literal parser, whose returned remainder is what follows a literal) of the W3C N-Triples grammar. A function that parses many lines hands every one of them to a line parser and stops at the first error."
		r.assumptions = []string{"The regexp package implements its documented syntax and semantics."}
		t := ntTerms()
		g := &grammarCheck{u: u, r: r, pkgs: map[string]bool{ntriplesPkg: true}, exprs: []string{t["line"]},
			spec: func(a *alphabet) map[string]*dfa {
				return map[string]*dfa{"line": a.spec(t["line"]), "lit": a.spec(t["lit"]).then(a.any()), "prefix": a.spec(t["lit"])}
			}}
		for _, root := range u.checkers(ntriplesPkg) {
			hasRest := false
			for i := 0; i < root.Signature.Results().Len(); i++ {
				hasRest = hasRest || isStringType(root.Signature.Results().At(i).Type())
			}
			if !hasRest {
				g.admits(root, "line", "a line of the N-Triples grammar", nil)
				continue
			}
			bad := false
			g.admits(root, "lit", "a literal of the N-Triples grammar, followed by the remainder", func(g *grammarCheck, e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
				p := s.ts.(*paramTS)
				for i, v := range vals {
					if !isStringType(root.Signature.Results().At(i).Type()) || bad {
						continue
					}
					ok, what := g.remainder(s, onlyTextIn(root, p), v)
					if !ok {
						bad = true
						r.Bad("remainder", fnName(root), u.InstrPos(in), "%s: the remainder that is returned is not what follows the literal in the argument (%s)", fnName(root), what)
						continue
					}
					r.OK("remainder", "%s: what is cut off in front of the remainder is always a whole literal", fnName(root))
				}
			})
		}
		lc := &linesCheck{u: u, r: r, g: g, line: map[*ssa.Function]bool{}}
		for _, root := range u.checkers(ntriplesPkg) {
			lc.line[root] = true
		}
		lc.check()
		r.Floor("functions that accept texts", 2)
		r.Floor("functions that accept lists of lines", 1)
		r.Floor("ways to a success", 6)
	})
}

func onlyTextIn(fn *ssa.Function, p *paramTS) pval {
	for i, q := range fn.Params {
		if isStringType(q.Type()) {
			return p.params[i]
		}
	}
	return pval{}
}

// remainder: rest is what is left of text when a whole "prefix" is cut off its front.
func (g *grammarCheck) remainder(s *pstate, text, rest pval) (bool, string) {
	lang := g.langs["prefix"]
	if t, ok := s.strOf(rest); ok {
		if t != "" {
			return false, fmt.Sprintf("it is always %q", t)
		}
		w, ok, err := g.within(s, text, lang)
		return ok && err == nil, fmt.Sprintf("it is empty for %q", w)
	}
	type node struct {
		v   pval
		cut *dfa
	}
	seen := map[int]bool{text.id: true}
	q := []node{{text, g.a.epsilon()}}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.v.id == rest.id && rest.k == pSym {
			w, ok := n.cut.within(lang)
			return ok, fmt.Sprintf("%q can be cut off", w)
		}
		for l, x := range s.mem {
			if l.obj != n.v.id || x.k != pSym || seen[x.id] {
				continue
			}
			var c *dfa
			var err error
			func() {
				defer guardLang(&err)
				switch {
				case strings.HasPrefix(l.path, ".suf"):
					i, _ := strconv.Atoi(l.path[4:])
					pl, begin, e := g.a.prefixLang(g.d.pats[i], nil)
					if e == nil && begin {
						c = pl
					}
				case strings.HasPrefix(l.path, ".trimleft:"):
					c = g.a.chars(l.path[10:]).star()
				case strings.HasPrefix(l.path, ".trimprefix:"):
					c = g.a.lit(l.path[12:]).opt()
				}
				if c != nil {
					c = n.cut.then(c)
				}
			}()
			if c != nil && err == nil {
				seen[x.id] = true
				q = append(q, node{x, c})
			}
		}
	}
	return false, "it is not taken from the argument"
}

// chars is the language of one character of a set.
func (a *alphabet) chars(set string) *dfa {
	m := make([]bool, a.n)
	for _, r := range set {
		a.set(m, r, r)
	}
	return a.oneOf(m)
}

// linesCheck: a function that is given many lines hands every one of them to a
// checked line parser, or skips only what the grammar allows, and reports what fails.
type linesCheck struct {
	u    *Unit
	r    *Report
	g    *grammarCheck
	line map[*ssa.Function]bool
	root *ssa.Function
	list pval
	bad  map[string]bool
	d    *strDom
	ok   int
}

type linesTS struct {
	list, more, elem, err pval
	checked               bool
}

func (t *linesTS) clone() pts { n := *t; return &n }
func (t *linesTS) all() []pval {
	return []pval{t.list, t.more, t.elem, t.err}
}
func (t *linesTS) roots() []int {
	var out []int
	for _, p := range t.all() {
		if p.k == pSym {
			out = append(out, p.id)
		}
	}
	return out
}
func (t *linesTS) key(name func(int) string) string {
	k := fmt.Sprint(t.checked)
	for _, p := range t.all() {
		k += "/"
		if p.k == pSym {
			k += name(p.id)
		} else {
			k += fmt.Sprint(p.k)
		}
	}
	return k
}

func (c *linesCheck) fail(rule string, in ssa.Instruction, f string, a ...interface{}) {
	if !c.bad[rule] {
		c.bad[rule] = true
		c.r.Bad(rule, fnName(c.root), c.u.InstrPos(in), "%s: %s", fnName(c.root), fmt.Sprintf(f, a...))
	}
}

// settle: the line that was taken is dealt with.
func (c *linesCheck) settle(s *pstate, in ssa.Instruction) {
	t := s.ts.(*linesTS)
	if t.more.k != pSym && t.more.k != pConst || s.eval(t.more) != 1 {
		return
	}
	switch {
	case t.checked:
		if s.isNil(t.err) != 1 {
			c.fail("failure-reported", in, "goes on although parsing a line may have failed")
		}
	case t.elem.k == pSym:
		w, ok, err := (&grammarCheck{u: c.u, r: c.r, d: c.d, a: c.g.a}).within(s, t.elem, c.g.langs["line"])
		if err != nil || !ok {
			c.fail("every-line", in, "a line can be skipped without being parsed: %q", w)
		}
	default:
		c.fail("every-line", in, "a line can be skipped without being parsed")
	}
	t.more, t.elem, t.err, t.checked = pval{}, pval{}, pval{}, false
}

func (c *linesCheck) check() {
	u := c.u
	var fns []*ssa.Function
	for _, fn := range u.Funcs {
		o, ok := fn.Object().(*types.Func)
		if !ok || fnPkg(fn) != ntriplesPkg || fn.Parent() != nil || !o.Exported() || errResultIndex(fn.Signature) < 0 || len(fn.Blocks) == 0 {
			continue
		}
		for _, p := range fn.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && isStringType(sl.Elem()) {
				fns = append(fns, fn)
				break
			}
		}
	}
	for _, fn := range fns {
		c.root, c.bad, c.ok = fn, map[string]bool{}, 0
		c.d = newStrDom(u)
		e := newPathEng(u, pclient{
			inline: func(g *ssa.Function) bool { return fnPkg(g) == ntriplesPkg && !c.line[g] },
			value:  c.value,
			call:   c.call,
			ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
				if len(s.frames) != 1 || s.isNil(s.resolve(vals[len(vals)-1])) == -1 {
					return
				}
				c.ok++
				t := s.ts.(*linesTS)
				done := t.more.k != pTop && s.eval(t.more) == -1
				c.settle(s, in)
				if !done {
					if l, ok := s.mem[ploc{t.list.id, ".len"}]; ok && s.equal(l, pint(0)) == 1 {
						done = true
					}
				}
				if !done {
					c.fail("every-line", in, "can succeed without having looked at all lines")
				}
			},
		})
		full := e.run(fn, &linesTS{}, func(s *pstate) {
			for _, p := range fn.Params {
				if sl, ok := p.Type().Underlying().(*types.Slice); ok && isStringType(sl.Elem()) {
					s.ts.(*linesTS).list = s.frames[0].env[p]
				}
			}
		})
		c.r.Count("functions that accept lists of lines", 1)
		if !full || c.ok == 0 {
			c.r.Bad("analysable", fnName(fn), u.Pos(fn.Pos()), "the ways through %s could not be enumerated", fnName(fn))
			continue
		}
		if len(c.bad) == 0 {
			c.r.OK("every-line", "%s parses every line it is given and stops at the first failure (%d ways to a success)", fnName(fn), c.ok)
		}
	}
}

func (c *linesCheck) isList(e *pathEng, s *pstate, v ssa.Value) bool {
	t := s.ts.(*linesTS)
	p := s.resolve(e.get(s, v))
	return p.k == pSym && p.id == t.list.id
}

// counter: a loop variable that starts at the first element and goes up by one.
func counter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok := constInt(b.Y); !ok || k != 1 {
			return false
		}
		ph, ok := b.X.(*ssa.Phi)
		return ok && phiOf(ph, v, -1)
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == v {
			if k, ok := constInt(b.Y); ok && k == 1 {
				return phiOf(ph, b, 0)
			}
		}
	}
	return false
}

func phiOf(ph *ssa.Phi, next ssa.Value, first int64) bool {
	for _, e := range ph.Edges {
		if e == next {
			continue
		}
		if k, ok := constInt(e); !ok || k != first {
			return false
		}
	}
	return true
}

func (c *linesCheck) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	t := s.ts.(*linesTS)
	switch x := v.(type) {
	case *ssa.BinOp:
		isLen := func(y ssa.Value) bool {
			l, ok := y.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := l.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len" && c.isList(e, s, l.Call.Args[0])
		}
		i, l := x.X, x.Y
		neg := false
		switch {
		case x.Op == token.LSS && isLen(l):
		case x.Op == token.GTR && isLen(i):
			i, l = l, i
		case x.Op == token.GEQ && isLen(l):
			neg = true
		case x.Op == token.LEQ && isLen(i):
			i, l = l, i
			neg = true
		default:
			return c.d.value(e, s, v)
		}
		if !counter(i) {
			return c.d.value(e, s, v)
		}
		c.settle(s, x)
		t.more = e.fresh(s, x)
		if neg {
			return notP(t.more), true
		}
		return t.more, true
	case *ssa.IndexAddr:
		if c.isList(e, s, x.X) && counter(x.Index) {
			if t.elem.k != pSym {
				t.elem = e.fresh(s, x)
			}
			o := e.fresh(s, x)
			s.mem[ploc{o.id, ""}] = t.elem
			return pval{k: pAddr, loc: ploc{o.id, ""}}, true
		}
	}
	return c.d.value(e, s, v)
}

func (c *linesCheck) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	t := s.ts.(*linesTS)
	if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
		if a := s.resolve(args[0]); a.k == pSym && a.id == t.list.id {
			e.setResult(s, in, e.cons(s, a.id, ".len", in.Value()))
			return []*pstate{s}, true
		}
	}
	if fn := in.Common().StaticCallee(); fn != nil && c.line[fn] {
		for i, p := range fn.Params {
			if isStringType(p.Type()) && t.elem.k == pSym && i < len(args) && s.resolve(args[i]).id == t.elem.id {
				var outs []pval
				for k := 0; k < fn.Signature.Results().Len(); k++ {
					outs = append(outs, e.fresh(s, in.Value()))
				}
				t.checked, t.err = true, outs[len(outs)-1]
				e.setResult(s, in, outs...)
				return []*pstate{s}, true
			}
		}
	}
	return c.d.call(e, s, in, args)
}

func constInt(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}
