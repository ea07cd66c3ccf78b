package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R02: where each component of a resolved reference comes from. Resolving is
// followed on every way from the two texts to the result; the result is a
// concatenation of parts of the two texts (groups of expressions matched against
// them), constants, and texts computed from such parts (the path, once its dot
// segments are removed). For every class of references (which components are
// present) that can take the way, the concatenation is compared with what
// RFC 3986 section 5.2.2 prescribes.

type refDom struct {
	u      *Unit
	d      *strDom
	tn     *turns // for formats
	cycle  map[*ssa.Function]map[*ssa.BasicBlock]bool
	memo   map[string]cutVal
	made   map[string][][]madePart
	states int
	res    map[int]*regexp.Regexp
}

// inCycle: does control come back to b?
func (d *refDom) inCycle(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	m, ok := d.cycle[fn]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		for _, x := range fn.Blocks {
			seen := map[*ssa.BasicBlock]bool{}
			work := append([]*ssa.BasicBlock(nil), x.Succs...)
			for len(work) > 0 {
				y := work[len(work)-1]
				work = work[:len(work)-1]
				if seen[y] {
					continue
				}
				seen[y] = true
				work = append(work, y.Succs...)
			}
			m[x] = seen[x]
		}
		d.cycle[fn] = m
	}
	return m[b]
}

// sources are the parts of the two texts a value is computed from.
func (d *refDom) sources(s *pstate, v pval) map[string]bool {
	out := map[string]bool{}
	for _, p := range s.partsOf(v) {
		if p.k != pSym {
			if _, ok := s.strOf(p); !ok {
				out["?"] = true
			}
			continue
		}
		if t, ok := s.tagOf(p, "from:"); ok {
			for _, x := range strings.Split(t, ",") {
				if x != "" {
					out[x] = true
				}
			}
			continue
		}
		out[d.chain(s, p.id)] = true
	}
	return out
}

// chain names a symbol by the way it is cut out of a text, as in "0.g1.5".
func (d *refDom) chain(s *pstate, id int) string {
	ts := s.ts.(*paramTS)
	var of func(id, depth int) string
	of = func(id, depth int) string {
		for i, p := range ts.params {
			if p.k == pSym && p.id == id {
				return fmt.Sprint(i)
			}
		}
		if depth > 12 {
			return "?"
		}
		best := "?"
		for l, v := range s.mem {
			if v.k == pSym && v.id == id && l.obj >= 0 && cutOp(l.path) {
				if p := of(l.obj, depth+1); p != "?" && (best == "?" || p+l.path < best) {
					best = p + l.path
				}
			}
		}
		return best
	}
	return of(id, 0)
}

func cutOp(p string) bool {
	for _, x := range []string{".g", ".tail", ".pre:", ".post:", ".trim", ".suf"} {
		if strings.HasPrefix(p, x) {
			return true
		}
	}
	return false
}

// derived is a new text computed from others in a way that is not followed.
func (d *refDom) derived(e *pathEng, s *pstate, site ssa.Value, vs ...pval) pval {
	set := map[string]bool{}
	for _, v := range vs {
		for k := range d.sources(s, v) {
			set[k] = true
		}
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := e.fresh(s, site)
	s.addTag(r, "from:"+strings.Join(ks, ","))
	return r
}

// plain: can the operations on v be followed exactly?
func (d *refDom) plain(s *pstate, v pval, in ssa.Instruction) bool {
	v = s.resolve(v)
	if _, ok := s.strOf(v); ok {
		return true
	}
	if v.k != pSym || d.inCycle(in.Block()) {
		return false
	}
	if _, ok := s.tagOf(v, "from:"); ok {
		return false
	}
	c := d.chain(s, v.id)
	return c != "?" && strings.Count(c, ".") < 24
}

func (d *refDom) isText(s *pstate, v pval) bool {
	for _, p := range s.partsOf(v) {
		if _, ok := s.strOf(p); ok {
			continue
		}
		if p.k != pSym {
			return false
		}
		if _, ok := s.tagOf(p, "from:"); ok {
			continue
		}
		if d.chain(s, p.id) == "?" {
			return false
		}
	}
	return true
}

// pathFunc: does fn make one text from texts, with a loop?
func (d *refDom) pathFunc(fn *ssa.Function) bool {
	sig := fn.Signature
	if fnPkg(fn) != iriPkg || len(fn.Blocks) == 0 || len(fn.FreeVars) != 0 || sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) || len(fn.Params) == 0 {
		return false
	}
	for _, p := range fn.Params {
		if !isStringType(p.Type()) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		if d.inCycle(b) {
			return true
		}
	}
	return false
}

// madePart is a part of a text a function makes: fixed, or computed from others.
type madePart struct {
	text    string
	fixed   bool
	sources string
}

// summary follows fn once for every classes of its arguments.
func (d *refDom) summary(e *pathEng, s *pstate, c *ssa.Call, fn *ssa.Function, args []pval) ([][]madePart, bool) {
	key := fmt.Sprintf("%p", fn)
	var texts, srcs []string
	for _, a := range args {
		ok := true
		t := ""
		for _, p := range s.partsOf(a) {
			x, k := d.known(s, s.resolve(p))
			t += x
			ok = ok && k
		}
		if !ok {
			return nil, false
		}
		set := d.sources(s, a)
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		texts, srcs = append(texts, t), append(srcs, strings.Join(ks, ","))
		key += "\x00" + t + "\x00" + srcs[len(srcs)-1]
	}
	if r, ok := d.made[key]; ok {
		return r, r != nil
	}
	d.made[key] = nil // while it is being followed
	var out [][]madePart
	seen := map[string]bool{}
	sub := newPathEng(d.u, pclient{call: d.call, value: d.value, inline: e.c.inline, ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
		if len(s.frames) != 1 {
			return
		}
		var ps []madePart
		for _, p := range s.partsOf(vals[0]) {
			if t, ok := s.strOf(p); ok {
				ps = append(ps, madePart{t, true, ""})
				continue
			}
			set := map[string]bool{}
			for x := range d.sources(s, p) {
				i, err := strconv.Atoi(strings.SplitN(x, ".", 2)[0])
				if err != nil || i >= len(srcs) {
					set["?"] = true
					continue
				}
				for _, y := range strings.Split(srcs[i], ",") {
					if y != "" {
						set[y] = true
					}
				}
			}
			var ks []string
			for k := range set {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			m := madePart{"", false, strings.Join(ks, ",")}
			if t, ok := d.known(s, p); ok {
				m.text, m.fixed = t, true
			}
			ps = append(ps, m)
		}
		if k := fmt.Sprint(ps); !seen[k] {
			seen[k] = true
			out = append(out, ps)
		}
	}})
	full := sub.run(fn, &paramTS{}, func(s *pstate) {
		ts := s.ts.(*paramTS)
		for i, p := range fn.Params {
			x := s.frames[0].env[p]
			ts.params = append(ts.params, x)
			t := pstr(texts[i])
			s.mem[ploc{x.id, ".val"}] = t
			if texts[i] == "" {
				s.objs[x.id].eq = &t
			} else {
				s.objs[x.id].ne = []pval{pstr("")}
			}
		}
	})
	d.states += sub.states
	for f := range sub.funcs {
		e.funcs[f] = true
	}
	if !full {
		return nil, false
	}
	// a path of nothing but dot segments comes to nothing: judged by the others
	var real [][]madePart
	for _, ps := range out {
		for _, p := range ps {
			if p.text != "" && p.text != "/" || p.sources != "" {
				real = append(real, ps)
				break
			}
		}
	}
	if len(real) > 0 {
		out = real
	}
	d.made[key] = out
	return out, true
}

func (d *refDom) rebuild(e *pathEng, s *pstate, c *ssa.Call, ps []madePart) pval {
	v := pstr("")
	for _, p := range ps {
		if p.fixed && p.sources == "" {
			v = s.concat(v, pstr(p.text))
			continue
		}
		if p.sources == "" {
			continue // made of nothing but what is empty
		}
		x := e.fresh(s, c)
		s.addTag(x, "from:"+p.sources)
		if p.fixed {
			s.mem[ploc{x.id, ".val"}] = pstr(p.text)
		}
		if !p.fixed || p.text != "" {
			// only dot segments can make it empty
			s.objs[x.id].ne = []pval{pstr("")}
		}
		v = s.concat(v, x)
	}
	return v
}

// settle gives every symbol that is cut out of one of the two texts the value it
// has for the classes at hand; false when the state is impossible for them.
func (d *refDom) settle(s *pstate) bool {
	for again := true; again; {
		again = false
		for l, v := range s.mem {
			if l.obj < 0 || !cutLike(l.path) {
				continue
			}
			tv, ok := s.mem[ploc{l.obj, ".val"}]
			if !ok {
				continue
			}
			t, ok := s.strOf(tv)
			if !ok {
				continue
			}
			if v.k == pSym {
				if _, done := s.mem[ploc{v.id, ".val"}]; done {
					continue
				}
			}
			got := d.cutText(t, l.path)
			if got.skip {
				continue
			}
			if !got.ok {
				return false
			}
			switch v.k {
			case pConst:
				if atomEq(v, got.v) == -1 {
					return false
				}
			case pSym:
				s.mem[ploc{v.id, ".val"}] = got.v
				again = true
				x, text := s.strOf(got.v)
				if !text || x == "" {
					if s.equal(v, got.v) == -1 {
						return false
					}
					if s.equal(v, got.v) == 0 {
						g := got.v
						s.objs[v.id].eq = &g
					}
					continue
				}
				if s.equal(v, got.v) == -1 || !s.assume(pval{k: pCond, op: token.EQL, x: &v, y: ptrTo(pstr(""))}, false) {
					return false
				}
			}
			if again {
				break
			}
		}
	}
	return true
}

func ptrTo(v pval) *pval { return &v }

func cutLike(p string) bool {
	return strings.HasPrefix(p, ".") && p != ".val" && p != ".of" && p != ".txt" && p != ".match"
}

func (d *refDom) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	r, ok := d.value1(e, s, v)
	if ok {
		d.settle(s)
	}
	return r, ok
}

func (d *refDom) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	outs, ok := d.call1(e, s, in, args)
	if !ok {
		return outs, ok
	}
	var keep []*pstate
	for _, o := range outs {
		if d.settle(o) {
			keep = append(keep, o)
		}
	}
	return keep, true
}

func (d *refDom) value1(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			a, b := e.get(s, x.X), e.get(s, x.Y)
			if d.inCycle(x.Block()) {
				return d.derived(e, s, x, a, b), true
			}
			return s.concat(a, b), true
		}
		if (x.Op == token.EQL || x.Op == token.NEQ) && isStringType(x.X.Type()) {
			a, b := s.resolve(e.get(s, x.X)), s.resolve(e.get(s, x.Y))
			if b.k == pTuple {
				a, b = b, a
			}
			if r := s.equal(a, b); r != 0 && a.k != pTuple && b.k != pTuple {
				return pbool((r == 1) == (vop(v) == token.EQL)), true
			}
			for _, x := range []pval{a, b} {
				if _, ok := s.tagOf(x, "from:"); ok {
					return e.fresh(s, v), true
				}
			}
			if x, okx := d.known(s, a); okx && a.k != pTuple && b.k != pTuple {
				if y, oky := d.known(s, b); oky {
					return pbool((x == y) == (vop(v) == token.EQL)), true
				}
			}
			if a.k == pTuple {
				t, ok := s.strOf(b)
				if !ok {
					return e.fresh(s, x), true
				}
				if t == "" {
					for _, p := range s.partsOf(a) {
						if s.equal(p, pstr("")) == -1 {
							return pbool(x.Op == token.NEQ), true
						}
					}
				}
				return e.fresh(s, x), true
			}
		}
	case *ssa.Slice:
		if isStringType(x.X.Type()) {
			b := e.get(s, x.X)
			if d.plain(s, b, x) {
				if r, ok := d.d.value(e, s, v); ok {
					return r, true
				}
			}
			return d.derived(e, s, x, b), true
		}
	case *ssa.Index, *ssa.Lookup:
		var op ssa.Value
		if i, ok := x.(*ssa.Index); ok {
			op = i.X
		} else {
			op = x.(*ssa.Lookup).X
		}
		if isStringType(op.Type()) {
			b := e.get(s, op)
			if d.plain(s, b, v.(ssa.Instruction)) {
				return d.d.value(e, s, v)
			}
			return e.fresh(s, v), true
		}
	}
	return d.d.value(e, s, v)
}

func (d *refDom) call1(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	one := func(v ...pval) ([]*pstate, bool) {
		e.setResult(s, in, v...)
		return []*pstate{s}, true
	}
	n := callName(in)
	if fn := c.Call.StaticCallee(); fn != nil && d.pathFunc(fn) {
		if vs, ok := d.summary(e, s, c, fn, args); ok {
			var outs []*pstate
			for i, v := range vs {
				o := s
				if i < len(vs)-1 {
					o = s.clone()
				}
				e.setResult(o, in, d.rebuild(e, o, c, v))
				outs = append(outs, o)
			}
			return outs, true
		}
	}
	if i := strings.LastIndex(n, "."); i > 0 && (strings.HasPrefix(n, "strings.(Builder)") || strings.HasPrefix(n, "bytes.(Buffer)")) {
		b := s.resolve(args[0])
		if b.k != pAddr || b.loc.obj < 0 {
			return nil, false
		}
		l := ploc{b.loc.obj, b.loc.path + ".txt"}
		cur, ok := s.mem[l]
		if !ok {
			cur = pstr("")
		}
		add := func(v pval) {
			if t, ok := s.intOf(v); ok {
				v = pstr(string(rune(t)))
			} else if !d.isText(s, v) {
				v = d.derived(e, s, c, v)
			}
			if d.inCycle(c.Block()) {
				s.mem[l] = d.derived(e, s, c, cur, v)
			} else {
				s.mem[l] = s.concat(cur, v)
			}
		}
		switch n[i+1:] {
		case "WriteString", "WriteRune":
			add(args[1])
			return one(pval{}, pval{k: pNil})
		case "WriteByte":
			add(args[1])
			return one(pval{k: pNil})
		case "String":
			return one(cur)
		case "Reset", "Truncate":
			s.mem[l] = pstr("")
			if n[i+1:] == "Truncate" {
				s.mem[l] = d.derived(e, s, c, cur)
			}
			return one()
		case "Len", "Grow", "Cap":
			return one(e.fresh(s, c))
		}
		return nil, false
	}
	if n == "fmt.Sprintf" {
		if v, ok := d.tn.sprintf(e, s, args[0], args[1]); ok {
			return one(v)
		}
	}
	if strings.HasPrefix(n, "regexp.") && len(args) > 1 {
		// a text that is empty for the classes at hand is matched like any other
		if t, ok := s.strOf(s.resolve(args[1])); ok {
			x := e.fresh(s, c)
			s.mem[ploc{x.id, ".val"}] = pstr(t)
			args = append([]pval{args[0], x}, args[2:]...)
			return d.d.call(e, s, in, args)
		}
		if !d.plain(s, args[1], c) {
			return nil, false
		}
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && isStringType(c.Call.Args[0].Type()) {
			if !d.plain(s, args[0], c) {
				return one(e.fresh(s, c))
			}
			if t, ok := d.known(s, s.resolve(args[0])); ok {
				return one(pint(int64(len(t))))
			}
		}
		return d.d.call(e, s, in, args)
	}
	if strings.HasPrefix(n, "strings.") && len(args) > 0 {
		if d.plain(s, args[0], c) && !strings.HasPrefix(n, "strings.LastIndex") {
			if outs, ok := d.d.call(e, s, in, args); ok {
				return outs, ok
			}
		}
		// a text made from texts
		res := c.Call.Signature().Results()
		var out []pval
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			sl, isSl := t.Underlying().(*types.Slice)
			if isStringType(t) || isSl && isStringType(sl.Elem()) {
				out = append(out, d.derived(e, s, c, d.texts(s, c, args)...))
			} else {
				out = append(out, e.fresh(s, c))
			}
		}
		return one(out...)
	}
	return d.d.call(e, s, in, args)
}

func (d *refDom) texts(s *pstate, c *ssa.Call, args []pval) []pval {
	var out []pval
	for i, a := range c.Call.Args {
		t := a.Type()
		sl, isSl := t.Underlying().(*types.Slice)
		if isStringType(t) || isSl && isStringType(sl.Elem()) {
			out = append(out, args[i])
		}
	}
	return out
}

// ---- classes of references

// iriParts is a text taken apart as RFC 3986 appendix B does.
type iriParts struct {
	scheme, auth, path, query, frag string
	hasS, hasA, hasQ, hasF          bool
}

var rfcRE = regexp.MustCompile(`^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#((?s:.*)))?$`)

var apart = map[string]iriParts{}

func takeApart(s string) iriParts {
	if p, ok := apart[s]; ok {
		return p
	}
	p := takeApart1(s)
	apart[s] = p
	return p
}

func takeApart1(s string) iriParts {
	m := rfcRE.FindStringSubmatch(s)
	if m == nil {
		return iriParts{path: s}
	}
	return iriParts{m[2], m[4], m[5], m[7], m[9], m[1] != "", m[3] != "", m[6] != "", m[8] != ""}
}

// refClasses has one text for every class of references; tag keeps the two apart.
func refClasses(tag string, base bool) []string {
	var out []string
	port := ":1" + map[bool]string{true: "1", false: "2"}[base]
	auths := []string{"", "//", "//" + tag + "u@", "//" + tag + "h", "//" + port, "//" + tag + "u@" + tag + "h" + port}
	schemes := []string{tag + "s:"}
	if !base {
		schemes = append(schemes, "")
	}
	for _, sc := range schemes {
		for _, au := range auths {
			for _, pa := range []string{"", "/" + tag + "p/" + tag + "r", tag + "p"} {
				if au != "" && pa != "" && pa[0] != '/' {
					continue
				}
				for _, q := range []string{"", "?", "?" + tag + "q"} {
					for _, f := range []string{"", "#", "#" + tag + "f"} {
						out = append(out, sc+au+pa+q+f)
					}
				}
			}
		}
	}
	return out
}

// cutVal is what cutting a text in a way gives; ok is false when it cannot be cut so.
type cutVal struct {
	v    pval
	ok   bool
	skip bool
}

func (d *refDom) cutText(t, path string) cutVal {
	key := path + "\x00" + t
	if r, ok := d.memo[key]; ok {
		return r
	}
	r := d.cutText1(t, path)
	d.memo[key] = r
	return r
}

func (d *refDom) pattern(i int) *regexp.Regexp {
	if re, ok := d.res[i]; ok {
		return re
	}
	var re *regexp.Regexp
	if i >= 0 && i < len(d.d.pats) {
		re, _ = regexp.Compile(d.d.pats[i])
	}
	d.res[i] = re
	return re
}

func (d *refDom) cutText1(t, path string) cutVal {
	p, arg := path, ""
	if k := strings.Index(p, ":"); k >= 0 {
		p, arg = p[:k], p[k+1:]
	}
	is := func(v pval) cutVal { return cutVal{v, true, false} }
	skip, no := cutVal{skip: true}, cutVal{}
	switch {
	case strings.HasPrefix(p, ".g"):
		var pi, k int
		if n, _ := fmt.Sscanf(p, ".g%d.%d", &pi, &k); n != 2 || d.pattern(pi) == nil {
			return skip
		}
		m := d.pattern(pi).FindStringSubmatch(t)
		if m == nil || k >= len(m) {
			return no
		}
		return is(pstr(m[k]))
	case strings.HasPrefix(p, ".m") && len(p) > 2 && p[2] >= '0' && p[2] <= '9':
		pi, _ := strconv.Atoi(p[2:])
		if d.pattern(pi) == nil {
			return skip
		}
		return is(pbool(d.pattern(pi).MatchString(t)))
	case strings.HasPrefix(p, ".tail"):
		n, _ := strconv.Atoi(p[5:])
		if n > len(t) {
			return no
		}
		return is(pstr(t[n:]))
	case p == ".pre", p == ".post":
		k := strings.Index(t, arg)
		if k < 0 {
			return no
		}
		if p == ".post" {
			return is(pstr(t[k+len(arg):]))
		}
		return is(pstr(t[:k]))
	case p == ".contains":
		return is(pbool(strings.Contains(t, arg)))
	case p == ".hasprefix":
		return is(pbool(strings.HasPrefix(t, arg)))
	case p == ".hassuffix":
		return is(pbool(strings.HasSuffix(t, arg)))
	case p == ".trimprefix":
		return is(pstr(strings.TrimPrefix(t, arg)))
	case p == ".trimsuffix":
		return is(pstr(strings.TrimSuffix(t, arg)))
	case p == ".len":
		return is(pint(int64(len(t))))
	case strings.HasPrefix(p, ".h"):
		n, err := strconv.Atoi(p[2:])
		if err != nil {
			return skip
		}
		if n >= len(t) {
			return no
		}
		return is(pint(int64(t[n])))
	}
	return skip
}

// known is the text a value has for the classes at hand.
func (d *refDom) known(s *pstate, v pval) (string, bool) {
	if t, ok := s.strOf(v); ok {
		return t, true
	}
	if v.k == pSym {
		if t, ok := s.mem[ploc{v.id, ".val"}]; ok {
			return s.strOf(t)
		}
	}
	return "", false
}

func vop(v ssa.Value) token.Token { return v.(*ssa.BinOp).Op }

// role says which component of its text a chain denotes.
func (d *refDom) role(chain string) string {
	i := strings.Index(chain, ".")
	who, ops := chain, ""
	if i >= 0 {
		who, ops = chain[:i], chain[i:]
	}
	t := "s://u@h:7/p/r?q#f"
	for ops != "" {
		var pi, k int
		next := ""
		if j := strings.Index(ops[1:], ".g"); j >= 0 {
			next = ops[1+j:]
			ops = ops[:1+j]
		}
		if n, _ := fmt.Sscanf(ops, ".g%d.%d", &pi, &k); n != 2 || pi >= len(d.d.pats) {
			return "?"
		}
		re, err := regexp.Compile(d.d.pats[pi])
		if err != nil {
			return "?"
		}
		m := re.FindStringSubmatch(t)
		if k >= len(m) {
			return "?"
		}
		t = m[k]
		ops = next
	}
	name := map[string]string{"0": "base", "1": "ref"}[who]
	switch t {
	case "/p/r":
		return name + " path"
	case "s", "s:":
		return name + " scheme"
	case "q", "?q":
		return name + " query"
	case "f", "#f":
		return name + " fragment"
	case "u@h:7", "//u@h:7", "u", "u@", "h", "7", ":7", "h:7":
		return name + " authority"
	}
	return "?"
}

type resolver struct {
	u    *Unit
	r    *Report
	d    *refDom
	root *ssa.Function
	bad  map[string]bool
	seen map[string]bool
	n    int

	classes [2][]string
}

// judge compares one outcome with RFC 3986 section 5.2.2; it returns the rule that
// is broken and why, or "".
func judge(b, f string, out string, marks []map[string]bool) (string, string) {
	B, R := takeApart(b), takeApart(f)
	rest := out
	pre := func(x string) bool {
		if strings.HasPrefix(rest, x) {
			rest = rest[len(x):]
			return true
		}
		return false
	}
	whole := R.hasS || R.hasA
	scheme := B.scheme
	if R.hasS {
		scheme = R.scheme
	}
	if !pre(scheme + ":") {
		return "scheme", "the scheme is not that of " + map[bool]string{true: "the reference", false: "the base"}[R.hasS]
	}
	hasA, auth, who := B.hasA, B.auth, "the base"
	if whole {
		hasA, auth, who = R.hasA, R.auth, "the reference"
	}
	if hasA {
		if !pre("//" + auth) {
			return "authority", "the authority is not that of " + who
		}
	} else if strings.HasPrefix(rest, "//") {
		return "authority", "there is an authority where " + who + " has none"
	}
	suf := func(x string) bool {
		if strings.HasSuffix(rest, x) {
			rest = rest[:len(rest)-len(x)]
			return true
		}
		return false
	}
	// fragment: always the reference's
	want := ""
	if R.hasF {
		want = "#" + R.frag
	}
	if i := strings.Index(rest, "#"); i >= 0 && rest[i:] != want || i < 0 && want != "" {
		if f == "" {
			return "fragment-of-empty-reference", "an empty reference keeps the fragment of the base"
		}
		return "fragment", "the fragment is not that of the reference"
	}
	suf(want)
	hasQ, q, who := R.hasQ, R.query, "the reference"
	if !whole && R.path == "" && !R.hasQ {
		hasQ, q, who = B.hasQ, B.query, "the base"
	}
	want = ""
	if hasQ {
		want = "?" + q
	}
	if i := strings.Index(rest, "?"); i >= 0 && rest[i:] != want || i < 0 && want != "" {
		return "query", "the query is not that of " + who
	}
	suf(want)
	// what is left is the path
	from := map[string]bool{}
	slash, consts := false, rest
	k := 0
	if strings.Contains(rest, "\x01") {
		consts = ""
		for rest != "" {
			if rest[0] == '\x01' {
				for x := range marks[k] {
					from[x] = true
				}
				k++
				rest = rest[1:]
				continue
			}
			if rest[0] == '/' && k == 0 {
				slash = true
			} else if rest != "/" {
				consts += rest[:1]
			}
			rest = rest[1:]
		}
		// a part that is used whole
		for _, p := range []struct{ text, name string }{{B.path, "base path"}, {R.path, "ref path"}} {
			if len(p.text) > 1 && (consts == p.text || consts == strings.TrimPrefix(p.text, "/")) {
				from[p.name] = true
				consts = ""
			}
		}
	}
	only := func(x string) bool {
		for y := range from {
			if y != x {
				return false
			}
		}
		return true
	}
	bad := func(x string) (string, string) { return "path", "the path is not " + x }
	rooted := func(p string) bool { return strings.HasPrefix(p, "/") }
	switch {
	case whole:
		if k == 0 {
			if consts != R.path {
				return bad("that of the reference")
			}
			return "", ""
		}
		if consts != "" || !only("ref path") || R.path != "" && !from["ref path"] {
			return bad("that of the reference")
		}
		if slash && !R.hasA && !rooted(R.path) && R.path != "" {
			return "path-root", "a slash is put before the path of a reference that has no authority and no slash there"
		}
		if R.path == "" && (slash || k > 0) && !R.hasA {
			return bad("that of the reference")
		}
	case R.path == "":
		if k == 0 {
			if consts != B.path {
				return bad("that of the base")
			}
			return "", ""
		}
		if consts != "" || !only("base path") || B.path != "" && !from["base path"] {
			return bad("that of the base")
		}
		if slash && !B.hasA && !rooted(B.path) {
			return "path-root", "a slash is put before the path of a base that has no authority and no slash there"
		}
	case rooted(R.path):
		if k == 0 {
			if consts != R.path {
				return bad("that of the reference")
			}
			return "", ""
		}
		if consts != "" || !only("ref path") || !from["ref path"] {
			return bad("that of the reference")
		}
	default:
		if k == 0 {
			if i := strings.LastIndex(B.path, "/"); consts != B.path[:i+1]+R.path && !(B.path == "" && consts == "/"+R.path) {
				return bad("the reference's, merged with the base's")
			}
			return "", ""
		}
		delete(from, "base path")
		had := len(from)
		if consts != "" || had != 1 || !from["ref path"] {
			return bad("the reference's, merged with the base's")
		}
		usesBase := false
		for _, m := range marks {
			if m["base path"] {
				usesBase = true
			}
		}
		if strings.Contains(B.path, "/") && !usesBase {
			return bad("the reference's, merged with the base's")
		}
		if slash && !B.hasA && !rooted(B.path) {
			return "path-root", "a slash is put before the path that merging with a base without authority and slash gives"
		}
	}
	return "", ""
}

// render writes a result with the parts of the two texts filled in; texts computed
// from parts become marks.
func (v *resolver) render(s *pstate, res pval) (string, []map[string]bool, bool) {
	out := ""
	var marks []map[string]bool
	for _, p := range s.partsOf(res) {
		if t, ok := s.strOf(p); ok {
			out += t
			continue
		}
		if p.k != pSym {
			return "", nil, false
		}
		if t, ok := v.d.known(s, p); ok {
			out += t
			continue
		}
		if t, ok := s.tagOf(p, "from:"); ok {
			m := map[string]bool{}
			for _, x := range strings.Split(t, ",") {
				if x == "" {
					continue
				}
				role := v.d.role(x)
				m[role] = true
			}
			out += "\x01"
			marks = append(marks, m)
			continue
		}
		return "", nil, false
	}
	return out, marks, true
}

func (v *resolver) outcome(e *pathEng, s *pstate, in *ssa.Return, res pval, b, f string) {
	c := fnName(v.root)
	out, marks, ok := v.render(s, res)
	v.n++
	v.seen[b+" "+f] = true
	for _, m := range marks {
		if m["?"] {
			ok = false
		}
	}
	if !ok {
		if !v.bad["unknown"] {
			v.bad["unknown"] = true
			v.r.notes = append(v.r.notes, c+": a result is made in a way that is not followed; not decided")
		}
		return
	}
	rule, why := judge(b, f, out, marks)
	if rule == "" {
		v.r.Count("outcomes as prescribed", 1)
		return
	}
	if v.bad[rule] {
		return
	}
	v.bad[rule] = true
	v.r.Bad(rule, c, v.u.InstrPos(in), "%s: %s; a base like %q and a reference like %q give %q", c, why, b, f, strings.ReplaceAll(out, "\x01", "<path>"))
}

func (u *Unit) resolvers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range u.Funcs {
		o, ok := fn.Object().(*types.Func)
		if !ok || fnPkg(fn) != iriPkg || fn.Parent() != nil || !o.Exported() || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isStringType(res.At(0).Type()) || !isStringType(fn.Params[0].Type()) || !isStringType(fn.Params[1].Type()) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func init() {
	register("R02", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Path-sensitive dataflow over the SSA of resolving a reference, from the texts of base and reference to the text of the result. On every way the result is a concatenation of groups matched in the two texts, constants and texts computed from such groups. For every pair of classes of texts (scheme, user, host, port, path empty, rooted or rootless, query and fragment absent, empty or present) that the conditions of the way admit, the concatenation is compared with RFC 3986 section 5.2.2: scheme, authority, query and fragment exactly, the path by the components it is computed from and whether a slash is put in front."
		r.assumptions = []string{"Base and reference are valid IRI references, the base has a scheme.", "The removal of dot segments is not decided, only which paths it is applied to.", "A colon before an empty port is not kept apart from no port."}
		for _, root := range u.resolvers() {
			v := &resolver{u: u, r: r, root: root, bad: map[string]bool{}, seen: map[string]bool{}}
			v.classes = [2][]string{refClasses("B", true), refClasses("R", false)}
			d := newStrDom(u)
			v.d = &refDom{u: u, d: d, cycle: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, memo: map[string]cutVal{}, made: map[string][][]madePart{}, res: map[int]*regexp.Regexp{}}
			v.d.tn = &turns{u: u, d: d, text: func(*pstate, pval) bool { return false }}
			defer debug.SetGCPercent(debug.SetGCPercent(400))
			ways, states, over := 0, 0, false
			live := map[*ssa.Function]*liveness{}
			for _, bt := range v.classes[0] {
				for _, ft := range v.classes[1] {
					if over {
						break
					}
					texts := []string{bt, ft}
					e := newPathEng(u, pclient{call: v.d.call, value: v.d.value,
						inline: func(fn *ssa.Function) bool { return fnPkg(fn) == iriPkg },
						ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
							if len(s.frames) != 1 {
								return
							}
							if i := errResultIndex(root.Signature); i >= 0 && s.isNil(s.resolve(vals[i])) == -1 {
								return
							}
							ways++
							v.outcome(e, s, in, vals[0], bt, ft)
						}})
					e.live = live
					e.once = func(s *pstate) bool {
						for _, f := range s.frames {
							if v.d.inCycle(f.blk) {
								return false
							}
						}
						return true
					}
					over = !e.run(root, &paramTS{}, func(s *pstate) {
						ts := s.ts.(*paramTS)
						for i, p := range root.Params {
							x := s.frames[0].env[p]
							ts.params = append(ts.params, x)
							s.mem[ploc{x.id, ".val"}] = pstr(texts[i])
						}
					})
					states += e.states
				}
			}
			if over {
				r.Bad("analysable", fnName(root), u.Pos(root.Pos()), "%s has too many ways to follow", fnName(root))
				continue
			}
			r.Count("functions that resolve references", 1)
			r.Count("outcomes", ways)
			r.Count("abstract states", states+v.d.states)
			want := len(refClasses("B", true)) * len(refClasses("R", false))
			r.Check(len(v.seen) == want, "every-class", fnName(root), u.Pos(root.Pos()), "%s: %d of %d pairs of classes reach a result", fnName(root), len(v.seen), want)
			if len(v.bad) == 0 {
				r.OK("components", "%s: %d outcomes over %d ways take every component from the prescribed place", fnName(root), v.n, ways)
			}
		}
		r.Floor("functions that resolve references", 1)
	})
}
