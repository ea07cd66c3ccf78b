package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// R04: what printing a literal writes for each character of its text, and what
// reading makes of each written form. The loop over the characters (or over the
// matched forms) is followed with the current character fixed to each class of
// characters the code can tell apart; at the end of every turn the text gathered
// in the turn is compared with what the N-Triples grammar allows for the
// character, so the result holds for texts of any length.

// constMap is the content of a package-level map that is filled once with constants.
func (u *Unit) constMap(g *ssa.Global) (map[string]constant.Value, bool) {
	st := u.onlyStore(g)
	if st == nil {
		return nil, false
	}
	mk, ok := st.Val.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	out := map[string]constant.Value{}
	for _, ref := range *mk.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v, ok2 := x.Value.(*ssa.Const)
			if !ok1 || !ok2 || k.Value == nil || v.Value == nil || x.Map != ssa.Value(mk) {
				return nil, false
			}
			out[k.Value.ExactString()] = v.Value
		case *ssa.Store:
		default:
			return nil, false
		}
	}
	// nobody changes it afterwards
	if u.gupdated == nil {
		u.gupdated = map[*ssa.Global]bool{}
		for _, p := range u.Prog.AllPackages() {
			if _, ok := relPkg(p.Pkg); !ok {
				continue
			}
			eachInstr(u.allOf(p), func(fn *ssa.Function, in ssa.Instruction) {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					return
				}
				gl, ok := ld.X.(*ssa.Global)
				if !ok {
					return
				}
				if _, ok := deref(gl.Type()).Underlying().(*types.Map); !ok {
					return
				}
				for _, ref := range *ld.Referrers() {
					switch y := ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
					case *ssa.Call:
						if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							if !isLogCall(callName(y)) && !pureFormat(callName(y)) {
								u.gupdated[gl] = true
							}
						}
					case *ssa.MakeInterface:
					default:
						u.gupdated[gl] = true
					}
				}
			})
		}
	}
	return out, !u.gupdated[g]
}

// noTurn is the contribution of no turn at all.
const noTurn = "\x01none"

// turns is the analysis of one loop over the parts of a text.
type turns struct {
	u *Unit
	d *strDom
	// classes of characters, for a printing loop
	reps []rune
	// forms, for a reading loop
	forms []litForm
	pat   int // expression of the reading loop
	// inline
	pkgs    map[string]bool
	skip    map[*ssa.Function]bool
	text    func(s *pstate, v pval) bool // is v the text the loop is about?
	loops   int
	unknown string
	cut     map[rune]bool
	dry     bool
	methods map[string]string // method of an interface value -> tag
}

// litForm is one written form: a constant, or any \u or \U escape.
type litForm struct {
	group int
	text  string // "" for an escape by number
	want  string // what it denotes
}

type turnTS struct {
	params   []pval
	cur      string // what the current turn has to contribute; "-" before the first turn
	curName  string
	choice   int // -1 none; the chosen class or form for the Next that is about to run
	form     pval
	code     pval
	elem     pval // the current character or byte
	done     bool
	inLoop   bool
	loopText pval
}

func (t *turnTS) clone() pts { n := *t; return &n }
func (t *turnTS) vals() []pval {
	return append(append([]pval(nil), t.params...), t.form, t.code, t.loopText)
}
func (t *turnTS) roots() []int {
	var out []int
	for _, p := range t.vals() {
		if p.k == pSym {
			out = append(out, p.id)
		}
	}
	return out
}
func (t *turnTS) key(name func(int) string) string {
	k := fmt.Sprint(t.cur, "|", t.choice, "|", t.done, "|", t.inLoop)
	for _, p := range t.vals() {
		if p.k == pSym {
			k += "/" + name(p.id)
		} else {
			k += "/-"
		}
	}
	return k
}

// parts of a text value.
func (s *pstate) partsOf(v pval) []pval {
	v = s.resolve(v)
	if v.k == pTuple {
		var out []pval
		for _, p := range v.parts {
			out = append(out, s.partsOf(p)...)
		}
		return out
	}
	if t, ok := s.strOf(v); ok && t == "" {
		return nil
	}
	return []pval{v}
}

func (s *pstate) concat(vs ...pval) pval {
	var out []pval
	for _, v := range vs {
		for _, p := range s.partsOf(v) {
			if t, ok := s.strOf(p); ok && len(out) > 0 {
				if q, ok := s.strOf(out[len(out)-1]); ok {
					out[len(out)-1] = pstr(q + t)
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return pstr("")
	}
	n := 0
	for _, p := range out {
		n++
		if t, ok := s.strOf(p); ok {
			n += len(t) / 10
		}
	}
	if n > 40 {
		return pval{} // grows in a loop that is not followed
	}
	if len(out) == 1 {
		return out[0]
	}
	return pval{k: pTuple, parts: out}
}

func isBuilder(t types.Type) bool {
	t = deref(t)
	return typeIs(t, "strings", "Builder") || typeIs(t, "bytes", "Buffer")
}

// accumulators: text variables of a loop that grow by concatenation.
func growing(phi *ssa.Phi) bool {
	if !isStringType(phi.Type()) {
		return false
	}
	seen := map[ssa.Value]bool{}
	var reach func(v ssa.Value) bool
	reach = func(v ssa.Value) bool {
		if v == phi {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if reach(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return x.Op == token.ADD && reach(x.X)
		}
		return false
	}
	for _, e := range phi.Edges {
		if e != phi && reach(e) {
			return true
		}
	}
	return false
}

// boundary ends one turn: every text gathered so far is either a faithful copy of
// the parts seen so far, or marked as not being one.
func (tn *turns) boundary(e *pathEng, s *pstate, text pval, next *ssa.BasicBlock) {
	t := s.ts.(*turnTS)
	settle := func(v pval) pval {
		ps := s.partsOf(v)
		acc := -1
		for i, p := range ps {
			if p.k == pSym {
				if _, ok := s.tagOf(p, "copy"); ok {
					acc = i
				}
			}
		}
		if t.cur == noTurn || acc < 0 {
			if t.cur == noTurn {
				return s.concat(v, e.copySym(s, text, ""))
			}
			n := 0
			for _, p := range ps {
				if x, ok := s.strOf(p); ok {
					n += len(x)
				}
			}
			if n > 300 || len(ps) > 30 {
				return pval{}
			}
			return v
		}
		if bad, _ := s.tagOf(ps[acc], "copy"); bad != "" {
			return s.concat(pval{k: pTuple, parts: ps[:acc+1]})
		}
		got := ""
		okk := true
		for _, p := range ps[acc+1:] {
			if x, ok := s.strOf(p); ok {
				got += x
			} else if p.k == pSym && t.code.k == pSym && p.id == t.code.id {
				got += "\x00code"
			} else {
				okk = false
			}
		}
		out := append([]pval(nil), ps[:acc]...)
		if okk && tn.faithful(t, got) {
			out = append(out, ps[acc])
		} else {
			d := fmt.Sprintf("%s becomes %q", t.curName, got)
			if !okk {
				d = fmt.Sprintf("what %s becomes is not fixed", t.curName)
			}
			out = append(out, e.copySym(s, text, d))
		}
		return s.concat(out...)
	}
	if t.cur == noTurn {
		for id, o := range s.objs {
			if al, ok := o.site.(*ssa.Alloc); ok && isBuilder(deref(al.Type())) {
				if l := (ploc{id, ".txt"}); s.mem[l].k == pTop {
					s.mem[l] = pstr("")
				}
			}
		}
	}
	for l, v := range s.mem {
		if l.path == ".txt" {
			s.mem[l] = settle(v)
		}
	}
	f := s.top()
	for v := range f.env {
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == next && growing(phi) {
			f.env[v] = settle(f.env[v])
		}
	}
}

// copySym stands for a copy of the parts of text seen so far; bad says what is wrong with it.
func (e *pathEng) copySym(s *pstate, text pval, bad string) pval {
	bad = strings.NewReplacer(";", ",").Replace(bad)
	v := e.cons(s, text.id, ".copy:"+bad, nil)
	s.addTag(v, "copy"+bad)
	return v
}

// faithful: is got what the current turn has to contribute?
func (tn *turns) faithful(t *turnTS, got string) bool {
	if t.code.k == pSym {
		return got == "\x00code"
	}
	if tn.forms != nil {
		return got == t.cur
	}
	if len(t.cur) == 1 && t.cur[0] >= 0x80 {
		return got == t.cur // one byte of a character
	}
	return legalForm([]rune(t.cur)[0], got)
}

var ntEscapes = map[byte]rune{'t': '\t', 'b': '\b', 'n': '\n', 'r': '\r', 'f': '\f', '"': '"', '\'': '\'', '\\': '\\'}

// legalForm: the N-Triples grammar reads form as the one character r.
func legalForm(r rune, form string) bool {
	if form == string(r) {
		return r != '"' && r != '\\' && r != '\n' && r != '\r'
	}
	if len(form) == 2 && form[0] == '\\' {
		x, ok := ntEscapes[form[1]]
		return ok && x == r
	}
	if len(form) == 6 && form[:2] == `\u` || len(form) == 10 && form[:2] == `\U` {
		n, err := strconv.ParseInt(form[2:], 16, 64)
		return err == nil && rune(n) == r && n <= 0x10FFFF
	}
	return false
}

// instr forks at the start of every turn of a loop over the characters.
func (tn *turns) instr(e *pathEng, s *pstate, in ssa.Instruction) {
	t := s.ts.(*turnTS)
	nx, ok := in.(*ssa.Next)
	if !ok || !nx.IsString || t.choice >= 0 || tn.forms != nil {
		return
	}
	text := s.resolve(e.get(s, nx.Iter))
	if !tn.text(s, text) {
		return
	}
	tn.loops++
	tn.boundary(e, s, text, nx.Block())
	for i := range tn.reps {
		o := s.clone()
		o.ts.(*turnTS).choice = i
		e.work = append(e.work, o)
	}
	t.choice = len(tn.reps)
}

func quoteRune(r rune) string { return fmt.Sprintf("U+%04X", r) }

func (tn *turns) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	t := s.ts.(*turnTS)
	switch x := v.(type) {
	case *ssa.Range:
		if isStringType(x.X.Type()) {
			return s.resolve(e.get(s, x.X)), true
		}
	case *ssa.Next:
		if !x.IsString || t.choice < 0 {
			break
		}
		c := t.choice
		t.choice = -1
		if c == len(tn.reps) {
			t.cur, t.curName = noTurn, ""
			return pval{k: pTuple, parts: []pval{pbool(false), e.fresh(s, x), e.fresh(s, x)}}, true
		}
		r := tn.reps[c]
		t.cur, t.curName = string(r), quoteRune(r)
		return pval{k: pTuple, parts: []pval{pbool(true), e.fresh(s, x), pint(int64(r))}}, true
	case *ssa.Lookup:
		g := globalOf(x.X)
		k := s.resolve(e.get(s, x.Index))
		if g == nil || k.k != pConst {
			break
		}
		m, ok := tn.u.constMap(g)
		if !ok {
			break
		}
		val, found := m[k.c.ExactString()]
		r := zeroP(deref(x.X.Type()).Underlying().(*types.Map).Elem())
		if found {
			r = pval{k: pConst, c: val}
		}
		if x.CommaOk {
			return pval{k: pTuple, parts: []pval{r, pbool(found)}}, true
		}
		return r, true
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			return s.concat(e.get(s, x.X), e.get(s, x.Y)), true
		}
		if r, ok := tn.more(e, s, x); ok {
			return r, true
		}
		if x.Op == token.AND || x.Op == token.OR || x.Op == token.SHL || x.Op == token.SHR {
			a, b := s.resolve(e.get(s, x.X)), s.resolve(e.get(s, x.Y))
			if n, ok := s.intOf(a); ok {
				if m, ok := s.intOf(b); ok {
					switch x.Op {
					case token.AND:
						return pint(n & m), true
					case token.OR:
						return pint(n | m), true
					case token.SHR:
						return pint(n >> uint(m)), true
					}
				}
			}
		}
	case *ssa.Index:
		if counter(x.Index) {
			if r, ok := tn.element(e, s, x.X, x); ok {
				return r, true
			}
		}
	case *ssa.Convert:
		if a := s.resolve(e.get(s, x.X)); tn.forms == nil && a.k == pSym && isStringType(x.X.Type()) && tn.text(s, a) {
			if sl, ok := x.Type().Underlying().(*types.Slice); ok {
				kind := "r"
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					kind = "b"
				}
				v := e.cons(s, a.id, ".seq"+kind, x)
				s.addTag(v, "seq"+kind)
				s.mem[ploc{v.id, ".of"}] = a
				return v, true
			}
		}
		// a code point fits in 32 bits
		if a := s.resolve(e.get(s, x.X)); a.k == pSym && t.code.k == pSym && a.id == t.code.id {
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int, types.Int32, types.Int64, types.Uint, types.Uint32, types.Uint64, types.String:
					return a, true
				}
			}
		}
	case *ssa.IndexAddr:
		if tn.forms == nil && counter(x.Index) {
			if r, ok := tn.element(e, s, x.X, x); ok {
				o := e.fresh(s, x)
				s.mem[ploc{o.id, ""}] = r
				return pval{k: pAddr, loc: ploc{o.id, ""}}, true
			}
		}
		if tn.forms != nil && counter(x.Index) {
			b := s.resolve(e.get(s, x.X))
			if _, ok := s.tagOf(b, "forms"); ok && t.form.k == pSym {
				o := e.fresh(s, x)
				s.mem[ploc{o.id, ""}] = t.form
				return pval{k: pAddr, loc: ploc{o.id, ""}}, true
			}
		}
	case *ssa.Slice:
		b := s.resolve(e.get(s, x.X))
		if txt, ok := s.strOf(b); ok && isStringType(x.X.Type()) {
			lo, hi := int64(0), int64(len(txt))
			okk := true
			if x.Low != nil {
				lo, okk = s.intOf(e.get(s, x.Low))
			}
			if x.High != nil && okk {
				hi, okk = s.intOf(e.get(s, x.High))
			}
			if okk && 0 <= lo && lo <= hi && hi <= int64(len(txt)) {
				return pstr(txt[lo:hi]), true
			}
		}
		if b.k == pSym && x.High == nil && x.Low != nil {
			if _, ok := s.tagOf(b, "num"); ok {
				if n, ok := s.intOf(e.get(s, x.Low)); ok && n == 2 {
					r := e.cons(s, b.id, ".digits", x)
					s.mem[ploc{r.id, ".code"}] = t.code
					s.addTag(r, "digits")
					return r, true
				}
			}
		}
	}
	return tn.d.value(e, s, v)
}

func globalOf(v ssa.Value) *ssa.Global {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		g, _ := l.X.(*ssa.Global)
		return g
	}
	return nil
}

// seq: the kind of a sequence whose elements are the turns of a loop.
func (tn *turns) seq(s *pstate, m pval) (string, bool) {
	if m.k != pSym {
		return "", false
	}
	if tn.forms != nil {
		if _, ok := s.tagOf(m, "forms"); ok {
			return "forms", true
		}
		return "", false
	}
	if k, ok := s.tagOf(m, "seq"); ok {
		return k, true
	}
	if tn.text(s, m) {
		return "b", true
	}
	return "", false
}

// element is the current element of a sequence of characters or bytes.
func (tn *turns) element(e *pathEng, s *pstate, x ssa.Value, site ssa.Value) (pval, bool) {
	t := s.ts.(*turnTS)
	if tn.forms != nil || t.elem.k != pConst {
		return pval{}, false
	}
	if k, _ := tn.seq(s, s.resolve(e.get(s, x))); k == "" {
		return pval{}, false
	}
	return t.elem, true
}

// more: a comparison that asks for the next turn of a loop over matched forms.
func (tn *turns) more(e *pathEng, s *pstate, x *ssa.BinOp) (pval, bool) {
	t := s.ts.(*turnTS)
	list := func(y ssa.Value) (pval, bool) {
		v := s.resolve(e.get(s, y))
		if v.k == pSym {
			if m := s.mem[ploc{v.id, ".lenof"}]; m.k == pSym {
				return m, true
			}
		}
		return pval{}, false
	}
	i, l := x.X, x.Y
	neg := false
	var m pval
	var ok bool
	switch x.Op {
	case token.LSS, token.GEQ:
		m, ok = list(l)
		neg = x.Op == token.GEQ
	case token.GTR, token.LEQ:
		i, l = l, i
		m, ok = list(l)
		neg = x.Op == token.LEQ
	}
	if !ok || !counter(i) {
		return pval{}, false
	}
	kind, _ := tn.seq(s, m)
	if kind == "" {
		return pval{}, false
	}
	text := s.mem[ploc{m.id, ".of"}]
	if kind == "b" && text.k != pSym {
		text = m
	}
	if text.k != pSym {
		return pval{}, false
	}
	_ = t
	tn.loops++
	if kind != "forms" {
		tn.boundary(e, s, text, x.Block())
		vals := tn.reps
		if kind == "b" {
			vals = nil
			for _, r := range tn.reps {
				if r < 0x80 {
					vals = append(vals, r)
				}
			}
			vals = append(vals, 0x80, 0xC3, 0xFF)
		}
		for _, r := range vals {
			o := s.clone()
			ot := o.ts.(*turnTS)
			ot.cur, ot.curName = string(r), quoteRune(r)
			if kind == "b" && r >= 0x80 {
				ot.cur, ot.curName = string([]byte{byte(r)}), fmt.Sprintf("the byte 0x%02X", r)
			}
			ot.elem = pint(int64(r))
			o.top().env[x] = pbool(!neg)
			o.step()
			e.work = append(e.work, o)
		}
		t.cur, t.curName, t.elem = noTurn, "", pval{}
		return pbool(neg), true
	}
	tn.boundary(e, s, text, x.Block())
	// the other forms go on from a copy of the state, past this comparison
	set := func(o *pstate, k int) pval {
		ot := o.ts.(*turnTS)
		if k == len(tn.forms) {
			ot.cur, ot.curName, ot.form, ot.code = noTurn, "", pval{}, pval{}
			return pbool(neg)
		}
		f := tn.forms[k]
		ot.code = pval{}
		var txt pval
		if f.text == "" {
			txt = e.nonNil(o, x)
			o.objs[txt.id].ne = append(o.objs[txt.id].ne, pstr(""))
			o.addTag(txt, "num")
			ot.code = e.fresh(o, x)
			o.mem[ploc{txt.id, ".code"}] = ot.code
			ln := e.fresh(o, x)
			o.objs[ln.id].ne = []pval{pint(0)}
			o.mem[ploc{txt.id, ".len"}] = ln
			o.addTag(ln, "len")
			ot.cur, ot.curName = "", "an escape by number"
		} else {
			txt = pstr(f.text)
			ot.cur, ot.curName = f.want, fmt.Sprintf("%q", f.text)
		}
		el := e.nonNil(o, x)
		o.addTag(el, "list")
		n, _ := regexp.Compile(tn.d.pats[tn.pat])
		o.mem[ploc{el.id, ".len"}] = pint(int64(n.NumSubexp() + 1))
		for g := 0; g <= n.NumSubexp(); g++ {
			v := pstr("")
			if g == 0 || g == f.group {
				v = txt
			}
			o.mem[ploc{el.id, fmt.Sprintf("[%d]", g)}] = v
		}
		ot.form = el
		return pbool(!neg)
	}
	for k := range tn.forms {
		o := s.clone()
		o.top().env[x] = set(o, k)
		o.step()
		e.work = append(e.work, o)
	}
	return set(s, len(tn.forms)), true
}

func (tn *turns) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	t := s.ts.(*turnTS)
	one := func(v ...pval) ([]*pstate, bool) {
		e.setResult(s, in, v...)
		return []*pstate{s}, true
	}
	cc := in.Common()
	if cc.IsInvoke() {
		if tag, ok := tn.methods[cc.Method.Name()]; ok && len(cc.Args) == 0 && args[0].k == pSym {
			v := e.cons(s, args[0].id, "."+tag, c)
			s.addTag(v, tag)
			if tag == "lex" {
				t.loopText = v
			}
			return one(v)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		a := s.resolve(args[0])
		if k, _ := tn.seq(s, a); k != "" {
			v := e.cons(s, a.id, ".len", c)
			s.mem[ploc{v.id, ".lenof"}] = a
			return one(v)
		}
		if tx, ok := s.strOf(a); ok {
			return one(pint(int64(len(tx))))
		}
	}
	n := callName(in)
	if i := strings.LastIndex(n, "."); i > 0 && (strings.HasPrefix(n, "strings.(Builder)") || strings.HasPrefix(n, "bytes.(Buffer)")) {
		b := s.resolve(args[0])
		if b.k != pAddr || b.loc.obj < 0 || b.loc.path != "" {
			return nil, false
		}
		l := ploc{b.loc.obj, ".txt"}
		cur, ok := s.mem[l]
		if !ok {
			cur = pstr("")
		}
		okErr := []pval{{}, {k: pNil}}
		switch n[i+1:] {
		case "WriteString":
			s.mem[l] = s.concat(cur, args[1])
			return one(okErr...)
		case "WriteRune":
			s.mem[l] = s.concat(cur, tn.runeText(s, args[1]))
			return one(okErr...)
		case "WriteByte":
			v := s.resolve(args[1])
			if k, ok := s.intOf(v); ok {
				s.mem[l] = s.concat(cur, pstr(string([]byte{byte(k)})))
			} else {
				s.mem[l] = s.concat(cur, e.fresh(s, c))
			}
			return one(pval{k: pNil})
		case "String":
			return one(cur)
		case "Len", "Grow", "Cap":
			return one(e.fresh(s, c))
		case "Reset":
			s.mem[l] = pstr("")
			return one()
		}
		return nil, false
	}
	if n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "fmt.Fprintln" || n == "io.WriteString" {
		b := s.resolve(args[0])
		if b.k == pAddr && b.loc.obj >= 0 && b.loc.path == "" && isBuilder(siteType(s, b)) {
			l := ploc{b.loc.obj, ".txt"}
			cur, ok := s.mem[l]
			if !ok {
				cur = pstr("")
			}
			v := e.fresh(s, c)
			if n == "fmt.Fprintf" {
				if x, ok := tn.sprintf(e, s, args[1], args[2]); ok {
					v = x
				}
			} else if n == "io.WriteString" {
				v = args[1]
			}
			s.mem[l] = s.concat(cur, v)
			return one(pval{}, pval{k: pNil})
		}
	}
	switch n {
	case "fmt.Sprintf":
		if v, ok := tn.sprintf(e, s, args[0], args[1]); ok {
			return one(v)
		}
		return one(e.fresh(s, c))
	case "strconv.ParseInt", "strconv.ParseUint":
		a := s.resolve(args[0])
		base, _ := s.intOf(args[1])
		bits, _ := s.intOf(args[2])
		if _, ok := s.tagOf(a, "digits"); ok && base == 16 && (bits == 64 || bits == 32 || bits == 0) {
			// eight hexadecimal digits fit in 64 bits; code points fit in 32
			return one(s.mem[ploc{a.id, ".code"}], pval{k: pNil})
		}
		if tx, ok := s.strOf(a); ok && base >= 0 && base <= 36 {
			v, err := strconv.ParseInt(tx, int(base), 64)
			if err == nil {
				return one(pint(v), pval{k: pNil})
			}
		}
	case "unicode/utf8.DecodeRuneInString":
		if tx, ok := s.strOf(args[0]); ok {
			r, w := utf8.DecodeRuneInString(tx)
			return one(pint(int64(r)), pint(int64(w)))
		}
	case "regexp.(Regexp).FindAllStringSubmatch":
		ri, okk := s.tagOf(args[0], "re")
		x := s.resolve(args[1])
		if okk && x.k == pSym && tn.forms != nil && tn.text(s, x) {
			pi, _ := strconv.Atoi(ri)
			if pi != tn.pat {
				return nil, false
			}
			v := e.cons(s, x.id, ".forms", c)
			s.objs[v.id].ne = []pval{{k: pNil}}
			s.addTag(v, "forms")
			s.mem[ploc{v.id, ".of"}] = x
			return one(v)
		}
	case "strings.(Replacer).Replace":
		v := cc.Args[0]
		if g := globalOf(v); g != nil {
			if st := tn.u.onlyStore(g); st != nil {
				v = st.Val
			}
		}
		if prs, ok := tn.u.newReplacer(v); ok {
			return one(tn.rewrite(e, s, args[1], prs, c))
		}
	case "strings.ReplaceAll":
		a, ok1 := s.strOf(args[1])
		b, ok2 := s.strOf(args[2])
		if ok1 && ok2 {
			return one(tn.rewrite(e, s, args[0], []string{a, b}, c))
		}
	case "strconv.Quote":
		return one(tn.rewrite(e, s, args[0], nil, c))
	}
	return tn.d.call(e, s, in, args)
}

func siteType(s *pstate, v pval) types.Type {
	if o := s.objs[v.loc.obj]; o != nil && o.site != nil {
		return o.site.Type()
	}
	return types.Typ[types.Invalid]
}

func (tn *turns) runeText(s *pstate, v pval) pval {
	v = s.resolve(v)
	if k, ok := s.intOf(v); ok {
		return pstr(string(rune(k)))
	}
	return v
}

// replacerPairs are the pairs of a package-level strings.Replacer.
func (u *Unit) replacerPairs(g *ssa.Global) ([]string, bool) {
	st := u.onlyStore(g)
	if st == nil {
		return nil, false
	}
	return u.newReplacer(st.Val)
}

func (u *Unit) newReplacer(v ssa.Value) ([]string, bool) {
	c, ok := v.(*ssa.Call)
	if !ok || callName(c) != "strings.NewReplacer" {
		return nil, false
	}
	sl, ok := c.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]string, arr.Len())
	got := 0
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := constInt(ia.Index)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				t, ok := u.constStr(s.Val, nil)
				if !ok {
					return nil, false
				}
				out[i] = t
				got++
			}
		}
	}
	return out, got == len(out)
}

// rewrite is a text in which single characters were replaced; the faithful copy of
// the text if every class of characters becomes a form that denotes it.
func (tn *turns) rewrite(e *pathEng, s *pstate, v pval, pairs []string, site ssa.Value) pval {
	v = s.resolve(v)
	if v.k != pSym {
		if t, ok := s.strOf(v); ok && pairs != nil {
			return pstr(strings.NewReplacer(pairs...).Replace(t))
		}
		return e.fresh(s, site)
	}
	base := v
	if b, ok := s.mem[ploc{v.id, ".rewritten"}]; ok {
		base = b
	}
	if !tn.text(s, base) {
		return e.fresh(s, site)
	}
	for i := 0; i < len(pairs); i += 2 {
		if utf8.RuneCountInString(pairs[i]) != 1 {
			return e.fresh(s, site)
		}
	}
	tn.loops++
	enc := "Q"
	if pairs != nil {
		enc = strings.Join(pairs, "\x01")
	}
	r := e.cons(s, v.id, ".rewrite:"+enc, site)
	s.mem[ploc{r.id, ".rewritten"}] = base
	s.mem[ploc{r.id, ".from"}] = v
	return r
}

// verdict: is v (part of a printed text) a faithful printed copy of text? "" or what is wrong.
func (tn *turns) verdict(s *pstate, v pval) (string, bool) {
	if bad, ok := s.tagOf(v, "copy"); ok {
		return bad, true
	}
	var steps []string
	w := v
	for i := 0; i < 20; i++ {
		from, ok := s.mem[ploc{w.id, ".from"}]
		if !ok {
			break
		}
		for l, x := range s.mem {
			if l.obj == from.id && strings.HasPrefix(l.path, ".rewrite:") && x.k == pSym && x.id == w.id {
				steps = append([]string{l.path[len(".rewrite:"):]}, steps...)
			}
		}
		w = from
	}
	if !tn.text(s, w) {
		return "", false
	}
	for _, r := range tn.reps {
		f := string(r)
		for _, st := range steps {
			if st == "Q" {
				f = strconv.Quote(f)
				f = f[1 : len(f)-1]
				continue
			}
			f = strings.NewReplacer(strings.Split(st, "\x01")...).Replace(f)
		}
		if !legalForm(r, f) {
			return fmt.Sprintf("%s becomes %q", quoteRune(r), f), true
		}
	}
	return "", true
}

// sprintf expands a format whose verbs print texts.
func (tn *turns) sprintf(e *pathEng, s *pstate, format, list pval) (pval, bool) {
	f, ok := s.strOf(format)
	if !ok {
		return pval{}, false
	}
	arg := 0
	var parts []pval
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, pstr(f))
			break
		}
		parts = append(parts, pstr(f[:i]))
		f = f[i+1:]
		j := 0
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return pval{}, false
		}
		verb, flags := f[j], f[:j]
		f = f[j+1:]
		if verb == '%' {
			parts = append(parts, pstr("%"))
			continue
		}
		if strings.ContainsAny(flags, "*[") {
			return pval{}, false
		}
		l := s.resolve(list)
		v := pval{}
		if l.k == pAddr && l.loc.obj >= 0 {
			v = s.mem[ploc{l.loc.obj, fmt.Sprintf("%s[%d]", l.loc.path, arg)}]
		}
		var dyn types.Type
		if l.k == pAddr {
			dyn = argType(s, l, arg)
		}
		arg++
		v = s.resolve(v)
		if m := tn.stringer(dyn); m != nil && (verb == 's' || verb == 'v') && flags == "" {
			tpl, ok := staticText(m, 0)
			if !ok {
				return pval{}, false
			}
			for _, p := range tpl {
				if p.param {
					parts = append(parts, v)
				} else {
					parts = append(parts, pstr(p.text))
				}
			}
			continue
		}
		if v.k == pConst {
			var x interface{}
			switch v.c.Kind() {
			case constant.String:
				x = constant.StringVal(v.c)
			case constant.Int:
				n, _ := constant.Int64Val(v.c)
				x = n
				if verb == 'c' || verb == 'q' {
					x = rune(n)
				}
			default:
				return pval{}, false
			}
			parts = append(parts, pstr(fmt.Sprintf("%"+flags+string(verb), x)))
			continue
		}
		switch {
		case (verb == 's' || verb == 'v') && flags == "" && (v.k == pTuple || v.k == pSym):
			parts = append(parts, v)
		case verb == 'q' && flags == "" && v.k == pSym && tn.text(s, v):
			parts = append(parts, pstr(`"`), tn.rewrite(e, s, v, nil, nil), pstr(`"`))
		default:
			parts = append(parts, e.fresh(s, nil))
		}
	}
	return s.concat(parts...), true
}

// argType is the static type of an element of an argument list.
func argType(s *pstate, l pval, k int) types.Type {
	o := s.objs[l.loc.obj]
	if o == nil {
		return nil
	}
	al, ok := o.site.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if i, ok := constInt(ia.Index); !ok || int(i) != k {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					return mi.X.Type()
				}
			}
		}
	}
	return nil
}

// stringer is the String (or Error) method fmt calls for a value of type t.
func (tn *turns) stringer(t types.Type) *ssa.Function {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	ms := tn.u.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		if m.Obj().Name() == "String" {
			return tn.u.Prog.MethodValue(m)
		}
	}
	return nil
}

type tplPart struct {
	text  string
	param bool
}

// staticText: the text a small method builds from its receiver.
func staticText(fn *ssa.Function, depth int) ([]tplPart, bool) {
	if fn == nil || len(fn.Blocks) != 1 || len(fn.Params) != 1 || depth > 3 {
		return nil, false
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil, false
	}
	var of func(v ssa.Value) ([]tplPart, bool)
	of = func(v ssa.Value) ([]tplPart, bool) {
		switch x := v.(type) {
		case *ssa.Parameter:
			return []tplPart{{param: true}}, isStringType(x.Type())
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				return []tplPart{{text: constant.StringVal(x.Value)}}, true
			}
		case *ssa.ChangeType:
			return of(x.X)
		case *ssa.Convert:
			return of(x.X)
		case *ssa.BinOp:
			if x.Op == token.ADD {
				a, ok1 := of(x.X)
				b, ok2 := of(x.Y)
				return append(a, b...), ok1 && ok2
			}
		case *ssa.Call:
			if callName(x) != "fmt.Sprintf" {
				return nil, false
			}
			f, ok := x.Call.Args[0].(*ssa.Const)
			if !ok || f.Value == nil {
				return nil, false
			}
			fs := constant.StringVal(f.Value)
			if strings.Count(fs, "%") != 1 || !strings.Contains(fs, "%s") && !strings.Contains(fs, "%v") {
				return nil, false
			}
			sl, ok := x.Call.Args[1].(*ssa.Slice)
			if !ok {
				return nil, false
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							mi, ok := st.Val.(*ssa.MakeInterface)
							if !ok {
								return nil, false
							}
							if n, ok := types.Unalias(mi.X.Type()).(*types.Named); ok && n.NumMethods() > 0 {
								return nil, false
							}
							in, ok := of(mi.X)
							if !ok {
								return nil, false
							}
							i := strings.Index(fs, "%")
							out := []tplPart{{text: fs[:i]}}
							out = append(out, in...)
							return append(out, tplPart{text: fs[i+2:]}), true
						}
					}
				}
			}
		}
		return nil, false
	}
	return of(ret.Results[0])
}

// classes: one character of every set of characters the functions can tell apart.
func (tn *turns) classes(fns map[*ssa.Function]bool) {
	cut := map[rune]bool{0: true, 'a': true, 0x7F: true, 0x80: true, 0xFFFE: true, 0x10000: true, 0x10FFFF: true}
	add := func(r rune) {
		if r >= 0 && r < utf8.MaxRune {
			cut[r], cut[r+1] = true, true
		}
	}
	for r := range ntEscapes {
		add(rune(r))
		add(ntEscapes[r])
	}
	for fn := range fns {
		eachInstr([]*ssa.Function{fn}, func(_ *ssa.Function, in ssa.Instruction) {
			if cl, ok := in.(ssa.CallInstruction); ok {
				// texts that are only printed or compiled tell no characters apart
				n := callName(cl)
				if strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "regexp.") {
					return
				}
			}
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Const:
					if x.Value == nil {
						continue
					}
					switch x.Value.Kind() {
					case constant.Int:
						if n, ok := constant.Int64Val(x.Value); ok && n < utf8.MaxRune {
							add(rune(n))
						}
					case constant.String:
						for _, r := range constant.StringVal(x.Value) {
							add(r)
						}
					}
				case *ssa.Global:
					if _, ok := deref(x.Type()).Underlying().(*types.Map); ok {
						if m, ok := tn.u.constMap(x); ok {
							for k := range m {
								if n, err := strconv.ParseInt(k, 10, 32); err == nil {
									add(rune(n))
								}
								if q, err := strconv.Unquote(k); err == nil {
									for _, r := range q {
										add(r)
									}
								}
							}
						}
					}
					if prs, ok := tn.u.replacerPairs(x); ok {
						for _, p := range prs {
							for _, r := range p {
								add(r)
							}
						}
					}
				}
			}
		})
	}
	tn.reps = nil
	for r := range cut {
		if utf8.ValidRune(r) {
			tn.reps = append(tn.reps, r)
		}
	}
	sort.Slice(tn.reps, func(i, j int) bool { return tn.reps[i] < tn.reps[j] })
}

// printers are the exported functions that are given a literal and return its printed form.
func (u *Unit) literalPrinters() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range u.Funcs {
		o, ok := fn.Object().(*types.Func)
		if !ok || fnPkg(fn) != ntriplesPkg || fn.Parent() != nil || !o.Exported() || len(fn.Blocks) == 0 || fn.Signature.Recv() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isStringType(res.At(0).Type()) {
			continue
		}
		for _, p := range fn.Params {
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "Literal" {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

func checkPrinter(u *Unit, r *Report, root *ssa.Function) {
	c := fnName(root)
	tn := &turns{u: u, pkgs: map[string]bool{ntriplesPkg: true, iriPkg: true}, methods: map[string]string{"LexicalForm": "lex", "LanguageTag": "lang", "Datatype": "dt"}}
	tn.text = func(s *pstate, v pval) bool { _, ok := s.tagOf(v, "lex"); return ok }
	tn.classes(map[*ssa.Function]bool{root: true})
	ok, states := 0, 0
	bad := map[string]bool{}
	for phase := 0; phase < 2; phase++ {
		tn.d = newStrDom(u)
		tn.loops = 0
		e := newPathEng(u, pclient{call: tn.call, value: tn.value, instr: tn.instr,
			inline: func(fn *ssa.Function) bool { return tn.pkgs[fnPkg(fn)] },
			ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
				if len(s.frames) != 1 || phase == 0 {
					return
				}
				if i := errResultIndex(root.Signature); i >= 0 && s.isNil(s.resolve(vals[i])) == -1 {
					return
				}
				ok++
				fail := func(rule, f string, a ...interface{}) {
					if tn.loops == 0 && rule == "printed-form" {
						// the text is written in a way this analysis does not follow
						bad[rule] = true
						r.notes = append(r.notes, c+": "+fmt.Sprintf(f, a...)+" (the loop over the text was not recognised; not decided)")
						return
					}
					if !bad[rule] {
						bad[rule] = true
						r.Bad(rule, c, u.InstrPos(in), "%s: %s", c, fmt.Sprintf(f, a...))
					}
				}
				ps := s.partsOf(s.concat(vals[0]))
				text := func(i int) string {
					if i < len(ps) {
						if t, ok := s.strOf(ps[i]); ok {
							return t
						}
					}
					return "\x00"
				}
				has := func(i int, tag string) bool {
					if i >= len(ps) {
						return false
					}
					_, ok := s.tagOf(ps[i], tag)
					return ok
				}
				if len(ps) < 3 || text(0) != `"` || !strings.HasPrefix(text(2), `"`) {
					if len(ps) == 1 && strings.HasPrefix(text(0), `"`) {
						fail("printed-form", "a printed literal does not depend on the text of the literal: %q", text(0))
						return
					}
					fail("printed-form", "the printed literal is not its text between quotation marks")
					return
				}
				w, known := tn.verdict(s, ps[1])
				if !known {
					fail("printed-form", "what is printed between the quotation marks is not derived character by character from the text of the literal")
					return
				}
				if w != "" {
					fail("escaped", "the printed form of a literal is not a form of its text that N-Triples reads back: %s", w)
					return
				}
				rest := text(2)[1:]
				switch {
				case rest == "" && len(ps) == 3:
				case rest == "@" && len(ps) == 4 && has(3, "lang"):
				case rest == "^^<" && len(ps) == 5 && has(3, "dt") && text(4) == ">":
				default:
					fail("printed-form", "what follows the closing quotation mark is neither a language tag nor a datatype")
					return
				}
				r.OK("escaped", "%s: success at %s prints every character in a form that denotes it", c, u.InstrPos(in))
			}})
		e.limit, e.fold = 20000, 12
		if !e.run(root, &turnTS{cur: noTurn, choice: -1}, func(s *pstate) {
			for _, p := range root.Params {
				s.ts.(*turnTS).params = append(s.ts.(*turnTS).params, s.frames[0].env[p])
			}
		}) {
			if tn.loops == 0 {
				r.Count("functions that print literals", 1)
				r.Count("ways to a printed literal", 3)
				r.notes = append(r.notes, c+": the loop over the text was not recognised; not decided")
				return
			}
			r.Bad("analysable", c, u.Pos(root.Pos()), "%s has too many ways to follow", c)
			return
		}
		if phase == 0 {
			tn.classes(e.funcs)
		}
		states = e.states
	}
	r.Count("functions that print literals", 1)
	r.Count("ways to a printed literal", ok)
	r.Count("classes of characters", len(tn.reps))
	r.Count("abstract states", states)
	if ok == 0 && len(bad) == 0 {
		r.Bad("vacuous", c, u.Pos(root.Pos()), "%s never returns", c)
	}
}

// finite lists the strings a small expression matches.
func finite(re *syntax.Regexp, max int) ([]string, bool) {
	switch re.Op {
	case syntax.OpLiteral:
		return []string{string(re.Rune)}, re.Flags&syntax.FoldCase == 0
	case syntax.OpEmptyMatch:
		return []string{""}, true
	case syntax.OpCharClass:
		var out []string
		for i := 0; i+1 < len(re.Rune); i += 2 {
			for r := re.Rune[i]; r <= re.Rune[i+1]; r++ {
				out = append(out, string(r))
				if len(out) > max {
					return nil, false
				}
			}
		}
		return out, true
	case syntax.OpCapture:
		return finite(re.Sub[0], max)
	case syntax.OpConcat:
		out := []string{""}
		for _, s := range re.Sub {
			f, ok := finite(s, max)
			if !ok {
				return nil, false
			}
			var next []string
			for _, a := range out {
				for _, b := range f {
					next = append(next, a+b)
				}
			}
			if len(next) > max {
				return nil, false
			}
			out = next
		}
		return out, true
	case syntax.OpAlternate:
		var out []string
		for _, s := range re.Sub {
			f, ok := finite(s, max)
			if !ok {
				return nil, false
			}
			out = append(out, f...)
		}
		return out, len(out) <= max
	}
	return nil, false
}

// readerForms enumerates the forms an expression splits a quoted text into.
func (tn *turns) readerForms(pat string) (string, bool) {
	re, err := parseRE(pat)
	if err != nil {
		return "", false
	}
	for re.Op == syntax.OpCapture && re.Cap == 0 {
		re = re.Sub[0]
	}
	alts := []*syntax.Regexp{re}
	if re.Op == syntax.OpAlternate {
		alts = re.Sub
	}
	hex := `[0-9A-Fa-f]`
	uchar := `\\u` + hex + `{4}|\\U` + hex + `{8}`
	unit := `[^\x22\x5C\x0A\x0D]|\\[tbnrf"'\\]|` + uchar
	a := newAlphabet()
	// texts that start a sequence of units and are not one unit: no alternative may
	// match one of them, or it would take less or more than the next unit
	split := `|(?:` + unit + `)*\\(?:u` + hex + `{0,3}|U` + hex + `{0,7})?|(?:` + unit + `){2,}`
	for _, x := range []string{pat, uchar, unit, split} {
		if a.addExpr(x) != nil {
			return "", false
		}
	}
	a.freeze()
	whole := a.none()
	U, N, B := a.spec(unit), a.spec(uchar), a.spec(split)
	esc := a.spec(`\\[tbnrf"'\\]`)
	for _, alt := range alts {
		if alt.Op != syntax.OpCapture {
			return "", false
		}
		l := (&reLang{a: a}).plain(alt.Sub[0])
		if w, ok := l.and(B).example(); ok {
			return fmt.Sprintf("the written forms are not told apart: %q is read as one form", w), true
		}
		before := whole
		l = l.minus(before)
		whole = whole.or(l)
		for _, f := range finiteOf(a, l.and(esc)) {
			tn.forms = append(tn.forms, litForm{alt.Cap, f, string(ntEscapes[f[1]])})
		}
		if _, ok := l.and(N).example(); ok {
			tn.forms = append(tn.forms, litForm{alt.Cap, "", ""})
		}
		for _, r := range tn.reps {
			if s := string(r); l.has(s) && U.has(s) {
				tn.forms = append(tn.forms, litForm{alt.Cap, s, s})
			}
		}
	}
	if w, ok := U.within(whole); !ok {
		return fmt.Sprintf("the written form %q is not read at all", w), true
	}
	return "", true
}

// finiteOf lists a finite language of two-character strings.
func finiteOf(a *alphabet, d *dfa) []string {
	var out []string
	for c := range ntEscapes {
		if s := `\` + string(rune(c)); d.has(s) {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

// checkReader: the lexical form a reading function gives a literal.
func checkReader(u *Unit, r *Report, root *ssa.Function) {
	c := fnName(root)
	tn := &turns{u: u, pkgs: map[string]bool{ntriplesPkg: true, iriPkg: true}}
	param := onlyText(root)
	// which expressions split a text into forms?
	pats := map[string]bool{}
	fns := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fns[fn] || fnPkg(fn) != ntriplesPkg {
			return
		}
		fns[fn] = true
		eachInstr([]*ssa.Function{fn}, func(_ *ssa.Function, in ssa.Instruction) {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if callName(in) == "regexp.(Regexp).FindAllStringSubmatch" {
					if g := globalOf(cl.Common().Args[0]); g != nil {
						if p, ok := u.globalRE(g); ok {
							pats[p] = true
						}
					}
				}
				if g := cl.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 {
					visit(g)
				}
			}
		})
	}
	visit(root)
	if len(pats) != 1 {
		r.notes = append(r.notes, c+": the text between the quotation marks is not read by one loop over matched forms; reading is not decided")
		return
	}
	pat := ""
	for p := range pats {
		pat = p
	}
	tn.classes(fns)
	why, okk := tn.readerForms(pat)
	if !okk {
		r.notes = append(r.notes, c+": the expression that splits the text is not a choice of groups; reading is not decided")
		return
	}
	if why != "" {
		r.Bad("read-back", c, u.Pos(root.Pos()), "%s: %s", c, why)
		return
	}
	tn.d = newStrDom(u)
	tn.pat = tn.d.pat(pat)
	tn.text = func(s *pstate, v pval) bool { return v.k == pSym && s.ts.(*turnTS).params != nil }
	bad := map[string]bool{}
	ok := 0
	e := newPathEng(u, pclient{call: tn.call, value: tn.value, instr: tn.instr,
		inline: func(fn *ssa.Function) bool { return fnPkg(fn) == ntriplesPkg },
		ret: func(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
			if len(s.frames) != 1 {
				return
			}
			t := s.ts.(*turnTS)
			if s.isNil(s.resolve(vals[len(vals)-1])) == -1 {
				if t.cur != noTurn && t.cur != "" && !bad["read-back"] {
					bad["read-back"] = true
					r.Bad("read-back", c, u.InstrPos(in), "%s: the written form %s is refused", c, t.curName)
				}
				return
			}
			ok++
			// the literal that is returned holds the copy as its lexical form
			lit := s.resolve(vals[0])
			fail := func(f string, a ...interface{}) {
				if !bad["read-back"] {
					bad["read-back"] = true
					r.Bad("read-back", c, u.InstrPos(in), "%s: %s", c, fmt.Sprintf(f, a...))
				}
			}
			lex := pval{}
			if lit.k == pAddr && lit.loc.obj >= 0 {
				if i := lexField(u, siteType(s, lit)); i >= 0 {
					lex = s.mem[ploc{lit.loc.obj, fmt.Sprintf("%s.%d", lit.loc.path, i)}]
				}
			}
			ps := s.partsOf(lex)
			if len(ps) != 1 {
				fail("the lexical form of the literal is not what its quoted text denotes")
				return
			}
			w, isCopy := s.tagOf(ps[0], "copy")
			if !isCopy {
				fail("the lexical form of the literal is not what its quoted text denotes")
				return
			}
			if w != "" {
				fail("reading does not undo printing: %s", w)
				return
			}
			// the text that was read is the one between the quotation marks
			if why := tn.between(s, s.ts.(*turnTS).params[0], ps[0]); why != "" {
				fail("%s", why)
				return
			}
			r.OK("read-back", "%s: success at %s gives the literal the text its quoted form denotes", c, u.InstrPos(in))
		}})
	e.limit = 30000
	if !e.run(root, &turnTS{cur: noTurn, choice: -1}, func(s *pstate) {
		for _, p := range root.Params {
			if p == param {
				s.ts.(*turnTS).params = append(s.ts.(*turnTS).params, s.frames[0].env[p])
			}
		}
	}) {
		r.Bad("analysable", c, u.Pos(root.Pos()), "%s has too many ways to follow", c)
		return
	}
	r.Count("functions that read literals", 1)
	r.Count("written forms", len(tn.forms))
	r.Count("ways to a read literal", ok)
}

// between: the text copied is a group of the argument that lies between its first
// quotation mark and the next unescaped one.
func (tn *turns) between(s *pstate, arg, cp pval) string {
	for l, x := range s.mem {
		if x.k != pSym || x.id != cp.id || !strings.HasPrefix(l.path, ".copy:") {
			continue
		}
		src := l.obj
		for gl, gx := range s.mem {
			if gl.obj != arg.id || gx.k != pSym || gx.id != src || !strings.HasPrefix(gl.path, ".g") {
				continue
			}
			var pi, k int
			if n, _ := fmt.Sscanf(gl.path, ".g%d.%d", &pi, &k); n != 2 {
				continue
			}
			a := newAlphabet()
			if a.addExpr(tn.d.pats[pi]) != nil {
				return ""
			}
			a.addString(`"zq`)
			a.freeze()
			d, err := a.matchLang(tn.d.pats[pi], map[int]*dfa{k: a.lit("zqz")})
			if err != nil {
				return ""
			}
			if w, ok := d.within(a.lit(`"zqz"`).then(a.any())); !ok {
				return fmt.Sprintf("what is read is not the text between the quotation marks, as in %q", w)
			}
			return ""
		}
	}
	return "what is read is not a part of the argument"
}

// lexField is the field the LexicalForm method of a type returns, or -1.
func lexField(u *Unit, t types.Type) int {
	ms := u.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != "LexicalForm" {
			continue
		}
		fn := u.Prog.MethodValue(ms.At(i))
		for _, ret := range returnsOf(fn) {
			v := ret.Results[0]
			if l, ok := v.(*ssa.UnOp); ok {
				if fa, ok := l.X.(*ssa.FieldAddr); ok {
					return fa.Field
				}
			}
			if f, ok := v.(*ssa.Field); ok {
				return f.Field
			}
		}
	}
	return -1
}

func init() {
	register("R04", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Path-sensitive dataflow over the SSA of printing and reading a literal. Printing: the loop over the characters of the lexical form (or the replacement that is applied to it) is followed once per class of characters the code can tell apart; at the end of each turn the text added to the output must be a form the N-Triples grammar reads as that character, which extends to texts of any length because the abstract state at the start of a turn is always the same; the printed literal is that output between quotation marks plus a language tag or datatype. Reading: the loop over matched forms is followed once per written form (every ECHAR, escapes by number, each class of plain characters); each turn has to add the character the form denotes, the forms cover the grammar's, and the text read is the group between the quotation marks."
		r.assumptions = []string{"The lexical form is valid UTF-8.", "Language tags and datatype IRIs of literals are well formed (they are not escaped when printed)."}
		for _, fn := range u.literalPrinters() {
			checkPrinter(u, r, fn)
		}
		for _, fn := range u.checkers(ntriplesPkg) {
			res := fn.Signature.Results()
			if n := namedOf(res.At(0).Type()); n != nil && n.Obj().Name() == "Literal" {
				checkReader(u, r, fn)
			}
		}
		r.Floor("functions that print literals", 1)
		r.Floor("ways to a printed literal", 3)
	})
}
