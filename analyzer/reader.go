package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X01 and the s-expression part of E04: typestate of every character the
// s-expression reader takes from its source.

const sexprPkg = "sexpr"

type sexprModel struct {
	u       *Unit
	src     *types.Named // interface of the character source
	impls   []types.Type
	read    string
	peek    string
	unread  string
	formI   *types.Interface // form.Form
	factory *types.Named
	reads   map[*ssa.Function]bool

	valuelessMemo map[types.Type]bool
	asserted      map[string]types.Type // interface types forms are tested for
}

func storesField(fn *ssa.Function, u *Unit) bool {
	for f := range u.reachableFrom(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if _, ok := st.Addr.(*ssa.FieldAddr); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}

func newSexprModel(u *Unit) *sexprModel {
	m := &sexprModel{u: u, reads: map[*ssa.Function]bool{}, asserted: map[string]types.Type{}, valuelessMemo: map[types.Type]bool{}}
	eachInstr(u.PkgFuncs(sexprPkg), func(_ *ssa.Function, in ssa.Instruction) {
		if ta, ok := in.(*ssa.TypeAssert); ok {
			m.asserted[ta.AssertedType.String()] = ta.AssertedType
		}
	})
	p := u.SSA[sexprPkg]
	if p == nil {
		fatalf("package sexpr not found")
	}
	if fp := u.Pkgs["sexpr/form"]; fp != nil {
		if o := fp.Types.Scope().Lookup("Form"); o != nil {
			m.formI, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	if m.formI == nil {
		fatalf("form.Form not found")
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, nm := range names {
		t, ok := p.Members[nm].(*ssa.Type)
		if !ok {
			continue
		}
		n, _ := t.Type().(*types.Named)
		it, ok := t.Type().Underlying().(*types.Interface)
		if n == nil || !ok {
			continue
		}
		runes, forms := 0, 0
		for i := 0; i < it.NumMethods(); i++ {
			sig := it.Method(i).Type().(*types.Signature)
			if sig.Results().Len() == 2 && isRune(sig.Results().At(0).Type()) && isError(sig.Results().At(1).Type()) && sig.Params().Len() == 0 {
				runes++
			}
			if sig.Results().Len() == 2 && types.Implements(sig.Results().At(0).Type(), m.formI) && sig.Params().Len() > 0 {
				forms++
			}
		}
		if runes > 0 {
			m.src = n
		}
		if forms >= 3 {
			m.factory = n
		}
	}
	if m.src == nil || m.factory == nil {
		fatalf("the character source or the form factory of package sexpr was not found")
	}
	it := m.src.Underlying().(*types.Interface)
	for _, f := range u.PkgFuncs(sexprPkg) {
		if f.Signature.Recv() == nil || f.Parent() != nil || !types.Implements(f.Signature.Recv().Type(), it) {
			continue
		}
		in := false
		for i := 0; i < it.NumMethods(); i++ {
			in = in || it.Method(i).Name() == f.Name()
		}
		if !in {
			continue
		}
		rs := f.Signature.Results()
		switch {
		case rs.Len() == 2 && isRune(rs.At(0).Type()) && storesField(f, u):
			m.read = f.Name()
		case rs.Len() == 2 && isRune(rs.At(0).Type()):
			m.peek = f.Name()
		case rs.Len() == 1 && isError(rs.At(0).Type()) && storesField(f, u):
			m.unread = f.Name()
		}
		m.impls = append(m.impls, f.Signature.Recv().Type())
	}
	if m.read == "" || m.unread == "" {
		fatalf("the reading operations of the character source were not found")
	}
	return m
}

// op: which operation of the character source a call is.
func (m *sexprModel) op(c *ssa.CallCommon) string {
	name := ""
	if c.IsInvoke() {
		if namedOf(c.Value.Type()) != m.src {
			return ""
		}
		name = c.Method.Name()
	} else if fn := c.StaticCallee(); fn != nil && fn.Signature.Recv() != nil {
		if !types.Implements(fn.Signature.Recv().Type(), m.src.Underlying().(*types.Interface)) {
			return ""
		}
		name = fn.Name()
	}
	switch name {
	case "":
	case m.read:
		return "read"
	case m.peek:
		return "peek"
	case m.unread:
		return "unread"
	}
	return ""
}

func (m *sexprModel) isForm(t types.Type) bool {
	return types.Implements(t, m.formI) || types.Implements(types.NewPointer(t), m.formI)
}

// formLike: results of operations that read a form.
func (m *sexprModel) formLike(sig *types.Signature) bool {
	rs := sig.Results()
	if rs.Len() < 2 || errResultIndex(sig) != rs.Len()-1 {
		return false
	}
	t := rs.At(0).Type()
	if m.isForm(t) {
		return true
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		s := it.Method(i).Type().(*types.Signature)
		if s.Results().Len() == 1 && m.isForm(s.Results().At(0).Type()) {
			return true
		}
	}
	return false
}

type charEntry struct {
	id      int
	site    ssa.Instruction
	depth   int
	written map[int]bool // accumulators that hold it
	done    bool         // an accumulator that holds it was turned into a string
	first   bool         // first character taken at its depth
}

type formEntry struct {
	id    int
	site  ssa.CallInstruction
	depth int
}

type sexprTS struct {
	chars    []charEntry
	peeked   int
	consumed map[int]bool // frame depths at which characters were taken
	last     string       // "", "eof", "char"
	lastKey  string
	lastID   int
	forms    []formEntry
	dirty    map[int]bool
	strs     map[int]bool // values that are the whole text of an accumulator
	mon      string       // lexical state after the characters taken so far
	back     []string     // lexical states before each of them
}

func (t *sexprTS) clone() pts {
	n := *t
	n.chars = nil
	for _, c := range t.chars {
		w := map[int]bool{}
		for k := range c.written {
			w[k] = true
		}
		c.written = w
		n.chars = append(n.chars, c)
	}
	n.consumed = map[int]bool{}
	for k := range t.consumed {
		n.consumed[k] = true
	}
	n.dirty = map[int]bool{}
	for k := range t.dirty {
		n.dirty[k] = true
	}
	n.forms = append([]formEntry(nil), t.forms...)
	n.strs = map[int]bool{}
	for k := range t.strs {
		n.strs[k] = true
	}
	n.back = append([]string(nil), t.back...)
	return &n
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (t *sexprTS) roots() []int {
	var out []int
	for _, c := range t.chars {
		out = append(out, c.id)
		out = append(out, sortedInts(c.written)...)
	}
	for _, f := range t.forms {
		out = append(out, f.id)
	}
	if t.peeked != 0 {
		out = append(out, t.peeked)
	}
	if t.lastID != 0 {
		out = append(out, t.lastID)
	}
	out = append(out, sortedInts(t.strs)...)
	return append(out, sortedInts(t.dirty)...)
}

func (t *sexprTS) key(name func(int) string) string {
	var b strings.Builder
	for _, c := range t.chars {
		fmt.Fprintf(&b, "%s@%p/%d", name(c.id), c.site, c.depth)
		for _, w := range sortedInts(c.written) {
			b.WriteString("w" + name(w))
		}
		fmt.Fprintf(&b, "%v%v ", c.done, c.first)
	}
	if t.peeked != 0 {
		b.WriteString("p" + name(t.peeked))
	}
	fmt.Fprintf(&b, " c%v %s %s", sortedInts(t.consumed), t.last, t.lastKey)
	if t.lastID != 0 {
		b.WriteString(name(t.lastID))
	}
	for _, f := range t.forms {
		fmt.Fprintf(&b, " f%s@%p", name(f.id), f.site)
	}
	for _, d := range sortedInts(t.dirty) {
		b.WriteString(" d" + name(d))
	}
	for _, d := range sortedInts(t.strs) {
		b.WriteString(" s" + name(d))
	}
	fmt.Fprintf(&b, " %s%v", t.mon, t.back)
	return b.String()
}

type sexprCheck struct {
	m     *sexprModel
	r     *Report
	eof   bool // report the E04 rules instead of the X01 rules
	root  *ssa.Function
	term  map[string]ssa.Instruction
	eofOK map[string]ssa.Instruction
	terms map[string]string
}

func (c *sexprCheck) bad(eofRule bool, rule string, at ssa.Instruction, format string, a ...interface{}) {
	if eofRule != c.eof {
		return
	}
	c.r.Bad(rule, fnName(at.Parent()), c.m.u.InstrPos(at), format, a...)
}

// runeFact: the character an entry is known to be.
func runeFact(s *pstate, id int) (rune, bool) {
	o := s.objs[id]
	if o == nil || o.eq == nil || o.eq.k != pConst || o.eq.c.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(o.eq.c)
	return rune(n), ok
}

func (c *sexprCheck) describe(s *pstate, id int) string {
	if r, ok := runeFact(s, id); ok {
		return fmt.Sprintf("the character %q", r)
	}
	return "a character"
}

func opKey(in ssa.Instruction) string {
	return fmt.Sprintf("%p", in)
}

func (c *sexprCheck) read(e *pathEng, s *pstate, in ssa.CallInstruction) []*pstate {
	t := s.ts.(*sexprTS)
	d := len(s.frames)
	// the previous round of this loop is over: what it took must be accounted for
	for i, x := range t.chars {
		if x.site == in && x.depth == d {
			for _, y := range t.chars[i:] {
				if len(y.written) == 0 && !y.done && !c.blankLoop(s, y.id, in.Parent()) {
					c.bad(false, "no-character-lost", y.site, "%s: %s that was read is neither kept, put back nor refused before the next one is read", fnName(y.site.Parent()), c.describe(s, y.id))
				}
			}
			t.chars = t.chars[:i]
			break
		}
	}
	c.r.Count("reads followed", 1)
	ok := s
	if t.peeked == 0 {
		ok = s.clone()
	}
	ot := ok.ts.(*sexprTS)
	id := ot.peeked
	var v pval
	if id == 0 {
		v = e.fresh(ok, in.Value())
	} else {
		v = pval{k: pSym, id: id}
	}
	e.setResult(ok, in, v, pval{k: pNil})
	ot.peeked = 0
	ent := charEntry{id: v.id, site: in, depth: d, written: map[int]bool{}}
	if !ot.consumed[d] {
		ot.consumed[d] = true
		ent.first = true
	}
	ot.chars = append(ot.chars, ent)
	ot.last, ot.lastKey, ot.lastID = "char", opKey(in), v.id
	outs := c.classes(e, ok, v.id, in)
	if id == 0 {
		outs = append(outs, c.failedRead(e, s.clone(), in, true), c.failedRead(e, s.clone(), in, false))
	}
	return outs
}

// lexClasses: the characters that begin, end or continue strings and comments.
var lexClasses = []rune{'"', '\\', '*', '/', '\n'}

// classes separates the ways on by what the character that was taken means
// inside strings and comments, and follows the text that way.
func (c *sexprCheck) classes(e *pathEng, s *pstate, id int, in ssa.CallInstruction) []*pstate {
	if c.eof {
		return []*pstate{s}
	}
	var outs []*pstate
	other := s.clone()
	left := true
	for _, r := range lexClasses {
		k := pval{k: pConst, c: constant.MakeInt64(int64(r))}
		x, y := pval{k: pSym, id: id}, k
		cond := pval{k: pCond, op: token.EQL, x: &x, y: &y}
		o := s.clone()
		if o.assume(cond, true) {
			c.lex(o, r, in)
			outs = append(outs, o)
		}
		left = left && other.assume(cond, false)
	}
	if left {
		c.lex(other, -1, in)
		outs = append(outs, other)
	}
	return outs
}

func (c *sexprCheck) lex(s *pstate, r rune, in ssa.CallInstruction) {
	t := s.ts.(*sexprTS)
	if len(t.back) == 3 {
		t.back = t.back[1:]
	}
	t.back = append(append([]string(nil), t.back...), t.mon)
	switch t.mon {
	case "":
		t.mon = "text"
		if r == '"' {
			t.mon = "string"
		} else if r == '/' {
			t.mon = "slash"
		}
	case "slash":
		t.mon = "text"
		if r == '*' {
			t.mon = "comment"
		} else if r == '/' {
			t.mon = "line comment"
		}
	case "string":
		if r == '\\' {
			t.mon = "escape"
		} else if r == '"' {
			t.mon = "end"
		}
	case "escape":
		t.mon = "string"
	case "comment", "comment, star":
		switch {
		case r == '*':
			t.mon = "comment, star"
		case r == '/' && t.mon != "comment":
			t.mon = "end"
		default:
			t.mon = "comment"
		}
	case "line comment":
		if r == '\n' {
			t.mon = "end"
		}
	case "end":
		c.bad(false, "ends-at-its-delimiter", in, "%s: more is read although the string or comment has ended", fnName(in.Parent()))
		t.mon = "text"
	}
}

// tokenEnd: a string or comment is complete when its form is made.
func (c *sexprCheck) tokenEnd(s *pstate, in ssa.Instruction) {
	t := s.ts.(*sexprTS)
	switch t.mon {
	case "string", "escape", "comment", "comment, star":
		c.bad(false, "ends-at-its-delimiter", in, "%s: the form is made although its %s has not ended", fnName(in.Parent()), strings.SplitN(t.mon, ",", 2)[0])
	}
	t.mon, t.back, t.strs = "", nil, map[int]bool{}
}

func (c *sexprCheck) failedRead(e *pathEng, o *pstate, in ssa.CallInstruction, eof bool) *pstate {
	t := o.ts.(*sexprTS)
	g, _ := globalNamed(c.m.u, "io.EOF")
	if eof && g != nil {
		t.last, t.lastKey, t.lastID = "eof", opKey(in), 0
		e.setResult(o, in, e.fresh(o, in.Value()), pval{k: pGlobal, g: g})
		return o
	}
	v := e.nonNil(o, in.Value())
	if g != nil {
		o.objs[v.id].ne = append(o.objs[v.id].ne, pval{k: pGlobal, g: g})
	}
	e.setResult(o, in, e.fresh(o, in.Value()), v)
	return o
}

// blankLoop: white space may be skipped in a loop that keeps nothing.
func (c *sexprCheck) blankLoop(s *pstate, id int, fn *ssa.Function) bool {
	r, ok := runeFact(s, id)
	if !ok || r != ' ' && r != '\t' && r != '\n' && r != '\r' {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && isAccumulate(ci.Common()) {
				return false
			}
		}
	}
	return true
}

func isAccumulate(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	for _, t := range []string{"strings.(Builder).", "bytes.(Buffer)."} {
		if strings.HasPrefix(n, t+"Write") {
			return true
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && isByteOrRune(sl.Elem()) {
			return true
		}
	}
	return false
}

func accID(v pval) int {
	switch v.k {
	case pAddr:
		return v.loc.obj
	case pSym:
		return v.id
	}
	return 0
}

// write records that a value goes into an accumulator.
func (c *sexprCheck) write(e *pathEng, s *pstate, in ssa.Instruction, acc int, v pval, isStr bool) {
	t := s.ts.(*sexprTS)
	if acc != 0 {
		t.dirty[acc] = true
	}
	mark := func(i int) {
		x := &t.chars[i]
		if x.written[acc] {
			c.bad(false, "no-character-duplicated", in, "%s: %s is put into the value twice", fnName(in.Parent()), c.describe(s, x.id))
		}
		for _, y := range t.chars[i+1:] {
			if y.written[acc] {
				c.bad(false, "order-kept", in, "%s: characters are put into the value in another order than they were read", fnName(in.Parent()))
			}
		}
		x.written[acc] = true
	}
	if v.k == pSym {
		for i := len(t.chars) - 1; i >= 0; i-- {
			if t.chars[i].id == v.id {
				mark(i)
				return
			}
		}
		if isStr {
			if !t.strs[v.id] {
				for _, x := range t.chars {
					if x.written[acc] {
						c.bad(false, "nothing-replaced", in, "%s: text that is not known to be characters that were read is put among them", fnName(in.Parent()))
						break
					}
				}
			}
			return // text made elsewhere
		}
	}
	r := s.resolve(v)
	if r.k == pConst {
		var want []rune
		esc := ""
		if r.c.Kind() == constant.String {
			esc = constant.StringVal(r.c)
			want = []rune(esc)
		} else if n, ok := constant.Int64Val(r.c); ok {
			want = []rune{rune(n)}
		}
		find := func(w rune, from int) int {
			for i := len(t.chars) - 1; i >= from; i-- {
				if f, ok := runeFact(s, t.chars[i].id); ok && f == w && !t.chars[i].written[acc] {
					return i
				}
			}
			return -1
		}
		if len(want) == 0 {
			return
		}
		pos, all := 0, true
		var hit []int
		for _, w := range want {
			i := find(w, pos)
			if i < 0 {
				all = false
				break
			}
			hit = append(hit, i)
			pos = i + 1
		}
		if all {
			for _, i := range hit {
				mark(i)
			}
			return
		}
		if esc != "" {
			if un, err := strconv.Unquote(`"` + esc + `"`); err == nil && len([]rune(un)) == 1 {
				if i := find([]rune(un)[0], 0); i >= 0 {
					mark(i)
					return
				}
			}
		}
	}
	if len(t.chars) == 0 {
		return
	}
	c.bad(false, "nothing-replaced", in, "%s: what is put into the value is not a character that was read", fnName(in.Parent()))
}

var delims = map[rune]bool{'"': true, '(': true, ')': true, '\'': true, '\n': true, ' ': true, '\t': true, '\r': true, '`': true, ',': true}

// boundary: a form is made; every character taken so far must be accounted for.
func (c *sexprCheck) boundary(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval, allow func(r rune) bool) {
	t := s.ts.(*sexprTS)
	for _, x := range t.chars {
		if x.done {
			continue
		}
		if len(x.written) > 0 {
			c.bad(false, "no-character-lost", x.site, "%s: %s that was read is collected but the collected text does not become part of the form", fnName(x.site.Parent()), c.describe(s, x.id))
			continue
		}
		if r, ok := runeFact(s, x.id); ok && allow(r) {
			continue
		}
		c.bad(false, "no-character-lost", x.site, "%s: %s that was read is neither part of the form nor one of its delimiters when the form is made (%s)", fnName(x.site.Parent()), c.describe(s, x.id), c.m.u.InstrPos(in))
	}
	t.chars = nil
	c.tokenEnd(s, in)
	c.loopEnd(s, in)
}

func (c *sexprCheck) loopEnd(s *pstate, in ssa.Instruction) {
	t := s.ts.(*sexprTS)
	switch t.last {
	case "eof":
		if c.eofOK[t.lastKey] == nil {
			c.eofOK[t.lastKey] = in
		}
	case "char":
		if r, ok := runeFact(s, t.lastID); ok && r != '\n' && r != ' ' && r != '\t' && r != '\r' {
			if c.term[t.lastKey] == nil {
				c.term[t.lastKey] = in
				c.terms[t.lastKey] = string(r)
			}
		}
	}
}

// contract models an operation that reads one form and is analysed on its own.
func (c *sexprCheck) contract(e *pathEng, s *pstate, in ssa.CallInstruction) []*pstate {
	if _, ok := in.(*ssa.Call); !ok {
		return []*pstate{s}
	}
	t := s.ts.(*sexprTS)
	rs := in.Common().Signature().Results()
	set := func(o *pstate, err pval) {
		var vals []pval
		for i := 0; i < rs.Len(); i++ {
			if i == rs.Len()-1 {
				vals = append(vals, err)
			} else if i == 0 && err.k == pNil {
				vals = append(vals, e.nonNil(o, in.Value()))
			} else {
				vals = append(vals, e.fresh(o, in.Value()))
			}
		}
		e.setResult(o, in, vals...)
	}
	_ = t
	ok := s.clone()
	ot := ok.ts.(*sexprTS)
	ot.peeked, ot.last, ot.lastID = 0, "", 0
	ot.mon, ot.back = "text", nil
	set(ok, pval{k: pNil})
	if v := ok.top().env[in.Value()]; v.k == pTuple && c.m.isForm(rs.At(0).Type()) {
		c.newForm(ok, v.parts[0].id, in)
	}
	outs := []*pstate{ok}
	g, _ := globalNamed(c.m.u, "io.EOF")
	for _, eof := range []bool{true, false} {
		o := s.clone()
		if eof && g != nil {
			if t.peeked != 0 {
				continue // there is at least one more character
			}
			set(o, pval{k: pGlobal, g: g})
		} else {
			v := e.nonNil(o, in.Value())
			if g != nil {
				o.objs[v.id].ne = append(o.objs[v.id].ne, pval{k: pGlobal, g: g})
			}
			set(o, v)
		}
		outs = append(outs, o)
	}
	return outs
}

// newForm records that a form exists that must not be dropped.
func (c *sexprCheck) newForm(s *pstate, id int, site ssa.CallInstruction) {
	c.newFormAt(s, id, site, len(s.frames))
}

func (c *sexprCheck) newFormAt(s *pstate, id int, site ssa.CallInstruction, d int) {
	t := s.ts.(*sexprTS)
	if v := site.Value(); v != nil {
		rt := v.Type()
		if tu, ok := rt.(*types.Tuple); ok {
			rt = tu.At(0).Type()
		}
		if c.m.valueless(rt) {
			return
		}
	}
	for i, f := range t.forms {
		if f.site == site && f.depth == d {
			c.formDropped(s, f)
			t.forms = append(append([]formEntry(nil), t.forms[:i]...), t.forms[i+1:]...)
			break
		}
	}
	t.forms = append(t.forms, formEntry{id, site, d})
}

func (c *sexprCheck) formDropped(s *pstate, f formEntry) {
	if c.m.recognisedValueless(s, f.id) {
		return
	}
	c.bad(false, "no-form-lost", f.site, "%s: a form that was read is dropped", fnName(f.site.Parent()))
}

func (c *sexprCheck) formUsed(s *pstate, v pval) {
	if v.k != pSym {
		return
	}
	t := s.ts.(*sexprTS)
	for i, f := range t.forms {
		if f.id == v.id {
			t.forms = append(append([]formEntry(nil), t.forms[:i]...), t.forms[i+1:]...)
			return
		}
	}
}

func (c *sexprCheck) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	cc := in.Common()
	t := s.ts.(*sexprTS)
	g, _ := globalNamed(c.m.u, "io.EOF")
	switch c.m.op(cc) {
	case "read":
		if in.Value() == nil {
			c.bad(false, "no-character-lost", in, "a deferred or concurrent read drops its character")
			return nil, false
		}
		return c.read(e, s, in), true
	case "peek":
		if in.Value() == nil {
			return nil, false
		}
		if t.peeked != 0 {
			e.setResult(s, in, pval{k: pSym, id: t.peeked}, pval{k: pNil})
			return []*pstate{s}, true
		}
		ok := s.clone()
		v := e.fresh(ok, in.Value())
		ok.ts.(*sexprTS).peeked = v.id
		e.setResult(ok, in, v, pval{k: pNil})
		f1, f2 := c.failedRead(e, s.clone(), in, true), c.failedRead(e, s.clone(), in, false)
		f1.ts.(*sexprTS).last, f2.ts.(*sexprTS).last = t.last, t.last
		f1.ts.(*sexprTS).lastKey, f1.ts.(*sexprTS).lastID = t.lastKey, t.lastID
		return []*pstate{ok, f1, f2}, true
	case "unread":
		c.r.Count("puts back followed", 1)
		ok := s.clone()
		ot := ok.ts.(*sexprTS)
		if n := len(ot.chars); n == 0 {
			c.bad(false, "no-character-duplicated", in, "%s: a character is put back that was not taken here, so it is read twice", fnName(in.Parent()))
			ot.peeked = 0
		} else {
			x := ot.chars[n-1]
			for w := range x.written {
				if ot.dirty[w] {
					if !c.localTo(ok, w, in.Parent()) || true {
						// the accumulator still holds it when it becomes a value
						ot.peeked = x.id
					}
				}
			}
			if len(x.written) > 0 && c.keeps(ok, x) {
				c.bad(false, "no-character-duplicated", in, "%s: %s is put back although it is already part of the value", fnName(in.Parent()), c.describe(ok, x.id))
			}
			if x.first {
				delete(ot.consumed, x.depth)
			}
			ot.peeked = x.id
			ot.chars = ot.chars[:n-1]
			if k := len(ot.back); k > 0 {
				ot.mon, ot.back = ot.back[k-1], ot.back[:k-1]
			}
		}
		ot.last, ot.lastID = "", 0
		if in.Value() != nil {
			e.setResult(ok, in, pval{k: pNil})
		}
		f := s.clone()
		if in.Value() == nil {
			return []*pstate{ok}, true
		}
		v := e.nonNil(f, in.Value())
		if g != nil {
			f.objs[v.id].ne = append(f.objs[v.id].ne, pval{k: pGlobal, g: g})
		}
		e.setResult(f, in, v)
		return []*pstate{ok, f}, true
	}
	name := calleeName(cc)
	if isAccumulate(cc) {
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// append(acc, r): the elements are in the variadic array
			if len(args) == 2 && args[1].k == pAddr {
				res := e.fresh(s, in.Value())
				id := accID(s.resolve(args[0]))
				if id == 0 {
					id = res.id
				}
				for l, v := range s.mem {
					if l.obj == args[1].loc.obj {
						c.write(e, s, in, id, v, false)
					}
				}
				for i := range t.chars {
					if t.chars[i].written[id] {
						delete(t.chars[i].written, id)
						t.chars[i].written[res.id] = true
						t.chars[i].done = true
					}
				}
				delete(t.dirty, id)
				e.setResult(s, in, res)
				return []*pstate{s}, true
			}
			return nil, false
		}
		if len(args) == 2 {
			c.write(e, s, in, accID(args[0]), args[1], strings.HasSuffix(name, "WriteString") || strings.HasSuffix(name, ".Write"))
			rs := cc.Signature().Results()
			var vals []pval
			for i := 0; i < rs.Len(); i++ {
				if isError(rs.At(i).Type()) {
					vals = append(vals, pval{k: pNil})
				} else {
					vals = append(vals, pval{})
				}
			}
			e.setResult(s, in, vals...)
			return []*pstate{s}, true
		}
	}
	if strings.HasPrefix(name, "strings.(Builder).") || strings.HasPrefix(name, "bytes.(Buffer).") {
		acc := accID(args[0])
		switch strings.TrimPrefix(strings.TrimPrefix(name, "strings.(Builder)."), "bytes.(Buffer).") {
		case "String", "Bytes":
			for i := range t.chars {
				if t.chars[i].written[acc] {
					t.chars[i].done = true
				}
			}
			delete(t.dirty, acc)
			e.unknownResult(s, in)
			if in.Value() != nil && s.top().env[in.Value()].k == pSym {
				t.strs[s.top().env[in.Value()].id] = true
			}
			return []*pstate{s}, true
		case "Len", "Cap", "Grow":
		default: // Reset, Truncate, Read...
			if t.dirty[acc] {
				c.bad(false, "no-character-lost", in, "%s: collected characters are thrown away", fnName(in.Parent()))
			}
		}
		e.unknownResult(s, in)
		return []*pstate{s}, true
	}
	if cc.IsInvoke() && namedOf(cc.Value.Type()) == c.m.factory {
		if in.Value() == nil {
			return nil, false
		}
		sig := cc.Signature()
		rt := types.TypeString(sig.Results().At(0).Type(), func(*types.Package) string { return "" })
		first := sig.Params().At(0).Type()
		_, isList := first.Underlying().(*types.Slice)
		constArg := len(args) > 1 && s.resolve(args[1]).k == pConst
		allow := func(r rune) bool {
			switch {
			case isList || constArg:
				return delims[r]
			case strings.Contains(rt, "String"):
				return r == '"'
			case strings.Contains(rt, "Comment"):
				return r == '\n'
			}
			return false
		}
		c.r.Count("forms made", 1)
		for _, a := range args[1:] {
			c.formUsed(s, a)
		}
		ok := s.clone()
		c.boundary(e, ok, in, args, allow)
		f := e.nonNil(ok, in.Value())
		e.setResult(ok, in, f, pval{k: pNil})
		c.newForm(ok, f.id, in)
		fl := s.clone()
		v := e.nonNil(fl, in.Value())
		if g != nil {
			fl.objs[v.id].ne = append(fl.objs[v.id].ne, pval{k: pGlobal, g: g})
		}
		e.setResult(fl, in, e.fresh(fl, in.Value()), v)
		return []*pstate{ok, fl}, true
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); !ok && c.m.formLike(cc.Signature()) && s.resolve(e.get(s, cc.Value)).k != pFunc {
			return c.contract(e, s, in), true // a reader macro
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		for _, a := range args[1:] {
			if a.k == pAddr {
				for l, v := range s.mem {
					if l.obj == a.loc.obj {
						c.formUsed(s, v)
					}
				}
			}
		}
	}
	return nil, false
}

func (c *sexprCheck) localTo(s *pstate, id int, fn *ssa.Function) bool {
	o := s.objs[id]
	if o == nil {
		return false
	}
	a, ok := o.site.(*ssa.Alloc)
	return ok && a.Parent() == fn
}

// keeps: is an accumulator that holds the character going to be used? It is
// taken to be when it was turned into a string already or is not local to the
// returning helper; decided where the helper returns, so only done counts here.
func (c *sexprCheck) keeps(s *pstate, x charEntry) bool { return x.done }

func (c *sexprCheck) recurse(e *pathEng, s *pstate, in ssa.CallInstruction, fn *ssa.Function, args []pval) ([]*pstate, bool) {
	if c.m.formLike(fn.Signature) {
		return c.contract(e, s, in), true
	}
	return nil, false
}

func (c *sexprCheck) instr(e *pathEng, s *pstate, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			for _, o := range []ssa.Value{x.X, x.Y} {
				v := e.get(s, o)
				t := s.ts.(*sexprTS)
				if v.k == pSym {
					for i := range t.chars {
						if t.chars[i].id == v.id {
							c.write(e, s, in, -2, v, false)
							t.chars[i].done = true
							break
						}
					}
				}
			}
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); !ok {
			c.formUsed(s, e.get(s, x.Val))
		} else if a, ok := ia.X.(*ssa.Alloc); ok {
			// the variadic argument of a formatting call is no use of the form
			if arr, ok := deref(a.Type()).Underlying().(*types.Array); ok && c.m.isForm(arr.Elem()) {
				c.formUsed(s, e.get(s, x.Val))
			}
		}
	}
}

func (c *sexprCheck) ret(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
	t := s.ts.(*sexprTS)
	fn := s.top().fn
	d := len(s.frames)
	ei := errResultIndex(fn.Signature)
	success := true
	eof := false
	if ei >= 0 {
		v := s.resolve(vals[ei])
		success = s.isNil(v) != -1
		eof = v.k == pGlobal && v.g.String() == "io.EOF"
	}
	if eof && d == 1 {
		c.r.Count("clean ends reported", 1)
		if len(t.consumed) > 0 {
			c.bad(true, "clean-end-only-between-forms", in, "%s: the clean end of input is reported although characters of an unfinished form were already read", fnName(fn))
		}
	}
	if success && d == 1 {
		for _, v := range vals {
			c.formUsed(s, s.resolve(v))
		}
	}
	// what a helper collected and did not use is still to be accounted for
	for i := range t.chars {
		x := &t.chars[i]
		if x.done {
			continue
		}
		for w := range x.written {
			if c.localTo(s, w, fn) {
				delete(x.written, w)
			}
		}
	}
	for w := range t.dirty {
		if c.localTo(s, w, fn) {
			delete(t.dirty, w)
		}
	}
	if success && d == 1 {
		for _, x := range t.chars {
			if x.done || len(x.written) > 0 {
				continue
			}
			if r, ok := runeFact(s, x.id); ok && delims[r] {
				continue
			}
			c.bad(false, "no-character-lost", x.site, "%s: %s that was read is not part of what is returned (%s)", fnName(x.site.Parent()), c.describe(s, x.id), c.m.u.InstrPos(in))
		}
		for _, f := range t.forms {
			c.formDropped(s, f)
		}
		c.loopEnd(s, in)
		return
	}
	if d == 1 {
		return
	}
	if success {
		// the caller is now responsible for the form
		for i, v := range vals {
			if v.k != pSym {
				continue
			}
			for j, f := range t.forms {
				if f.id == v.id && f.depth >= d {
					t.forms = append(append([]formEntry(nil), t.forms[:j]...), t.forms[j+1:]...)
					if s.top().call != nil {
						n := e.nonNil(s, s.top().call)
						c.newFormAt(s, n.id, s.top().call, d-1)
						vals[i] = n
					}
					break
				}
			}
		}
	}
	if success && c.m.formLike(fn.Signature) {
		for k := range t.consumed {
			if k >= d {
				delete(t.consumed, k)
			}
		}
		return
	}
	moved := false
	for k := range t.consumed {
		if k >= d {
			delete(t.consumed, k)
			moved = true
		}
	}
	if moved {
		t.consumed[d-1] = true
	}
	for i := range t.chars {
		if t.chars[i].depth >= d {
			t.chars[i].depth = d - 1
		}
	}
	for i := range t.forms {
		if t.forms[i].depth >= d {
			t.forms[i].depth = d - 1
		}
	}
}

// macroKeys: functions registered under a character in a table.
func (m *sexprModel) macros() (out []struct {
	fn *ssa.Function
	r  rune
	ok bool
}) {
	for _, f := range m.u.PkgFuncs(sexprPkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				var fn *ssa.Function
				switch x := strip(mu.Value).(type) {
				case *ssa.Function:
					fn = x
				case *ssa.MakeClosure:
					fn = x.Fn.(*ssa.Function)
				}
				if fn == nil || !m.formLike(fn.Signature) {
					continue
				}
				var e struct {
					fn *ssa.Function
					r  rune
					ok bool
				}
				e.fn = fn
				if k, ok := mu.Key.(*ssa.Const); ok && k.Value != nil {
					if n, ok := constant.Int64Val(k.Value); ok {
						e.r, e.ok = rune(n), true
					}
				}
				out = append(out, e)
			}
		}
	}
	return
}

func checkSexpr(w *World, r *Report, eof bool) {
	u := w.Host
	m := newSexprModel(u)
	// roots: exported readers, registered reader macros, and whatever is handled by contract
	type rootT struct {
		fn *ssa.Function
		r  rune
		ok bool
	}
	var todo []rootT
	seen := map[*ssa.Function]bool{}
	reaches := func(f *ssa.Function) bool {
		for g := range u.reachableFrom(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && m.op(ci.Common()) == "read" {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range u.PkgFuncs(sexprPkg) {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && m.formLike(f.Signature) && reaches(f) && !u.Generated(f) {
			todo = append(todo, rootT{fn: f})
		}
	}
	for _, x := range m.macros() {
		todo = append(todo, rootT{x.fn, x.r, x.ok})
	}
	c := &sexprCheck{m: m, r: r, eof: eof, term: map[string]ssa.Instruction{}, eofOK: map[string]ssa.Instruction{}, terms: map[string]string{}}
	for len(todo) > 0 {
		rt := todo[0]
		todo = todo[1:]
		if seen[rt.fn] || len(rt.fn.Blocks) == 0 {
			continue
		}
		seen[rt.fn] = true
		c.root = rt.fn
		e := newPathEng(u, pclient{call: c.call, instr: c.instr, ret: c.ret, recurse: c.recurse, inline: func(fn *ssa.Function) bool { return fnPkg(fn) == sexprPkg }})
		ts := &sexprTS{consumed: map[int]bool{}, dirty: map[int]bool{}, strs: map[int]bool{}}
		n := len(r.findings)
		ok := e.run(rt.fn, ts, func(s *pstate) {
			if rt.ok {
				v := e.fresh(s, nil)
				eq := pval{k: pConst, c: constant.MakeInt64(int64(rt.r))}
				s.objs[v.id].eq = &eq
				s.ts.(*sexprTS).peeked = v.id
			}
		})
		if !ok {
			r.Bad("undecided", fnName(rt.fn), u.Pos(rt.fn.Pos()), "the ways through this function could not be enumerated within %d states", e.limit)
		}
		r.Count("reading operations followed", 1)
		r.Count("abstract states", e.states)
		r.Count("functions inlined or followed", len(e.funcs))
		if len(r.findings) == n {
			r.OK("characters-accounted-for", "%s: %d abstract states, %d functions", fnName(rt.fn), e.states, len(e.funcs))
		}
		var cut []*ssa.Function
		for f := range e.cut {
			cut = append(cut, f)
		}
		sort.Slice(cut, func(i, j int) bool { return fnName(cut[i]) < fnName(cut[j]) })
		for _, f := range cut {
			todo = append(todo, rootT{fn: f})
		}
	}
	var keys []string
	for k := range c.term {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return u.InstrPos(c.term[keys[i]]) < u.InstrPos(c.term[keys[j]]) })
	for _, k := range keys {
		if !eof {
			break
		}
		if at := c.eofOK[k]; at != nil {
			r.Bad("closing-character-required", fnName(at.Parent()), u.InstrPos(at), "%s: a form that ends with %q is also accepted when the input ends before it", fnName(at.Parent()), c.terms[k])
		} else {
			r.OK("closing-character-required", "%s: a form that ends with %q at %s is refused when the input ends first", fnName(c.term[k].Parent()), c.terms[k], u.InstrPos(c.term[k]))
		}
	}
}

func init() {
	register("X01", func(w *World, r *Report) {
		r.explanation = "Typestate analysis of every character the s-expression reader takes from its source. Every way through each reading function (helpers inline or by summary) is enumerated over the SSA; each character taken is followed until it is put back, added once and unchanged to the text that becomes a form, recognised as a delimiter, white space or part of a comment, translated by the escape table, or answered with an error. Text gathered must reach the form that is returned whole and in order (slices of it are checked for the delimiters they leave out), numbers must be made from the whole text by a parse that did not fail, and a form made must be returned, appended to its list or refused."
		checkSexpr(w, r, false)
		m := newSexprModel(w.Host)
		m.checkPrimitives(r)
		m.checkTexts(r)
		m.checkLists(r)
		m.checkNumbers(r)
	})
}
