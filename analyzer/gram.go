package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// The texts a program can build, as a grammar: an abstract interpretation over SSA,
// specialised by calling context and by the constants that decide branches, in which
// the value of a text is a set of grammar nodes. Lists, maps and structures are
// abstract objects by allocation site and context; the contents of builders are
// followed in the order of the statements.

// gn is a node of the grammar.
type gn struct {
	id    int
	kind  string // lit, alt, cat, join, hole, quote, nonl, nobt, trim, fn, rep
	text  string // literal, or the name of a function
	src   string // where a hole's text comes from
	class string // what a hole's text can be: free, name, word, number
	kids  []*gn
	list  *gav
	has   map[*gn]bool
}

type gloc struct {
	o    *gobj
	path string
}

type gobj struct {
	id     int
	kind   string // alloc, src, list, map, tmpl
	src    string
	typ    types.Type
	site   ssa.Value
	fields map[string]*gav
	prods  []*gprod
	block  *ssa.BasicBlock
	text   *gav // of a template
	keys   *gav // of a map
	init   map[string]bool
}

// gprod is one way a list is made.
type gprod struct {
	kind       string // lit (elements), cat (base, then tail), star (any number of elem)
	base, tail *gav
	elems      []*gav
}

// gav is an abstract value.
type gav struct {
	kept               bool
	top, isNil, nonNil bool
	consts             map[string]constant.Value
	strs               map[*gn]bool
	locs               map[gloc]bool
	fns                map[*gfn]bool
	tuple              []*gav
}

type gfn struct {
	fn   *ssa.Function
	free []*gav
}

type gctx struct {
	e       *gram
	fn      *ssa.Function
	parent  *gctx
	args    []*gav
	free    []*gav
	vals    map[ssa.Value]*gav
	exec    map[*ssa.BasicBlock]bool
	edges   map[[2]int]bool
	kids    map[string]*gctx
	ret     []*gav
	in, out map[gloc]*gn
	ends    map[*ssa.BasicBlock]map[gloc]*gn
	busy    bool
	depth   int
	cur     map[gloc]*gn
}

type gram struct {
	u       *Unit
	changed bool
	n       int
	lits    map[string]*gn
	memo    map[string]*gn
	objs    map[string]*gobj
	glob    map[*ssa.Global]*gobj
	inits   map[*ssa.Function]*gctx
	ids     map[interface{}]int

	// field gives the value of a field of what is handed in.
	field func(e *gram, o *gobj, path string, t types.Type) *gav
	// forced: does a loop over this list run at least once?
	forced func(l *gobj) bool
	// compared is told the constants that a text is compared with.
	compared func(n *gn, c string)
	missing  map[string]ssa.Instruction
	unknown  map[string]ssa.Instruction
	states   int
}

func newGram(u *Unit) *gram {
	return &gram{u: u, lits: map[string]*gn{}, memo: map[string]*gn{}, objs: map[string]*gobj{}, glob: map[*ssa.Global]*gobj{},
		inits: map[*ssa.Function]*gctx{}, ids: map[interface{}]int{}, missing: map[string]ssa.Instruction{}, unknown: map[string]ssa.Instruction{}}
}

func (e *gram) idOf(x interface{}) int {
	if n, ok := e.ids[x]; ok {
		return n
	}
	e.ids[x] = len(e.ids) + 1
	return len(e.ids)
}

func (e *gram) lit(s string) *gn {
	if n, ok := e.lits[s]; ok {
		return n
	}
	n := &gn{id: e.next(), kind: "lit", text: s}
	e.lits[s] = n
	return n
}

func (e *gram) next() int { e.n++; return e.n }

// node is the node made at a place, made once.
func (e *gram) node(key, kind string) *gn {
	k := kind + "|" + key
	if n, ok := e.memo[k]; ok {
		return n
	}
	n := &gn{id: e.next(), kind: kind}
	e.memo[k] = n
	return n
}

// alt is the node for the texts of v at a place.
func (e *gram) alt(key string, v *gav) *gn {
	if v == nil {
		return nil
	}
	if len(v.strs) == 1 && !v.top {
		if _, ok := e.memo["alt|"+key]; !ok {
			for n := range v.strs {
				return n
			}
		}
	}
	n := e.node(key, "alt")
	if n.has == nil {
		n.has = map[*gn]bool{}
	}
	for _, x := range sortedNodes(v.strs) {
		e.addAlt(n, x)
	}
	if v.top {
		e.addAlt(n, e.hole("unknown text", "free"))
	}
	if len(n.kids) == 0 {
		return nil
	}
	return n
}

func (e *gram) addAlt(n, x *gn) {
	if x == nil || x == n || n.has[x] {
		return
	}
	if n.has == nil {
		n.has = map[*gn]bool{}
	}
	n.has[x] = true
	n.kids = append(n.kids, x)
	e.changed = true
}

func sortedNodes(m map[*gn]bool) []*gn {
	var out []*gn
	for n := range m {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (e *gram) hole(src, class string) *gn {
	n := e.node(src+"/"+class, "hole")
	n.src, n.class = src, class
	return n
}

func (e *gram) cat(key string, kids ...*gn) *gn {
	for _, k := range kids {
		if k == nil {
			return nil
		}
	}
	n := e.node(key, "cat")
	if n.kids == nil {
		n.kids = kids
	} else {
		for i, k := range kids {
			if i < len(n.kids) && n.kids[i] != k {
				// what was a single text has become a choice
				n.kids[i] = k
				e.changed = true
			}
		}
	}
	return n
}

func (e *gram) un(key, kind, text string, x *gn) *gn {
	if x == nil {
		return nil
	}
	n := e.node(key+"/"+text, kind)
	n.text = text
	if len(n.kids) == 0 || n.kids[0] != x {
		n.kids = []*gn{x}
		e.changed = true
	}
	return n
}

// litOf is the one text n can be.
func litOf(n *gn, depth int) (string, bool) {
	if n == nil || depth > 30 {
		return "", false
	}
	switch n.kind {
	case "lit":
		return n.text, true
	case "alt":
		if len(n.kids) == 1 {
			return litOf(n.kids[0], depth+1)
		}
		if len(n.kids) > 1 {
			a, ok := litOf(n.kids[0], depth+1)
			for _, k := range n.kids[1:] {
				b, ok2 := litOf(k, depth+1)
				ok = ok && ok2 && a == b
			}
			return a, ok
		}
	case "nonl", "nobt":
		return litOf(n.kids[0], depth+1)
	case "cat":
		out := ""
		for _, k := range n.kids {
			s, ok := litOf(k, depth+1)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	case "quote":
		if s, ok := litOf(n.kids[0], depth+1); ok {
			return strconv.Quote(s), true
		}
	}
	return "", false
}

// mayBe says whether a text can be empty, and whether it can be something.
func mayBe(n *gn, seen map[*gn]bool) (empty, some bool) {
	if n == nil || seen[n] {
		return false, false
	}
	seen[n] = true
	defer delete(seen, n)
	switch n.kind {
	case "lit":
		return n.text == "", n.text != ""
	case "alt":
		for _, k := range n.kids {
			a, b := mayBe(k, seen)
			empty, some = empty || a, some || b
		}
		return
	case "cat":
		empty = true
		for _, k := range n.kids {
			a, b := mayBe(k, seen)
			empty, some = empty && a, some || b
		}
		return
	case "quote":
		return false, true
	case "nonl", "nobt":
		return mayBe(n.kids[0], seen)
	case "hole":
		return n.class != "number", true
	}
	return true, true
}

func newAV() *gav { return &gav{} }

// keptAV is a value that stays from one round to the next.
func keptAV() *gav { return &gav{kept: true} }

func avStr(n *gn) *gav {
	if n == nil {
		return newAV()
	}
	return &gav{strs: map[*gn]bool{n: true}}
}
func avConst(c constant.Value) *gav {
	return &gav{consts: map[string]constant.Value{c.ExactString(): c}}
}
func avBool(b bool) *gav { return avConst(constant.MakeBool(b)) }
func avNil() *gav        { return &gav{isNil: true} }
func avTop() *gav        { return &gav{top: true} }
func avLoc(o *gobj, path string) *gav {
	return &gav{locs: map[gloc]bool{{o, path}: true}}
}

func (v *gav) bot() bool {
	return v == nil || !v.top && !v.isNil && !v.nonNil && len(v.consts) == 0 && len(v.strs) == 0 && len(v.locs) == 0 && len(v.fns) == 0 && v.tuple == nil
}

// join adds what src can be to dst.
func (e *gram) join(dst, src *gav) {
	if src == nil || dst == src {
		return
	}
	ch := false
	if src.top && !dst.top {
		dst.top, ch = true, true
	}
	if src.isNil && !dst.isNil {
		dst.isNil, ch = true, true
	}
	if src.nonNil && !dst.nonNil {
		dst.nonNil, ch = true, true
	}
	for k, c := range src.consts {
		if _, ok := dst.consts[k]; !ok {
			if dst.consts == nil {
				dst.consts = map[string]constant.Value{}
			}
			if len(dst.consts) > 8 {
				dst.top = true
				continue
			}
			dst.consts[k], ch = c, true
		}
	}
	for n := range src.strs {
		if !dst.strs[n] {
			if dst.strs == nil {
				dst.strs = map[*gn]bool{}
			}
			dst.strs[n], ch = true, true
		}
	}
	for l := range src.locs {
		if !dst.locs[l] {
			if dst.locs == nil {
				dst.locs = map[gloc]bool{}
			}
			dst.locs[l], ch = true, true
		}
	}
	for f := range src.fns {
		if !dst.fns[f] {
			if dst.fns == nil {
				dst.fns = map[*gfn]bool{}
			}
			dst.fns[f], ch = true, true
		}
	}
	if src.tuple != nil {
		if dst.tuple == nil {
			dst.tuple = make([]*gav, len(src.tuple))
			for i := range dst.tuple {
				dst.tuple[i] = &gav{kept: dst.kept}
			}
			ch = true
		}
		for i := range src.tuple {
			if i < len(dst.tuple) {
				e.join(dst.tuple[i], src.tuple[i])
			}
		}
	}
	if ch && dst.kept {
		e.changed = true
	}
}

func (e *gram) obj(key, kind string, site ssa.Value) *gobj {
	k := kind + "|" + key
	if o, ok := e.objs[k]; ok {
		return o
	}
	o := &gobj{id: e.next(), kind: kind, site: site, fields: map[string]*gav{}, init: map[string]bool{}}
	e.objs[k] = o
	e.changed = true
	return o
}

func (c *gctx) key(v interface{}) string {
	return fmt.Sprintf("%d.%d", c.e.idOf(c), c.e.idOf(v))
}

// locsOf in a definite order.
func locsOf(v *gav) []gloc {
	var out []gloc
	if v == nil {
		return nil
	}
	for l := range v.locs {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		return out[i].path < out[j].path
	})
	return out
}

// zero is the value of what was never set.
func (e *gram) zero(o *gobj, path string, t types.Type) *gav {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsString != 0:
			return avStr(e.lit(""))
		case x.Info()&types.IsBoolean != 0:
			return avBool(false)
		case x.Info()&types.IsNumeric != 0:
			return avConst(constant.MakeInt64(0))
		}
	case *types.Struct, *types.Array:
		return avLoc(o, path)
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return avNil()
	}
	return avTop()
}

// srcObj is something handed in.
func (e *gram) srcObj(src string, t types.Type) *gobj {
	o := e.obj(src, "src", nil)
	o.src, o.typ = src, t
	return o
}

// srcValue is a value of type t handed in.
func (e *gram) srcValue(src string, t types.Type) *gav {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Info()&types.IsString != 0 {
			return avStr(e.hole(src, "free"))
		}
		return avTop()
	case *types.Slice:
		o := e.obj(src, "list", nil)
		o.src, o.typ = src, t
		if len(o.prods) == 0 {
			o.prods = []*gprod{{kind: "star", base: e.srcValue(src+"[]", x.Elem())}}
		}
		return avLoc(o, "")
	case *types.Map:
		o := e.obj(src, "map", nil)
		o.src, o.typ = src, t
		if o.keys == nil {
			o.keys = e.srcValue(src+".key", x.Key())
			o.fields["*"] = e.srcValue(src+".value", x.Elem())
		}
		return avLoc(o, "")
	case *types.Pointer:
		return avLoc(e.srcObj(src, x.Elem()), "")
	case *types.Struct:
		return avLoc(e.srcObj(src, t), "")
	case *types.Interface:
		return avLoc(e.srcObj(src, t), "")
	}
	return avTop()
}

// load reads a location.
func (e *gram) load(l gloc, t types.Type) *gav {
	o := l.o
	if o.kind == "src" {
		if v, ok := o.fields[l.path]; ok {
			return v
		}
		v := newAV()
		if l.path == "" {
			e.join(v, avLoc(o, ""))
		} else if f := e.fieldOf(o, l.path, t); f != nil {
			e.join(v, f)
		} else {
			e.join(v, e.srcValue(o.src+l.path, t))
		}
		o.fields[l.path] = v
		return v
	}
	if o.kind == "list" && l.path == "[]" {
		v := newAV()
		e.elems(v, avLoc(o, ""), map[*gobj]bool{})
		return v
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		if v, ok := o.fields[l.path]; ok && !v.bot() {
			out := newAV()
			e.join(out, v)
			e.join(out, avLoc(o, l.path))
			return out
		}
		return avLoc(o, l.path)
	}
	v, ok := o.fields[l.path]
	if !ok || !o.init[l.path] {
		out := newAV()
		if ok {
			e.join(out, v)
		}
		// a field of a structure that was copied in
		if i := strings.LastIndex(l.path, "."); i >= 0 {
			if b, ok := o.fields[l.path[:i]]; ok {
				any := false
				for _, m := range locsOf(b) {
					any = true
					e.join(out, e.load(gloc{m.o, m.path + l.path[i:]}, t))
				}
				if any && o.init[l.path[:i]] {
					return out
				}
			}
		}
		if o.kind == "alloc" {
			e.join(out, e.zero(o, l.path, t))
		}
		return out
	}
	return v
}

func (e *gram) fieldOf(o *gobj, path string, t types.Type) *gav {
	if e.field == nil {
		return nil
	}
	return e.field(e, o, path, t)
}

// elems adds the elements of a list to v.
func (e *gram) elems(v, l *gav, seen map[*gobj]bool) {
	for _, m := range locsOf(l) {
		o := m.o
		if o.kind != "list" {
			// an array
			for p, f := range o.fields {
				if strings.HasPrefix(p, m.path+"[") && strings.HasSuffix(p, "]") {
					e.join(v, f)
				}
			}
			continue
		}
		if seen[o] {
			continue
		}
		seen[o] = true
		for _, p := range o.prods {
			switch p.kind {
			case "lit":
				for _, x := range p.elems {
					e.join(v, x)
				}
			case "cat":
				e.elems(v, p.base, seen)
				e.elems(v, p.tail, seen)
			case "star":
				e.join(v, p.base)
			}
		}
		if f, ok := o.fields["[]"]; ok {
			e.join(v, f)
		}
	}
	if l.top {
		v.top = true
	}
}

func (c *gctx) store(l gloc, v *gav, t types.Type, at *ssa.BasicBlock) {
	e, o := c.e, l.o
	if o.kind == "src" {
		return // changes to what is handed in are not followed
	}
	f, ok := o.fields[l.path]
	if !ok {
		f = keptAV()
		o.fields[l.path] = f
		e.changed = true
	}
	e.join(f, v)
	_, glob := o.site.(*ssa.Global)
	if at != nil && (at == o.block || glob && c.fn.Synthetic == "package initializer") && !o.init[l.path] {
		o.init[l.path] = true
		e.changed = true
	}
}

// run interprets root until nothing changes.
func (e *gram) run(roots func() []*gctx) bool {
	for i := 0; i < 60; i++ {
		e.changed = false
		e.missing, e.unknown = map[string]ssa.Instruction{}, map[string]ssa.Instruction{}
		for _, c := range roots() {
			c.eval()
		}
		if !e.changed {
			return true
		}
	}
	return false
}

func (e *gram) ctx(parent *gctx, fn *ssa.Function, key string) *gctx {
	if parent != nil {
		if k, ok := parent.kids[key]; ok {
			return k
		}
	}
	c := &gctx{e: e, fn: fn, parent: parent, vals: map[ssa.Value]*gav{}, exec: map[*ssa.BasicBlock]bool{}, edges: map[[2]int]bool{}, kids: map[string]*gctx{},
		in: map[gloc]*gn{}, out: map[gloc]*gn{}, ends: map[*ssa.BasicBlock]map[gloc]*gn{}}
	if parent != nil {
		c.depth = parent.depth + 1
		parent.kids[key] = c
	}
	for range fn.Params {
		c.args = append(c.args, keptAV())
	}
	for range fn.FreeVars {
		c.free = append(c.free, keptAV())
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		c.ret = append(c.ret, keptAV())
	}
	return c
}

func (c *gctx) get(v ssa.Value) *gav {
	e := c.e
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return avLoc(e.obj(c.key(v), "alloc", v), "")
			}
			return avNil()
		}
		if x.Value.Kind() == constant.String {
			return avStr(e.lit(constant.StringVal(x.Value)))
		}
		return avConst(x.Value)
	case *ssa.Function:
		return &gav{fns: map[*gfn]bool{e.fnVal(x): true}}
	case *ssa.Global:
		return avLoc(e.global(x), "")
	case *ssa.Parameter:
		for i, p := range c.fn.Params {
			if p == x {
				return c.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range c.fn.FreeVars {
			if p == x {
				return c.free[i]
			}
		}
	}
	if a, ok := c.vals[v]; ok {
		return a
	}
	a := keptAV()
	c.vals[v] = a
	return a
}

var fnVals = map[*ssa.Function]*gfn{}

func (e *gram) fnVal(fn *ssa.Function) *gfn {
	if f, ok := fnVals[fn]; ok {
		return f
	}
	f := &gfn{fn: fn}
	fnVals[fn] = f
	return f
}

// global is the object of a package variable; its package's initialisation is
// interpreted as well.
func (e *gram) global(g *ssa.Global) *gobj {
	if o, ok := e.glob[g]; ok {
		return o
	}
	o := e.obj(g.String(), "alloc", g)
	e.glob[g] = o
	if _, ok := relPkg(g.Pkg.Pkg); ok {
		if in := g.Pkg.Func("init"); in != nil && len(in.Blocks) > 0 && e.inits[in] == nil {
			e.inits[in] = e.ctx(nil, in, "")
			e.inits[in].eval()
		}
	}
	return o
}

// use is the value of operand v at block b, narrowed by the tests that lead there.
func (c *gctx) use(v ssa.Value, b *ssa.BasicBlock) *gav {
	return c.narrow(v, c.get(v), b, nil)
}

// narrow takes the tests on the way to b (and, for a phi, on the edge to succ).
func (c *gctx) narrow(v ssa.Value, a *gav, b, succ *ssa.BasicBlock) *gav {
	if b == nil {
		return a
	}
	nilable := false
	switch v.Type().Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
		nilable = !a.bot()
	}
	if (len(a.strs) == 0 && !a.top || !isStringType(v.Type())) && !nilable {
		return a
	}
	test := func(d, to *ssa.BasicBlock) string {
		if len(d.Instrs) == 0 {
			return ""
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(d.Succs) != 2 || d.Succs[0] == d.Succs[1] {
			return ""
		}
		edge := -1
		for i, s := range d.Succs {
			if s == to || succ == nil && to == nil {
				edge = i
			}
			if to != nil && s != to && s.Dominates(to) && len(s.Preds) == 1 {
				edge = i
			}
		}
		if edge < 0 {
			return ""
		}
		return c.e.guard(iff.Cond, v, edge == 0)
	}
	tags := map[string]bool{}
	if succ != nil {
		tags[test(b, succ)] = true
	}
	for d, to := b.Idom(), b; d != nil; d, to = d.Idom(), d {
		tags[test(d, to)] = true
	}
	e := c.e
	if tags["nil"] && !tags["nonnil"] {
		return avNil()
	}
	if tags["nonnil"] {
		o := newAV()
		e.join(o, a)
		o.isNil = false
		if o.top && len(o.locs) == 0 {
			o.top, o.nonNil = false, true
		}
		if o.bot() {
			o.nonNil = true
		}
		return o
	}
	if nilable {
		return a
	}
	for _, t := range []string{"nobt", "nonl", "name"} {
		if !tags[t] {
			continue
		}
		n := e.alt(c.key(v)+t, a)
		if n == nil {
			return a
		}
		if t == "name" {
			m := e.un(c.key(v), "fn", "checked", n)
			m.class = "name"
			a = avStr(m)
			continue
		}
		a = avStr(e.un(c.key(v), t, "", n))
	}
	return a
}

// guard: what does the outcome of a test say about the text v?
func (e *gram) guard(cond, v ssa.Value, want bool) string {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.guard(x.X, v, !want)
		}
	case *ssa.BinOp:
		if x.X == v && (x.Op == token.EQL || x.Op == token.NEQ) {
			if k, ok := x.Y.(*ssa.Const); ok && k.IsNil() {
				if want == (x.Op == token.EQL) {
					return "nil"
				}
				return "nonnil"
			}
		}
		call, ok := x.X.(*ssa.Call)
		k, ok2 := x.Y.(*ssa.Const)
		if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.Int || len(call.Call.Args) != 2 || call.Call.Args[0] != v || !strings.HasPrefix(callName(call), "strings.Index") {
			return ""
		}
		n, _ := constant.Int64Val(k.Value)
		neg := x.Op == token.LSS && n == 0 || x.Op == token.EQL && n == -1
		pos := x.Op == token.GEQ && n == 0 || x.Op == token.NEQ && n == -1 || x.Op == token.GTR && n == -1
		if neg && want || pos && !want {
			return absent(call.Call.Args[1])
		}
	case *ssa.Call:
		n := callName(x)
		switch {
		case n == "strconv.CanBackquote" && x.Call.Args[0] == v && want:
			return "nobt"
		case (n == "strings.Contains" || n == "strings.ContainsRune" || n == "strings.ContainsAny") && x.Call.Args[0] == v && !want:
			return absent(x.Call.Args[1])
		case strings.HasSuffix(n, "regexp.(Regexp).MatchString") && len(x.Call.Args) == 2 && x.Call.Args[1] == v && want:
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					if p, ok := e.u.globalRE(g); ok && strings.HasPrefix(p, "^[") {
						if re, err := compileRE(p); err == nil && !re.MatchString("") && !re.MatchString("1") && !re.MatchString("1a") && !re.MatchString("-") {
							return "name"
						}
					}
				}
			}
		}
	}
	return ""
}

func absent(v ssa.Value) string {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return ""
	}
	s := ""
	switch k.Value.Kind() {
	case constant.String:
		s = constant.StringVal(k.Value)
	case constant.Int:
		n, _ := constant.Int64Val(k.Value)
		s = string(rune(n))
	}
	switch s {
	case "`":
		return "nobt"
	case "\n":
		return "nonl"
	}
	return ""
}

func (c *gctx) eval() {
	if c.busy || len(c.fn.Blocks) == 0 {
		return
	}
	c.busy = true
	defer func() { c.busy = false }()
	e := c.e
	e.states++
	c.exec[c.fn.Blocks[0]] = true
	for _, b := range c.fn.DomPreorder() {
		if !c.exec[b] {
			continue
		}
		c.cur = map[gloc]*gn{}
		if b.Index == 0 {
			for l, n := range c.in {
				c.cur[l] = n
			}
		}
		for _, p := range b.Preds {
			if !c.edges[[2]int{p.Index, b.Index}] {
				continue
			}
			for l, n := range c.ends[p] {
				m := e.node(fmt.Sprintf("%s@%d%s", c.key(b), l.o.id, l.path), "alt")
				e.addAlt(m, n)
				c.cur[l] = m
			}
		}
		for _, in := range b.Instrs {
			c.instr(b, in)
		}
		if c.ends[b] == nil {
			c.ends[b] = map[gloc]*gn{}
		}
		for l, n := range c.cur {
			c.ends[b][l] = n
		}
	}
}

func (c *gctx) flow(from, to *ssa.BasicBlock) {
	k := [2]int{from.Index, to.Index}
	if !c.edges[k] {
		c.edges[k] = true
		c.exec[to] = true
		c.e.changed = true
	}
}

func (c *gctx) set(v ssa.Value, a *gav) {
	d, ok := c.vals[v]
	if !ok {
		d = keptAV()
		c.vals[v] = d
	}
	c.e.join(d, a)
}

func (c *gctx) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	e := c.e
	switch x := in.(type) {
	case *ssa.If:
		v := c.get(x.Cond)
		t, f := v.top || v.nonNil, v.top || v.nonNil
		for _, k := range v.consts {
			if k.Kind() == constant.Bool {
				if constant.BoolVal(k) {
					t = true
				} else {
					f = true
				}
			}
		}
		if f && t && c.runsOnce(b, x.Cond) {
			f = false
			for _, p := range b.Preds {
				if b.Dominates(p) && c.edges[[2]int{p.Index, b.Index}] {
					f = true
				}
			}
		}
		if t {
			c.flow(b, b.Succs[0])
		}
		if f {
			c.flow(b, b.Succs[1])
		}
	case *ssa.Jump:
		c.flow(b, b.Succs[0])
	case *ssa.Return:
		i := errResultIndex(c.fn.Signature)
		failed := false
		if i >= 0 {
			er := c.use(x.Results[i], b)
			failed = !er.bot() && !er.isNil && !er.top && (er.nonNil || len(er.locs) > 0)
			if er.bot() {
				return
			}
		}
		for k, r := range x.Results {
			if failed && k != i {
				continue
			}
			e.join(c.ret[k], c.use(r, b))
		}
		for l, n := range c.cur {
			m := e.node(fmt.Sprintf("%s>%d%s", c.key(c.fn), l.o.id, l.path), "alt")
			e.addAlt(m, n)
			c.out[l] = m
		}
	case *ssa.Store:
		v := c.use(x.Val, b)
		for _, l := range locsOf(c.get(x.Addr)) {
			c.store(l, v, x.Val.Type(), b)
		}
	case *ssa.MapUpdate:
		for _, l := range locsOf(c.get(x.Map)) {
			o := l.o
			if o.kind != "map" {
				continue
			}
			k := c.use(x.Key, b)
			if o.keys == nil {
				o.keys = keptAV()
			}
			e.join(o.keys, k)
			name := "*"
			if n := e.alt(c.key(in)+"k", k); n != nil {
				if s, ok := litOf(n, 0); ok {
					name = "=" + s
				}
			}
			c.store(gloc{o, name}, c.use(x.Value, b), x.Value.Type(), nil)
		}
	case *ssa.Call:
		c.call(b, x, x)
	case *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Panic, *ssa.DebugRef, *ssa.Send:
	case ssa.Value:
		if a := c.value(b, x); a != nil {
			c.set(x, a)
		}
	}
}

// runsOnce: is this the test of a loop over a list with an element?
func (c *gctx) runsOnce(b *ssa.BasicBlock, cond ssa.Value) bool {
	x, ok := cond.(*ssa.BinOp)
	if !ok || c.e.forced == nil || x.Op != token.LSS {
		return false
	}
	l, ok := x.Y.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := l.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return false
	}
	for _, m := range locsOf(c.get(l.Call.Args[0])) {
		if !c.e.forced(m.o) {
			return false
		}
	}
	return len(c.get(l.Call.Args[0]).locs) > 0
}

func (c *gctx) value(b *ssa.BasicBlock, v ssa.Value) *gav {
	e := c.e
	switch x := v.(type) {
	case *ssa.Alloc:
		o := e.obj(c.key(v), "alloc", v)
		o.block, o.typ = b, deref(x.Type())
		if isBuilder(x.Type()) {
			c.cur[gloc{o, ""}] = e.lit("")
		}
		return avLoc(o, "")
	case *ssa.Phi:
		out := newAV()
		for i, p := range b.Preds {
			if c.edges[[2]int{p.Index, b.Index}] {
				e.join(out, c.narrow(x.Edges[i], c.get(x.Edges[i]), p, b))
			}
		}
		if isStringType(x.Type()) {
			n := e.alt(c.key(v)+"phi", out)
			m := e.node(c.key(v)+"phi", "alt")
			for k := range out.strs {
				e.addAlt(m, k)
			}
			if n == nil {
				return nil
			}
			return avStr(m)
		}
		return out
	case *ssa.FieldAddr:
		out := newAV()
		for _, l := range locsOf(c.get(x.X)) {
			e.join(out, avLoc(l.o, fieldPath(l, deref(x.X.Type()), x.Field)))
		}
		return out
	case *ssa.Field:
		out := newAV()
		for _, l := range locsOf(c.get(x.X)) {
			e.join(out, e.load(gloc{l.o, fieldPath(l, x.X.Type(), x.Field)}, x.Type()))
		}
		if c.get(x.X).top {
			out.top = true
		}
		return out
	case *ssa.IndexAddr:
		out := newAV()
		for _, l := range locsOf(c.get(x.X)) {
			if l.o.kind == "list" {
				e.join(out, avLoc(l.o, "[]"))
				continue
			}
			if k, ok := x.Index.(*ssa.Const); ok {
				e.join(out, avLoc(l.o, fmt.Sprintf("%s[%d]", l.path, k.Int64())))
				continue
			}
			for p := range l.o.fields {
				if strings.HasPrefix(p, l.path+"[") && strings.HasSuffix(p, "]") {
					e.join(out, avLoc(l.o, p))
				}
			}
			// elements that are structures
			for p := range l.o.fields {
				if strings.HasPrefix(p, l.path+"[") {
					if i := strings.Index(p[len(l.path):], "]"); i > 0 {
						e.join(out, avLoc(l.o, p[:len(l.path)+i+1]))
					}
				}
			}
		}
		return out
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := c.get(x.X)
			out := newAV()
			for _, l := range locsOf(a) {
				e.join(out, e.load(l, x.Type()))
			}
			if a.top {
				out.top = true
			}
			return out
		case token.NOT:
			a := c.get(x.X)
			out := newAV()
			for _, k := range a.consts {
				if k.Kind() == constant.Bool {
					e.join(out, avBool(!constant.BoolVal(k)))
				}
			}
			out.top = a.top
			return out
		}
		return avTop()
	case *ssa.BinOp:
		return c.binop(b, x)
	case *ssa.ChangeType:
		return c.use(x.X, b)
	case *ssa.Convert:
		a := c.use(x.X, b)
		if isStringType(x.Type()) || isBytes(x.Type()) {
			if len(a.strs) > 0 || a.bot() {
				return a
			}
			return avStr(e.hole("a converted value", "free"))
		}
		return a
	case *ssa.ChangeInterface:
		return c.get(x.X)
	case *ssa.MakeInterface:
		a := c.use(x.X, b)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return avStr(e.hole("a number", "number"))
		}
		return a
	case *ssa.TypeAssert:
		a := c.get(x.X)
		if x.CommaOk {
			return &gav{tuple: []*gav{a, avTop()}}
		}
		return a
	case *ssa.Extract:
		t := c.get(x.Tuple)
		if t.tuple != nil && x.Index < len(t.tuple) {
			return t.tuple[x.Index]
		}
		if t.top {
			return avTop()
		}
		return nil
	case *ssa.MakeClosure:
		f := e.closure(c.key(v), x.Fn.(*ssa.Function))
		for i, bnd := range x.Bindings {
			e.join(f.free[i], c.get(bnd))
		}
		return &gav{fns: map[*gfn]bool{f: true}}
	case *ssa.MakeMap:
		o := e.obj(c.key(v), "map", v)
		return avLoc(o, "")
	case *ssa.MakeSlice:
		o := e.obj(c.key(v), "list", v)
		if len(o.prods) == 0 {
			if k, ok := x.Len.(*ssa.Const); ok && k.Int64() == 0 {
				o.prods = []*gprod{{kind: "lit"}}
			} else {
				f := keptAV()
				o.fields["[]"] = f
				o.prods = []*gprod{{kind: "star", base: f}}
			}
		}
		return avLoc(o, "")
	case *ssa.Slice:
		a := c.get(x.X)
		if isStringType(x.X.Type()) {
			n := e.alt(c.key(v)+"s", a)
			if n == nil {
				return nil
			}
			return avStr(e.un(c.key(v), "fn", "part of", n))
		}
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return a
		}
		arr, ok := pt.Elem().Underlying().(*types.Array)
		if !ok {
			return a
		}
		out := newAV()
		for _, l := range locsOf(a) {
			o := e.obj(c.key(v)+fmt.Sprint(l.o.id), "list", v)
			if len(o.prods) == 0 {
				o.prods = []*gprod{{kind: "lit"}}
				for i := int64(0); i < arr.Len(); i++ {
					o.prods[0].elems = append(o.prods[0].elems, keptAV())
				}
			}
			for i := int64(0); i < arr.Len(); i++ {
				p := fmt.Sprintf("%s[%d]", l.path, i)
				if _, isStruct := arr.Elem().Underlying().(*types.Struct); isStruct {
					e.join(o.prods[0].elems[i], avLoc(l.o, p))
				} else if f, ok := l.o.fields[p]; ok {
					e.join(o.prods[0].elems[i], f)
				}
			}
			e.join(out, avLoc(o, ""))
		}
		return out
	case *ssa.Lookup:
		a := c.get(x.X)
		if isStringType(x.X.Type()) {
			return avTop()
		}
		k := c.use(x.Index, b)
		out := newAV()
		miss := false
		name := "*"
		if n := e.alt(c.key(v)+"k", k); n != nil {
			if s, ok := litOf(n, 0); ok {
				name = "=" + s
			}
			for _, l := range locsOf(a) {
				for p := range l.o.fields {
					if strings.HasPrefix(p, "=") {
						e.told(n, p[1:])
					}
				}
			}
		}
		hit := false
		for _, l := range locsOf(a) {
			if f, ok := l.o.fields[name]; ok {
				e.join(out, f)
				hit = true
				continue
			}
			miss = true
			if name == "*" {
				for _, f := range l.o.fields {
					e.join(out, f)
					hit = true
				}
			} else if f, ok := l.o.fields["*"]; ok {
				e.join(out, f)
				hit = true
			}
		}
		mt, _ := x.X.Type().Underlying().(*types.Map)
		if mt != nil && (miss || a.isNil) && !k.bot() {
			e.join(out, e.zero(e.obj(c.key(v), "alloc", v), "", mt.Elem()))
		}
		if x.CommaOk {
			ok := newAV()
			if hit {
				e.join(ok, avBool(true))
			}
			if (miss || a.isNil) && !k.bot() {
				e.join(ok, avBool(false))
			}
			if a.top {
				ok.top, out.top = true, true
			}
			return &gav{tuple: []*gav{out, ok}}
		}
		if a.top {
			out.top = true
		}
		return out
	case *ssa.Range:
		return c.get(x.X)
	case *ssa.Next:
		a := c.get(x.Iter)
		k, val := newAV(), newAV()
		for _, l := range locsOf(a) {
			if l.o.keys != nil {
				e.join(k, l.o.keys)
			}
			for _, f := range l.o.fields {
				e.join(val, f)
			}
		}
		if x.IsString {
			k, val = avTop(), avTop()
		}
		return &gav{tuple: []*gav{avTop(), k, val}}
	}
	return avTop()
}

func (e *gram) closure(key string, fn *ssa.Function) *gfn {
	if f, ok := e.ids2()[key]; ok {
		return f
	}
	f := &gfn{fn: fn}
	for range fn.FreeVars {
		f.free = append(f.free, keptAV())
	}
	e.ids2()[key] = f
	return f
}

var gclosures = map[*gram]map[string]*gfn{}

func (e *gram) ids2() map[string]*gfn {
	if gclosures[e] == nil {
		gclosures[e] = map[string]*gfn{}
	}
	return gclosures[e]
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func fieldPath(l gloc, t types.Type, i int) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return l.path + ".?"
	}
	return l.path + "." + st.Field(i).Name()
}

// told hands on that a text is compared with c.
func (e *gram) told(n *gn, c string) {
	if e.compared != nil && n != nil {
		e.compared(n, c)
	}
}

func (c *gctx) binop(b *ssa.BasicBlock, x *ssa.BinOp) *gav {
	e := c.e
	if x.Op == token.ADD && isStringType(x.Type()) {
		l, r := e.alt(c.key(x)+"l", c.use(x.X, b)), e.alt(c.key(x)+"r", c.use(x.Y, b))
		return avStr(e.cat(c.key(x), l, r))
	}
	l, r := c.get(x.X), c.get(x.Y)
	if l.bot() || r.bot() {
		return nil
	}
	eq := x.Op == token.EQL
	if eq || x.Op == token.NEQ {
		if isStringType(x.X.Type()) {
			ln, rn := e.alt(c.key(x)+"l", l), e.alt(c.key(x)+"r", r)
			a, okA := litOf(ln, 0)
			z, okB := litOf(rn, 0)
			if okA {
				e.told(rn, a)
			}
			if okB {
				e.told(ln, z)
			}
			if okA && okB {
				return avBool((a == z) == eq)
			}
			la, okL := litsOf(ln)
			lz, okR := litsOf(rn)
			if okL && okR {
				in := map[string]bool{}
				for _, t := range la {
					in[t] = true
					e.told(rn, t)
				}
				same, differ := false, len(la) > 1 || len(lz) > 1
				for _, t := range lz {
					e.told(ln, t)
					same = same || in[t]
				}
				return e.either(same, differ || !same, eq)
			}
			other := ln
			if okA {
				other, okB, z = rn, true, a
			}
			if okB && z == "" {
				em, so := mayBe(other, map[*gn]bool{})
				return e.either(em == true, so, eq)
			}
			return avTop()
		}
		if isNilConst(x.Y) || isNilConst(x.X) {
			o := l
			if isNilConst(x.X) {
				o = r
			}
			some := o.nonNil || len(o.locs) > 0 || len(o.fns) > 0 || len(o.strs) > 0
			return e.either(o.isNil || o.top, some || o.top, eq)
		}
	}
	// the length of a text
	if call, ok := x.X.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && isStringType(call.Call.Args[0].Type()) {
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
				n := e.alt(c.key(x)+"l", c.get(call.Call.Args[0]))
				em, so := mayBe(n, map[*gn]bool{})
				switch x.Op {
				case token.EQL:
					return e.either(em, so, true)
				case token.NEQ, token.GTR:
					return e.either(em, so, false)
				}
			}
		}
	}
	if len(l.consts) == 1 && len(r.consts) == 1 && !l.top && !r.top {
		for _, a := range l.consts {
			for _, z := range r.consts {
				if a.Kind() == z.Kind() || a.Kind() == constant.Int && z.Kind() == constant.Int {
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
						if a.Kind() == constant.Bool && x.Op != token.EQL && x.Op != token.NEQ {
							return avTop()
						}
						return avBool(constant.Compare(a, x.Op, z))
					}
				}
			}
		}
	}
	return avTop()
}

// litsOf are the texts that n chooses from, if they are all known.
func litsOf(n *gn) ([]string, bool) {
	if n == nil {
		return nil, false
	}
	var out []string
	kids, _ := flat(n)
	for _, k := range kids {
		s, ok := litOf(k, 0)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, len(out) > 0
}

// either is the outcome of a test that holds in one of two cases.
func (e *gram) either(a, b, eq bool) *gav {
	out := newAV()
	if a {
		e.join(out, avBool(eq))
	}
	if b {
		e.join(out, avBool(!eq))
	}
	return out
}

// write appends a text to what a writer holds.
func (c *gctx) write(w *gav, n *gn, key string) {
	if n == nil {
		return
	}
	for _, l := range locsOf(w) {
		cur, ok := c.cur[l]
		if !ok {
			cur = c.e.lit("")
		}
		c.cur[l] = c.e.cat(fmt.Sprintf("%s/%d%s", key, l.o.id, l.path), cur, n)
	}
}

func (c *gctx) call(b *ssa.BasicBlock, x ssa.CallInstruction, v ssa.Value) {
	e := c.e
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		c.builtin(b, x, v, bi.Name())
		return
	}
	var args []*gav
	for _, a := range cc.Args {
		args = append(args, c.use(a, b))
	}
	type target struct {
		fn   *ssa.Function
		free []*gav
		args []*gav
	}
	var ts []target
	if fn := cc.StaticCallee(); fn != nil {
		t := target{fn: fn, args: args}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, bnd := range mc.Bindings {
				t.free = append(t.free, c.get(bnd))
			}
		}
		ts = append(ts, t)
	} else if cc.IsInvoke() {
		recv := c.get(cc.Value)
		if recv.bot() {
			return
		}
		for _, l := range locsOf(recv) {
			if l.o.kind == "src" && types.IsInterface(l.o.typ) {
				for _, fn := range e.u.implementations(cc) {
					rt := fn.Signature.Recv().Type()
					ts = append(ts, target{fn: fn, args: append([]*gav{e.srcValue(l.o.src+"("+types.TypeString(rt, relativeTo)+")", rt)}, args...)})
				}
				continue
			}
			if l.o.typ == nil || l.path != "" {
				continue
			}
			for _, rt := range []types.Type{types.NewPointer(l.o.typ), l.o.typ} {
				if fn := e.u.Prog.LookupMethod(rt, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
					ts = append(ts, target{fn: fn, args: append([]*gav{avLoc(l.o, "")}, args...)})
					break
				}
			}
		}
		if isBuilderCall(cc) {
			ts = nil
			if c.text(b, x, v, "strings.(Builder)."+cc.Method.Name(), append([]*gav{recv}, args...)) {
				return
			}
		}
	} else {
		if c.get(cc.Value).bot() {
			return
		}
		for f := range c.get(cc.Value).fns {
			ts = append(ts, target{fn: f.fn, free: f.free, args: args})
		}
		sort.Slice(ts, func(i, j int) bool { return fnName(ts[i].fn) < fnName(ts[j].fn) })
	}
	done := false
	for _, t := range ts {
		if !inRepo(t.fn) || len(t.fn.Blocks) == 0 {
			continue
		}
		done = true
		var k *gctx
		for p := c; p != nil; p = p.parent {
			if p.fn == t.fn {
				k = p
			}
		}
		if k == nil && c.depth > 14 {
			c.unknownCall(x, v)
			continue
		}
		if k == nil {
			k = e.ctx(c, t.fn, fmt.Sprintf("%d.%d", e.idOf(x), e.idOf(t.fn)))
		}
		for i := range t.args {
			if i < len(k.args) {
				e.join(k.args[i], t.args[i])
			}
		}
		for i := range t.free {
			if i < len(k.free) {
				e.join(k.free[i], t.free[i])
			}
		}
		for l, n := range c.cur {
			m := e.node(fmt.Sprintf("%s<%d%s", k.key(k.fn), l.o.id, l.path), "alt")
			e.addAlt(m, n)
			k.in[l] = m
		}
		cur := c.cur
		k.eval()
		c.cur = cur
		for l, n := range k.out {
			c.cur[l] = n
		}
		switch len(k.ret) {
		case 0:
		case 1:
			c.set(v, k.ret[0])
		default:
			any := false
			for _, r := range k.ret {
				any = any || !r.bot()
			}
			if any {
				c.set(v, &gav{tuple: k.ret})
			}
		}
	}
	if done {
		return
	}
	n := callName(x)
	if !cc.IsInvoke() && c.text(b, x, v, n, args) {
		return
	}
	c.unknownCall(x, v)
}

func relativeTo(p *types.Package) string { return p.Name() }

func isBuilderCall(cc *ssa.CallCommon) bool {
	return strings.HasPrefix(cc.Method.Name(), "Write")
}

// unknownCall gives the results of a call that is not followed.
func (c *gctx) unknownCall(x ssa.CallInstruction, v ssa.Value) {
	rs := x.Common().Signature().Results()
	one := func(t types.Type) *gav {
		if isStringType(t) {
			return avStr(c.e.hole("result of "+shortName(callName(x)), "free"))
		}
		return avTop()
	}
	switch rs.Len() {
	case 0:
	case 1:
		c.set(v, one(rs.At(0).Type()))
	default:
		t := &gav{}
		for i := 0; i < rs.Len(); i++ {
			t.tuple = append(t.tuple, one(rs.At(i).Type()))
		}
		c.set(v, t)
	}
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (c *gctx) builtin(b *ssa.BasicBlock, x ssa.CallInstruction, v ssa.Value, name string) {
	e := c.e
	switch name {
	case "append":
		args := x.Common().Args
		a := c.get(args[0])
		if isBytes(v.Type()) {
			l := e.alt(c.key(x)+"l", a)
			if a.isNil && l == nil {
				l = e.lit("")
			}
			if len(args) > 1 {
				c.set(v, avStr(e.cat(c.key(x), l, e.alt(c.key(x)+"r", c.use(args[1], b)))))
			} else {
				c.set(v, a)
			}
			return
		}
		o := e.obj(c.key(v), "list", v)
		if len(o.prods) == 0 {
			o.prods = []*gprod{{kind: "cat", base: keptAV(), tail: keptAV()}}
		}
		e.join(o.prods[0].base, a)
		if len(args) > 1 {
			t := c.get(args[1])
			if t.bot() {
				return
			}
			e.join(o.prods[0].tail, t)
		}
		if !a.bot() {
			c.set(v, avLoc(o, ""))
		}
	case "len", "cap", "copy", "min", "max":
		c.set(v, avTop())
	case "ssa:wrapnilchk":
		c.set(v, c.get(x.Common().Args[0]))
	}
}

// text models the functions of the libraries that make texts.
func (c *gctx) text(b *ssa.BasicBlock, x ssa.CallInstruction, v ssa.Value, n string, args []*gav) bool {
	e := c.e
	at := func(i int) *gn {
		if i >= len(args) {
			return nil
		}
		return e.alt(fmt.Sprintf("%sa%d", c.key(x), i), args[i])
	}
	str := func(m *gn) bool {
		if m != nil {
			c.set(v, avStr(m))
		}
		return true
	}
	konst := func(i int) (string, bool) { return litOf(at(i), 0) }
	switch {
	case n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "fmt.Sprintln" || n == "fmt.Fprintln":
		i := 0
		if strings.HasPrefix(n, "fmt.F") {
			i = 1
		}
		var m *gn
		if strings.HasSuffix(n, "f") {
			m = c.format(x, at(i), args[i+1])
		} else {
			m = c.print(x, args[i], strings.HasSuffix(n, "ln"))
		}
		if i == 1 {
			c.write(args[0], m, c.key(x))
			if v != nil {
				c.set(v, &gav{tuple: []*gav{avTop(), avNil()}})
			}
			return true
		}
		return str(m)
	case n == "errors.New" || n == "fmt.Errorf" || strings.HasPrefix(n, "errors.") && isError(v.Type()):
		c.set(v, &gav{nonNil: true})
		return true
	case n == "strings.Join":
		if args[0].bot() || at(1) == nil {
			return true
		}
		m := e.node(c.key(x), "join")
		if m.list == nil {
			m.list = keptAV()
		}
		e.join(m.list, args[0])
		m.kids = []*gn{at(1)}
		return str(m)
	case n == "strings.Repeat":
		if k, ok := x.Common().Args[1].(*ssa.Const); ok {
			if s, ok := konst(0); ok && k.Int64() >= 0 && k.Int64() < 100 {
				return str(e.lit(strings.Repeat(s, int(k.Int64()))))
			}
		}
		if cs := args[1].consts; len(cs) == 1 && !args[1].top {
			for _, k := range cs {
				if s, ok := konst(0); ok {
					if i, ok := constant.Int64Val(k); ok && i >= 0 && i < 100 {
						return str(e.lit(strings.Repeat(s, int(i))))
					}
				}
			}
		}
		if at(0) == nil {
			return true
		}
		return str(e.un(c.key(x), "rep", "", at(0)))
	case n == "strings.Split" || n == "strings.SplitN" || n == "strings.SplitAfter" || n == "strings.Fields" || n == "strings.FieldsFunc":
		if at(0) == nil {
			return true
		}
		var m *gn
		switch sep, ok := "", n == "strings.Fields"; {
		case n == "strings.Split":
			sep, ok = konst(1)
			if ok && sep == "\n" {
				m = e.un(c.key(x), "nonl", "", at(0))
				break
			}
			m = e.un(c.key(x), "fn", "part of", at(0))
		case ok:
			m = e.un(c.key(x), "nonl", "", at(0))
		default:
			m = e.un(c.key(x), "fn", "part of", at(0))
		}
		o := e.obj(c.key(v), "list", v)
		if len(o.prods) == 0 {
			o.prods = []*gprod{{kind: "star", base: keptAV()}}
		}
		e.join(o.prods[0].base, avStr(m))
		c.set(v, avLoc(o, ""))
		return true
	case strings.HasPrefix(n, "strings.Trim"):
		if at(0) == nil {
			return true
		}
		return str(e.un(c.key(x), "trim", shortName(n), at(0)))
	case n == "strings.ReplaceAll" || n == "strings.Replace":
		if at(0) == nil {
			return true
		}
		from, ok := konst(1)
		to, ok2 := konst(2)
		all := n == "strings.ReplaceAll"
		if n == "strings.Replace" {
			k, isK := x.Common().Args[3].(*ssa.Const)
			all = isK && k.Int64() < 0
		}
		if ok && ok2 && all {
			m := at(0)
			switch {
			case from == "\n" && !strings.Contains(to, "\n"):
				return str(e.un(c.key(x), "nonl", "", m))
			case from == "`" && !strings.Contains(to, "`"):
				return str(e.un(c.key(x), "nobt", "", m))
			}
		}
		return str(e.un(c.key(x), "fn", n, at(0)))
	case n == "strconv.Quote" || n == "strconv.QuoteToASCII" || n == "strconv.QuoteToGraphic":
		if at(0) == nil {
			return true
		}
		return str(e.un(c.key(x), "quote", "", at(0)))
	case n == "strconv.Itoa" || n == "strconv.FormatInt" || n == "strconv.FormatUint":
		return str(e.hole("a number", "number"))
	case n == "go/format.Source":
		if at(0) == nil {
			return true
		}
		c.set(v, &gav{tuple: []*gav{avStr(at(0)), avNil()}})
		return true
	case n == "text/template.New" || n == "html/template.New":
		o := e.obj(c.key(v), "tmpl", v)
		c.set(v, avLoc(o, ""))
		return true
	case strings.HasSuffix(n, "template.(Template).Parse"):
		if at(1) == nil {
			return true
		}
		for _, l := range locsOf(args[0]) {
			if l.o.text == nil {
				l.o.text = keptAV()
			}
			e.join(l.o.text, args[1])
		}
		c.set(v, &gav{tuple: []*gav{args[0], avNil()}})
		return true
	case strings.HasSuffix(n, "template.(Template).Option") || strings.HasSuffix(n, "template.(Template).Delims") || strings.HasSuffix(n, "template.(Template).Funcs"):
		if strings.HasSuffix(n, "Option") {
			c.set(v, args[0])
			return true
		}
		return false
	case strings.HasSuffix(n, "template.Must"):
		c.set(v, args[0])
		return true
	case strings.HasSuffix(n, "template.(Template).Execute"):
		if args[2].bot() {
			return true
		}
		m := c.execute(x, args[0], args[2])
		if m != nil {
			c.write(args[1], m, c.key(x))
			c.set(v, avNil())
		}
		return true
	case strings.HasPrefix(n, "strings.(Builder).") || strings.HasPrefix(n, "bytes.(Buffer)."):
		switch n[strings.LastIndex(n, ".")+1:] {
		case "WriteString", "Write":
			c.write(args[0], at(1), c.key(x))
			if v != nil {
				c.set(v, &gav{tuple: []*gav{avTop(), avNil()}})
			}
		case "WriteByte", "WriteRune":
			m := e.hole("a character", "free")
			if k, ok := x.Common().Args[len(x.Common().Args)-1].(*ssa.Const); ok {
				m = e.lit(string(rune(k.Int64())))
			}
			c.write(args[0], m, c.key(x))
			if v != nil {
				c.set(v, avTop())
				if isError(v.Type()) {
					c.vals[v] = avNil()
				}
			}
		case "String", "Bytes":
			for _, l := range locsOf(args[0]) {
				if m, ok := c.cur[l]; ok {
					c.set(v, avStr(m))
				} else {
					c.set(v, avStr(e.lit("")))
				}
			}
		case "Len":
			c.set(v, avTop())
		case "Reset":
			for _, l := range locsOf(args[0]) {
				c.cur[l] = e.lit("")
			}
		}
		return true
	case n == "io.WriteString":
		c.write(args[0], at(1), c.key(x))
		c.set(v, &gav{tuple: []*gav{avTop(), avNil()}})
		return true
	case n == "strings.Map":
		m := at(1)
		if m == nil || args[0].bot() {
			return true
		}
		word := len(args[0].fns) > 0 && !args[0].top
		for f := range args[0].fns {
			word = word && c.mapsToWords(x, f)
		}
		r := e.un(c.key(x), "fn", "replaced", m)
		if word {
			r.class = "word"
		}
		return str(r)
	case strings.HasSuffix(n, "regexp.(Regexp).ReplaceAllString") || strings.HasSuffix(n, "regexp.(Regexp).ReplaceAllLiteralString"):
		if at(1) == nil {
			return true
		}
		m := e.un(c.key(x), "fn", "replaced", at(1))
		to, ok := konst(2)
		if pat, ok2 := c.pattern(x.Common().Args[0]); ok && ok2 && !strings.Contains(to, "$") {
			if wordOnly(pat, to) {
				m.class = "word"
			}
		}
		return str(m)
	case strings.HasPrefix(n, "strings.") || strings.Contains(n, "strcase.") || strings.HasPrefix(n, "path.") || strings.HasPrefix(n, "path/filepath.") || strings.Contains(n, "wordwrap."):
		rs := x.Common().Signature().Results()
		if rs.Len() == 1 && isStringType(rs.At(0).Type()) && at(0) != nil && isStringType(x.Common().Args[0].Type()) {
			m := e.un(c.key(x), "fn", shortName(n), at(0))
			return str(m)
		}
	}
	return false
}

// pattern is the expression of a compiled regular expression.
func (c *gctx) pattern(v ssa.Value) (string, bool) {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return c.e.u.globalRE(g)
		}
	}
	return "", false
}

// wordOnly: are only letters, digits and underscores left when everything that
// matches is replaced?
// mapsToWords: does f give letters, digits and underscores, or nothing, for every rune?
func (c *gctx) mapsToWords(x ssa.CallInstruction, f *gfn) bool {
	if len(f.fn.Blocks) == 0 || len(f.fn.Params) != 1 {
		return false
	}
	cuts := map[int64]bool{0: true}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if _, ok := call.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
					n := k.Int64()
					cuts[n], cuts[n+1] = true, true
				}
			}
		}
	}
	word := func(r int64) bool {
		return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	}
	var cells []int64
	for k := range cuts {
		if k >= 0 {
			cells = append(cells, k)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i] < cells[j] })
	for i, lo := range cells {
		hi := int64(0x10ffff)
		if i+1 < len(cells) {
			hi = cells[i+1] - 1
		}
		e := newGram(c.e.u)
		k := e.ctx(nil, f.fn, "")
		e.join(k.args[0], avConst(constant.MakeInt64(lo)))
		for j, v := range f.free {
			e.join(k.free[j], v)
		}
		if !e.run(func() []*gctx { return []*gctx{k} }) || k.ret[0].top || len(k.ret[0].consts) == 0 {
			return false
		}
		for _, v := range k.ret[0].consts {
			n, ok := constant.Int64Val(v)
			if !ok {
				return false
			}
			if n == lo {
				for r := lo; r <= hi; r++ {
					if !word(r) {
						return false
					}
				}
			} else if n >= 0 && !word(n) {
				return false
			}
		}
	}
	return true
}

func wordOnly(pat, to string) bool {
	re, err := compileRE(pat)
	if err != nil {
		return false
	}
	word := func(r rune) bool {
		return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	}
	for _, r := range to {
		if !word(r) {
			return false
		}
	}
	if !strings.HasPrefix(pat, "[^") {
		return false
	}
	for r := rune(0); r < 0x3000; r++ {
		if !word(r) && !re.MatchString(string(r)) {
			return false
		}
	}
	return re.MatchString("\U0001F600") && re.MatchString("\uFFFD")
}

// format is the text of a format with its arguments.
func (c *gctx) format(x ssa.CallInstruction, f *gn, list *gav) *gn {
	e := c.e
	if f == nil {
		return nil
	}
	text, ok := litOf(f, 0)
	if !ok {
		return e.hole("a format that is not fixed", "free")
	}
	var elems []*gav
	for _, l := range locsOf(list) {
		for _, p := range l.o.prods {
			if p.kind == "lit" {
				elems = p.elems
			}
		}
	}
	var kids []*gn
	k := 0
	lit := ""
	flush := func() {
		if lit != "" {
			kids = append(kids, e.lit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(text); i++ {
		if text[i] != '%' {
			lit += text[i : i+1]
			continue
		}
		i++
		for i < len(text) && strings.IndexByte("+-# 0123456789.", text[i]) >= 0 {
			i++
		}
		if i >= len(text) {
			break
		}
		if text[i] == '%' {
			lit += "%"
			continue
		}
		flush()
		if k >= len(elems) {
			return e.hole("a format without its argument", "free")
		}
		n := e.alt(fmt.Sprintf("%sf%d", c.key(x), k), elems[k])
		if n == nil && !elems[k].bot() {
			n = e.hole("a formatted value", "free")
		}
		if n == nil {
			return nil
		}
		switch text[i] {
		case 'q':
			n = e.un(fmt.Sprintf("%sq%d", c.key(x), k), "quote", "", n)
		case 's', 'v':
		case 'd':
			if n.kind != "hole" || n.class != "number" {
				n = e.hole("a number", "number")
			}
		default:
			n = e.hole("a formatted value", "free")
		}
		kids = append(kids, n)
		k++
	}
	flush()
	if len(kids) == 0 {
		return e.lit("")
	}
	return e.cat(c.key(x)+"fmt", kids...)
}

func (c *gctx) print(x ssa.CallInstruction, list *gav, ln bool) *gn {
	e := c.e
	var kids []*gn
	for _, l := range locsOf(list) {
		for _, p := range l.o.prods {
			for k, el := range p.elems {
				n := e.alt(fmt.Sprintf("%sf%d", c.key(x), k), el)
				if n == nil {
					return nil
				}
				if ln && k > 0 {
					kids = append(kids, e.lit(" "))
				}
				kids = append(kids, n)
			}
		}
	}
	if ln {
		kids = append(kids, e.lit("\n"))
	}
	if len(kids) == 0 {
		return e.lit("")
	}
	return e.cat(c.key(x)+"pr", kids...)
}

// execute is the text of a template with its data.
func (c *gctx) execute(x ssa.CallInstruction, t, data *gav) *gn {
	e := c.e
	out := newAV()
	for _, l := range locsOf(t) {
		if l.o.text == nil {
			return nil
		}
		n := e.alt(c.key(x)+"tx", l.o.text)
		text, ok := litOf(n, 0)
		if !ok {
			e.unknown["a template that is not fixed"] = x.(ssa.Instruction)
			return e.hole("a template that is not fixed", "free")
		}
		trees, err := parse.Parse("t", text, "", "", map[string]interface{}{"printf": 1, "print": 1, "len": 1, "eq": 1, "ne": 1, "not": 1, "and": 1, "or": 1, "index": 1, "println": 1, "js": 1, "html": 1, "urlquery": 1})
		if err != nil || trees["t"] == nil {
			e.unknown["a template that does not parse"] = x.(ssa.Instruction)
			return e.hole("a template that does not parse", "free")
		}
		tx := &tmplx{c: c, at: x, dot: data, root: data}
		m := tx.list(trees["t"].Root, "0")
		if m == nil {
			return nil
		}
		e.join(out, avStr(m))
	}
	return e.alt(c.key(x)+"ex", out)
}

type tmplx struct {
	c    *gctx
	at   ssa.CallInstruction
	dot  *gav
	root *gav
}

func (t *tmplx) key(p string) string { return t.c.key(t.at) + "#" + p }

func (t *tmplx) list(l *parse.ListNode, p string) *gn {
	e := t.c.e
	if l == nil {
		return e.lit("")
	}
	var kids []*gn
	for i, n := range l.Nodes {
		q := fmt.Sprintf("%s.%d", p, i)
		var k *gn
		switch x := n.(type) {
		case *parse.TextNode:
			k = e.lit(string(x.Text))
		case *parse.CommentNode:
			continue
		case *parse.ActionNode:
			v := t.pipe(x.Pipe, q)
			if v == nil {
				return nil
			}
			k = e.alt(t.key(q), v)
		case *parse.IfNode:
			v := t.pipe(x.Pipe, q)
			if v == nil {
				return nil
			}
			em, so := true, true
			if n := e.alt(t.key(q+"c"), v); n != nil && !v.top {
				em, so = mayBe(n, map[*gn]bool{})
			}
			m := newAV()
			if so {
				y := t.list(x.List, q+"t")
				if y == nil {
					return nil
				}
				e.join(m, avStr(y))
			}
			if em {
				y := t.list(x.ElseList, q+"e")
				if y == nil {
					return nil
				}
				e.join(m, avStr(y))
			}
			k = e.alt(t.key(q), m)
		case *parse.RangeNode:
			v := t.pipe(x.Pipe, q)
			if v == nil {
				return nil
			}
			el := newAV()
			e.elems(el, v, map[*gobj]bool{})
			in := &tmplx{c: t.c, at: t.at, dot: el, root: t.root}
			y := in.list(x.List, q+"r")
			if y == nil {
				if v.bot() {
					return nil
				}
				y = e.lit("")
			}
			k = e.un(t.key(q), "rep", "", y)
		default:
			e.unknown["a template action that is not followed"] = t.at.(ssa.Instruction)
			k = e.hole("a template action that is not followed", "free")
		}
		if k == nil {
			return nil
		}
		kids = append(kids, k)
	}
	if len(kids) == 0 {
		return e.lit("")
	}
	return e.cat(t.key(p+"l"), kids...)
}

// pipe is the value of a pipeline.
func (t *tmplx) pipe(p *parse.PipeNode, q string) *gav {
	e := t.c.e
	var last *gav
	for i, cmd := range p.Cmds {
		r := fmt.Sprintf("%s|%d", q, i)
		var args []*gav
		for _, a := range cmd.Args[1:] {
			v := t.operand(a, r)
			if v == nil {
				return nil
			}
			args = append(args, v)
		}
		if last != nil {
			args = append(args, last)
		}
		id, isFn := cmd.Args[0].(*parse.IdentifierNode)
		if !isFn {
			last = t.operand(cmd.Args[0], r)
			if last == nil {
				return nil
			}
			continue
		}
		switch id.Ident {
		case "printf":
			o := e.obj(t.key(r), "list", nil)
			if len(o.prods) == 0 {
				o.prods = []*gprod{{kind: "lit"}}
				for range args[1:] {
					o.prods[0].elems = append(o.prods[0].elems, keptAV())
				}
			}
			for k := range args[1:] {
				e.join(o.prods[0].elems[k], args[k+1])
			}
			f, ok := litOf(e.alt(t.key(r+"f"), args[0]), 0)
			if !ok {
				return avStr(e.hole("a format that is not fixed", "free"))
			}
			n := t.format(f, o.prods[0].elems, r)
			if n == nil {
				return nil
			}
			last = avStr(n)
		case "print":
			var kids []*gn
			for k, a := range args {
				n := e.alt(t.key(fmt.Sprintf("%sp%d", r, k)), a)
				if n == nil {
					return nil
				}
				kids = append(kids, n)
			}
			last = avStr(e.cat(t.key(r+"pr"), kids...))
		case "eq", "ne", "not", "and", "or", "len":
			last = avTop()
		default:
			e.unknown["a template function that is not followed"] = t.at.(ssa.Instruction)
			last = avStr(e.hole("a template function that is not followed", "free"))
		}
	}
	return last
}

func (t *tmplx) format(f string, elems []*gav, r string) *gn {
	e := t.c.e
	var kids []*gn
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] == '%' && i+1 < len(f) && f[i+1] != '%' {
			i++
			if k >= len(elems) {
				return e.hole("a format without its argument", "free")
			}
			n := e.alt(t.key(fmt.Sprintf("%sf%d", r, k)), elems[k])
			if n == nil {
				return nil
			}
			switch f[i] {
			case 'q':
				n = e.un(t.key(fmt.Sprintf("%sq%d", r, k)), "quote", "", n)
			case 's', 'v':
			default:
				n = e.hole("a formatted value", "free")
			}
			kids = append(kids, n)
			k++
			continue
		}
		kids = append(kids, e.lit(f[i:i+1]))
		if f[i] == '%' {
			i++
		}
	}
	return e.cat(t.key(r+"fm"), kids...)
}

func (t *tmplx) operand(n parse.Node, r string) *gav {
	e := t.c.e
	switch x := n.(type) {
	case *parse.StringNode:
		return avStr(e.lit(x.Text))
	case *parse.DotNode:
		return t.dot
	case *parse.FieldNode:
		v := t.dot
		for _, f := range x.Ident {
			v = t.member(v, f)
			if v == nil {
				return nil
			}
		}
		return v
	case *parse.VariableNode:
		if len(x.Ident) > 0 && x.Ident[0] == "$" {
			v := t.root
			for _, f := range x.Ident[1:] {
				v = t.member(v, f)
				if v == nil {
					return nil
				}
			}
			return v
		}
	case *parse.PipeNode:
		return t.pipe(x, r+"p")
	}
	e.unknown["a template operand that is not followed"] = t.at.(ssa.Instruction)
	return avStr(e.hole("a template operand that is not followed", "free"))
}

// member is a field or an entry of v.
func (t *tmplx) member(v *gav, f string) *gav {
	e := t.c.e
	out := newAV()
	for _, l := range locsOf(v) {
		if l.o.kind == "map" {
			if x, ok := l.o.fields["="+f]; ok {
				e.join(out, x)
			} else if x, ok := l.o.fields["*"]; ok {
				e.join(out, x)
			} else {
				e.missing[f] = t.at.(ssa.Instruction)
			}
			continue
		}
		if l.o.typ == nil {
			continue
		}
		o, _, _ := types.LookupFieldOrMethod(l.o.typ, true, nil, f)
		if o == nil {
			o, _, _ = types.LookupFieldOrMethod(types.NewPointer(l.o.typ), true, t.c.fn.Pkg.Pkg, f)
		}
		if fv, ok := o.(*types.Var); ok {
			e.join(out, e.load(gloc{l.o, l.path + "." + f}, fv.Type()))
			continue
		}
		e.missing[f] = t.at.(ssa.Instruction)
	}
	if out.bot() {
		if v.top {
			return avTop()
		}
		return nil
	}
	return out
}
