package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R05, R06 and R07: the RDF/XML reader. Each function that is handed an element
// of the token stream is followed over every sequence of tokens for every kind of
// element and every combination of attribute kinds; the functions that read a
// child are taken by their contract, which is what is checked of them in turn.

const rdfxmlPkg = "rdf/rdfxml"
const rdfNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
const xmlNSName = "http://www.w3.org/XML/1998/namespace"

// attrKind is a kind of attribute: its name, and its value if that matters.
type attrKind struct {
	key, space, local string // "" stands for an unknown name or value
	value             string
}

func rdfAttr(n string) attrKind { return attrKind{key: n, space: rdfNS, local: n} }

var attrKinds = []attrKind{
	rdfAttr("RDF"), rdfAttr("ID"), rdfAttr("about"), rdfAttr("resource"), rdfAttr("nodeID"), rdfAttr("datatype"),
	rdfAttr("li"), rdfAttr("Description"), rdfAttr("aboutEach"), rdfAttr("aboutEachPrefix"), rdfAttr("bagID"), rdfAttr("type"),
	{key: "parseType", space: rdfNS, local: "parseType", value: "Resource"},
	{key: "parseType", space: rdfNS, local: "parseType", value: "Collection"},
	{key: "parseType", space: rdfNS, local: "parseType", value: "Literal"},
	{key: "parseType", space: rdfNS, local: "parseType"},
	{key: "xml:base", space: xmlNSName, local: "base"},
	{key: "xml:lang", space: xmlNSName, local: "lang"},
	{key: "xml:id", space: xmlNSName, local: "id"},
	{key: "property"},
	{key: "unqualified", space: "-", local: ""},
}

func (k attrKind) String() string {
	if k.value != "" {
		return k.key + "=" + k.value
	}
	return k.key
}

func isXMLKind(k string) bool { return strings.HasPrefix(k, "xml:") }

var nodeNames = []string{"", "Description", "RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "li", "aboutEach", "aboutEachPrefix", "bagID"}

// rdfScene is one kind of element.
type rdfScene struct {
	role  string // root, node, property
	name  string // a name of the RDF vocabulary, or "" for any other name
	attrs []attrKind
}

func (c rdfScene) has(key string) bool {
	for _, a := range c.attrs {
		if a.key == key {
			return true
		}
	}
	return false
}

func (c rdfScene) index(key string) int {
	for i, a := range c.attrs {
		if a.key == key {
			return i
		}
	}
	return -1
}

func (c rdfScene) parseType() (string, bool) {
	for _, a := range c.attrs {
		if a.key == "parseType" {
			return a.value, true
		}
	}
	return "", false
}

func (c rdfScene) count(keys ...string) (n int) {
	for _, a := range c.attrs {
		for _, k := range keys {
			if a.key == k {
				n++
			}
		}
	}
	return
}

func (c rdfScene) String() string {
	n := c.name
	if n == "" {
		n = "any other name"
	} else {
		n = "rdf:" + n
	}
	var as []string
	for _, a := range c.attrs {
		as = append(as, a.String())
	}
	if len(as) == 0 {
		as = []string{"none"}
	}
	return fmt.Sprintf("%s element (name: %s; attributes: %s)", c.role, n, strings.Join(as, ", "))
}

// forbidden says why an element of this kind with this content has to be refused.
func (c rdfScene) forbidden(child, text bool) string {
	switch c.role {
	case "root":
		if c.name == "RDF" {
			for _, a := range c.attrs {
				if !isXMLKind(a.key) {
					return "attribute " + a.key + " on rdf:RDF"
				}
			}
		}
		return ""
	case "node":
		switch c.name {
		case "", "Description":
		default:
			return "node element named rdf:" + c.name
		}
		for _, a := range c.attrs {
			switch a.key {
			case "ID", "nodeID", "about", "type", "property":
			default:
				if !isXMLKind(a.key) {
					return "attribute " + a.key + " on a node element"
				}
			}
		}
		if c.count("ID", "nodeID", "about") > 1 {
			return "more than one of rdf:ID, rdf:nodeID and rdf:about"
		}
		return ""
	}
	switch c.name {
	case "", "li":
	default:
		return "property element named rdf:" + c.name
	}
	_, pt := c.parseType()
	for _, a := range c.attrs {
		switch a.key {
		case "ID", "parseType":
		case "resource", "nodeID", "datatype", "type", "property":
			if pt {
				return "attribute " + a.key + " together with rdf:parseType"
			}
			if child {
				return "attribute " + a.key + " on a property element with a node element in it"
			}
			if text && a.key != "datatype" {
				return "attribute " + a.key + " on a property element with text in it"
			}
		default:
			if !isXMLKind(a.key) {
				return "attribute " + a.key + " on a property element"
			}
		}
	}
	if c.count("parseType") > 1 {
		return ""
	}
	if c.count("resource", "nodeID", "datatype") > 1 {
		return "more than one of rdf:resource, rdf:nodeID and rdf:datatype"
	}
	return ""
}

// rdfTS is the state of the document read so far.
type rdfTS struct {
	keep    []pval
	vals    []pval // the values of the attributes
	depth   int
	tok     string // what the last token still asks for
	over    bool   // the element's end was read
	elems   int    // at the top level: elements read
	childs  int
	text    bool // non-blank text was kept and has not reached a statement
	hadText bool
	child   bool // a child's node has not reached a statement
	got     string
	st      string // statements of interest, in R07
}

func (t *rdfTS) clone() pts { c := *t; return &c }
func (t *rdfTS) roots() []int {
	var out []int
	for _, p := range append(append([]pval(nil), t.keep...), t.vals...) {
		if p.k == pSym {
			out = append(out, p.id)
		}
	}
	return out
}
func (t *rdfTS) key(name func(int) string) string {
	k := fmt.Sprintf("%d|%s|%v|%d|%d|%v|%v|%v|%s|%s|", t.depth, t.tok, t.over, t.elems, t.childs, t.text, t.hadText, t.child, t.got, t.st)
	for _, id := range t.roots() {
		k += name(id)
	}
	return k
}
func (t *rdfTS) add(tag string) {
	for _, x := range strings.Split(t.got, ";") {
		if x == tag {
			return
		}
	}
	all := append(strings.Split(t.got, ";"), tag)
	sort.Strings(all)
	t.got = strings.Trim(strings.Join(all, ";"), ";")
}
func (t *rdfTS) has(tag string) bool {
	for _, x := range strings.Split(t.got, ";") {
		if x == tag {
			return true
		}
	}
	return false
}

type rdfDom struct {
	u      *Unit
	r      *Report
	reads  map[*ssa.Function]bool // reads tokens, itself or through callees
	cyclic map[*ssa.Function]bool
	ncname map[*ssa.Function]bool
	roles  map[*ssa.Function]string
	order  []*ssa.Function
	nilArg map[*ssa.Function]map[int]bool // parameters that are always nil
	field  map[string]string              // "xml:base" and "xml:lang": where the parser keeps them
	sc     rdfScene
	root   *ssa.Function
	entry  map[string]pval // the parser's fields at the start
	ctrs   []string        // its fields that count
	parser pval
	subj   pval
	post   bool // identifiers are taken before the counter moves on
	rules  map[string]string
	quiet  bool
	good   map[string]int // successes by kind of element
	goods  int
	seen   map[*ssa.Function]bool
	ids    int
	fails  int
}

func (d *rdfDom) bad(rule, pos, format string, a ...interface{}) {
	d.fails++
	if d.quiet {
		return
	}
	d.r.Bad(rule, fnName(d.root)+" "+d.sc.role, pos, "%s", fmt.Sprintf(format, a...)+" - "+d.sc.String())
}

func isTokenRead(in ssa.CallInstruction) bool {
	cc := in.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Token" && cc.Signature().Params().Len() == 0 && strings.Contains(cc.Method.FullName(), "encoding/xml.")
	}
	switch callName(in) {
	case "encoding/xml.(Decoder).Token", "encoding/xml.(Decoder).RawToken":
		return true
	}
	return false
}

// prepare finds the functions that read tokens, and those in cycles.
func (d *rdfDom) prepare() {
	callees := map[*ssa.Function][]*ssa.Function{}
	var all []*ssa.Function
	for _, fn := range d.u.Funcs {
		if fnPkg(fn) == rdfxmlPkg && len(fn.Blocks) > 0 {
			all = append(all, fn)
		}
	}
	eachInstr(all, func(fn *ssa.Function, in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if isTokenRead(c) {
			d.reads[fn] = true
		}
		if g := c.Common().StaticCallee(); g != nil {
			callees[fn] = append(callees[fn], g)
		} else if !c.Common().IsInvoke() {
			for _, l := range d.u.Leaves(c.Common().Value) {
				switch x := l.(type) {
				case *ssa.Function:
					callees[fn] = append(callees[fn], x)
				case *ssa.MakeClosure:
					callees[fn] = append(callees[fn], x.Fn.(*ssa.Function))
				}
			}
		}
	})
	for changed := true; changed; {
		changed = false
		for _, fn := range all {
			for _, g := range callees[fn] {
				if d.reads[g] && !d.reads[fn] {
					d.reads[fn] = true
					changed = true
				}
			}
		}
	}
	for _, fn := range all {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			for _, g := range callees[f] {
				if g == fn {
					d.cyclic[fn] = true
				}
				if !seen[g] {
					seen[g] = true
					walk(g)
				}
			}
		}
		walk(fn)
	}
}

// ---- what a value carries

func (d *rdfDom) carried(s *pstate, v pval) map[string]bool {
	out := map[string]bool{}
	seen := map[int]bool{}
	var walk func(v pval, depth int)
	obj := func(id int, path string, depth int) {
		if id < 0 || seen[id] && path == "" || depth > 6 {
			return
		}
		if path == "" {
			seen[id] = true
		}
		if o := s.objs[id]; o != nil {
			for _, t := range strings.Split(o.tags, ";") {
				if strings.HasPrefix(t, "c:") {
					out[t[2:]] = true
				}
			}
		}
		for l, x := range s.mem {
			if l.obj == id && strings.HasPrefix(l.path, path) && !strings.Contains(l.path, ".m:") && !strings.Contains(l.path, "?") {
				walk(x, depth+1)
			}
		}
	}
	walk = func(v pval, depth int) {
		switch v.k {
		case pSym:
			obj(v.id, "", depth)
			if r := s.resolve(v); r.k == pAddr {
				obj(r.loc.obj, r.loc.path, depth)
			}
		case pAddr:
			obj(v.loc.obj, v.loc.path, depth)
		case pTuple:
			for _, p := range v.parts {
				walk(p, depth)
			}
		}
	}
	walk(v, 0)
	return out
}

func (d *rdfDom) carry(e *pathEng, s *pstate, site ssa.Value, to pval, from ...pval) pval {
	for _, f := range from {
		for t := range d.carried(s, f) {
			s.addTag(to, "c:"+t)
		}
	}
	return to
}

func (d *rdfDom) derived(e *pathEng, s *pstate, site ssa.Value, from ...pval) pval {
	return d.carry(e, s, site, e.fresh(s, site), from...)
}

// ---- lists of known length, over an unknown rest for the parser's stacks

func (d *rdfDom) isList(s *pstate, v pval) bool { _, ok := s.tagOf(v, "xl!"); return ok }

func (d *rdfDom) newList(e *pathEng, s *pstate, site ssa.Value, n int, under pval) pval {
	l := e.nonNil(s, site)
	s.addTag(l, "xl!")
	s.mem[at(l, "?n")] = pint(int64(n))
	if under.k == pSym {
		s.mem[at(l, ".under")] = under
	}
	return l
}

func (d *rdfDom) lenOf(s *pstate, l pval) int {
	n, _ := s.intOf(s.mem[at(l, "?n")])
	return int(n)
}

func (d *rdfDom) under(s *pstate, l pval) (pval, bool) {
	if _, ok := s.tagOf(l, "bottom!"); ok {
		return l, true
	}
	v, ok := s.mem[at(l, ".under")]
	return v, ok
}

// common is what every element of the list carries.
func (d *rdfDom) common(s *pstate, l pval) map[string]bool {
	var out map[string]bool
	meet := func(m map[string]bool) {
		if out == nil {
			out = m
			return
		}
		for t := range out {
			if !m[t] {
				delete(out, t)
			}
		}
	}
	for i := 0; i < d.lenOf(s, l); i++ {
		meet(d.carried(s, pval{k: pAddr, loc: at(l, elemPath(i))}))
	}
	if u, ok := d.under(s, l); ok {
		meet(d.carried(s, u))
	}
	return out
}

func elemPath(i int) string { return fmt.Sprintf("[%d]", i) }

func (d *rdfDom) copyElem(e *pathEng, s *pstate, from ploc, to ploc) {
	if v, ok := s.mem[from]; ok {
		s.mem[to] = v
	}
	e.copyParts(s, from, to)
}

func (d *rdfDom) setElem(e *pathEng, s *pstate, l pval, i int, v pval) {
	to := at(l, elemPath(i))
	if v.k == pSym && s.objs[v.id] != nil && s.objs[v.id].site != nil {
		if _, ok := s.objs[v.id].site.Type().Underlying().(*types.Struct); ok {
			e.copyParts(s, ploc{v.id, ""}, to)
			return
		}
	}
	s.mem[to] = v
}

func isPlain(s *pstate, v pval) bool { _, ok := s.tagOf(v, "plain!"); return ok }

// text joins texts.
func (d *rdfDom) text(e *pathEng, s *pstate, site ssa.Value, vs ...pval) pval {
	var ps []pval
	for _, v := range vs {
		v = s.resolve(v)
		if v.k == pSym {
			if p, ok := s.mem[at(v, ".parts")]; ok && p.k == pTuple {
				ps = append(ps, p.parts...)
				continue
			}
		}
		ps = append(ps, v)
	}
	c := s.concat(ps...)
	if c.k == pConst {
		return c
	}
	if t, ok := d.content(e, s, site, vs...); ok {
		return t
	}
	if c.k != pTuple {
		if c.k == pSym {
			return c
		}
		return d.derived(e, s, site, vs...)
	}
	// the name of an element or attribute
	plain := true
	for _, p := range c.parts {
		plain = plain && isPlain(s, p)
	}
	if plain {
		t := e.cons(s, c.parts[len(c.parts)-1].id, "?iri", site)
		s.addTag(t, "plain!")
		return d.carry(e, s, site, t, c.parts...)
	}
	t := d.derived(e, s, site, c.parts...)
	t.k = pSym
	s.mem[at(t, ".parts")] = c
	d.generated(e, s, t, c.parts, site)
	return t
}

// content joins pieces of the text of an element.
func (d *rdfDom) content(e *pathEng, s *pstate, site ssa.Value, vs ...pval) (pval, bool) {
	ts := d.ts(s)
	kind, none := "", true
	for _, v := range vs {
		v = s.resolve(v)
		switch c, ok := s.strOf(v); {
		case hasTag(s, v, "nonblank!"):
			none, kind = false, "nonblank"
			if ts.tok == "text" && tokMark(s, v) {
				ts.tok, ts.text, ts.hadText = "", true, true
			}
		case hasTag(s, v, "blank!"):
			none = false
			if kind == "" {
				kind = "blank"
			}
		case ok && strings.TrimSpace(c) == "" || v.k == pNil:
		default:
			return pval{}, false
		}
	}
	if none {
		return pval{}, false
	}
	t := e.nonNil(s, site)
	s.addTag(t, kind+"!")
	if kind == "nonblank" {
		s.addTag(t, "c:text!")
	}
	return t, true
}

// generated notices a text made from the parser's counter.
func (d *rdfDom) generated(e *pathEng, s *pstate, t pval, parts []pval, site ssa.Value) {
	for i, p := range parts {
		n, ok := s.mem[at(p, ".num")]
		if p.k != pSym || !ok {
			continue
		}
		if _, ok := s.tagOf(n, "ctr!"); !ok {
			continue
		}
		if _, used := s.tagOf(n, "used!"); used {
			s.addTag(t, "genbad!the counter may still have the value the previous identifier was made with")
			return
		}
		held := false
		for _, path := range d.ctrs {
			v := s.mem[at(d.parser, path)]
			sc := s.mem[at(v, "?succ")]
			held = held || sameP(v, n) || d.post && v.k == pSym && sameP(sc, n)
		}
		if !held {
			s.addTag(t, "genbad!the counter does not remember the value it is made with")
			return
		}
		s.addTag(n, "used!")
		head := ""
		if i > 0 {
			h, ok := s.strOf(parts[0])
			if i > 1 || !ok {
				s.addTag(t, "genbad!what comes before the counter varies")
				return
			}
			head = h
		}
		switch {
		case head == "" || head != "" && strings.ContainsRune("0123456789-.", rune(head[0])):
		default:
			s.addTag(t, "genbad!an rdf:nodeID can look like "+head+"1")
			return
		}
		if strings.ContainsAny(head[len(head)-min(len(head), 1):], "0123456789") {
			s.addTag(t, "genbad!the counter follows a digit")
			return
		}
		if i+1 < len(parts) {
			nx, ok := s.strOf(parts[i+1])
			if !ok || nx == "" || strings.ContainsRune("0123456789", rune(nx[0])) {
				s.addTag(t, "genbad!the counter may be followed by a digit")
				return
			}
		}
		s.addTag(t, "genid!"+head)
		return
	}
}

// ---- evaluation

func constSliceOf(u *Unit, g *ssa.Global) ([]constant.Value, bool) {
	st := u.onlyStore(g)
	if st == nil {
		return nil, false
	}
	sl, ok := st.Val.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return nil, false
	}
	out := make([]constant.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value == nil {
					return nil, false
				}
				out[i.Int64()] = c.Value
			}
		}
	}
	for _, v := range out {
		if v == nil {
			return nil, false
		}
	}
	return out, true
}

// structParts are the texts a struct value holds, by field path.
func structParts(s *pstate, v pval) map[string]pval {
	id, pre := -1, ""
	switch v.k {
	case pSym:
		id = v.id
	case pAddr:
		id, pre = v.loc.obj, v.loc.path
	default:
		return nil
	}
	out := map[string]pval{}
	for l, x := range s.mem {
		if l.obj == id && strings.HasPrefix(l.path, pre) && strings.HasPrefix(l.path[len(pre):], ".") {
			out[l.path[len(pre):]] = x
		}
	}
	return out
}

func (d *rdfDom) value(e *pathEng, s *pstate, v ssa.Value) (pval, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return pval{}, false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			switch deref(g.Type()).Underlying().(type) {
			case *types.Map:
				if _, ok := d.u.constMap(g); ok {
					m := e.nonNil(s, x)
					s.addTag(m, "gmap!"+g.String())
					return m, true
				}
			case *types.Slice:
				if cs, ok := constSliceOf(d.u, g); ok {
					l := d.newList(e, s, x, len(cs), pval{})
					for i, c := range cs {
						s.mem[at(l, elemPath(i))] = pval{k: pConst, c: c}
					}
					return l, true
				}
			}
			return pval{}, false
		}
		a := s.resolve(e.get(s, x.X))
		if a.k != pAddr || a.loc.obj < 0 {
			return pval{}, false
		}
		if _, ok := s.mem[a.loc]; ok {
			return pval{}, false
		}
		// something that is part of an object carries what the object does
		if o := s.objs[a.loc.obj]; o != nil && !o.zero && strings.Contains(o.tags, "c:") {
			r := e.load(s, a, x.Type(), x)
			return d.carry(e, s, x, r, pval{k: pSym, id: a.loc.obj}), true
		}
	case *ssa.Field:
		b := s.resolve(e.get(s, x.X))
		if b.k == pSym {
			if _, ok := s.mem[at(b, fmt.Sprintf(".%d", x.Field))]; !ok && strings.Contains(s.objs[b.id].tags, "c:") {
				r := e.load(s, pval{k: pAddr, loc: at(b, fmt.Sprintf(".%d", x.Field))}, x.Type(), x)
				return d.carry(e, s, x, r, pval{k: pSym, id: b.id}), true
			}
		}
	case *ssa.IndexAddr:
		b := s.resolve(e.get(s, x.X))
		if !d.isList(s, b) {
			return pval{}, false
		}
		i := s.resolve(e.get(s, x.Index))
		n := d.lenOf(s, b)
		if k, ok := s.intOf(i); ok {
			if _, below := d.under(s, b); !below && k >= 0 && int(k) < n {
				return pval{k: pAddr, loc: at(b, elemPath(int(k)))}, true
			}
		}
		if of, ok := s.mem[at(i, ".last")]; i.k == pSym && ok && of.id == b.id {
			if n > 0 {
				return pval{k: pAddr, loc: at(b, elemPath(n-1))}, true
			}
			if u, ok := d.under(s, b); ok {
				if _, ok := s.mem[at(u, "?top")]; !ok {
					el := deref(x.Type())
					var t pval
					if isStringType(el) {
						t = e.fresh(s, x)
					} else {
						t = e.nonNil(s, x)
					}
					d.carry(e, s, x, t, pval{k: pSym, id: u.id})
					s.mem[at(u, "?top")] = t
				}
				return pval{k: pAddr, loc: at(u, "?top")}, true
			}
		}
		v := e.fresh(s, x)
		for t := range d.common(s, b) {
			s.addTag(v, "c:"+t)
		}
		return pval{k: pAddr, loc: ploc{v.id, ""}}, true
	case *ssa.Slice:
		b := s.resolve(e.get(s, x.X))
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && b.k == pAddr {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok && x.Low == nil && (x.High == nil || isZeroConst(x.High)) && arr.Len() <= 64 {
				n := int(arr.Len())
				if x.High != nil {
					n = 0
				}
				l := d.newList(e, s, x, n, pval{})
				for i := 0; i < n; i++ {
					from := ploc{b.loc.obj, fmt.Sprintf("%s[%d]", b.loc.path, i)}
					if _, ok := s.mem[from]; !ok {
						if _, st := arr.Elem().Underlying().(*types.Struct); !st {
							s.mem[from] = zeroP(arr.Elem())
						}
					}
					d.copyElem(e, s, from, at(l, elemPath(i)))
				}
				return l, true
			}
		}
		if d.isList(s, b) {
			return d.slice(e, s, x, b), true
		}
		if isStringType(x.X.Type()) {
			return d.derived(e, s, x, b), true
		}
	case *ssa.MakeSlice:
		if n, ok := s.intOf(e.get(s, x.Len)); ok && n == 0 {
			return d.newList(e, s, x, 0, pval{}), true
		}
	case *ssa.Convert:
		b := s.resolve(e.get(s, x.X))
		if b.k == pConst && b.c.Kind() == constant.String {
			return b, true
		}
	case *ssa.Lookup:
		m := s.resolve(e.get(s, x.X))
		k := s.resolve(e.get(s, x.Index))
		if g, ok := s.tagOf(m, "gmap!"); ok {
			gl, _ := globalNamed(d.u, g)
			cm, _ := d.u.constMap(gl)
			if k.k == pConst || isPlain(s, k) {
				var cv constant.Value
				found := false
				if k.k == pConst {
					cv, found = cm[k.c.ExactString()]
				}
				val := zeroP(deref(gl.Type()).Underlying().(*types.Map).Elem())
				if found {
					val = pval{k: pConst, c: cv}
				}
				if x.CommaOk {
					return pval{k: pTuple, parts: []pval{val, pbool(found)}}, true
				}
				return val, true
			}
		}
		if f, ok := s.tagOf(m, "pmap!"); ok && k.k == pSym {
			has := e.cons(s, k.id, "?has:"+f, x)
			if x.CommaOk {
				return pval{k: pTuple, parts: []pval{has, has}}, true
			}
			return has, true
		}
	case *ssa.BinOp:
		return d.binop(e, s, x)
	}
	return pval{}, false
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func (d *rdfDom) slice(e *pathEng, s *pstate, x *ssa.Slice, b pval) pval {
	n := d.lenOf(s, b)
	u, below := d.under(s, b)
	lo, hi := 0, n
	known := true
	if x.Low != nil {
		k, ok := s.intOf(e.get(s, x.Low))
		lo, known = int(k), ok && (!below || k == 0)
	}
	if x.High != nil {
		h := s.resolve(e.get(s, x.High))
		if k, ok := s.intOf(h); ok && !below {
			hi = int(k)
		} else if of, ok := s.mem[at(h, ".last")]; h.k == pSym && ok && of.id == b.id {
			hi = n - 1
		} else if of, ok := s.mem[at(h, ".lenof")]; h.k == pSym && ok && of.id == b.id {
			hi = n
		} else {
			known = false
		}
	}
	if !known || lo < 0 || lo > n || hi < lo || hi > n {
		return d.derived(e, s, x, b)
	}
	if below && hi == 0 {
		return u
	}
	l := d.newList(e, s, x, hi-lo, u)
	for i := lo; i < hi; i++ {
		d.copyElem(e, s, at(b, elemPath(i)), at(l, elemPath(i-lo)))
	}
	return l
}

func (d *rdfDom) binop(e *pathEng, s *pstate, x *ssa.BinOp) (pval, bool) {
	a, b := s.resolve(e.get(s, x.X)), s.resolve(e.get(s, x.Y))
	switch x.Op {
	case token.ADD, token.SUB:
		if isStringType(x.Type()) {
			return d.text(e, s, x, a, b), true
		}
		if l, ok := s.mem[at(a, ".lenof")]; a.k == pSym && ok {
			if n, ok := s.intOf(b); ok && (x.Op == token.SUB && n == 1 || x.Op == token.ADD && n == -1) {
				v := e.fresh(s, x)
				s.mem[at(v, ".last")] = l
				return v, true
			}
			return e.fresh(s, x), true
		}
		if a.k == pSym && b.k == pConst {
			if n, ok := s.intOf(b); ok && n == 1 && x.Op == token.ADD {
				v := e.fresh(s, x)
				if _, ok := s.tagOf(a, "ctr!"); ok {
					s.addTag(v, "ctr!")
					if _, used := s.tagOf(a, "used!"); used {
						// one more than a value that was used
					} else if !d.post {
						// one more than a value that was not: not used either
					}
				}
				delete(s.mem, at(a, "?succ"))
				s.mem[at(v, "?succ")] = a
				return v, true
			}
			v := e.fresh(s, x)
			return v, true
		}
	case token.EQL, token.NEQ:
		eq := func(r bool) (pval, bool) { return pbool(r == (x.Op == token.EQL)), true }
		for _, p := range [][2]pval{{a, b}, {b, a}} {
			if isPlain(s, p[0]) && p[1].k == pConst {
				return eq(false)
			}
			if l, ok := s.mem[at(p[0], ".lenof")]; p[0].k == pSym && ok {
				if n, ok := s.intOf(p[1]); ok && n == 0 {
					return d.emptyCond(e, s, l, x, x.Op == token.EQL), true
				}
				return e.fresh(s, x), true
			}
			if _, ok := s.tagOf(p[0], "nonblank!"); ok && p[1].k == pConst {
				return eq(false)
			}
			if w, ok := s.strOf(p[1]); ok && w == "" && d.notEmpty(s, p[0]) {
				return eq(false)
			}
			if _, ok := s.tagOf(p[0], "somelen!"); ok {
				if n, ok := s.intOf(p[1]); ok && n == 0 {
					return eq(false)
				}
			}
		}
		if _, ok := x.X.Type().Underlying().(*types.Struct); ok {
			pa, pb := structParts(s, a), structParts(s, b)
			for k, v := range pa {
				if w, ok := pb[k]; ok {
					if s.equal(v, w) == -1 || isPlain(s, v) && w.k == pConst || isPlain(s, w) && v.k == pConst {
						return eq(false)
					}
				}
			}
			all := len(pa) > 0 && len(pa) == len(pb)
			for k, v := range pa {
				w, ok := pb[k]
				all = all && ok && s.equal(v, w) == 1
			}
			if all {
				return eq(true)
			}
			return e.fresh(s, x), true
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		for i, p := range [][2]pval{{a, b}, {b, a}} {
			op := x.Op
			if i == 1 {
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
			}
			n, ok := s.intOf(p[1])
			if !ok || p[0].k != pSym {
				continue
			}
			some := op == token.GTR && n == 0 || op == token.GEQ && n == 1
			none := op == token.LSS && n == 1 || op == token.LEQ && n == 0
			if l, ok := s.mem[at(p[0], ".lenof")]; ok && (some || none) {
				return d.emptyCond(e, s, l, x, none), true
			}
			if _, ok := s.tagOf(p[0], "somelen!"); ok && (some || none) {
				return pbool(some), true
			}
		}
	}
	return pval{}, false
}

// notEmpty: is part of the text known?
func (d *rdfDom) notEmpty(s *pstate, v pval) bool {
	if v.k != pSym {
		return false
	}
	p, ok := s.mem[at(v, ".parts")]
	if !ok || p.k != pTuple {
		return false
	}
	for _, x := range p.parts {
		if c, ok := s.strOf(x); ok && c != "" || isPlain(s, x) {
			return true
		}
	}
	return false
}

// emptyCond: is (or is not) the list empty?
func (d *rdfDom) emptyCond(e *pathEng, s *pstate, l pval, site ssa.Value, want bool) pval {
	if d.lenOf(s, l) > 0 {
		return pbool(!want)
	}
	u, ok := d.under(s, l)
	if !ok {
		return pbool(want)
	}
	em := e.cons(s, u.id, "?empty", site)
	t := pbool(true)
	return pval{k: pCond, op: token.EQL, neg: !want, x: &em, y: &t}
}

// ---- calls

func (d *rdfDom) ts(s *pstate) *rdfTS { return s.ts.(*rdfTS) }

func (d *rdfDom) resultsOf(e *pathEng, s *pstate, in ssa.CallInstruction, err pval, make func(t types.Type, i int) pval) {
	rs := in.Common().Signature().Results()
	var vs []pval
	for i := 0; i < rs.Len(); i++ {
		switch {
		case isError(rs.At(i).Type()):
			vs = append(vs, err)
		case err.k != pNil:
			vs = append(vs, zeroP(rs.At(i).Type()))
		default:
			vs = append(vs, make(rs.At(i).Type(), i))
		}
	}
	e.setResult(s, in, vs...)
}

func tokMark(s *pstate, v pval) bool {
	switch v.k {
	case pSym:
		_, ok := s.mem[at(v, ".tok")]
		return ok
	case pAddr:
		_, ok := s.mem[ploc{v.loc.obj, v.loc.path + ".tok"}]
		return ok
	}
	return false
}

func (d *rdfDom) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	one := func(v ...pval) ([]*pstate, bool) {
		e.setResult(s, in, v...)
		return []*pstate{s}, true
	}
	var site ssa.Value
	c, isCall := in.(*ssa.Call)
	if isCall {
		site = c
	}
	if isTokenRead(in) {
		return d.readToken(e, s, in, site), true
	}
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if !isCall {
			return nil, false
		}
		switch b.Name() {
		case "append":
			return d.appendTo(e, s, c, args), true
		case "len":
			a := s.resolve(args[0])
			if a.k == pTuple {
				break
			}
			if d.isList(s, a) {
				if _, below := d.under(s, a); !below {
					return one(pint(int64(d.lenOf(s, a))))
				}
				n := e.fresh(s, site)
				s.mem[at(n, ".lenof")] = a
				return one(n)
			}
			if a.k == pSym && (hasTag(s, a, "blank!") || hasTag(s, a, "nonblank!")) {
				n := e.fresh(s, site)
				s.addTag(n, "somelen!")
				return one(n)
			}
			if a.k == pSym && isStringType(cc.Args[0].Type()) {
				if s.equal(a, pstr("")) == -1 || d.notEmpty(s, a) {
					n := e.fresh(s, site)
					s.addTag(n, "somelen!")
					return one(n)
				}
				n := e.fresh(s, site)
				s.mem[at(n, "?of")] = a
				return one(n)
			}
		case "copy", "delete", "print", "println":
			return []*pstate{s}, true
		}
		return nil, false
	}
	fn := cc.StaticCallee()
	if fn == nil && !cc.IsInvoke() {
		if v := s.resolve(e.get(s, cc.Value)); v.k == pFunc {
			fn = v.fn
		}
	}
	if fn != nil && d.ncname[fn] && len(args) > 0 {
		o := s.clone()
		e.setResult(o, in, e.nonNil(o, site))
		for _, a := range args {
			if a = s.resolve(a); a.k == pSym {
				s.addTag(a, "ncname")
			}
		}
		e.setResult(s, in, pval{k: pNil})
		return []*pstate{o, s}, true
	}
	if fn != nil && d.reads[fn] && d.cyclic[fn] && fnPkg(fn) == rdfxmlPkg {
		for _, a := range args {
			if tokMark(s, a) {
				return d.contract(e, s, in, fn, args, site), true
			}
		}
	}
	if fn == nil && !cc.IsInvoke() {
		for i, a := range cc.Args {
			if n := namedOf(a.Type()); n != nil && n.Obj().Name() == "Triple" && isPtr(a.Type()) {
				return d.deliver(e, s, in, args[i], site), true
			}
		}
		return nil, false
	}
	if fn != nil && fnPkg(fn) == rdfxmlPkg {
		return nil, false
	}
	return d.outside(e, s, in, fn, args, site)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func hasTag(s *pstate, v pval, t string) bool { _, ok := s.tagOf(v, t); return ok }

// newToken is a token of the given type.
func (d *rdfDom) newToken(e *pathEng, s *pstate, in ssa.CallInstruction, site ssa.Value, typ string) pval {
	t := e.nonNil(s, site)
	var pkg *types.Package
	rs := in.Common().Signature().Results()
	if n := namedOf(rs.At(0).Type()); n != nil {
		pkg = n.Obj().Pkg()
	} else if al, ok := rs.At(0).Type().(*types.Alias); ok {
		pkg = al.Obj().Pkg()
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(typ); o != nil {
			s.objs[t.id].dyn = o.Type()
		}
	}
	s.mem[at(t, ".tok")] = pstr(typ)
	return t
}

func (d *rdfDom) readToken(e *pathEng, s *pstate, in ssa.CallInstruction, site ssa.Value) []*pstate {
	ts := d.ts(s)
	where := d.u.InstrPos(in)
	fn := fnName(in.Parent())
	if ts.tok != "" {
		d.bad("skipped", where, "%s goes on reading after %s that was neither refused nor used", fn, tokWords[ts.tok])
		return nil
	}
	if ts.over {
		d.bad("past-end", where, "%s goes on reading after the end of the element", fn)
		return nil
	}
	var outs []*pstate
	fork := func(f func(o *pstate, t *rdfTS)) {
		o := s.clone()
		f(o, d.ts(o))
		outs = append(outs, o)
	}
	eof, _ := globalNamed(d.u, "io.EOF")
	if eof != nil {
		fork(func(o *pstate, t *rdfTS) { e.setResult(o, in, pval{k: pNil}, pval{k: pGlobal, g: eof}); t.tok = "eof" })
	}
	fork(func(o *pstate, t *rdfTS) {
		er := e.nonNil(o, site)
		if eof != nil {
			o.objs[er.id].ne = append(o.objs[er.id].ne, pval{k: pGlobal, g: eof})
		}
		e.setResult(o, in, pval{k: pNil}, er)
		t.tok = "error"
	})
	give := func(o *pstate, v pval) { e.setResult(o, in, v, pval{k: pNil}) }
	if ts.depth < 3 {
		if d.sc.role == "root" && ts.depth == 0 {
			fork(func(o *pstate, t *rdfTS) {
				v := d.newToken(e, o, in, site, "StartElement")
				d.fill(e, o, v, site)
				if d.sc.name == "RDF" {
					t.depth, t.tok = 1, ""
					t.elems++
					if t.elems > 1 {
						t.tok = "second"
					}
				} else {
					t.tok = "start"
				}
				give(o, v)
			})
		} else {
			fork(func(o *pstate, t *rdfTS) {
				v := d.newToken(e, o, in, site, "StartElement")
				t.tok = "start"
				give(o, v)
			})
		}
	}
	fork(func(o *pstate, t *rdfTS) {
		v := d.newToken(e, o, in, site, "EndElement")
		t.depth--
		switch {
		case t.depth < 0:
			t.depth, t.tok = 0, "stray end"
		case t.depth == 0:
			t.over = d.sc.role != "root"
		default:
			t.tok = "end"
		}
		give(o, v)
	})
	for _, blank := range []bool{true, false} {
		blank := blank
		fork(func(o *pstate, t *rdfTS) {
			v := d.newToken(e, o, in, site, "CharData")
			if blank {
				o.addTag(v, "blank!")
			} else {
				o.addTag(v, "nonblank!")
				t.tok = "text"
			}
			give(o, v)
		})
	}
	for _, k := range []string{"Comment", "ProcInst", "Directive"} {
		k := k
		fork(func(o *pstate, t *rdfTS) { give(o, d.newToken(e, o, in, site, k)) })
	}
	return outs
}

var tokWords = map[string]string{"start": "the start of an element", "end": "the end of an element", "text": "text that is not blank", "eof": "the end of the document", "error": "an error of the XML reader", "stray end": "the end of an element that is not open", "second": "the start of a second element"}

// fill gives an element the name and the attributes of the scene.
func (d *rdfDom) fill(e *pathEng, s *pstate, el pval, site ssa.Value) {
	name := func(at0 func(p string) ploc, space, local string, tag string) {
		mk := func(c, part string) pval {
			if c == "-" {
				return pstr("")
			}
			if c != "" {
				return pstr(c)
			}
			v := e.fresh(s, site)
			s.addTag(v, "plain!")
			s.addTag(v, "c:"+tag)
			return v
		}
		s.mem[at0(".0")] = mk(space, "space")
		s.mem[at0(".1")] = mk(local, "local")
	}
	ns := ""
	if d.sc.name != "" {
		ns = rdfNS
	}
	name(func(p string) ploc { return at(el, ".0"+p) }, ns, d.sc.name, "name")
	l := d.newList(e, s, site, len(d.sc.attrs), pval{})
	ts := d.ts(s)
	ts.vals = nil
	for i, a := range d.sc.attrs {
		name(func(p string) ploc { return at(l, elemPath(i)+".0"+p) }, a.space, a.local, fmt.Sprintf("key%d", i))
		var v pval
		if a.value != "" {
			v = pstr(a.value)
		} else {
			v = e.fresh(s, site)
			s.addTag(v, fmt.Sprintf("c:val%d", i))
			if a.key == "parseType" {
				s.addTag(v, "plain!")
			}
		}
		s.mem[at(l, elemPath(i)+".1")] = v
		ts.vals = append(append([]pval(nil), ts.vals...), v)
	}
	s.mem[at(el, ".1")] = l
}

func (d *rdfDom) appendTo(e *pathEng, s *pstate, c *ssa.Call, args []pval) []*pstate {
	a := s.resolve(args[0])
	var more pval
	if len(args) > 1 {
		more = s.resolve(args[1])
	}
	if len(args) > 1 {
		if t, ok := d.content(e, s, c, a, more); ok {
			e.setResult(s, c, t)
			return []*pstate{s}
		}
	}
	n, under := 0, pval{}
	switch {
	case a.k == pNil:
	case d.isList(s, a):
		n = d.lenOf(s, a)
		if u, ok := d.under(s, a); ok {
			under = u
		}
	default:
		e.setResult(s, c, d.derived(e, s, c, args...))
		return []*pstate{s}
	}
	k := 0
	switch {
	case len(args) < 2 || more.k == pNil:
	case d.isList(s, more):
		if _, ok := d.under(s, more); ok {
			e.setResult(s, c, d.derived(e, s, c, args...))
			return []*pstate{s}
		}
		k = d.lenOf(s, more)
	default:
		e.setResult(s, c, d.derived(e, s, c, args...))
		return []*pstate{s}
	}
	if n+k > 6 || n+k > 3 && d.carried(s, more)["child"] {
		return nil // longer than what is followed
	}
	l := d.newList(e, s, c, n+k, under)
	for i := 0; i < n; i++ {
		d.copyElem(e, s, at(a, elemPath(i)), at(l, elemPath(i)))
	}
	for i := 0; i < k; i++ {
		d.copyElem(e, s, at(more, elemPath(i)), at(l, elemPath(n+i)))
	}
	e.setResult(s, c, l)
	return []*pstate{s}
}

var xmlSample = []string{"\ue000", "q\ue000", "http://\ue000/\ue001#"}

// outside models what is called in other packages: results carry what the
// arguments do, errors may occur, nothing else happens.
func (d *rdfDom) outside(e *pathEng, s *pstate, in ssa.CallInstruction, fn *ssa.Function, args []pval, site ssa.Value) ([]*pstate, bool) {
	n := callName(in)
	one := func(v ...pval) ([]*pstate, bool) {
		e.setResult(s, in, v...)
		return []*pstate{s}, true
	}
	ts := d.ts(s)
	if errorMaker(n) || isLogCall(n) {
		return nil, false
	}
	arg := func(i int) pval {
		if i < len(args) {
			return s.resolve(args[i])
		}
		return pval{}
	}
	str := func(i int) (string, bool) { return s.strOf(arg(i)) }
	fails := func(f func(o *pstate)) ([]*pstate, bool) {
		o := s.clone()
		d.resultsOf(e, o, in, e.nonNil(o, site), nil)
		f(s)
		return []*pstate{o, s}, true
	}
	switch {
	case strings.HasPrefix(n, "strings.(Builder).") || strings.HasPrefix(n, "bytes.(Buffer)."):
		m := n[strings.LastIndexByte(n, '.')+1:]
		b := arg(0)
		if b.k != pAddr && b.k != pSym {
			break
		}
		key := ploc{b.id, "?text"}
		if b.k == pAddr {
			key = ploc{b.loc.obj, b.loc.path + "?text"}
		}
		cur := ""
		if v, ok := s.mem[key]; ok {
			cur, _ = s.strOf(v)
		}
		switch m {
		case "Write", "WriteString":
			t := arg(1)
			k := "other"
			if c, ok := s.strOf(t); ok {
				if c == "" {
					k = ""
				}
			} else if hasTag(s, t, "nonblank!") {
				k = "nonblank"
				if ts.tok == "text" && tokMark(s, t) {
					ts.tok, ts.text, ts.hadText = "", true, true
				}
			} else if hasTag(s, t, "blank!") {
				k = "blank"
			}
			switch {
			case cur == "nonblank" || k == "nonblank":
				cur = "nonblank"
			case cur == "other" || k == "other":
				cur = "other"
			case cur == "blank" || k == "blank":
				cur = "blank"
			}
			s.mem[key] = pstr(cur)
			d.resultsOf(e, s, in, pval{k: pNil}, func(t types.Type, i int) pval { return e.fresh(s, site) })
			return []*pstate{s}, true
		case "String", "Bytes":
			if v, ok := s.mem[ploc{key.obj, key.path + ":enc"}]; ok {
				t := e.fresh(s, site)
				if f, _ := s.strOf(v); f == "flushed" {
					s.addTag(t, "c:text!")
				}
				return one(t)
			}
			switch cur {
			case "":
				if m == "String" {
					return one(pstr(""))
				}
				return one(e.fresh(s, site))
			case "other":
				return one(e.fresh(s, site))
			}
			t := e.nonNil(s, site)
			s.addTag(t, cur+"!")
			if cur == "nonblank" {
				s.addTag(t, "c:text!")
			}
			return one(t)
		case "Len":
			if cur == "" {
				return one(pint(0))
			}
			l := e.fresh(s, site)
			s.addTag(l, "somelen!")
			return one(l)
		case "Reset":
			delete(s.mem, key)
			return []*pstate{s}, true
		}
		return one(e.fresh(s, site))
	case n == "encoding/xml.NewEncoder":
		enc := e.nonNil(s, site)
		s.mem[at(enc, ".to")] = arg(0)
		b := arg(0)
		if b.k == pAddr {
			s.mem[ploc{b.loc.obj, b.loc.path + "?text:enc"}] = pstr("")
		} else if b.k == pSym {
			s.mem[at(b, "?text:enc")] = pstr("")
		}
		return one(enc)
	case strings.HasPrefix(n, "encoding/xml.(Encoder)."):
		mark := func(o *pstate, f string) {
			b := o.mem[at(s.resolve(args[0]), ".to")]
			if b.k == pAddr {
				o.mem[ploc{b.loc.obj, b.loc.path + "?text:enc"}] = pstr(f)
			} else if b.k == pSym {
				o.mem[at(b, "?text:enc")] = pstr(f)
			}
		}
		switch n[strings.LastIndexByte(n, '.')+1:] {
		case "EncodeToken":
			return fails(func(o *pstate) {
				t := d.ts(o)
				if tokMark(o, arg(1)) {
					switch t.tok {
					case "start":
						t.depth++
						t.tok, t.text = "", true
					case "end":
						t.tok = ""
					case "text":
						t.tok, t.text, t.hadText = "", true, true
					}
				}
				mark(o, "")
				d.resultsOf(e, o, in, pval{k: pNil}, nil)
			})
		case "Flush", "Close":
			return fails(func(o *pstate) {
				mark(o, "flushed")
				d.resultsOf(e, o, in, pval{k: pNil}, nil)
			})
		}
	case strings.HasPrefix(n, "regexp.(Regexp).Match"):
		if pat, ok := d.regexOf(in); ok {
			re, err := regexp.Compile(pat)
			t := arg(1)
			if err == nil && t.k == pConst {
				c, _ := s.strOf(t)
				return one(pbool(re.MatchString(c)))
			}
			if err == nil && isPlain(s, t) {
				hit := 0
				for _, x := range xmlSample {
					if re.MatchString(x) {
						hit++
					}
				}
				if hit == 0 || hit == len(xmlSample) {
					return one(pbool(hit > 0))
				}
			}
		}
	case strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "unicode."):
		if outs, ok := d.stringsCall(e, s, in, n[strings.LastIndexByte(n, '.')+1:], args, site, str, arg); ok {
			return outs, true
		}
	case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort"):
		if in.Common().Signature().Results().Len() == 0 {
			return []*pstate{s}, true
		}
	case n == "fmt.Sprintf" || n == "fmt.Sprint":
		if t, ok := d.sprintf(e, s, n, args, site); ok {
			return one(t)
		}
	case n == "strconv.Itoa" || n == "strconv.FormatInt":
		if k, ok := s.intOf(arg(0)); ok {
			return one(pstr(fmt.Sprint(k)))
		}
		if arg(0).k == pSym {
			return one(d.number(e, s, arg(0), site))
		}
	case n == "encoding/xml.(StartElement).Copy" || n == "encoding/xml.CopyToken" || n == "encoding/xml.(CharData).Copy" || n == "encoding/xml.(EndElement).Copy":
		return one(arg(0))
	}
	if in.Common().IsInvoke() && in.Common().Method.Name() == "Error" {
		return one(e.fresh(s, site))
	}
	if fn == nil && !in.Common().IsInvoke() {
		return nil, false
	}
	if site == nil {
		return []*pstate{s}, true
	}
	return d.pure(e, s, in, n, args, site), true
}

func (d *rdfDom) regexOf(in ssa.CallInstruction) (string, bool) {
	recv := in.Common().Args[0]
	if ld, ok := recv.(*ssa.UnOp); ok {
		if g, ok := ld.X.(*ssa.Global); ok {
			return d.u.globalRE(g)
		}
	}
	return d.u.compiledRE(recv, nil, 0)
}

// number is the decimal text of an unknown number.
func (d *rdfDom) number(e *pathEng, s *pstate, n pval, site ssa.Value) pval {
	t := e.fresh(s, site)
	s.mem[at(t, ".num")] = n
	return t
}

var rdfVerbRE = regexp.MustCompile(`%(%|[+#]?[a-zA-Z])`)

func (d *rdfDom) sprintf(e *pathEng, s *pstate, n string, args []pval, site ssa.Value) (pval, bool) {
	var list pval
	format := ""
	if n == "fmt.Sprintf" {
		f, ok := s.strOf(args[0])
		if !ok || len(args) < 2 {
			return d.derived(e, s, site, args...), true
		}
		format, list = f, s.resolve(args[1])
	} else {
		format, list = "%v", s.resolve(args[0])
		if !d.isList(s, list) || d.lenOf(s, list) != 1 {
			return d.derived(e, s, site, args...), true
		}
	}
	if !d.isList(s, list) && list.k != pNil {
		return d.derived(e, s, site, args...), true
	}
	var parts []pval
	last, k := 0, 0
	for _, m := range rdfVerbRE.FindAllStringIndex(format, -1) {
		parts = append(parts, pstr(format[last:m[0]]))
		last = m[1]
		v := format[m[0]:m[1]]
		if v == "%%" {
			parts = append(parts, pstr("%"))
			continue
		}
		a, ok := s.mem[at(list, elemPath(k))]
		k++
		if !ok {
			return d.derived(e, s, site, args...), true
		}
		a = s.resolve(a)
		switch v {
		case "%d":
			if i, ok := s.intOf(a); ok {
				parts = append(parts, pstr(fmt.Sprint(i)))
			} else if a.k == pSym {
				parts = append(parts, d.number(e, s, a, site))
			} else {
				parts = append(parts, e.fresh(s, site))
			}
		case "%s", "%v":
			if c, ok := s.strOf(a); ok {
				parts = append(parts, pstr(c))
			} else if i, ok := s.intOf(a); ok {
				parts = append(parts, pstr(fmt.Sprint(i)))
			} else if a.k == pSym {
				if n, ok := s.objs[a.id]; ok && n.site != nil && !isStringType(n.site.Type()) && hasTag(s, a, "ctr!") {
					parts = append(parts, d.number(e, s, a, site))
				} else {
					parts = append(parts, a)
				}
			} else {
				parts = append(parts, d.derived(e, s, site, a))
			}
		default:
			parts = append(parts, d.derived(e, s, site, a))
		}
	}
	parts = append(parts, pstr(format[last:]))
	return d.text(e, s, site, parts...), true
}

func (d *rdfDom) stringsCall(e *pathEng, s *pstate, in ssa.CallInstruction, m string, args []pval, site ssa.Value, str func(int) (string, bool), arg func(int) pval) ([]*pstate, bool) {
	one := func(v pval) ([]*pstate, bool) {
		e.setResult(s, in, v)
		return []*pstate{s}, true
	}
	a, aok := str(0)
	b, bok := str(1)
	plain := isPlain(s, arg(0))
	switch m {
	case "TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimFunc", "TrimLeftFunc", "TrimRightFunc":
		full := m == "TrimSpace" || strings.HasSuffix(m, "Func") || bok && strings.ContainsRune(b, ' ') && strings.ContainsRune(b, '\n') && strings.ContainsRune(b, '\t') && strings.ContainsRune(b, '\r')
		if aok && m == "TrimSpace" {
			return one(pstr(strings.TrimSpace(a)))
		}
		if !full {
			break
		}
		if strings.HasSuffix(m, "Func") && !isSpaceFunc(arg(1)) || m == "Trim" && strings.TrimSpace(b) != "" {
			break
		}
		switch {
		case hasTag(s, arg(0), "blank!"):
			if isStringType(in.Common().Signature().Results().At(0).Type()) {
				return one(pstr(""))
			}
			l := e.nonNil(s, site)
			s.addTag(l, "xl!")
			s.mem[at(l, "?n")] = pint(0)
			return one(l)
		case hasTag(s, arg(0), "nonblank!"):
			return one(arg(0))
		}
	case "Fields":
		switch {
		case hasTag(s, arg(0), "blank!"):
			return one(d.newList(e, s, site, 0, pval{}))
		case hasTag(s, arg(0), "nonblank!"):
			return one(d.newList(e, s, site, 1, pval{}))
		}
	case "IndexFunc", "ContainsFunc":
	case "HasPrefix", "HasSuffix", "Contains", "EqualFold", "ContainsAny":
		if aok && bok {
			switch m {
			case "HasPrefix":
				return one(pbool(strings.HasPrefix(a, b)))
			case "HasSuffix":
				return one(pbool(strings.HasSuffix(a, b)))
			case "Contains":
				return one(pbool(strings.Contains(a, b)))
			case "ContainsAny":
				return one(pbool(strings.ContainsAny(a, b)))
			default:
				return one(pbool(strings.EqualFold(a, b)))
			}
		}
		if plain && bok && b != "" || aok && a != "" && isPlain(s, arg(1)) {
			return one(pbool(false))
		}
	case "ToLower", "ToUpper":
		if aok {
			if m == "ToLower" {
				return one(pstr(strings.ToLower(a)))
			}
			return one(pstr(strings.ToUpper(a)))
		}
		if plain {
			return one(arg(0))
		}
	case "TrimPrefix", "TrimSuffix":
		if aok && bok {
			if m == "TrimPrefix" {
				return one(pstr(strings.TrimPrefix(a, b)))
			}
			return one(pstr(strings.TrimSuffix(a, b)))
		}
		if plain && bok {
			return one(arg(0))
		}
	case "IndexByte", "IndexRune", "Index":
		if plain {
			return one(pint(-1))
		}
	case "Join":
		return one(d.derived(e, s, site, args...))
	}
	return nil, false
}

func isSpaceFunc(v pval) bool {
	return v.k == pFunc && v.fn.String() == "unicode.IsSpace"
}

// pure: a function of its arguments, which may fail.
func (d *rdfDom) pure(e *pathEng, s *pstate, in ssa.CallInstruction, n string, args []pval, site ssa.Value) []*pstate {
	var on pval
	var rest []pval
	for _, a := range args {
		a = s.resolve(a)
		if a.k == pSym {
			on = a
		}
		rest = append(rest, a)
	}
	// accessors of what was put in
	fn := in.Common().StaticCallee()
	sig := in.Common().Signature()
	if fn != nil && len(args) == 1 && sig.Recv() != nil && on.k == pSym && inRepo(fn) {
		if v, ok := s.mem[at(on, ".part:"+strings.ToLower(fn.Name()))]; ok {
			e.setResult(s, in, v)
			return []*pstate{s}
		}
	}
	memo := ploc{}
	if on.k == pSym {
		memo = at(on, ".m:"+n)
		if m, ok := s.mem[memo]; ok && m.k == pTuple && len(m.parts) == len(rest)+1 {
			same := true
			for i, a := range rest {
				same = same && sameP(a, m.parts[i+1])
			}
			if same {
				d.resultsOf(e, s, in, pval{k: pNil}, func(t types.Type, i int) pval {
					if m.parts[0].k == pTuple {
						return m.parts[0].parts[i]
					}
					return m.parts[0]
				})
				return []*pstate{s}
			}
		}
	}
	var outs []*pstate
	if errResultIndex(sig) >= 0 {
		o := s.clone()
		d.resultsOf(e, o, in, e.nonNil(o, site), nil)
		outs = append(outs, o)
	}
	var rs []pval
	d.resultsOf(e, s, in, pval{k: pNil}, func(t types.Type, i int) pval {
		var v pval
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			v = e.nonNil(s, site)
		default:
			v = e.fresh(s, site)
		}
		d.carry(e, s, site, v, args...)
		for len(rs) < i {
			rs = append(rs, pval{})
		}
		rs = append(rs, v)
		return v
	})
	if len(rs) > 0 && fn != nil && inRepo(fn) && fn.Name()[0] == 'N' {
		d.made(e, s, in, fn, rs[0], args, site)
	}
	if memo.path != "" && len(rs) > 0 {
		m := pval{k: pTuple, parts: append([]pval{rs[0]}, rest...)}
		if len(rs) > 1 {
			m.parts[0] = pval{k: pTuple, parts: rs}
		}
		s.mem[memo] = m
	}
	return append(outs, s)
}

// ident is the node a subject or object stands for.
func (d *rdfDom) ident(s *pstate, v pval) pval {
	for i := 0; i < 8; i++ {
		v = s.resolve(v)
		if v.k != pSym {
			return v
		}
		x, ok := s.mem[at(v, ".id")]
		if !ok {
			return v
		}
		v = x
	}
	return v
}

func paramNamed(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// made notices what a constructor puts together.
func (d *rdfDom) made(e *pathEng, s *pstate, in ssa.CallInstruction, fn *ssa.Function, v pval, args []pval, site ssa.Value) {
	ps := fn.Signature.Params()
	if v.k != pSym || ps.Len() != len(args) {
		return
	}
	switch paramNamed(fn.Signature.Results().At(0).Type()) {
	case "Triple":
		for i := 0; i < ps.Len(); i++ {
			switch paramNamed(ps.At(i).Type()) {
			case "Subject":
				s.mem[at(v, ".part:subject")] = s.resolve(args[i])
			case "IRI":
				s.mem[at(v, ".part:predicate")] = s.resolve(args[i])
			case "Object":
				s.mem[at(v, ".part:object")] = s.resolve(args[i])
			}
		}
	case "Subject", "Object":
		if len(args) != 1 {
			return
		}
		s.mem[at(v, ".id")] = s.resolve(args[0])
		if paramNamed(ps.At(0).Type()) == "BlankNodeID" {
			d.blankID(e, s, in, s.resolve(args[0]))
		}
	}
}

// blankID: where does the identifier of a blank node come from?
func (d *rdfDom) blankID(e *pathEng, s *pstate, in ssa.CallInstruction, v pval) {
	where := d.u.InstrPos(in)
	fn := fnName(in.Parent())
	if why, ok := s.tagOf(v, "genbad!"); ok {
		d.bad("generated-id", where, "%s makes a node with an identifier that may not be new: %s", fn, why)
		return
	}
	if _, ok := s.tagOf(v, "genid!"); ok {
		d.ids++
		return
	}
	for t := range d.carried(s, v) {
		if strings.HasPrefix(t, "val") {
			return // an identifier of the document, see id-syntax
		}
		if t == "child" {
			return
		}
	}
	d.bad("generated-id", where, "%s makes a node with an identifier that is neither the document's nor made from the parser's counter", fn)
}

func (d *rdfDom) fieldVal(s *pstate, path string) pval {
	if v, ok := s.mem[at(d.parser, path)]; ok {
		return v
	}
	return d.entry[path]
}

// inForce are the tags a value that depends on an inherited attribute carries.
func (d *rdfDom) inForce(s *pstate, key string) (string, bool) {
	if i := d.sc.index(key); i >= 0 {
		if d.ts(s).vals[i].k == pSym {
			if s.resolve(d.ts(s).vals[i]).k == pConst {
				return "", false
			}
			return fmt.Sprintf("val%d", i), true
		}
		return "", false
	}
	f := d.field[key]
	if f == "" {
		return "", false
	}
	return "outer" + f, !d.noOuter(s, f)
}

func (d *rdfDom) deliver(e *pathEng, s *pstate, in ssa.CallInstruction, tr pval, site ssa.Value) []*pstate {
	ts := d.ts(s)
	where := d.u.InstrPos(in)
	fn := fnName(in.Parent())
	tr = s.resolve(tr)
	tags := d.carried(s, tr)
	subj, pred, obj := pval{}, pval{}, pval{}
	if tr.k == pSym {
		subj, pred, obj = s.mem[at(tr, ".part:subject")], s.mem[at(tr, ".part:predicate")], s.mem[at(tr, ".part:object")]
	}
	pred = s.resolve(pred)
	ps, _ := s.strOf(pred)
	// scopes
	for i, a := range d.sc.attrs {
		if !tags[fmt.Sprintf("val%d", i)] || s.resolve(d.ts(s).vals[i]).k == pConst {
			continue
		}
		key := ""
		switch a.key {
		case "ID", "about", "resource", "type":
			key = "xml:base"
		case "property":
			key = "xml:lang"
		}
		if key == "" {
			continue
		}
		if tag, ok := d.inForce(s, key); ok && !tags[tag] {
			d.bad("scope-applied", where, "%s makes a statement of attribute %s without the %s in force", fn, a.key, key)
		}
	}
	if f := d.field["xml:lang"]; f != "" && d.sc.has("xml:lang") && tags["outer"+f] {
		d.bad("scope-applied", where, "%s makes a statement with the xml:lang of an enclosing element although the element has its own", fn)
	}
	if tags["text!"] && !tags["datatype"] {
		if _, pt := d.sc.parseType(); !pt && !d.carriesKey(tags, "datatype") {
			if tag, ok := d.inForce(s, "xml:lang"); ok && !tags[tag] {
				d.bad("scope-applied", where, "%s makes a statement of the element's text without the xml:lang in force", fn)
			}
		}
	}
	for t := range tags {
		if strings.HasPrefix(t, "val") || t == "name" {
			ts.add(t)
		}
	}
	if tags["text!"] {
		ts.text = false
	}
	if tags["child"] {
		ts.child = false
	}
	d.statement(e, s, fn, where, subj, pred, ps, obj, tags)
	// the receiver
	var outs []*pstate
	o := s.clone()
	d.resultsOf(e, o, in, e.nonNil(o, site), nil)
	outs = append(outs, o)
	go1 := d.goesOn(in)
	for _, c := range go1 {
		k := s.clone()
		c := c
		d.resultsOf(e, k, in, pval{k: pNil}, func(t types.Type, i int) pval { return c })
		outs = append(outs, k)
	}
	return outs
}

func (d *rdfDom) carriesKey(tags map[string]bool, key string) bool {
	for i, a := range d.sc.attrs {
		if a.key == key && tags[fmt.Sprintf("val%d", i)] {
			return true
		}
	}
	return false
}

// goesOn are the values with which receivers of statements ask for more.
func (d *rdfDom) goesOn(in ssa.CallInstruction) []pval {
	var out []pval
	known := true
	for _, l := range d.u.Leaves(in.Common().Value) {
		var fn *ssa.Function
		switch x := l.(type) {
		case *ssa.Function:
			fn = x
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		case *ssa.Const:
			continue
		}
		if fn == nil {
			known = false
			continue
		}
		for _, r := range returnsOf(fn) {
			for _, v := range r.Results {
				if isError(v.Type()) {
					continue
				}
				c, ok := v.(*ssa.Const)
				if !ok || c.Value == nil {
					known = false
					continue
				}
				p := pval{k: pConst, c: c.Value}
				dup := false
				for _, q := range out {
					dup = dup || sameP(p, q)
				}
				if !dup {
					out = append(out, p)
				}
			}
		}
	}
	if len(out) == 0 {
		rs := in.Common().Signature().Results()
		for i := 0; i < rs.Len(); i++ {
			if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return []pval{pint(1)}
			}
			if !isError(rs.At(i).Type()) {
				return []pval{pbool(true)}
			}
		}
		return []pval{{}}
	}
	_ = known
	return out
}

// statement follows what a statement says about the element (R07).
func (d *rdfDom) statement(e *pathEng, s *pstate, fn, where string, subj, pred pval, ps string, obj pval, tags map[string]bool) {
	ts := d.ts(s)
	if subj.k == pTop || obj.k == pTop || pred.k == pTop {
		return
	}
	sid, oid := d.ident(s, subj), d.ident(s, obj)
	ptags := d.carried(s, pred)
	otags := d.carried(s, obj)
	switch d.sc.role {
	case "node":
		d.nodeSubject(s, sid, where, fn)
		if d.sc.name == "" && ps == rdfNS+"type" && otags["name"] {
			ts.add("typed")
		}
		d.attrStatement(s, ptags, ps, otags)
	case "property":
		isName := ptags["name"]
		if d.sc.name == "li" {
			isName = d.liPredicate(s, pred)
		}
		if sameP(sid, d.subj) && isName {
			if ts.has("stmt") {
				d.bad("one-statement", where, "%s makes the statement of the property element twice", fn)
			}
			ts.add("stmt")
			s.mem[at(d.subj, "?stmt")] = oid
			s.mem[at(d.subj, "?cur")] = oid
			return
		}
		stmt, have := s.mem[at(d.subj, "?stmt")]
		if i := d.sc.index("ID"); i >= 0 && d.carried(s, subj)[fmt.Sprintf("val%d", i)] {
			part, right := "", false
			switch ps {
			case rdfNS + "subject":
				part, right = "subject", sameP(oid, d.subj)
			case rdfNS + "predicate":
				part, right = "predicate", otags["name"] || d.sc.name == "li" && d.liPredicate(s, oid)
			case rdfNS + "object":
				part, right = "object", have && sameP(oid, stmt)
			case rdfNS + "type":
				os, _ := s.strOf(oid)
				part, right = "type", os == rdfNS+"Statement"
			}
			if part != "" {
				if !right {
					d.bad("reified", where, "%s names the wrong rdf:%s of the statement", fn, part)
				}
				ts.add("reif:" + part)
			}
			return
		}
		if v, _ := d.sc.parseType(); v == "Collection" && (ps == rdfNS+"first" || ps == rdfNS+"rest") {
			cur, ok := s.mem[at(d.subj, "?cur")]
			if !ok || !sameP(cur, sid) {
				d.bad("collection", where, "%s describes a list node that the list does not lead to", fn)
				return
			}
			if ps == rdfNS+"first" {
				n := strings.Count(ts.st, "f")
				if k, ok := s.intOf(s.mem[at(oid, ".nth")]); oid.k != pSym || !ok || int(k) != n {
					d.bad("collection", where, "%s does not give the list the members in their order", fn)
					return
				}
				if strings.HasSuffix(ts.st, "f") {
					d.bad("collection", where, "%s gives one list node two members", fn)
					return
				}
				ts.st += "f"
				return
			}
			if !strings.HasSuffix(ts.st, "f") {
				d.bad("collection", where, "%s leaves a list node without a member", fn)
				return
			}
			ts.st += "r"
			if os, ok := s.strOf(oid); ok && os == rdfNS+"nil" {
				ts.st += "."
				delete(s.mem, at(d.subj, "?cur"))
				return
			}
			cells := s.mem[at(d.subj, "?cells")].parts
			for _, c := range append([]pval{stmt}, cells...) {
				if sameP(c, oid) || !hasTag(s, oid, "genid!") {
					d.bad("collection", where, "%s goes on with a list node that is not new", fn)
					return
				}
			}
			s.mem[at(d.subj, "?cells")] = pval{k: pTuple, parts: append(append([]pval(nil), cells...), oid)}
			s.mem[at(d.subj, "?cur")] = oid
			return
		}
		d.attrStatement(s, ptags, ps, otags)
		for i, a := range d.sc.attrs {
			if (a.key == "property" || a.key == "type") && otags[fmt.Sprintf("val%d", i)] {
				s.mem[at(d.subj, "?attrsubj")] = sid
			}
		}
	}
}

func (d *rdfDom) attrStatement(s *pstate, ptags map[string]bool, ps string, otags map[string]bool) {
	ts := d.ts(s)
	for i, a := range d.sc.attrs {
		v := fmt.Sprintf("val%d", i)
		switch a.key {
		case "property":
			if ptags[fmt.Sprintf("key%d", i)] && (otags[v] || s.resolve(d.ts(s).vals[i]).k == pConst) {
				ts.add("attr:" + v)
			}
		case "type":
			if ps == rdfNS+"type" && (otags[v] || s.resolve(d.ts(s).vals[i]).k == pConst) {
				ts.add("attr:" + v)
			}
		}
	}
}

// nodeSubject: all that is said of a node is said of the same one.
func (d *rdfDom) nodeSubject(s *pstate, id pval, where, fn string) {
	if id.k != pSym {
		return
	}
	cur, ok := s.mem[at(d.parser, "?node")]
	if !ok {
		s.mem[at(d.parser, "?node")] = id
		return
	}
	if !sameP(cur, id) {
		d.bad("one-subject", where, "%s speaks of different nodes for one element", fn)
	}
}

// liPredicate: is v the name rdf:_n with n the current count?
func (d *rdfDom) liPredicate(s *pstate, v pval) bool {
	v = s.resolve(v)
	if v.k != pSym {
		return false
	}
	p, ok := s.mem[at(v, ".parts")]
	if !ok || p.k != pTuple || len(p.parts) != 2 {
		return false
	}
	h, _ := s.strOf(p.parts[0])
	n, ok := s.mem[at(p.parts[1], ".num")]
	if h != rdfNS+"_" || p.parts[1].k != pSym || !ok {
		return false
	}
	s.mem[at(d.subj, "?li")] = n
	return true
}

// contract takes the reading of a child by its contract.
func (d *rdfDom) contract(e *pathEng, s *pstate, in ssa.CallInstruction, fn *ssa.Function, args []pval, site ssa.Value) []*pstate {
	ts := d.ts(s)
	where := d.u.InstrPos(in)
	caller := fnName(in.Parent())
	role := "node"
	pt, hasPT := d.sc.parseType()
	switch {
	case d.sc.role == "node":
		role = "property"
	case d.sc.role == "property" && hasPT && pt == "Resource":
		role = "property"
	}
	if r, ok := d.roles[fn]; !ok {
		d.roles[fn] = role
		d.order = append(d.order, fn)
		d.nilArg[fn] = map[int]bool{}
		for i := range args {
			d.nilArg[fn][i] = true
		}
	} else if r != role {
		d.bad("wrong-reader", where, "%s reads a %s element with %s, which reads %s elements", caller, role, fnName(fn), r)
		return nil
	}
	for i, a := range args {
		if s.resolve(a).k != pNil {
			d.nilArg[fn][i] = false
		}
	}
	if ts.tok != "start" {
		d.bad("read-twice", where, "%s hands on an element that was dealt with already", caller)
		return nil
	}
	ts.tok = ""
	// scopes
	for path, en := range d.entry {
		v := d.fieldVal(s, path)
		key := ""
		for _, k := range []string{"xml:base", "xml:lang"} {
			if d.field[k] == path {
				key = k
			}
		}
		if !sameP(v, en) && !d.sameTop(s, v, path) && (key == "" || d.sc.index(key) < 0) && d.field["xml:base"] != "" && d.field["xml:lang"] != "" {
			d.bad("scope-content", where, "%s reads a child with something in force that the element does not set", caller)
		}
	}
	for _, k := range []string{"xml:base", "xml:lang"} {
		i := d.sc.index(k)
		if i < 0 {
			continue
		}
		tag := fmt.Sprintf("val%d", i)
		found := ""
		if f := d.field[k]; f != "" && sameP(d.fieldVal(s, f), d.entry[f]) {
			d.bad("scope-content", where, "%s reads a child with the %s of an enclosing element although the element has its own", caller, k)
			continue
		}
		for path := range d.entry {
			v := s.resolve(d.fieldVal(s, path))
			if list, top := d.topOf(s, v); top[tag] || list && len(top) > 0 && !sameP(v, d.entry[path]) && s.resolve(d.ts(s).vals[i]).k == pConst {
				found = path
			}
		}
		if found == "" && s.resolve(d.ts(s).vals[i]).k != pConst {
			d.bad("scope-content", where, "%s reads a child while the element's %s is not in force", caller, k)
		} else if found != "" && d.field[k] == "" && s.resolve(d.ts(s).vals[i]).k != pConst {
			d.field[k] = found
		}
		if k == "xml:base" && found != "" && s.resolve(d.ts(s).vals[i]).k != pConst {
			if _, top := d.topOf(s, s.resolve(d.fieldVal(s, found))); !top["outer"+found] && !d.noOuter(s, found) {
				d.bad("scope-content", where, "%s reads a child with an xml:base that was not made absolute", caller)
			}
		}
	}
	// the child's context
	for i, a := range args {
		if i < fn.Signature.Params().Len()+1 && d.sc.role != "root" {
			pi := i
			if fn.Signature.Recv() != nil {
				pi--
			}
			if pi < 0 || pi >= fn.Signature.Params().Len() {
				continue
			}
			t := fn.Signature.Params().At(pi).Type()
			if paramNamed(t) == "Subject" && s.resolve(a).k != pNil {
				for t := range d.carried(s, a) {
					if strings.HasPrefix(t, "val") {
						ts.add(t)
					}
				}
				if d.sc.role == "node" {
					d.nodeSubject(s, d.ident(s, a), where, caller)
				} else if role == "property" {
					stmt, ok := s.mem[at(d.subj, "?stmt")]
					if !ok || !sameP(stmt, d.ident(s, a)) {
						d.bad("one-subject", where, "%s reads properties of a node that is not the value of the property", caller)
					}
				}
			}
		}
	}
	if role == "property" && d.sc.role == "node" {
		d.counterStart(s, args, where, caller)
	}
	ts.childs++
	if ts.childs > 3 {
		ts.childs = 3
		if d.sc.role == "property" {
			if v, _ := d.sc.parseType(); v == "Collection" {
				return nil
			}
		}
	}
	if d.sc.role == "property" && role == "node" && ts.childs > 1 {
		if v, _ := d.sc.parseType(); v != "Collection" {
			d.bad("two-children", where, "%s reads a second node element in a property element", caller)
			return nil
		}
	}
	// what the child may change
	d.counterExit(s, where, caller)
	for l := range s.mem {
		if strings.HasPrefix(l.path, "?has:") || strings.Contains(l.path, "?looked") {
			delete(s.mem, l)
		}
	}
	for _, p := range d.ctrs {
		d.freshCounter(e, s, p, site)
	}
	for i, a := range args {
		a = s.resolve(a)
		if a.k != pAddr || tokMark(s, a) || i > len(in.Common().Args) {
			continue
		}
		for l, x := range s.mem {
			if _, n := s.intOf(x); l.obj == a.loc.obj && strings.HasPrefix(l.path, a.loc.path) && (l == a.loc && (x.k == pConst || x.k == pSym) || n || hasTag(s, s.resolve(x), "li!")) {
				v := e.fresh(s, site)
				s.addTag(v, "li!")
				s.mem[l] = v
			}
		}
	}
	o := s.clone()
	d.resultsOf(e, o, in, e.nonNil(o, site), nil)
	nth := ts.childs - 1
	d.resultsOf(e, s, in, pval{k: pNil}, func(t types.Type, i int) pval {
		v := e.nonNil(s, site)
		if paramNamed(t) == "Subject" {
			s.addTag(v, "c:child")
			s.mem[at(v, ".nth")] = pint(int64(nth))
			if d.sc.role == "property" {
				d.ts(s).child = true
			}
		}
		return v
	})
	if d.sc.role == "root" && d.ts(s).depth == 0 {
		d.ts(s).elems++
		if d.ts(s).elems > 1 {
			d.bad("one-root", where, "%s reads a second root element", caller)
			return nil
		}
	}
	return []*pstate{o, s}
}

// topOf is what the value of a field, or the last of its elements, carries.
func (d *rdfDom) topOf(s *pstate, v pval) (list bool, tags map[string]bool) {
	if !d.isList(s, v) {
		return false, d.carried(s, v)
	}
	n := d.lenOf(s, v)
	if n == 0 {
		return true, nil
	}
	return true, d.carried(s, pval{k: pAddr, loc: at(v, elemPath(n-1))})
}

// sameTop: what is in force is what is in force outside.
func (d *rdfDom) sameTop(s *pstate, v pval, path string) bool {
	n := 0
	if !d.isList(s, v) {
		return false
	}
	if n = d.lenOf(s, v); n == 0 {
		return false
	}
	if u, ok := d.under(s, v); !ok || !sameP(u, d.entry[path]) {
		return false
	}
	x := s.resolve(s.mem[at(v, elemPath(n-1))])
	if top, ok := s.mem[at(d.entry[path], "?top")]; ok && sameP(s.resolve(top), x) {
		return true
	}
	c, ok := s.strOf(x)
	return ok && c == "" && d.noOuter(s, path)
}

// noOuter: it is known that nothing is in force outside the element.
func (d *rdfDom) noOuter(s *pstate, path string) bool {
	en := d.entry[path]
	if em, ok := s.mem[at(en, "?empty")]; ok && s.equal(em, pbool(true)) == 1 {
		return true
	}
	if top, ok := s.mem[at(en, "?top")]; ok && s.resolve(top).k == pConst {
		return true
	}
	return s.resolve(en).k == pConst
}

// counterStart: the count of rdf:li goes on from one property to the next.
func (d *rdfDom) counterStart(s *pstate, args []pval, where, caller string) {
	first := d.ts(s).childs == 0
	goes := false
	for _, a := range args {
		a = s.resolve(a)
		if a.k != pAddr {
			continue
		}
		for l, v := range s.mem {
			if l.obj != a.loc.obj || !strings.HasPrefix(l.path, a.loc.path) {
				continue
			}
			if n, ok := s.intOf(v); ok && first && (n == 1 || n == 0) {
				s.mem[at(d.parser, "?listart")] = pint(n)
			}
			goes = goes || hasTag(s, s.resolve(v), "li!")
		}
	}
	if v, ok := s.mem[at(d.parser, "?listart")]; ok {
		n, _ := s.intOf(v)
		d.rules["listart"] = fmt.Sprint(n)
		if !first && !goes {
			d.bad("li-count", where, "%s starts the numbers of rdf:li anew with every property", caller)
		}
	}
}

func (d *rdfDom) freshCounter(e *pathEng, s *pstate, path string, site ssa.Value) {
	v := e.fresh(s, site)
	s.addTag(v, "ctr!")
	if !d.post {
		s.addTag(v, "used!")
	}
	s.mem[at(d.parser, path)] = v
}

// counterExit: the counter is left as the other functions expect it. Either it is
// always at the last value used, or always at one not used yet.
func (d *rdfDom) counterExit(s *pstate, where, fn string) {
	for _, p := range d.ctrs {
		v, ok := s.mem[at(d.parser, p)]
		if !ok {
			continue
		}
		v = s.resolve(v)
		if !hasTag(s, v, "ctr!") {
			d.bad("generated-id", where, "%s leaves the parser's counter at a value that does not come from counting on", fn)
		} else if d.post && hasTag(s, v, "used!") {
			d.bad("generated-id", where, "%s leaves the parser's counter at a value an identifier was made with", fn)
		}
	}
}

// ret judges an end of the reading of the element.
func (d *rdfDom) ret(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
	if len(s.frames) != 1 {
		return
	}
	ei := errResultIndex(in.Parent().Signature)
	if ei < 0 || s.isNil(s.resolve(vals[ei])) == -1 {
		return
	}
	ts := d.ts(s)
	where := d.u.InstrPos(in)
	fn := fnName(in.Parent())
	// all that is refused is refused, and nothing is lost
	d.goods++
	if why := d.sc.forbidden(d.sc.role == "property" && ts.childs > 0, ts.hadText && !d.isLiteral()); why != "" && (d.sc.role != "root" || ts.elems > 0) {
		d.bad("forbidden", where, "%s accepts %s", fn, why)
		return
	}
	switch {
	case ts.tok == "eof" && d.sc.role == "root" && ts.depth == 0:
		if ts.elems != 1 {
			d.bad("one-root", where, "%s accepts a document without an element", fn)
		}
	case ts.tok != "":
		d.bad("skipped", where, "%s succeeds after %s that was neither refused nor used", fn, tokWords[ts.tok])
		return
	case d.sc.role == "root":
		d.bad("unfinished", where, "%s succeeds before the end of the document", fn)
		return
	case !ts.over:
		d.bad("unfinished", where, "%s succeeds before the end of the element", fn)
		return
	}
	if d.sc.role != "root" && ts.depth != 0 {
		d.bad("unfinished", where, "%s succeeds inside an element that is not closed", fn)
	}
	d.good[d.sc.role+" "+d.sc.name+fmt.Sprint(d.sc.attrs)]++
	if d.sc.role == "root" {
		d.restored(s, where, fn)
		return
	}
	if ts.text {
		d.bad("text-lost", where, "%s succeeds although text of the element reached no statement", fn)
	}
	if ts.child {
		d.bad("child-lost", where, "%s succeeds although the node in the element reached no statement", fn)
	}
	for i, a := range d.sc.attrs {
		tag := fmt.Sprintf("val%d", i)
		switch a.key {
		case "ID", "nodeID", "about", "resource", "datatype", "type", "property":
		default:
			continue
		}
		if ts.vals[i].k != pSym || s.resolve(ts.vals[i]).k == pConst {
			continue
		}
		if a.key == "datatype" && d.sc.count("property", "type") > 0 {
			continue // the specification gives it no meaning there
		}
		have := ts.has(tag)
		for j, v := range vals {
			if j != ei && d.carried(s, v)[tag] {
				have = true
			}
		}
		if !have {
			d.bad("attribute-lost", where, "%s succeeds although attribute %s reached no statement", fn, a.key)
		}
		if (a.key == "ID" || a.key == "nodeID") && !hasTag(s, ts.vals[i], "ncname") {
			d.bad("id-syntax", where, "%s accepts any text as rdf:%s", fn, a.key)
		}
		if a.key == "ID" && !ts.has("declared:"+tag) {
			d.bad("id-declared", where, "%s accepts an rdf:ID without refusing one that was used with the same base and remembering it", fn)
		}
	}
	d.restored(s, where, fn)
	d.statements(s, in, vals, ei, where, fn)
}

func (d *rdfDom) isLiteral() bool {
	v, ok := d.sc.parseType()
	return ok && v != "Resource" && v != "Collection"
}

func (d *rdfDom) restored(s *pstate, where, fn string) {
	for path, en := range d.entry {
		if v := d.fieldVal(s, path); !sameP(v, en) {
			d.bad("restored", where, "%s leaves %s of the parser changed", fn, d.fieldName(path))
		}
	}
	d.counterExit(s, where, fn)
}

func (d *rdfDom) fieldName(path string) string {
	for _, p := range d.root.Params {
		if st, ok := deref(p.Type()).Underlying().(*types.Struct); ok && paramNamed(p.Type()) == "Parser" {
			for i := 0; i < st.NumFields(); i++ {
				if path == fmt.Sprintf(".%d", i) {
					return "field " + st.Field(i).Name()
				}
			}
		}
	}
	return "a field"
}

// statements judges what was said of the element (R07).
func (d *rdfDom) statements(s *pstate, in *ssa.Return, vals []pval, ei int, where, fn string) {
	ts := d.ts(s)
	for i, a := range d.sc.attrs {
		if (a.key == "property" || a.key == "type") && !ts.has(fmt.Sprintf("attr:val%d", i)) {
			d.bad("attribute-statement", where, "%s succeeds without a statement that attribute %s has its value", fn, a.key)
		}
	}
	switch d.sc.role {
	case "node":
		for j, v := range vals {
			if j != ei && v.k == pSym {
				id := d.ident(s, v)
				d.nodeSubject(s, id, where, fn)
				if d.sc.count("ID", "nodeID", "about") == 0 && paramNamed(in.Parent().Signature.Results().At(j).Type()) == "Subject" && !hasTag(s, id, "genid!") {
					d.bad("new-node", where, "%s does not make a new node for an element that names none", fn)
				}
			}
		}
		if d.sc.name == "" && !ts.has("typed") {
			d.bad("typed-node", where, "%s succeeds without a statement of the node's type", fn)
		}
	case "property":
		if !ts.has("stmt") {
			d.bad("statement", where, "%s succeeds without the statement of the property element", fn)
			return
		}
		stmt := s.mem[at(d.subj, "?stmt")]
		if d.sc.has("ID") {
			for _, p := range []string{"subject", "predicate", "object", "type"} {
				if !ts.has("reif:" + p) {
					d.bad("reified", where, "%s succeeds without the reification's rdf:%s", fn, p)
				}
			}
		}
		if v, _ := d.sc.parseType(); v == "Resource" && !hasTag(s, stmt, "genid!") {
			d.bad("new-node", where, "%s does not make a new node for the content of the property", fn)
		}
		if d.sc.count("property", "type") > 0 && d.sc.count("resource", "nodeID") == 0 && !hasTag(s, stmt, "genid!") {
			d.bad("new-node", where, "%s does not make a new node for the attributes of the property", fn)
		}
		if x, ok := s.mem[at(d.subj, "?attrsubj")]; ok && !sameP(x, stmt) {
			d.bad("one-subject", where, "%s gives attributes to a node that is not the value of the property", fn)
		}
		if d.sc.name == "li" {
			n := s.mem[at(d.subj, "?li")]
			okc := false
			for l, v := range s.mem {
				if l.path == "?li" || strings.HasPrefix(l.path, "?") || v.k != pSym {
					continue
				}
				if sc, ok := s.mem[at(v, "?succ")]; ok && sameP(sc, n) {
					d.rules["lipre"] = "1"
					okc = true
				}
				if sc, ok := s.mem[at(n, "?succ")]; ok && n.k == pSym && sameP(v, n) && sc.k == pSym {
					d.rules["lipre"] = "0"
					okc = true
				}
			}
			if !okc {
				d.bad("li-count", where, "%s does not count an rdf:li", fn)
			}
		}
		if v, _ := d.sc.parseType(); v == "Collection" {
			want := strings.Repeat("fr", ts.childs)
			if ts.childs > 0 {
				want += "."
			}
			os, isC := s.strOf(stmt)
			switch {
			case ts.st != want:
				d.bad("collection", where, "%s makes a list that does not have the %d members and an end (%s)", fn, ts.childs, ts.st)
			case ts.childs == 0 && os != rdfNS+"nil" || ts.childs > 0 && (isC || !hasTag(s, stmt, "genid!")):
				d.bad("collection", where, "%s makes a property whose value is not the list", fn)
			}
		}
	}
}

// noted sees identifiers being remembered.
func (d *rdfDom) instr(e *pathEng, s *pstate, in ssa.Instruction) {
	up, ok := in.(*ssa.MapUpdate)
	if !ok {
		return
	}
	m := s.resolve(e.get(s, up.Map))
	f, ok := s.tagOf(m, "pmap!")
	if !ok {
		return
	}
	k := s.resolve(e.get(s, up.Key))
	if k.k != pSym {
		return
	}
	has, ok := s.mem[at(k, "?has:"+f)]
	if !ok || s.equal(has, pbool(true)) != -1 {
		return
	}
	if v := s.resolve(e.get(s, up.Value)); v.k == pConst && v.c.Kind() == constant.Bool && !constant.BoolVal(v.c) {
		return
	}
	tags := d.carried(s, k)
	if b, ok := d.inForce(s, "xml:base"); ok && !tags[b] {
		return
	}
	for t := range tags {
		if strings.HasPrefix(t, "val") {
			d.ts(s).add("declared:" + t)
		}
	}
}

// run follows one function for one kind of element.
func (d *rdfDom) run(fn *ssa.Function, sc rdfScene) {
	d.root, d.sc = fn, sc
	e := newPathEng(d.u, pclient{call: d.call, value: d.value, instr: d.instr, ret: d.ret,
		inline: func(f *ssa.Function) bool { return fnPkg(f) == rdfxmlPkg || f.Synthetic != "" }})
	e.limit, e.fold, e.depth = 60000, 8, 16
	ts := &rdfTS{}
	if sc.role != "root" {
		ts.depth = 1
	}
	full := e.run(fn, ts, func(s *pstate) { d.setup(e, s, fn) })
	if !full {
		d.bad("analysable", d.u.Pos(fn.Pos()), "%s has too many ways to follow", fnName(fn))
	}
	if !d.quiet {
		d.r.Count("kinds of element followed", 1)
		d.r.Count("program states", e.states)
		for f := range e.funcs {
			d.seen[f] = true
		}
	}
}

func (d *rdfDom) setup(e *pathEng, s *pstate, fn *ssa.Function) {
	ts := d.ts(s)
	env := s.frames[0].env
	d.entry, d.ctrs = map[string]pval{}, nil
	d.subj = pval{}
	for i, p := range fn.Params {
		v := env[p]
		switch paramNamed(p.Type()) {
		case "Parser":
			s.objs[v.id].ne = []pval{{k: pNil}}
			d.parser = v
			d.fields(e, s, v, deref(p.Type()), p)
		case "StartElement":
			s.objs[v.id].ne = []pval{{k: pNil}}
			d.fill(e, s, v, p)
		case "Subject":
			if d.nilArg[fn][i] {
				env[p] = pval{k: pNil}
				continue
			}
			s.objs[v.id].ne = []pval{{k: pNil}}
			s.addTag(v, "c:subj")
			d.subj = v
		default:
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Basic); ok {
					id := e.newObj(s, p)
					env[p] = pval{k: pAddr, loc: ploc{id, ""}}
					s.mem[ploc{id, ""}] = e.fresh(s, p)
					ts.keep = append(ts.keep, pval{k: pSym, id: id})
				} else {
					s.objs[v.id].ne = []pval{{k: pNil}}
				}
			}
		}
		ts.keep = append(ts.keep, v)
	}
	if d.subj.k == pTop {
		d.subj = e.nonNil(s, fn.Params[0])
		ts.keep = append(ts.keep, d.subj)
	}
}

func (d *rdfDom) fields(e *pathEng, s *pstate, p pval, t types.Type, site ssa.Value) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		path := fmt.Sprintf(".%d", i)
		switch ft := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			l := d.newList(e, s, site, 0, pval{})
			s.addTag(l, "bottom!")
			s.addTag(l, "c:outer"+path)
			s.mem[at(p, path)] = l
			d.entry[path] = l
		case *types.Map:
			m := e.nonNil(s, site)
			s.addTag(m, "pmap!"+path)
			s.mem[at(p, path)] = m
		case *types.Basic:
			v := e.fresh(s, site)
			switch {
			case ft.Info()&types.IsString != 0:
				s.addTag(v, "c:outer"+path)
				s.mem[at(p, path)] = v
				d.entry[path] = v
			case ft.Info()&types.IsInteger != 0:
				d.ctrs = append(d.ctrs, path)
				d.freshCounter(e, s, path, site)
			}
		case *types.Pointer:
			v := e.nonNil(s, site)
			s.addTag(v, "c:outer"+path)
			s.mem[at(p, path)] = v
			d.entry[path] = v
		}
	}
}

func attrLists(deep bool) [][]attrKind {
	out := [][]attrKind{nil}
	for _, a := range attrKinds {
		out = append(out, []attrKind{a})
	}
	for _, a := range attrKinds {
		for _, b := range attrKinds {
			if a.key == b.key {
				continue
			}
			out = append(out, []attrKind{a, b})
		}
	}
	return out
}

// newRDF analyses the reader once for all three properties.
func newRDF(u *Unit, r *Report) *rdfDom {
	d := &rdfDom{u: u, r: r, reads: map[*ssa.Function]bool{}, cyclic: map[*ssa.Function]bool{}, ncname: map[*ssa.Function]bool{},
		roles: map[*ssa.Function]string{}, nilArg: map[*ssa.Function]map[int]bool{}, field: map[string]string{}, rules: map[string]string{},
		good: map[string]int{}, seen: map[*ssa.Function]bool{}}
	d.prepare()
	d.findNCNames()
	var roots []*ssa.Function
	for _, fn := range u.PkgFuncs(rdfxmlPkg) {
		o, ok := fn.Object().(*types.Func)
		if ok && o.Exported() && d.reads[fn] && fn.Parent() == nil {
			roots = append(roots, fn)
		}
	}
	kind := func(k string) attrKind {
		for _, a := range attrKinds {
			if a.key == k {
				return a
			}
		}
		panic(k)
	}
	// learn which functions read what, and where the inherited attributes are kept
	d.quiet = true
	for _, fn := range roots {
		for _, n := range []string{"RDF", ""} {
			d.run(fn, rdfScene{role: "root", name: n})
		}
	}
	for i := 0; i < len(d.order); i++ {
		fn := d.order[i]
		for _, as := range [][]attrKind{nil, {kind("xml:base")}, {kind("xml:lang")}, {kind("parseType")}} {
			d.run(fn, rdfScene{role: d.roles[fn], attrs: as})
		}
	}
	d.fails = 0
	try := func(post bool) int {
		d.post, d.fails, d.quiet = post, 0, true
		for _, fn := range d.order {
			for _, as := range [][]attrKind{nil, {kind("property")}, {{key: "parseType", space: rdfNS, local: "parseType", value: "Collection"}}} {
				d.run(fn, rdfScene{role: d.roles[fn], attrs: as})
			}
		}
		return d.fails
	}
	if pre := try(false); pre > 0 && try(true) < pre {
		d.post = true
	} else {
		d.post = false
	}
	d.quiet, d.fails, d.goods, d.ids = false, 0, 0, 0
	d.good = map[string]int{}
	n := len(d.order)
	for _, fn := range roots {
		for _, as := range attrLists(false) {
			if len(as) < 2 {
				d.run(fn, rdfScene{role: "root", name: "RDF", attrs: as})
			}
		}
		d.run(fn, rdfScene{role: "root"})
	}
	for i := 0; i < len(d.order); i++ {
		fn := d.order[i]
		role := d.roles[fn]
		for _, name := range nodeNames {
			d.run(fn, rdfScene{role: role, name: name})
			d.run(fn, rdfScene{role: role, name: name, attrs: []attrKind{kind("property")}})
		}
		for _, as := range attrLists(false) {
			if len(as) == 0 {
				continue
			}
			d.run(fn, rdfScene{role: role, attrs: as})
			if len(as) == 1 {
				d.run(fn, rdfScene{role: role, name: map[string]string{"node": "Description", "property": "li"}[role], attrs: as})
			}
		}
	}
	if len(roots) == 0 || n < 2 || len(d.order) != n {
		r.Bad("vacuous", "rdfxml", "", "the functions that read elements were not found")
	}
	// what the specification allows is read
	for fn, role := range d.roles {
		for _, as := range attrLists(false) {
			sc := rdfScene{role: role, attrs: as}
			if len(as) > 1 || sc.forbidden(false, false) != "" {
				continue
			}
			if d.good[role+" "+fmt.Sprint(as)] == 0 {
				r.Bad("never-read", fnName(fn), u.Pos(fn.Pos()), "%s never succeeds for a %s", fnName(fn), sc)
			}
		}
	}
	if d.rules["listart"] != "" && d.rules["lipre"] != "" && d.rules["listart"] != d.rules["lipre"] {
		r.Bad("li-count", "rdfxml", "", "the first rdf:li is not numbered 1")
	}
	r.Count("successful ends judged", d.goods)
	r.Count("identifiers made", d.ids)
	r.Count("functions followed", len(d.seen))
	r.Count("functions that read an element", len(d.order))
	return d
}

// findNCNames finds the functions that accept a text only if it is an NCName.
func (d *rdfDom) findNCNames() {
	base := `A-Za-z_\x{C0}-\x{D6}\x{D8}-\x{F6}\x{F8}-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
	spec := `[` + base + `][` + base + `\-.0-9\x{B7}\x{300}-\x{36F}\x{203F}-\x{2040}]*`
	for _, fn := range d.u.Funcs {
		sig := fn.Signature
		if fnPkg(fn) != rdfxmlPkg || fn.Parent() != nil || len(fn.Blocks) == 0 || sig.Results().Len() != 1 || !isError(sig.Results().At(0).Type()) || d.reads[fn] {
			continue
		}
		p := onlyText(fn)
		if p == nil || !types.Identical(p.Type(), types.Typ[types.String]) {
			continue
		}
		tmp := newReport("tmp")
		g := &grammarCheck{u: d.u, r: tmp, pkgs: map[string]bool{rdfxmlPkg: true}, exprs: []string{spec},
			spec: func(a *alphabet) map[string]*dfa { return map[string]*dfa{"ncname": a.spec(spec)} }}
		g.admits(fn, "ncname", "an NCName", nil)
		if len(tmp.findings) == 0 {
			d.ncname[fn] = true
		}
	}
}

var rdfRules = map[string][]string{
	"R05": {"scope-applied", "scope-content", "restored", "generated-id", "id-syntax", "id-declared"},
	"R06": {"forbidden", "skipped", "past-end", "unfinished", "one-root", "text-lost", "child-lost", "attribute-lost", "wrong-reader", "read-twice", "two-children"},
	"R07": {"statement", "one-statement", "one-subject", "attribute-statement", "typed-node", "new-node", "reified", "collection", "li-count"},
}

// rdfDone is the analysis shared by the three properties.
var rdfDone = map[*World]*rdfDom{}

func init() {
	for _, id := range []string{"R05", "R06", "R07"} {
		id := id
		register(id, func(w *World, r *Report) {
			u := w.Host
			if rdfDone[w] == nil {
				tmp := newReport("rdf")
				rdfDone = map[*World]*rdfDom{w: newRDF(u, tmp)}
			}
			d := rdfDone[w]
			tmp := d.r
			mine := map[string]bool{"analysable": true, "vacuous": true, "never-read": true}
			for _, x := range rdfRules[id] {
				mine[x] = true
			}
			r.counts = tmp.counts
			for _, f := range tmp.findings {
				rule := f.Key[:strings.IndexByte(f.Key, '|')]
				if mine[rule] {
					r.Bad(rule, f.Key[len(rule)+1:], f.Pos, "%s", f.Text)
				}
			}
			for _, rule := range rdfRules[id] {
				for _, fn := range d.order {
					r.OK(rule, "%s: on every path of %s over every sequence of tokens, for every kind of %s element", rule, fnName(fn), d.roles[fn])
				}
			}
			r.Floor("successful ends judged", 100)
			r.Floor("functions that read an element", 2)
		})
	}
}
