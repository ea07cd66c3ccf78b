package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var dumpGen = flag.String("gen", "", "debug: print the code generated for columns of a type")

// G01 and G02: the code a mapping is turned into.

// identifiers are the fields of a mapping that hold names and types chosen as such.
var identifiers = map[string]bool{
	"PackageName": true, "packageName": true, "MessageName": true, "messageName": true,
	"ProtoName": true, "ProtoType": true, "GoPackageName": true,
}

func leafName(src string) string {
	src = strings.TrimSuffix(src, "[]")
	if i := strings.LastIndexAny(src, ".)"); i >= 0 {
		return src[i+1:]
	}
	return src
}

func classOfHole(n *gn) string {
	if n.class == "free" && identifiers[leafName(n.src)] {
		return "name"
	}
	return n.class
}

var classRank = map[string]int{"": 0, "number": 1, "name": 2, "word": 3, "free": 4}

// leaf is the least that can be said of the texts of n taken as one, and where they
// come from.
func leaf(n *gn, seen map[*gn]bool) (string, string) {
	if n == nil || seen[n] {
		return "", ""
	}
	seen[n] = true
	if n.kind == "hole" {
		return classOfHole(n), n.src
	}
	if n.kind == "fn" && n.class != "" {
		_, s := leaf(n.kids[0], seen)
		return n.class, s
	}
	if n.kind == "lit" {
		for _, r := range n.text {
			if r != '_' && r != '.' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
				return "", ""
			}
		}
		return "", ""
	}
	class, src := "", ""
	add := func(k *gn) {
		c, s := leaf(k, seen)
		if classRank[c] > classRank[class] {
			class, src = c, s
		}
	}
	for _, k := range n.kids {
		add(k)
	}
	if n.list != nil {
		for _, k := range listTexts(n.list) {
			add(k)
		}
	}
	if n.kind == "fn" && class == "word" && strings.Contains(n.text, "trim") {
		class = "word"
	}
	return class, src
}

// listTexts are the texts that are elements of a list.
func listTexts(l *gav) []*gn {
	v := newAV()
	e := &gram{}
	e.elems(v, l, map[*gobj]bool{})
	return sortedNodes(v.strs)
}

// lexical states
const (
	lxCode = iota
	lxStr
	lxStrEsc
	lxRaw
	lxRune
	lxRuneEsc
	lxLine
	lxBlock
	lxStar
	lxSlash
	lxN
)

var lxNames = map[int]string{lxCode: "as code", lxStr: "inside a string literal", lxStrEsc: "inside a string literal", lxRaw: "inside a raw string literal", lxRune: "inside a character literal", lxRuneEsc: "inside a character literal", lxLine: "in a line comment", lxBlock: "in a block comment", lxStar: "in a block comment", lxSlash: "after a slash"}

func lexByte(st int, c byte, goLang bool) int {
	switch st {
	case lxSlash:
		if c == '/' {
			return lxLine
		}
		if c == '*' {
			return lxBlock
		}
		return lexByte(lxCode, c, goLang)
	case lxCode:
		switch c {
		case '"':
			return lxStr
		case '`':
			if goLang {
				return lxRaw
			}
		case '\'':
			return lxRune
		case '/':
			return lxSlash
		}
	case lxStr:
		if c == '\\' {
			return lxStrEsc
		}
		if c == '"' || c == '\n' {
			return lxCode
		}
	case lxStrEsc:
		return lxStr
	case lxRune:
		if c == '\\' {
			return lxRuneEsc
		}
		if c == '\'' || c == '\n' {
			return lxCode
		}
	case lxRuneEsc:
		return lxRune
	case lxRaw:
		if c == '`' {
			return lxCode
		}
	case lxLine:
		if c == '\n' {
			return lxCode
		}
	case lxBlock:
		if c == '*' {
			return lxStar
		}
	case lxStar:
		if c == '/' {
			return lxCode
		}
		if c != '*' {
			return lxBlock
		}
	}
	return st
}

type lexer struct {
	goLang  bool
	memo    map[lexKey]uint
	again   bool
	visits  map[string]lexVisit
	visited map[lexKey]bool
}

type lexKey struct {
	n    *gn
	st   int
	nobt bool
}

type lexVisit struct {
	src, class, state, why string
	bad                    bool
}

func (x *lexer) run(n *gn) {
	x.memo, x.visits = map[lexKey]uint{}, map[string]lexVisit{}
	for i := 0; i < 100; i++ {
		x.again = false
		x.visited = map[lexKey]bool{}
		x.lex(n, lxCode, false)
		if !x.again {
			return
		}
	}
}

// leafAt looks at a text of a class in a state.
func (x *lexer) leafAt(src, class string, st int, nonl, nobt, quoted bool) {
	v := lexVisit{src: src, class: class, state: lxNames[st]}
	switch {
	case class == "" || class == "number" || class == "name":
	case quoted:
		switch st {
		case lxCode, lxLine, lxSlash:
		case lxRaw:
			if class == "free" && !nobt {
				v.bad, v.why = true, "is quoted inside a raw string literal, which a backquote in it ends"
			}
		default:
			v.bad, v.why = true, "is quoted "+lxNames[st]
		}
	case class == "word":
		if st == lxCode || st == lxSlash {
			v.bad, v.why = true, "stands as a name, but can be empty or begin with a digit"
		}
	default:
		switch {
		case st == lxLine && nonl:
		case st == lxRaw && nobt:
		case st == lxLine:
			v.bad, v.why = true, "stands in a line comment, which a line break in it ends"
		default:
			v.bad, v.why = true, "stands unquoted "+lxNames[st]
		}
	}
	x.visits[fmt.Sprintf("%s/%s/%s/%v", src, class, v.state, v.bad)] = v
}

func (x *lexer) lex(n *gn, st int, nobt bool) uint {
	if n == nil {
		return 0
	}
	key := lexKey{n, st, nobt}
	if x.visited[key] {
		return x.memo[key]
	}
	x.visited[key] = true
	out := uint(0)
	each := func(in uint, f func(st int)) {
		for i := 0; i < lxN; i++ {
			if in&(1<<i) != 0 {
				f(i)
			}
		}
	}
	same := func(nonl, nb, quoted bool) {
		class, src := leaf(n, map[*gn]bool{})
		x.leafAt(src, class, st, nonl, nobt || nb, quoted)
		out |= 1 << st
		if st == lxSlash {
			out = 1 << lxCode
		}
	}
	switch n.kind {
	case "lit":
		s := st
		for i := 0; i < len(n.text); i++ {
			s = lexByte(s, n.text[i], x.goLang)
		}
		out = 1 << s
	case "alt":
		for _, k := range n.kids {
			out |= x.lex(k, st, nobt)
		}
	case "cat":
		in := uint(1) << st
		for _, k := range n.kids {
			next := uint(0)
			each(in, func(s int) { next |= x.lex(k, s, nobt) })
			in = next
		}
		out = in
	case "quote":
		if s, ok := litOf(n, 0); ok {
			t := st
			for i := 0; i < len(s); i++ {
				t = lexByte(t, s[i], x.goLang)
			}
			out = 1 << t
			break
		}
		same(true, false, true)
	case "nonl":
		if s, ok := litOf(n, 0); ok {
			t := st
			for i := 0; i < len(s); i++ {
				t = lexByte(t, s[i], x.goLang)
			}
			out = 1 << t
			break
		}
		same(true, false, false)
	case "nobt":
		out = x.lex(n.kids[0], st, true)
	case "trim":
		out = x.lex(n.kids[0], st, nobt)
	case "rep":
		out = 1 << st
		for i := 0; i < lxN+1; i++ {
			each(out, func(s int) { out |= x.lex(n.kids[0], s, nobt) })
		}
	case "join":
		out = 1 << st
		for i := 0; i < lxN+1; i++ {
			each(out, func(s int) {
				for _, k := range listTexts(n.list) {
					o := x.lex(k, s, nobt)
					out |= o
					each(o, func(s2 int) { out |= x.lex(n.kids[0], s2, nobt) })
				}
			})
		}
	default:
		same(false, false, false)
	}
	if x.memo[key]|out != x.memo[key] {
		x.memo[key] |= out
		x.again = true
	}
	return x.memo[key]
}

// deriv derives one text from a grammar.
type deriv struct {
	loops  int
	k      int
	choice map[int]int
	bound  map[*gn]string
	seen   map[int]int // alternatives met, and how many choices there were
	rec    map[[2]int]bool
	steps  int
}

func newDeriv(loops int, choice map[int]int) *deriv {
	return &deriv{loops: loops, k: -1, choice: choice, bound: map[*gn]string{}, seen: map[int]int{}, rec: map[[2]int]bool{}}
}

func reaches(from, to *gn, seen map[*gn]bool) bool {
	if from == nil || seen[from] {
		return false
	}
	if from == to {
		return true
	}
	seen[from] = true
	for _, k := range from.kids {
		if reaches(k, to, seen) {
			return true
		}
	}
	if from.list != nil {
		for _, k := range listTexts(from.list) {
			if reaches(k, to, seen) {
				return true
			}
		}
	}
	return false
}

func (d *deriv) recursive(x, p *gn) bool {
	key := [2]int{x.id, p.id}
	if v, ok := d.rec[key]; ok {
		return v
	}
	v := reaches(p, x, map[*gn]bool{})
	d.rec[key] = v
	return v
}

// each runs f once for every turn of a loop.
func (d *deriv) each(f func()) {
	for i := 0; i < d.loops; i++ {
		outer := d.k < 0
		if outer {
			d.k = i
		}
		f()
		if outer {
			d.k = -1
		}
	}
}

func (d *deriv) text(n *gn) string {
	if n == nil {
		return ""
	}
	if d.steps++; d.steps > 200000 {
		return ""
	}
	switch n.kind {
	case "lit":
		return n.text
	case "cat":
		out := ""
		for _, k := range n.kids {
			out += d.text(k)
		}
		return out
	case "quote":
		return strconv.Quote(d.text(n.kids[0]))
	case "nonl":
		return strings.SplitN(d.text(n.kids[0]), "\n", 2)[0]
	case "nobt":
		return strings.ReplaceAll(d.text(n.kids[0]), "`", "'")
	case "trim":
		return strings.TrimRight(d.text(n.kids[0]), " ")
	case "rep":
		out := ""
		d.each(func() { out += d.text(n.kids[0]) })
		return out
	case "join":
		return strings.Join(d.list(n.list), d.text(n.kids[0]))
	case "fn":
		s := d.text(n.kids[0])
		switch {
		case strings.HasSuffix(n.text, "UpperCamelCase"):
			return camel(s, true)
		case strings.HasSuffix(n.text, "LowerCamelCase"):
			return camel(s, false)
		case strings.HasSuffix(n.text, "ToLower"), strings.HasSuffix(n.text, "SnakeCase"):
			return strings.ToLower(s)
		case strings.HasSuffix(n.text, "ToUpper"):
			return strings.ToUpper(s)
		case strings.HasSuffix(n.text, ".Title"):
			return strings.Title(s)
		case n.text == "replaced" || n.class != "":
			return regexp.MustCompile(`[^A-Za-z0-9_]`).ReplaceAllString(s, "_")
		}
		return s
	case "hole":
		return sampleOf(n, d.k)
	case "alt":
		if s, ok := d.bound[n]; ok {
			return s
		}
		kids, alts := flat(n)
		for _, m := range alts {
			if s, ok := d.bound[m]; ok {
				return s
			}
		}
		var base, rec []*gn
		for _, k := range kids {
			again := false
			for _, m := range alts {
				again = again || d.recursive(m, k)
			}
			if again {
				rec = append(rec, k)
			} else {
				base = append(base, k)
			}
		}
		out := ""
		if len(base) > 0 {
			d.seen[n.id] = len(base)
			out = d.text(base[d.choice[n.id]%len(base)])
		}
		if len(rec) > 0 {
			d.each(func() {
				for _, m := range alts {
					d.bound[m] = out
				}
				out = d.text(rec[0])
				for _, m := range alts {
					delete(d.bound, m)
				}
			})
		}
		return out
	}
	return ""
}

// flat are the texts that are not themselves choices that n chooses from, and the
// choices on the way.
func flat(n *gn) (kids, alts []*gn) {
	seen := map[*gn]bool{n: true}
	work := []*gn{n}
	for len(work) > 0 {
		m := work[0]
		work = work[1:]
		if m.kind != "alt" {
			kids = append(kids, m)
			continue
		}
		alts = append(alts, m)
		for _, k := range m.kids {
			if !seen[k] {
				seen[k] = true
				work = append(work, k)
			}
		}
	}
	return
}

func camel(s string, up bool) string {
	out := ""
	for _, r := range s {
		if r == '_' || r == '-' || r == ' ' || r == '.' {
			if out != "" {
				up = true
			}
			continue
		}
		if up {
			out += string(unicode.ToUpper(r))
			up = false
			continue
		}
		if out == "" {
			r = unicode.ToLower(r)
		}
		out += string(r)
	}
	return out
}

// list derives the elements of a list.
func (d *deriv) list(v *gav) []string {
	if d.steps++; d.steps > 200000 {
		return nil
	}
	ls := locsOf(v)
	if len(ls) == 0 {
		return nil
	}
	// a list that grows in a loop
	for _, l := range ls {
		if tails := cycle(l.o); tails != nil {
			rest := &gav{isNil: true, locs: map[gloc]bool{}}
			for _, m := range ls {
				if cycle(m.o) == nil {
					rest.locs[m] = true
				}
			}
			for _, p := range l.o.prods {
				if p.kind == "cat" {
					for _, m := range locsOf(p.base) {
						if cycle(m.o) == nil {
							rest.locs[m] = true
						}
					}
				}
			}
			out := d.list(rest)
			d.each(func() {
				for i := len(tails) - 1; i >= 0; i-- {
					out = append(out, d.list(tails[i])...)
				}
			})
			return out
		}
	}
	o := ls[len(ls)-1].o
	var out []string
	if len(o.prods) > 0 {
		switch p := o.prods[0]; p.kind {
		case "lit":
			for _, el := range p.elems {
				out = append(out, d.av(el))
			}
		case "cat":
			out = append(out, d.list(p.base)...)
			out = append(out, d.list(p.tail)...)
		case "star":
			d.each(func() { out = append(out, d.av(p.base)) })
		}
	}
	return out
}

func (d *deriv) av(v *gav) string {
	ns := sortedNodes(v.strs)
	if len(ns) == 0 {
		return ""
	}
	return d.text(ns[0])
}

// cycle: the tails that are appended on one turn of the loop in which o grows.
func cycle(o *gobj) []*gav {
	type step struct {
		o     *gobj
		tails []*gav
	}
	seen := map[*gobj]bool{}
	work := []step{{o, nil}}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, p := range s.o.prods {
			if p.kind != "cat" {
				continue
			}
			tails := append(append([]*gav(nil), s.tails...), p.tail)
			for _, m := range locsOf(p.base) {
				if m.o == o {
					return tails
				}
				if !seen[m.o] {
					seen[m.o] = true
					work = append(work, step{m.o, tails})
				}
			}
		}
	}
	return nil
}

// sampleOf is a text that a hole can stand for; k is the turn of the outermost loop.
func sampleOf(n *gn, k int) string {
	if k < 0 {
		k = 0
	}
	letter := string(rune('a' + k%26))
	switch leafName(n.src) {
	case "PackageName", "packageName":
		return "sample.pkg"
	case "MessageName", "messageName":
		return "SampleMsg"
	case "ProtoName":
		return "alpha_" + letter
	case "ProtoType":
		return "string"
	case "GoPackageName":
		return "samplepkg"
	case "ProtoImport":
		return "example.com/samplepb"
	case "ProtoImports":
		return "google/protobuf/sample.proto"
	case "Comment":
		return "first \"line\nsecond line"
	}
	switch n.class {
	case "number":
		return strconv.Itoa(k + 1)
	}
	return "a \"b\" `c` \\" + letter
}

type genDom struct {
	u    *Unit
	r    *Report
	seen map[string]bool
	asked map[string]bool
}

// typed interprets root with every column of proto type t ("" leaves it open).
func (g *genDom) typed(root *ssa.Function, t string) (*gctx, *gram, bool) {
	e := newGram(g.u)
	pt := e.node("the type of a column", "lit")
	pt.text = t
	e.forced = func(l *gobj) bool { return t != "" && l.src != "" && leafName(l.src) == "ColumnToFieldMappings" }
	e.field = func(e *gram, o *gobj, path string, ty types.Type) *gav {
		if t == "" || !strings.HasSuffix(o.src, "ColumnToFieldMappings[]") {
			return nil
		}
		switch path {
		case ".ProtoType":
			return avStr(pt)
		case ".Ignored":
			return avBool(false)
		}
		return nil
	}
	e.compared = func(n *gn, c string) {
		for i := 0; i < 10 && n.kind == "alt" && len(n.kids) == 1; i++ {
			n = n.kids[0]
		}
		if n == pt {
			g.asked[c] = true
		}
	}
	c := e.ctx(nil, root, "")
	for i, p := range root.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			e.join(c.args[i], avBool(true))
			continue
		}
		e.join(c.args[i], e.srcValue(p.Name(), p.Type()))
	}
	ok := e.run(func() []*gctx { return e.withInits(c) })
	return c, e, ok
}

func (e *gram) withInits(c ...*gctx) []*gctx {
	var out []*gctx
	for _, in := range e.inits {
		out = append(out, in)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn.String() < out[j].fn.String() })
	return append(out, c...)
}

// generators are the functions that turn a mapping into code.
func (g *genDom) generators() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range g.u.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || len(fn.Blocks) == 0 {
			continue
		}
		m, s := false, 0
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if n := namedOf(fn.Signature.Params().At(i).Type()); n != nil && n.Obj().Name() == "RecordProtoMapping" {
				m = true
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isStringType(fn.Signature.Results().At(i).Type()) {
				s++
			}
		}
		if m && s > 0 && errResultIndex(fn.Signature) >= 0 {
			out = append(out, fn)
		}
	}
	return out
}

// codeMethods are the exported methods that give a definition as text, with the
// functions that make their receivers.
func (g *genDom) codeMethods() (out []*ssa.Function, makers map[*ssa.Function][]*ssa.Function) {
	makers = map[*ssa.Function][]*ssa.Function{}
	for _, fn := range g.u.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 || !inferPkgs[fnPkg(fn)] || fn.Synthetic != "" {
			continue
		}
		rs := fn.Signature.Results()
		if fn.Signature.Params().Len() != 0 || rs.Len() == 0 || !isStringType(rs.At(0).Type()) {
			continue
		}
		var ms []*ssa.Function
		for _, m := range g.u.Funcs {
			if fnPkg(m) != fnPkg(fn) || m.Parent() != nil || m.Object() == nil || !m.Object().Exported() {
				continue
			}
			for i := 0; i < m.Signature.Results().Len(); i++ {
				if types.Identical(m.Signature.Results().At(i).Type(), fn.Signature.Recv().Type()) {
					ms = append(ms, m)
				}
			}
		}
		out = append(out, fn)
		makers[fn] = ms
	}
	return
}

func isGoText(n *gn) bool {
	s := newDeriv(1, map[int]int{}).text(n)
	return !strings.Contains(strings.SplitN(s+"\n", "\n", 2)[0], "syntax")
}

// contexts checks where the texts stand in what n can be.
func (g *genDom) contexts(root *ssa.Function, n *gn, what string) {
	x := &lexer{goLang: isGoText(n)}
	x.run(n)
	var keys []string
	for k := range x.visits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := x.visits[k]
		if v.class == "" {
			continue
		}
		g.r.Count("places of texts in generated code", 1)
		src := v.src
		if i := strings.Index(src, "."); i >= 0 {
			src = src[i+1:]
		}
		key := fnName(root) + "|" + what + "|" + src + "|" + v.state
		if v.bad {
			if !g.seen[key] {
				g.seen[key] = true
				rule := "quoted"
				if v.class == "word" {
					rule = "identifier"
				}
				g.r.Bad(rule, fnName(root)+"|"+src+"|"+v.state, g.u.Pos(root.Pos()), "%s: in the %s code, %s %s", fnName(root), what, src, v.why)
			}
		} else if !g.seen[key] {
			g.seen[key] = true
			g.r.OK("quoted", "%s, %s code: %s (%s) %s", fnName(root), what, src, v.class, v.state)
		}
	}
}

// scalars are the types of fields.
var scalars = map[string]string{
	"double": "float64", "float": "float32", "int32": "int32", "int64": "int64", "uint32": "uint32", "uint64": "uint64", "sint32": "int32", "sint64": "int64",
	"fixed32": "uint32", "fixed64": "uint64", "sfixed32": "int32", "sfixed64": "int64", "bool": "bool", "string": "string", "bytes": "[]byte",
	"google.protobuf.Timestamp": "*timestamppb.Timestamp", "google.protobuf.Duration": "*durationpb.Duration",
}

// inferred are the types that inference can choose for a column.
func (g *genDom) inferred() []string {
	out := map[string]bool{}
	for _, fn := range g.u.Funcs {
		if fnPkg(fn) != "recordinfer" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isStringType(fn.Signature.Results().At(0).Type()) || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		// a method of an interface whose results are types
		rt := fn.Signature.Recv().Type()
		isCol := false
		for _, p := range g.u.Pkgs["recordinfer"].Types.Scope().Names() {
			if tn, ok := g.u.Pkgs["recordinfer"].Types.Scope().Lookup(p).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && types.Implements(rt, it) {
					for i := 0; i < it.NumMethods(); i++ {
						isCol = isCol || it.Method(i).Name() == fn.Name()
					}
				}
			}
		}
		if !isCol {
			continue
		}
		e := newGram(g.u)
		c := e.ctx(nil, fn, "")
		for i, p := range fn.Params {
			e.join(c.args[i], e.srcValue(p.Name(), p.Type()))
		}
		e.run(func() []*gctx { return e.withInits(c) })
		for _, n := range sortedNodes(c.ret[0].strs) {
			if s, ok := litOf(n, 0); ok {
				if _, known := scalars[s]; known {
					out[s] = true
				}
			}
		}
	}
	var ts []string
	for t := range out {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return ts
}

// imports finds the packages that generated code can import.
type genImporter struct{ pkgs map[string]*types.Package }

func (u *Unit) genImporter() *genImporter {
	im := &genImporter{map[string]*types.Package{}}
	var add func(p *types.Package)
	seen := map[*types.Package]bool{}
	add = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if old := im.pkgs[p.Path()]; old == nil || !old.Complete() && p.Complete() {
			im.pkgs[p.Path()] = p
		}
		for _, q := range p.Imports() {
			add(q)
		}
	}
	var rels []string
	for rel := range u.Pkgs {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		add(u.Pkgs[rel].Types)
	}
	return im
}

func (im *genImporter) Import(path string) (*types.Package, error) {
	if p, ok := im.pkgs[path]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not there", path)
}

// message is the package that protoc would make, with columns fields of type t.
func (im *genImporter) message(t string, columns int) (*types.Package, error) {
	ft, ok := scalars[t]
	if !ok {
		ft = "*Other"
	}
	src := "package samplepb\nimport (\n\"google.golang.org/protobuf/reflect/protoreflect\"\n\"google.golang.org/protobuf/types/known/durationpb\"\n\"google.golang.org/protobuf/types/known/timestamppb\"\n)\nvar _ *durationpb.Duration\nvar _ *timestamppb.Timestamp\ntype Other struct{}\ntype SampleMsg struct {\n"
	for k := 0; k < columns; k++ {
		src += "Alpha" + string(rune('A'+k)) + " " + ft + "\n"
	}
	src += "}\nfunc (*SampleMsg) ProtoReflect() protoreflect.Message { return nil }\nfunc (*SampleMsg) Reset() {}\nfunc (*SampleMsg) String() string { return \"\" }\nfunc (*SampleMsg) ProtoMessage() {}\n"
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "pb.go", src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: im}
	return conf.Check("example.com/samplepb", fset, []*ast.File{f}, nil)
}

// compiles checks one derived Go file; it gives what is wrong.
func (g *genDom) compiles(text, t string, columns int) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", text, parser.SkipObjectResolution)
	if err != nil {
		return "does not parse: " + short(err.Error())
	}
	im := g.u.genImporter()
	pb, err := im.message(t, columns)
	if err != nil {
		return ""
	}
	im.pkgs["example.com/samplepb"] = pb
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if _, ok := im.pkgs[p]; !ok && !strings.HasPrefix(p, modPath) {
			return "" // a package that the repository does not use itself
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	var first error
	conf := types.Config{Importer: im, Error: func(err error) {
		if first == nil {
			first = err
		}
	}}
	pkg, _ := conf.Check("samplepkg", fset, []*ast.File{f}, info)
	if first != nil {
		return "does not compile: " + short(first.Error())
	}
	return g.works(f, pkg, info, columns)
}

func short(s string) string {
	s = regexp.MustCompile(`^[a-z]+\.go:\d+:\d+: `).ReplaceAllString(s, "")
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// works looks at what the compiler does not: the columns, and the functions that are
// registered for the types of the fields.
func (g *genDom) works(f *ast.File, pkg *types.Package, info *types.Info, columns int) string {
	registered := map[types.Type]bool{}
	bad := ""
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		o := info.Uses[sel.Sel]
		if o == nil || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), "/textcoder") || o.Name() != "Register" || len(c.Args) != 3 {
			return true
		}
		var t types.Type
		if rt, ok := c.Args[0].(*ast.CallExpr); ok && len(rt.Args) == 1 {
			t = info.Types[rt.Args[0]].Type
		}
		if t == nil {
			return true
		}
		enc, _ := info.Types[c.Args[1]].Type.(*types.Signature)
		dec, _ := info.Types[c.Args[2]].Type.(*types.Signature)
		last := func(s *types.Tuple) types.Type { return s.At(s.Len() - 1).Type() }
		if enc == nil || enc.Params().Len() == 0 || !types.Identical(last(enc.Params()), t) || enc.Results().Len() != 2 || !isStringType(enc.Results().At(0).Type()) || !isError(enc.Results().At(1).Type()) {
			bad = "registers an encoder that is refused for " + t.String()
		}
		if dec == nil || dec.Params().Len() < 2 || !types.Identical(last(dec.Params()), types.NewPointer(t)) || dec.Results().Len() != 1 || !isError(dec.Results().At(0).Type()) {
			bad = "registers a decoder that is refused for " + t.String()
		}
		registered[t] = true
		return true
	})
	if bad != "" {
		return bad
	}
	// the structure of a row
	var row *types.Struct
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if st, ok := tn.Type().Underlying().(*types.Struct); ok && n != "Reader" && types.NewMethodSet(types.NewPointer(tn.Type())).Lookup(pkg, "Proto") != nil {
			row = st
		}
	}
	if row == nil {
		return "has no structure for a row"
	}
	if row.NumFields() != columns {
		return fmt.Sprintf("has a row of %d fields for %d columns", row.NumFields(), columns)
	}
	for i := 0; i < row.NumFields(); i++ {
		fl := row.Field(i)
		tag := reflect.StructTag(row.Tag(i)).Get("csv")
		want := sampleOf(&gn{kind: "hole", src: "x.ColName", class: "free"}, i)
		if tag != want && tag != strings.ReplaceAll(want, "`", "'") {
			return fmt.Sprintf("names the column %q as %q", want, tag)
		}
		if b, ok := fl.Type().(*types.Basic); ok {
			switch {
			case b.Info()&(types.IsString|types.IsBoolean) != 0, b.Info()&types.IsNumeric != 0 && b.Info()&types.IsComplex == 0:
				continue
			}
		}
		if !registered[fl.Type()] {
			return fmt.Sprintf("has a field of type %s, which cannot be read from a cell", fl.Type())
		}
	}
	// every column reaches the message
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		cl, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		if nt := namedOf(info.Types[cl].Type); nt == nil || nt.Obj().Name() != "SampleMsg" {
			return true
		}
		for _, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok {
					used[id.Name] = true
				}
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if ok {
			for _, l := range as.Lhs {
				if s, ok := l.(*ast.SelectorExpr); ok {
					used[s.Sel.Name] = true
				}
			}
		}
		return true
	})
	for i := 0; i < columns; i++ {
		if n := "Alpha" + string(rune('A'+i)); !used[n] {
			return "leaves the field " + n + " of the message unset"
		}
	}
	return ""
}

var (
	protoHead  = regexp.MustCompile(`^syntax = "proto3";\s*package [a-zA-Z_][\w.]*;\s*((?:import "[^"\\]*";\s*)*)(?:option [^;]*;\s*)*message [A-Za-z_]\w* \{\n`)
	protoField = regexp.MustCompile(`^(?:repeated |optional )?[a-zA-Z_][\w.]* [a-zA-Z_]\w* = \d+;$`)
)

// definition checks a derived .proto file.
func definition(text string, t string, columns int) string {
	m := protoHead.FindString(text)
	if m == "" {
		return "does not begin as a definition of a message"
	}
	body := strings.TrimRight(text[len(m):], " \n")
	if !strings.HasSuffix(body, "}") {
		return "does not end with the message"
	}
	n := 0
	for _, l := range strings.Split(strings.TrimSuffix(body, "}"), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		if !protoField.MatchString(l) {
			return fmt.Sprintf("has a line that is not a field: %s", short(l))
		}
		n++
	}
	if n < columns {
		return fmt.Sprintf("has %d fields for %d columns", n, columns)
	}
	return ""
}

// derivations gives texts that cover every alternative of n.
func derivations(n *gn, loops int, f func(s string)) int {
	done := map[string]bool{}
	count := 0
	emit := func(s string) {
		if !done[s] {
			done[s] = true
			count++
			f(s)
		}
	}
	d := newDeriv(loops, map[int]int{})
	emit(d.text(n))
	work := d.seen
	var ids []int
	for id, k := range work {
		if k > 1 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		for j := 1; j < work[id]; j++ {
			emit(newDeriv(loops, map[int]int{id: j}).text(n))
		}
	}
	return count
}

func (g *genDom) texts(c *gctx) (goText, protoText *gn) {
	for i, r := range c.ret {
		if !isStringType(c.fn.Signature.Results().At(i).Type()) {
			continue
		}
		n := c.e.alt(fmt.Sprintf("result%d", i), r)
		if n == nil {
			continue
		}
		if s, ok := litOf(n, 0); ok && s == "" {
			continue
		}
		if isGoText(n) {
			goText = n
		} else {
			protoText = n
		}
	}
	return
}

// ofType checks what is generated for columns of type t.
func (g *genDom) ofType(root *ssa.Function, t string, must, listed bool) {
	r := g.r
	c, e, ok := g.typed(root, t)
	if !ok {
		r.Bad("analysable", fnName(root), g.u.Pos(root.Pos()), "%s: what is generated for columns of type %s is not found", fnName(root), t)
		return
	}
	goText, protoText := g.texts(c)
	if *dumpGen == t {
		fmt.Println(goText.show(19, map[*gn]bool{}))
		fmt.Println(protoText.show(19, map[*gn]bool{}))
	}
	success := false
	if i := errResultIndex(root.Signature); i >= 0 {
		success = c.ret[i].isNil || c.ret[i].top
	}
	r.Count("types of columns", 1)
	r.Count("contexts of functions", e.states)
	if !success {
		if must {
			r.Bad("inferred-generated", fnName(root)+"|"+t, g.u.Pos(root.Pos()), "%s: a column of type %s, which can be inferred, is refused", fnName(root), t)
		} else if listed {
			r.Bad("both-halves", fnName(root)+"|"+t, g.u.Pos(root.Pos()), "%s: type %s is known to a part of the generator, but refused by another", fnName(root), t)
		} else {
			r.OK("refused", "a column of type %s is refused", t)
		}
		return
	}
	r.Count("types accepted", 1)
	g.skipped(root, c, t)
	for f, in := range e.missing {
		r.Bad("template", fnName(in.Parent())+"|"+f, g.u.InstrPos(in), "%s: the template uses %s, which is not given to it", fnName(in.Parent()), f)
	}
	for w, in := range e.unknown {
		r.notes = append(r.notes, fnName(in.Parent())+": "+w)
	}
	n := 0
	problem := ""
	if goText == nil {
		problem = "nothing is generated"
	} else {
		for _, loops := range []int{1, 2} {
			n += derivations(goText, loops, func(s string) {
				if problem == "" {
					problem = g.compiles(s, t, loops)
				}
				if *dumpGen != "" && *dumpGen == t {
					fmt.Println("=====", loops)
					fmt.Println(s)
				}
			})
		}
	}
	rule := "generated-compiles"
	if problem != "" {
		r.Bad(rule, fnName(root)+"|"+t, g.u.Pos(root.Pos()), "%s: the Go code for columns of type %s %s", fnName(root), t, problem)
	} else {
		r.OK(rule, "%s: the Go code for columns of type %s compiles in %d forms", fnName(root), t, n)
	}
	r.Count("forms of generated code", n)
	if protoText != nil {
		n, problem := 0, ""
		for _, loops := range []int{1, 2} {
			n += derivations(protoText, loops, func(s string) {
				if problem == "" {
					problem = definition(s, t, loops)
				}
			})
		}
		if problem != "" {
			r.Bad("definition", fnName(root)+"|"+t, g.u.Pos(root.Pos()), "%s: the definition for columns of type %s %s", fnName(root), t, problem)
		} else {
			r.OK("definition", "%s: the definition for columns of type %s is well-formed in %d forms", fnName(root), t, n)
		}
		r.Count("forms of definitions", n)
	}
}

// code is the text that a method gives for what its makers make.
func (g *genDom) code(fn *ssa.Function, makers []*ssa.Function) (*gn, *gram, bool) {
	e := newGram(g.u)
	c := e.ctx(nil, fn, "")
	var ms []*gctx
	for _, m := range makers {
		mc := e.ctx(nil, m, "")
		for i, p := range m.Params {
			e.join(mc.args[i], e.srcValue(p.Name(), p.Type()))
		}
		ms = append(ms, mc)
	}
	if len(makers) == 0 {
		for i, p := range fn.Params {
			e.join(c.args[i], e.srcValue(p.Name(), p.Type()))
		}
	}
	ok := e.run(func() []*gctx {
		for _, m := range ms {
			for i, r := range m.ret {
				if types.Identical(m.fn.Signature.Results().At(i).Type(), fn.Signature.Recv().Type()) {
					v := newAV()
					for l := range r.locs {
						e.join(v, avLoc(l.o, l.path))
					}
					e.join(c.args[0], v)
				}
			}
		}
		return e.withInits(append(ms, c)...)
	})
	return e.alt("result", c.ret[0]), e, ok
}

// skipped reports what is written for columns in a loop over them, but not on every
// turn of it.
func (g *genDom) skipped(root *ssa.Function, c *gctx, t string) {
	for _, k := range c.kids {
		g.skipped(root, k, t)
	}
	for _, b := range c.fn.Blocks {
		if !c.exec[b] || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !c.runsOnce(b, iff.Cond) {
			continue
		}
		g.r.Count("loops over columns", 1)
		body := b.Succs[0]
		back := func(from, avoid *ssa.BasicBlock) bool {
			seen := map[*ssa.BasicBlock]bool{avoid: true}
			work := []*ssa.BasicBlock{from}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if x == b {
					return true
				}
				if seen[x] {
					continue
				}
				seen[x] = true
				for _, s := range x.Succs {
					if c.edges[[2]int{x.Index, s.Index}] {
						work = append(work, s)
					}
				}
			}
			return false
		}
		for _, x := range c.fn.Blocks {
			if !c.exec[x] || !body.Dominates(x) || !back(x, nil) || !back(body, x) {
				continue
			}
			for _, in := range x.Instrs {
				if grows(in) && !g.byMap(x, body) && !inner(x, body) {
					key := fnName(c.fn) + "|" + g.u.InstrPos(in)
					if !g.seen[key] {
						g.seen[key] = true
						g.r.Bad("every-column", fnName(c.fn), g.u.InstrPos(in), "%s: what is added here is not added for every column of type %s", fnName(c.fn), t)
					}
				}
			}
		}
	}
}

// grows: does in add to a list or a text?
func grows(in ssa.Instruction) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		return bi.Name() == "append"
	}
	n := callName(call)
	return strings.HasPrefix(n, "fmt.Fprint") || strings.Contains(n, ").Write") && (strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes."))
}

// byMap: is x reached depending on what a map holds?
func (g *genDom) byMap(x, body *ssa.BasicBlock) bool {
	for d := x.Idom(); d != nil && body.Dominates(d); d = d.Idom() {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			v := iff.Cond
			if u, ok := v.(*ssa.UnOp); ok {
				v = u.X
			}
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			if _, ok := v.(*ssa.Lookup); ok {
				return true
			}
		}
	}
	return false
}

// inner: is x in a loop inside the loop with that body?
func inner(x, body *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), x.Succs...)
	for len(work) > 0 {
		y := work[0]
		work = work[1:]
		if y == x {
			return true
		}
		if seen[y] || !body.Dominates(y) {
			continue
		}
		seen[y] = true
		work = append(work, y.Succs...)
	}
	return false
}

var _ = constant.MakeBool

func init() {
	register("G01", func(w *World, r *Report) {
		g := &genDom{u: w.Host, r: r, seen: map[string]bool{}, asked: map[string]bool{}}
		inferred := g.inferred()
		r.Count("types that can be inferred", len(inferred))
		for _, root := range g.generators() {
			r.Count("generators", 1)
			must := map[string]bool{}
			all := map[string]bool{}
			for _, t := range inferred {
				must[t], all[t] = true, true
			}
			for t := range scalars {
				all[t] = true
			}
			all["some.other.Type"] = true
			// what the generator asks about a type
			g.typed(root, "some.other.Type")
			for t := range scalars {
				g.typed(root, t)
			}
			for t := range g.asked {
				if t != "" {
					all[t] = true
				}
			}
			var ts []string
			for t := range all {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			for _, t := range ts {
				g.ofType(root, t, must[t], g.asked[t])
			}
		}
		r.Floor("generators", 1)
		r.Floor("types that can be inferred", 3)
		r.Floor("types accepted", 4)
		methods, makers := g.codeMethods()
		for _, fn := range methods {
			n, _, ok := g.code(fn, makers[fn])
			if !ok || n == nil {
				continue
			}
			s := newDeriv(1, map[int]int{}).text(n)
			if !strings.Contains(s, "syntax = ") {
				continue
			}
			r.Count("definitions from inference", 1)
			if *dumpGen == "code" {
				fmt.Println(n.show(19, map[*gn]bool{}))
			}
			problem, k := "", 0
			for _, loops := range []int{1, 2} {
				k += derivations(n, loops, func(s string) {
					if problem == "" && strings.HasPrefix(strings.TrimSpace(s), "syntax") {
						problem = definition(s, "", loops)
					}
				})
			}
			if problem != "" {
				r.Bad("definition", fnName(fn), g.u.Pos(fn.Pos()), "%s: the definition %s", fnName(fn), problem)
			} else {
				r.OK("definition", "%s: the definition is well-formed in %d forms", fnName(fn), k)
			}
		}
	})
	register("G02", func(w *World, r *Report) {
		g := &genDom{u: w.Host, r: r, seen: map[string]bool{}, asked: map[string]bool{}}
		for _, root := range g.generators() {
			ts := []string{""}
			for t := range scalars {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			r.Count("generators", 1)
			for _, t := range ts {
				c, _, ok := g.typed(root, t)
				if !ok {
					r.Bad("analysable", fnName(root), g.u.Pos(root.Pos()), "%s: what is generated for columns of type %s is not found", fnName(root), t)
					continue
				}
				goText, protoText := g.texts(c)
				if goText != nil {
					g.contexts(root, goText, "Go")
				}
				if protoText != nil {
					g.contexts(root, protoText, ".proto")
				}
			}
		}
		methods, makers := g.codeMethods()
		for _, fn := range methods {
			n, _, ok := g.code(fn, makers[fn])
			if !ok || n == nil {
				continue
			}
			if s := newDeriv(1, map[int]int{}).text(n); !strings.Contains(s, "syntax = ") {
				continue
			}
			r.Count("generators", 1)
			g.contexts(fn, n, ".proto")
		}
		r.Floor("generators", 2)
		r.Floor("places of texts in generated code", 10)
	})
}

func (n *gn) show(depth int, seen map[*gn]bool) string {
	if n == nil {
		return "<none>"
	}
	s := fmt.Sprintf("%s%d", n.kind, n.id)
	if n.kind == "lit" {
		return fmt.Sprintf("%q", n.text)
	}
	if n.kind == "hole" {
		return "{" + n.src + "/" + n.class + "}"
	}
	if n.text != "" {
		s += ":" + n.text
	}
	if seen[n] || depth == 0 {
		return s + "…"
	}
	seen[n] = true
	ind := "\n" + strings.Repeat(" ", 20-depth)
	for _, k := range n.kids {
		s += ind + k.show(depth-1, seen)
	}
	if n.list != nil {
		for _, k := range listTexts(n.list) {
			s += ind + "*" + k.show(depth-1, seen)
		}
	}
	return s
}
