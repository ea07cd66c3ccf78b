package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D01: iteration in an unspecified order (maps, reflect map iteration, slices
// filled from them) may only have effects that commute, until a total sort.

type determ struct {
	u     *Unit
	r     *Report
	seen  map[ssa.Value]bool
	comm  map[*ssa.Function]string
	loops map[*ssa.BasicBlock]bool
	// where the order came from, per value
	from map[ssa.Value]string
}

type orderLoop struct {
	d      *determ
	fn     *ssa.Function
	header *ssa.BasicBlock
	region map[*ssa.BasicBlock]bool
	roots  map[ssa.Value]bool
	key    ssa.Value // the map key of this step, if any
	index  map[ssa.Value]bool
	vm     map[ssa.Value]int
	src    string
	exits  bool
	outs   string
	effect string
}

func (d *determ) bad(rule string, fn *ssa.Function, pos string, format string, a ...interface{}) {
	d.r.Bad(rule, fnName(fn), pos, format, a...)
}

// loopAt builds the loop whose header is h and whose body starts at body.
func (d *determ) newLoop(h, body *ssa.BasicBlock, src string) *orderLoop {
	l := &orderLoop{d: d, fn: h.Parent(), header: h, region: map[*ssa.BasicBlock]bool{}, roots: map[ssa.Value]bool{}, index: map[ssa.Value]bool{}, vm: map[ssa.Value]int{}, src: src}
	for _, b := range l.fn.Blocks {
		if body.Dominates(b) && (len(body.Preds) == 1 || b != h) {
			l.region[b] = true
		}
	}
	delete(l.region, h)
	return l
}

// varies: the value differs from step to step.
func (l *orderLoop) varies(v ssa.Value) bool {
	if l.roots[v] {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || v.Parent() != l.fn {
		return false
	}
	if in.Block() == l.header {
		_, phi := v.(*ssa.Phi)
		return phi
	}
	if !l.region[in.Block()] {
		return false
	}
	switch l.vm[v] {
	case 1:
		return false // cycle: decided by the other operands
	case 2:
		return true
	case 3:
		return false
	}
	l.vm[v] = 1
	res := false
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x.Edges[0] && !sameValue(e, x.Edges[0]) || l.varies(e) {
				res = true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			res = l.varies(x.X) || l.writtenInLoop(x.X)
		} else {
			res = l.varies(x.X)
		}
	case *ssa.Lookup:
		res = true
	case *ssa.Call:
		res = l.d.impure(&x.Call) != ""
		for _, a := range x.Call.Args {
			res = res || l.varies(a)
		}
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			res = res || l.varies(x.Call.Value)
		}
	case *ssa.Alloc:
		// a fresh object: what it holds decides
		for _, s := range storesInto(x) {
			if l.varies(s) {
				res = true
			}
		}
	default:
		var ops [8]*ssa.Value
		for _, op := range in.Operands(ops[:0]) {
			if op != nil && *op != nil && l.varies(*op) {
				res = true
			}
		}
	}
	l.vm[v] = 3
	if res {
		l.vm[v] = 2
	}
	return res
}

// storesInto: the values stored into an object or its parts in its function.
func storesInto(a ssa.Value) (out []ssa.Value) {
	if a.Referrers() == nil {
		return nil
	}
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == a {
				out = append(out, x.Val)
			}
		case *ssa.FieldAddr:
			out = append(out, storesInto(x)...)
		case *ssa.IndexAddr:
			if x.X == a {
				out = append(out, storesInto(x)...)
			}
		}
	}
	return out
}

func memBase(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return a
		}
	}
}

func (l *orderLoop) writtenInLoop(addr ssa.Value) bool {
	c := cellOf(addr)
	for b := range l.region {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if c != nil && cellOf(s.Addr) == c {
				return true
			}
			fa, ok1 := addr.(*ssa.FieldAddr)
			fb, ok2 := s.Addr.(*ssa.FieldAddr)
			if ok1 && ok2 && fieldVar(fa.X.Type(), fa.Field) == fieldVar(fb.X.Type(), fb.Field) {
				return true
			}
		}
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func commutes(op token.Token) bool {
	switch op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

// accumulates classifies new values of a variable: "" commutes; appended is set
// when the variable collects elements in order. isOld recognises the old value.
func (l *orderLoop) accumulates(v ssa.Value, isOld func(ssa.Value) bool, consts map[string]bool, appended *bool, d int) string {
	if isOld(v) {
		return ""
	}
	if d > 20 {
		return "is computed in a way the analysis does not follow"
	}
	if !l.varies(v) {
		consts[valueKey(v)] = true
		if len(consts) > 1 {
			return "is set to different values by different entries"
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if l.region[x.Block()] {
			for i, e := range x.Edges {
				if edgeCommutes(x, i, isOld) {
					continue
				}
				if why := l.accumulates(e, isOld, consts, appended, d+1); why != "" {
					return why
				}
			}
			return ""
		}
	case *ssa.BinOp:
		if isInteger(x.Type()) && (commutes(x.Op) || x.Op == token.SUB) {
			if why := l.accumulates(x.X, isOld, consts, appended, d+1); why == "" && len(consts) == 0 && !*appended {
				return ""
			}
			if commutes(x.Op) {
				if why := l.accumulates(x.Y, isOld, consts, appended, d+1); why == "" && len(consts) == 0 && !*appended {
					return ""
				}
			}
			return "is computed in a way that does not commute"
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			*appended = true
			return l.accumulates(x.Call.Args[0], isOld, consts, appended, d+1)
		}
	}
	return "depends on the order"
}

// edgeCommutes: old && f(x), old || f(x), and running maxima and minima.
func edgeCommutes(x *ssa.Phi, i int, isOld func(ssa.Value) bool) bool {
	e := x.Edges[i]
	if b, ok := e.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		for _, g := range edgeGuards(x.Block(), i) {
			if !isOld(g.Cond) {
				continue
			}
			c, ok := e.(*ssa.Const)
			if !ok || g.Val == constant.BoolVal(c.Value) {
				return true
			}
		}
	}
	if isInteger(e.Type()) {
		for _, g := range edgeGuards(x.Block(), i) {
			if c, ok := g.Cond.(*ssa.BinOp); ok && (c.Op == token.LSS || c.Op == token.GTR || c.Op == token.LEQ || c.Op == token.GEQ) {
				if c.X == e && isOld(c.Y) || c.Y == e && isOld(c.X) {
					return true
				}
			}
		}
	}
	return false
}

func valueKey(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	if cell := loadedCell(v); cell != nil {
		return fmt.Sprintf("load %p", cell)
	}
	return fmt.Sprintf("%p", v)
}

func loadedCell(v ssa.Value) *ssa.Alloc {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return cellOf(ld.X)
	}
	return nil
}

func (l *orderLoop) fail(in ssa.Instruction, rule, format string, a ...interface{}) {
	l.d.bad(rule, l.fn, l.d.u.InstrPos(in), "iteration over %s: %s", l.src, fmt.Sprintf(format, a...))
}

func (l *orderLoop) check() {
	d := l.d
	if d.loops[l.header] {
		return
	}
	d.loops[l.header] = true
	d.r.Count("unordered loops", 1)
	before := len(d.r.findings)
	u := d.u
	outer := func(what string) {
		if l.effect == "" {
			l.effect = what
		}
	}
	leave := func(in ssa.Instruction, vals string) {
		if l.exits && l.outs != vals {
			l.fail(in, "same-outcome", "the loop is left early with different outcomes depending on which entry comes first")
		}
		l.exits, l.outs = true, vals
	}
	type later struct {
		v   ssa.Value
		why string
	}
	var unordered []later
	for _, b := range l.fn.Blocks {
		if !l.region[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				key := "return"
				for _, v := range x.Results {
					// named results: the cell's value
					if l.varies(v) {
						l.fail(in, "same-outcome", "a value that depends on which entry comes first is returned")
					}
					key += "|" + valueKey(v)
				}
				leave(in, key)
			case *ssa.Panic:
				if l.varies(x.X) {
					l.fail(in, "same-outcome", "the panic depends on which entry comes first")
				}
				leave(in, "panic")
			case *ssa.Store:
				base := memBase(x.Addr)
				if bi, ok := base.(ssa.Instruction); ok && l.region[bi.Block()] {
					if _, ok := base.(*ssa.Alloc); ok {
						continue
					}
					if _, ok := base.(*ssa.MakeSlice); ok {
						continue
					}
				}
				if l.varies(base) { // part of the element itself
					outer("the elements are changed")
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if l.index[ia.Index] { // in place
						continue
					}
					if l.varies(ia.Index) {
						unordered = append(unordered, later{memBase(x.Addr), "filled"})
						continue
					}
				}
				consts := map[string]bool{}
				app := false
				isOld := func(v ssa.Value) bool {
					ld, ok := v.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						return false
					}
					if c := cellOf(x.Addr); c != nil {
						return cellOf(ld.X) == c
					}
					fa, ok1 := x.Addr.(*ssa.FieldAddr)
					fb, ok2 := ld.X.(*ssa.FieldAddr)
					return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
				}
				if why := l.accumulates(x.Val, isOld, consts, &app, 0); why != "" {
					l.fail(in, "commutes", "the variable written here %s", why)
				} else if app {
					if c := cellOf(x.Addr); c != nil {
						unordered = append(unordered, later{c, "appended"})
					} else {
						l.fail(in, "sorted-before-use", "elements are collected in iteration order in a field")
					}
				}
				if cellOf(x.Addr) == nil {
					outer("a field is written")
				}
			case *ssa.MapUpdate:
				if bi, ok := x.Map.(ssa.Instruction); ok && l.region[bi.Block()] {
					if _, ok := x.Map.(*ssa.MakeMap); ok {
						continue
					}
				}
				if why := l.mapUpdate(x); why != "" {
					l.fail(in, "commutes", "%s", why)
				}
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer:
				l.fail(in, "commutes", "the entries are handed on in iteration order")
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" && !l.varies(x.Call.Args[0]) {
						l.fail(in, "commutes", "data is copied in iteration order")
					}
					continue
				}
				if why := d.impure(&x.Call); why != "" {
					l.fail(in, "commutes", "%s is called for the entries in iteration order: %s", calleeLabel(&x.Call), why)
				} else if fn := x.Call.StaticCallee(); fn != nil && inRepo(fn) && d.comm[fn] == "effects" {
					outer("a callee counts")
				}
			}
		}
		for _, s := range b.Succs {
			if l.region[s] || s == l.header {
				continue
			}
			key := "break"
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b {
						if l.varies(ph.Edges[i]) && len(*ph.Referrers()) > 0 {
							l.fail(b.Instrs[len(b.Instrs)-1], "same-outcome", "a value that depends on which entry comes first leaves the loop")
						}
						key += "|" + valueKey(ph.Edges[i])
					}
				}
			}
			leave(b.Instrs[len(b.Instrs)-1], key)
		}
	}
	// variables carried from step to step
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if l.index[ph] {
			continue
		}
		used := false
		for _, ref := range *ph.Referrers() {
			if !l.region[ref.Block()] {
				used = true
			}
		}
		consts := map[string]bool{}
		app := false
		why := ""
		for i, e := range ph.Edges {
			if !l.region[l.header.Preds[i]] {
				continue
			}
			old := func(v ssa.Value) bool { return v == ssa.Value(ph) }
			if edgeCommutes(ph, i, old) {
				continue
			}
			if w := l.accumulates(e, old, consts, &app, 0); w != "" {
				why = w
			}
		}
		if app {
			unordered = append(unordered, later{ph, "appended"})
		}
		if !used {
			continue
		}
		if why != "" {
			l.fail(ph, "commutes", "a variable used after the loop %s", why)
		}
		if l.exits && !strings.HasPrefix(l.outs, "return") && l.outs != "panic" {
			l.fail(ph, "same-outcome", "a variable used after the loop depends on where the loop was left")
		}
	}
	if l.exits && l.effect != "" {
		l.fail(l.header.Instrs[0], "same-outcome", "the loop may be left early after %s for only some entries", l.effect)
	}
	for _, x := range unordered {
		d.unordered(x.v, l, l.src)
	}
	if len(d.r.findings) == before {
		d.r.OK("order-free", "%s iterates over %s (%s)", fnName(l.fn), l.src, u.InstrPos(l.header.Instrs[0]))
	}
}

func (l *orderLoop) mapUpdate(x *ssa.MapUpdate) string {
	if l.key != nil && stripAll(x.Key) == stripAll(l.key) {
		return "" // every entry writes its own key
	}
	if !l.varies(x.Value) {
		return ""
	}
	if increment(x) {
		return ""
	}
	if mentions(x.Value, x) {
		return "values are collected per key in iteration order"
	}
	return "different entries may write the same key, and the last one wins"
}

func stripAll(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func mentions(v ssa.Value, up *ssa.MapUpdate) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	for _, a := range c.Call.Args {
		if lk, ok := a.(*ssa.Lookup); ok && lk.X == up.Map {
			return true
		}
	}
	return false
}

// increment: m[k] = m[k] + x with integers.
func increment(x *ssa.MapUpdate) bool {
	b, ok := x.Value.(*ssa.BinOp)
	if !ok || !isInteger(b.Type()) || !commutes(b.Op) {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if lk, ok := o.(*ssa.Lookup); ok && sameLoad(lk.X, x.Map) && sameLoad(lk.Index, x.Key) {
			return true
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	if sameValue(a, b) {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.Field == fb.Field && sameLoad(fa.X, fb.X)
	}
	return false
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "path": true, "math": true, "math/bits": true, "math/big": true, "reflect": true, "regexp": true, "bytes": true, "time": true, "fmt": true, "net/url": true, "sort": true, "github.com/stoewer/go-strcase": true, "cmp": true}

// impure says why calls in an unspecified order could show the order, or "".
func (d *determ) impure(c *ssa.CallCommon) string {
	n := calleeName(c)
	if isLogCall(n) {
		return ""
	}
	if c.IsInvoke() {
		switch c.Method.Name() {
		case "Error", "String", "Len", "Kind", "Elem", "Name", "Type", "PkgPath":
			return ""
		}
		impl := d.u.implementations(c)
		if len(impl) == 0 {
			return "its effects are not known"
		}
		for _, f := range impl {
			if w := d.commutative(f); w != "" {
				return w
			}
		}
		return ""
	}
	if fn := c.StaticCallee(); fn != nil {
		if inRepo(fn) {
			return d.commutative(fn)
		}
		pkg := ""
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = fn.Object().Pkg().Path()
		}
		if pkg == "fmt" && !strings.HasPrefix(fn.Name(), "Sprint") && fn.Name() != "Errorf" {
			return "it writes output"
		}
		if recv := fn.Signature.Recv(); recv != nil && (typeIs(recv.Type(), "strings", "Builder") || typeIs(recv.Type(), "bytes", "Buffer")) {
			switch fn.Name() {
			case "Len", "String", "Bytes", "Cap":
				return ""
			}
			return "it appends to a buffer"
		}
		if purePkgs[pkg] {
			return ""
		}
		return "its effects are not known"
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return ""
	}
	leaves := d.u.Leaves(c.Value)
	if len(leaves) == 0 {
		return "it is not known which function is called"
	}
	for _, lf := range leaves {
		var fn *ssa.Function
		switch x := lf.(type) {
		case *ssa.Function:
			fn = x
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		default:
			if fs := d.u.packageValuesLike(lf); len(fs) > 0 {
				for _, f := range fs {
					if w := d.commutative(f); w != "" {
						return w
					}
				}
				continue
			}
		}
		if fn == nil {
			return "it is not known which function is called"
		}
		if w := d.commutative(fn); w != "" {
			return w
		}
	}
	return ""
}

// packageValuesLike: for a function value loaded from a field of a type that only
// its package can fill, the functions of the package used as values of that signature.
func (u *Unit) packageValuesLike(v ssa.Value) (out []*ssa.Function) {
	var owner types.Type
	switch x := v.(type) {
	case *ssa.Field:
		owner = x.X.Type()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			owner = deref(fa.X.Type())
		}
	}
	if owner == nil {
		return nil
	}
	if n := namedOf(owner); n != nil && n.Obj().Exported() {
		return nil
	}
	sig, ok := v.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	pkg := fnPkg(v.Parent())
	for _, f := range u.Funcs {
		if fnPkg(f) == pkg && (f.Parent() != nil || len(u.refs[f]) > 0) && types.Identical(dropRecv(f.Signature), dropRecv(sig)) {
			out = append(out, f)
		}
	}
	return out
}

// commutative: calls of fn may happen in any order with the same final effect.
func (d *determ) commutative(fn *ssa.Function) string {
	if w, ok := d.comm[fn]; ok {
		if w == "effects" {
			return ""
		}
		return w
	}
	d.comm[fn] = "" // recursion: assume
	if fn.Blocks == nil {
		d.comm[fn] = "its effects are not known"
		return d.comm[fn]
	}
	bad := ""
	effects := false
	local := func(a ssa.Value) bool {
		switch x := memBase(a).(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.UnOp: // a field of a local object
			if x.Op == token.MUL {
				if al, ok := memBase(x.X).(*ssa.Alloc); ok {
					_ = al
				}
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if local(x.Addr) {
					continue
				}
				if _, ok := x.Val.(*ssa.Const); ok {
					effects = true
					continue
				}
				if bo, ok := x.Val.(*ssa.BinOp); ok && isInteger(bo.Type()) && commutes(bo.Op) {
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL {
							fa, ok1 := ld.X.(*ssa.FieldAddr)
							fb, ok2 := x.Addr.(*ssa.FieldAddr)
							if ld.X == x.Addr || ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field {
								effects = true
								bo = nil
								break
							}
						}
					}
					if bo == nil {
						continue
					}
				}
				bad = "it writes " + addrLabel(x.Addr)
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); ok {
					continue
				}
				if _, ok := x.Value.(*ssa.Const); ok || increment(x) {
					effects = true
					continue
				}
				bad = "it writes a map"
			case *ssa.Send, *ssa.Select, *ssa.Go:
				bad = "it communicates"
			case ssa.CallInstruction:
				if w := d.impure(x.Common()); w != "" {
					bad = "it calls " + calleeLabel(x.Common()) + ", and " + w
				}
				if f := x.Common().StaticCallee(); f != nil && d.comm[f] == "effects" {
					effects = true
				}
			}
		}
	}
	if bad == "" && effects {
		d.comm[fn] = "effects"
		return ""
	}
	d.comm[fn] = bad
	return bad
}

func addrLabel(a ssa.Value) string {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		return "field " + fieldVar(fa.X.Type(), fa.Field).Name()
	}
	return "memory it does not own"
}

// unordered: v (a slice, or the variable holding one) has its elements in an
// unspecified order from loop l on; all its uses must not show the order, or
// come after a total sort.
func (d *determ) unordered(v ssa.Value, l *orderLoop, src string) {
	if d.seen[v] {
		return
	}
	d.seen[v] = true
	d.r.Count("unordered sequences", 1)
	var uses []ssa.Instruction
	var sorts []ssa.Instruction
	isVar := false
	if al, ok := v.(*ssa.Alloc); ok {
		if _, arr := deref(al.Type()).Underlying().(*types.Array); !arr {
			isVar = true
		}
	}
	inLoop := func(in ssa.Instruction) bool { return l != nil && l.region[in.Block()] }
	var collect func(a ssa.Value)
	collect = func(a ssa.Value) {
		if a.Referrers() == nil {
			return
		}
		for _, ref := range *a.Referrers() {
			if isVar {
				switch x := ref.(type) {
				case *ssa.UnOp:
					for _, r2 := range *x.Referrers() {
						if !inLoop(r2) {
							uses = append(uses, r2)
							if d.sortsTotally(r2, x) {
								sorts = append(sorts, r2)
							}
						}
					}
				case *ssa.MakeClosure:
					fn := x.Fn.(*ssa.Function)
					for i, bd := range x.Bindings {
						if bd == a && !isLessArg(x) {
							collect(fn.FreeVars[i])
						}
					}
				}
				continue
			}
			if !inLoop(ref) {
				uses = append(uses, ref)
				if d.sortsTotally(ref, a) {
					sorts = append(sorts, ref)
				}
			}
		}
	}
	collect(v)
	for _, use := range uses {
		clean := false
		for _, s := range sorts {
			if s == use || s.Parent() == use.Parent() && dominatesInstr(s, use) {
				clean = true
			}
			if _, ok := use.(*ssa.MakeInterface); ok && s.Parent() == use.Parent() { // the argument of the sort itself
				for _, r2 := range *use.(ssa.Value).Referrers() {
					if r2 == s {
						clean = true
					}
				}
			}
			if mc, ok := use.(*ssa.MakeClosure); ok && isLessArg(mc) {
				clean = true
			}
		}
		if !clean {
			d.unorderedUse(use, v, isVar, src)
		}
	}
}

// isLessArg: the closure is only given to a sort function.
func isLessArg(mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok || !strings.HasPrefix(calleeName(&c.Call), "sort.") && !strings.HasPrefix(calleeName(&c.Call), "slices.") {
			return false
		}
	}
	return true
}

func (d *determ) unorderedUse(use ssa.Instruction, v ssa.Value, isVar bool, src string) {
	u := d.u
	fn := use.Parent()
	held := func(x ssa.Value) bool {
		if isVar {
			if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
				return cellOf(ld.X) == v
			}
			return false
		}
		return x == v
	}
	bad := func(format string, a ...interface{}) {
		d.bad("sorted-before-use", fn, u.InstrPos(use), "a sequence in the iteration order of %s is not put in order before %s", src, fmt.Sprintf(format, a...))
	}
	switch x := use.(type) {
	case *ssa.DebugRef:
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return
			case "append":
				d.unordered(x, nil, src)
				return
			}
			bad("it is copied")
			return
		}
		callee := x.Call.StaticCallee()
		if callee == nil || !inRepo(callee) || callee.Blocks == nil {
			if callee != nil && strings.HasPrefix(calleeName(&x.Call), "sort.") {
				bad("it is used (%s does not put equal elements in a definite order)", calleeLabel(&x.Call))
				return
			}
			bad("it is given to %s", calleeLabel(&x.Call))
			return
		}
		for i, a := range x.Call.Args {
			if held(a) && i < len(callee.Params) {
				d.unordered(callee.Params[i], nil, src)
			}
		}
	case *ssa.Phi:
		d.unordered(x, nil, src)
	case *ssa.ChangeType:
		d.unordered(x, nil, src)
	case *ssa.IndexAddr:
		// a loop over the elements?
		if d.sliceLoop(x, src) {
			return
		}
		bad("an element is picked by its position")
	case *ssa.Return:
		idx := -1
		for i, rv := range x.Results {
			if held(rv) {
				idx = i
			}
		}
		if fn.Object() != nil && fn.Object().Exported() && !u.IsMainPkg(fnPkg(fn)) {
			bad("it is returned by an exported function")
			return
		}
		for _, s := range u.callSites(fn) {
			c, ok := s.(*ssa.Call)
			if !ok {
				continue
			}
			if fn.Signature.Results().Len() == 1 {
				d.unordered(c, nil, src)
				continue
			}
			for _, ref := range *c.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == idx {
					d.unordered(ex, nil, src)
				}
			}
		}
	case *ssa.Store:
		if x.Val == v {
			if c := cellOf(x.Addr); c != nil {
				d.unordered(c, nil, src)
				return
			}
		}
		bad("it is stored")
	case *ssa.MakeInterface:
		bad("it is used as a value")
	case *ssa.Slice:
		bad("a part of it is taken")
	case *ssa.MakeClosure:
		bad("it is captured by a function")
	case *ssa.BinOp: // comparison with nil
	default:
		bad("it is used")
	}
}

// sliceLoop: the element access is that of a loop over the whole sequence.
func (d *determ) sliceLoop(ia *ssa.IndexAddr, src string) bool {
	idx := ia.Index
	var ph *ssa.Phi
	switch x := idx.(type) {
	case *ssa.Phi:
		ph = x
	case *ssa.BinOp: // rangeindex: i = phi + 1
		if p, ok := x.X.(*ssa.Phi); ok {
			ph = p
		}
	}
	if ph == nil || !inCycle(ph.Block()) {
		return false
	}
	h := ph.Block()
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	_ = ifi
	body := h.Succs[0]
	if !body.Dominates(ia.Block()) {
		return false
	}
	l := d.newLoop(h, body, src)
	l.index[ph] = true
	l.index[idx] = true
	// the position itself must not be used otherwise
	l.roots[ph] = true
	l.roots[idx] = true
	for _, ref := range *ia.Referrers() {
		if ld, ok := ref.(*ssa.UnOp); ok {
			l.roots[ld] = true
		}
	}
	l.check()
	return true
}

// sortsTotally: the instruction sorts held so that only indistinguishable elements can tie.
func (d *determ) sortsTotally(in ssa.Instruction, held ssa.Value) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		if mi, ok := in.(*ssa.MakeInterface); ok {
			for _, ref := range *mi.Referrers() {
				if ref != in && d.sortsTotally(ref, mi) {
					return true
				}
			}
		}
		if ct, ok := in.(*ssa.ChangeType); ok {
			for _, ref := range *ct.Referrers() {
				if d.sortsTotally(ref, ct) {
					return true
				}
			}
		}
		return false
	}
	if len(c.Call.Args) == 0 || c.Call.Args[0] != held {
		return false
	}
	switch calleeName(&c.Call) {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	case "sort.Slice", "sort.SliceStable":
		var less *ssa.Function
		switch x := c.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			less = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		}
		if less == nil {
			return false
		}
		d.r.Count("comparison functions", 1)
		return d.totalLess(less)
	case "sort.Sort", "sort.Stable":
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
			if n := namedOf(mi.X.Type()); n != nil {
				if n.Obj().Pkg().Path() == "sort" {
					return true
				}
				for i := 0; i < n.NumMethods(); i++ {
					if n.Method(i).Name() == "Less" {
						if fn := d.u.Prog.FuncValue(n.Method(i)); fn != nil {
							return d.totalLess(fn)
						}
					}
				}
			}
		}
	default:
		// a repository helper that sorts its argument
		fn := c.Call.StaticCallee()
		if fn != nil && inRepo(fn) && len(fn.Params) > 0 {
			for _, ref := range *fn.Params[0].Referrers() {
				if d.sortsTotally(ref, fn.Params[0]) && ref.Block().Dominates(ref.Block()) {
					all := true
					for _, r := range returnsOf(fn) {
						if !dominatesInstr(ref, r) {
							all = false
						}
					}
					if all {
						return true
					}
				}
			}
		}
	}
	return false
}

// totalLess evaluates a less(i, j) function for every combination of outcomes
// of the attribute comparisons it makes; attributes are expressions that differ
// only in i and j. It must order any two elements that differ, consistently.
func (d *determ) totalLess(fn *ssa.Function) bool {
	if len(fn.Params) < 2 {
		return false
	}
	pi, pj := fn.Params[len(fn.Params)-2], fn.Params[len(fn.Params)-1]
	var expr func(v ssa.Value, dep int) (s string, side int) // side: 1 i, 2 j, 0 none, 3 both
	expr = func(v ssa.Value, dep int) (string, int) {
		if v == ssa.Value(pi) {
			return "@", 1
		}
		if v == ssa.Value(pj) {
			return "@", 2
		}
		if dep > 12 {
			return "?", 3
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.String(), 0
		case *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
			return v.Name(), 0
		case *ssa.Phi, *ssa.Alloc:
			return "?", 3
		case ssa.Instruction:
			s := fmt.Sprintf("%T", v)
			switch y := v.(type) {
			case *ssa.BinOp:
				s += y.Op.String()
			case *ssa.UnOp:
				s += y.Op.String()
			case *ssa.FieldAddr:
				s += fmt.Sprint(y.Field)
			case *ssa.Field:
				s += fmt.Sprint(y.Field)
			case *ssa.Extract:
				s += fmt.Sprint(y.Index)
			case *ssa.Call:
				if d.impure(&y.Call) != "" {
					return "?", 3
				}
			}
			side := 0
			var ops [8]*ssa.Value
			for _, op := range x.Operands(ops[:0]) {
				if op == nil || *op == nil {
					continue
				}
				es, k := expr(*op, dep+1)
				s += "(" + es + ")"
				side |= k
			}
			return s, side
		}
		return v.Name(), 0
	}
	attr := func(b *ssa.BinOp) (string, int) { // attribute, +1 for (i,j), -1 for (j,i)
		x, sx := expr(b.X, 0)
		y, sy := expr(b.Y, 0)
		if x != y {
			return "", 0
		}
		if sx == 1 && sy == 2 {
			return x, 1
		}
		if sx == 2 && sy == 1 {
			return x, -1
		}
		return "", 0
	}
	var attrs []string
	have := map[string]int{}
	var whole string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			a, s := attr(bo)
			if s == 0 {
				continue
			}
			if _, ok := have[a]; !ok {
				have[a] = len(attrs)
				attrs = append(attrs, a)
			}
			if d.wholeElement(bo.X) {
				whole = a
			}
		}
	}
	if whole == "" || len(attrs) > 6 {
		return false
	}
	// evaluate
	eval := func(sig []int) (res bool, ok bool) {
		env := map[ssa.Value]bool{}
		b := fn.Blocks[0]
		var pred *ssa.BasicBlock
		val := func(v ssa.Value) (bool, bool) {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				return constant.BoolVal(c.Value), true
			}
			r, ok := env[v]
			return r, ok
		}
		for steps := 0; steps < 200; steps++ {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for i, p := range b.Preds {
						if p == pred {
							if r, ok := val(x.Edges[i]); ok {
								env[x] = r
							}
						}
					}
				case *ssa.UnOp:
					if x.Op == token.NOT {
						if r, ok := val(x.X); ok {
							env[x] = !r
						}
					}
				case *ssa.BinOp:
					a, s := attr(x)
					if s == 0 {
						continue
					}
					c := sig[have[a]] * s
					switch x.Op {
					case token.LSS:
						env[x] = c < 0
					case token.GTR:
						env[x] = c > 0
					case token.LEQ:
						env[x] = c <= 0
					case token.GEQ:
						env[x] = c >= 0
					case token.EQL:
						env[x] = c == 0
					case token.NEQ:
						env[x] = c != 0
					}
				case *ssa.Return:
					return val(x.Results[0])
				case *ssa.If:
					r, ok := val(x.Cond)
					if !ok {
						return false, false
					}
					pred = b
					if r {
						b = b.Succs[0]
					} else {
						b = b.Succs[1]
					}
				case *ssa.Jump:
					pred = b
					b = b.Succs[0]
				}
			}
		}
		return false, false
	}
	n := 1
	for range attrs {
		n *= 3
	}
	for m := 0; m < n; m++ {
		sig := make([]int, len(attrs))
		neg := make([]int, len(attrs))
		for i, k := 0, m; i < len(attrs); i, k = i+1, k/3 {
			sig[i] = k%3 - 1
			neg[i] = -sig[i]
		}
		if sig[have[whole]] == 0 {
			// equal elements have equal attributes
			continue
		}
		a, ok1 := eval(sig)
		b, ok2 := eval(neg)
		if !ok1 || !ok2 || a == b {
			return false
		}
	}
	return true
}

// wholeElement: the expression is the element itself, of a basic type: x[i].
func (d *determ) wholeElement(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	_, ok = ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, basic := ld.Type().Underlying().(*types.Basic)
	return basic
}

var clockAndChance = []string{"time.Now", "time.Since", "time.Until", "time.Tick", "time.After", "time.NewTimer", "time.NewTicker", "math/rand.", "math/rand/v2.", "crypto/rand.", "hash/maphash.", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "runtime.Caller", "runtime.Stack", "runtime/debug.Stack", "reflect.(Value).Pointer", "reflect.(Value).UnsafeAddr", "reflect.(Value).UnsafePointer", "github.com/google/uuid."}

// showsAddress: formatting a value of this type with %v prints a memory address.
func showsAddress(t types.Type, depth int, exported bool) string {
	if depth > 6 {
		return ""
	}
	if exported && depth >= 0 {
		for _, m := range []string{"Error", "String", "Format", "GoString"} {
			if obj, _, _ := types.LookupFieldOrMethod(t, false, nil, m); obj != nil {
				if _, ok := obj.(*types.Func); ok {
					return ""
				}
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Kind() == types.UnsafePointer || x.Kind() == types.Uintptr {
			return t.String()
		}
	case *types.Pointer:
		if depth == 0 {
			switch x.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return showsAddress(x.Elem(), depth+1, exported)
			}
		}
		return t.String()
	case *types.Signature, *types.Chan:
		return t.String()
	case *types.Slice:
		return showsAddress(x.Elem(), depth+1, exported)
	case *types.Array:
		return showsAddress(x.Elem(), depth+1, exported)
	case *types.Map:
		if s := showsAddress(x.Key(), depth+1, exported); s != "" {
			return s
		}
		return showsAddress(x.Elem(), depth+1, exported)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if s := showsAddress(x.Field(i).Type(), depth+1, exported && x.Field(i).Exported()); s != "" {
				return s
			}
		}
	}
	return ""
}

// formatVerbs: the verb each operand is printed with; nil when the format is not simple.
func formatVerbs(f string) (verbs []rune) {
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			continue
		}
		i++
		for i < len(rs) && strings.ContainsRune("+-# 0123456789.*[]", rs[i]) {
			if rs[i] == '*' {
				verbs = append(verbs, '*')
			}
			i++
		}
		if i < len(rs) && rs[i] != '%' {
			verbs = append(verbs, rs[i])
		}
	}
	return verbs
}

func (d *determ) formats(c *ssa.Call) {
	n := calleeName(&c.Call)
	if len(c.Call.Args) == 0 || isLogCall(n) {
		return
	}
	sig := c.Call.Signature()
	if !sig.Variadic() {
		return
	}
	last, ok := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
	if !ok {
		return
	}
	if it, ok := last.Elem().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
		return
	}
	nargs := len(c.Call.Args)
	var verbs []rune
	isF := false
	if nargs >= 2 && isStringType(c.Call.Args[nargs-2].Type()) {
		if s, ok := strConst(c.Call.Args[nargs-2]); ok {
			verbs = formatVerbs(s)
			isF = true
		}
	}
	els, ok := literalElems(c.Call.Args[nargs-1])
	if !ok {
		return
	}
	d.r.Count("formatted output calls", 1)
	for i, e := range els {
		verb := 'v'
		if isF && i < len(verbs) {
			verb = verbs[i]
		}
		bad := ""
		switch verb {
		case 'T', 't':
			continue
		case 'p':
			bad = "%p prints an address"
		default:
			mi, ok := e.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if s := showsAddress(mi.X.Type(), 0, true); s != "" {
				bad = "the memory address of a " + s
			}
		}
		d.r.Check(bad == "", "no-addresses", fnName(c.Parent()), d.u.InstrPos(c), "the text formatted here contains %s", bad)
	}
}

func init() {
	register("D01", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Order-taint analysis over SSA: every iteration whose order Go leaves open (map range, reflect map iteration, sync.Map, generic range callbacks, loops over sequences filled by such iterations) may only have effects that commute: per-key writes, integer counting, setting one constant, early exit with one and the same outcome, calls whose effects commute; a sequence filled in such an order must be sorted by an order that separates any two different elements (the comparison function is evaluated symbolically for all outcomes of its attribute comparisons) before anything depends on positions. Clock, randomness, process identity and addresses in formatted text may not be referenced."
		r.assumptions = []string{"Values of interface type that callers supply format themselves deterministically.", "Standard library functions without effects are functions of their arguments.", "The development web server's file listing is outside (command xtoproto_web)."}
		d := &determ{u: u, r: r, seen: map[ssa.Value]bool{}, comm: map[*ssa.Function]string{}, loops: map[*ssa.BasicBlock]bool{}}
		fs := u.LibFuncs()
		for _, f := range u.MainFuncs() {
			if fnPkg(f) != "cmd/xtoproto_web" {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
		r.Count("functions", len(fs))
		for _, fn := range fs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Range:
						if _, ok := x.X.Type().Underlying().(*types.Map); ok {
							d.mapLoop(x)
						}
					case *ssa.Select:
						if len(x.States) > 1 {
							d.bad("no-scheduling", fn, u.InstrPos(in), "the outcome depends on which of several communications is ready first")
						}
					case ssa.CallInstruction:
						d.source(fn, x)
						if c, ok := x.(*ssa.Call); ok {
							d.formats(c)
						}
					}
				}
			}
		}
		r.Floor("functions", 400)
		r.Floor("formatted output calls", 150)
	})
}

func (d *determ) mapLoop(x *ssa.Range) {
	for _, ref := range *x.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		h := nx.Block()
		ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		_ = ifi
		src := "the map " + mapLabel(x.X)
		l := d.newLoop(h, h.Succs[0], src)
		l.roots[nx] = true
		for _, r2 := range *nx.Referrers() {
			if ex, ok := r2.(*ssa.Extract); ok && ex.Index > 0 {
				l.roots[ex] = true
				if ex.Index == 1 {
					l.key = ex
				}
			}
		}
		l.check()
	}
}

func mapLabel(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldVar(fa.X.Type(), fa.Field).Name()
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name()
		}
	case *ssa.Parameter:
		return x.Name()
	}
	return v.Type().String()
}

func (d *determ) source(fn *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	n := calleeName(c)
	pos := d.u.InstrPos(ci)
	for _, s := range clockAndChance {
		if n == s || strings.HasSuffix(s, ".") && strings.HasPrefix(n, s) {
			d.bad("no-clock-or-chance", fn, pos, "%s is called", n)
		}
	}
	// function values given away count as well
	for _, a := range c.Args {
		if f, ok := a.(*ssa.Function); ok && f.Object() != nil {
			nm := objName(f.Object())
			for _, s := range clockAndChance {
				if f.Object() != nil && (nm == s || strings.HasSuffix(s, ".") && strings.HasPrefix(nm, s)) {
					d.bad("no-clock-or-chance", fn, pos, "%s is used", nm)
				}
			}
		}
	}
	switch n {
	case "reflect.(Value).MapKeys", "maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
		if cv, ok := ci.(*ssa.Call); ok {
			d.unordered(cv, nil, n)
		}
	case "reflect.(Value).MapRange":
		d.bad("order-free", fn, pos, "iteration in unspecified order through %s", n)
	}
	// range callbacks: sync.Map.Range, protoreflect Map.Range and Message.Range
	if c.Signature().Params().Len() == 1 && (strings.HasSuffix(n, ".Range") || strings.HasSuffix(n, "RangeExtensions")) {
		var cb ssa.Value
		if len(c.Args) > 0 {
			cb = c.Args[len(c.Args)-1]
		}
		bad := ""
		for _, lf := range d.u.LocalLeaves(cb) {
			var f *ssa.Function
			switch x := lf.(type) {
			case *ssa.Function:
				f = x
			case *ssa.MakeClosure:
				f = x.Fn.(*ssa.Function)
			}
			if f == nil {
				bad = "an unknown function is called for each entry"
			} else if w := d.commutative(f); w != "" {
				bad = w
			}
		}
		d.r.Check(bad == "", "order-free", fnName(fn), pos, "iteration in unspecified order through %s: %s", n, bad)
	}
}
