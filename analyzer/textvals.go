package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- registered coders

// coderReg is one registration of a coder: the type and the two functions.
type coderReg struct {
	site     ssa.Instruction
	typ      types.Type // nil when not resolved
	enc, dec *ssa.Function
	encV     ssa.Value
}

// reflectTypeOf resolves a reflect.Type value made with reflect.TypeOf (possibly
// followed by Elem) to the Go type it denotes.
func (u *Unit) reflectTypeOf(v ssa.Value, depth int) types.Type {
	if depth > 8 {
		return nil
	}
	v = strip(v)
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "reflect.TypeOf":
			a := x.Call.Args[0]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				return mi.X.Type()
			}
			if c, ok := a.(*ssa.Const); ok && c.Value != nil {
				return c.Type()
			}
			return nil
		case "reflect.(Type).Elem":
			if t := u.reflectTypeOf(x.Call.Value, depth+1); t != nil {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					return p.Elem()
				}
			}
			return nil
		case "reflect.PtrTo", "reflect.PointerTo":
			if t := u.reflectTypeOf(x.Call.Args[0], depth+1); t != nil {
				return types.NewPointer(t)
			}
			return nil
		}
		var res types.Type
		if fn := x.Call.StaticCallee(); fn != nil && inRepo(fn) {
			for _, r := range returnsOf(fn) {
				if len(r.Results) == 0 {
					return nil
				}
				t := u.reflectTypeOf(r.Results[0], depth+1)
				if t == nil || res != nil && !types.Identical(res, t) {
					return nil
				}
				res = t
			}
		}
		return res
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return u.globalReflectType(g, depth)
		}
		if cell := cellOf(x.X); cell != nil {
			if ss := storesTo(cell); len(ss) == 1 {
				return u.reflectTypeOf(ss[0].Val, depth+1)
			}
		}
	}
	return nil
}

func (u *Unit) globalReflectType(g *ssa.Global, depth int) types.Type {
	var res types.Type
	for _, s := range u.globalStores(g) {
		t := u.reflectTypeOf(s.Val, depth+1)
		if t == nil || res != nil && !types.Identical(res, t) {
			return nil
		}
		res = t
	}
	return res
}

func (u *Unit) globalStores(g *ssa.Global) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range u.Funcs {
		if f.Pkg != nil && g.Pkg != nil && f.Pkg != g.Pkg && !g.Object().Exported() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func (u *Unit) funcOf(v ssa.Value) *ssa.Function {
	switch x := strip(v).(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.UnOp:
		if cell := cellOf(x.X); cell != nil {
			if ss := storesTo(cell); len(ss) == 1 {
				return u.funcOf(ss[0].Val)
			}
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if ss := u.globalStores(g); len(ss) == 1 {
				return u.funcOf(ss[0].Val)
			}
		}
	}
	return nil
}

// rows finds the tuples of values that reach the given values together: directly,
// through parameters of one function (per call site), or through fields of the
// elements of a table of structs.
func (u *Unit) rows(site ssa.Instruction, vals []ssa.Value, depth int) (out [][]ssa.Value, sites []ssa.Instruction) {
	if depth > 6 {
		return nil, nil
	}
	vs := make([]ssa.Value, len(vals))
	allParam, anyParam := true, false
	var pf *ssa.Function
	for i, v := range vals {
		vs[i] = strip(v)
		if ld, ok := vs[i].(*ssa.UnOp); ok && ld.Op == token.MUL {
			if cell := cellOf(ld.X); cell != nil && cellSimple(cell) {
				if ss := storesTo(cell); len(ss) == 1 {
					vs[i] = strip(ss[0].Val)
				}
			}
		}
		if p, ok := vs[i].(*ssa.Parameter); ok {
			anyParam = true
			if pf != nil && pf != p.Parent() {
				allParam = false
			}
			pf = p.Parent()
		}
	}
	if anyParam && allParam && pf != nil {
		for _, cs := range u.callSites(pf) {
			nv := make([]ssa.Value, len(vs))
			ok := true
			for i, v := range vs {
				if p, isP := v.(*ssa.Parameter); isP {
					nv[i] = siteArg(cs, pf, paramIndex(p))
					if nv[i] == nil {
						ok = false
					}
				} else {
					nv[i] = v
				}
			}
			if !ok {
				continue
			}
			o, s := u.rows(cs, nv, depth+1)
			out, sites = append(out, o...), append(sites, s...)
		}
		return out, sites
	}
	// fields of one struct value
	fieldIdx := make([]int, len(vs))
	var st types.Type
	isRow := true
	for i, v := range vs {
		fieldIdx[i] = -1
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				fieldIdx[i] = fa.Field
				st = deref(fa.X.Type())
			}
		case *ssa.Field:
			fieldIdx[i] = x.Field
			st = x.X.Type()
		}
		if fieldIdx[i] < 0 {
			isRow = false
		}
	}
	if isRow && st != nil {
		byBase := map[ssa.Value]map[int]ssa.Value{}
		var order []ssa.Value
		for _, f := range u.Funcs {
			if fnPkg(f) != fnPkg(site.Parent()) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(deref(fa.X.Type()), st) {
						continue
					}
					if byBase[fa.X] == nil {
						byBase[fa.X] = map[int]ssa.Value{}
						order = append(order, fa.X)
					}
					byBase[fa.X][fa.Field] = s.Val
				}
			}
		}
		for _, base := range order {
			nv := make([]ssa.Value, len(vs))
			ok := true
			for i := range vs {
				nv[i] = byBase[base][fieldIdx[i]]
				if nv[i] == nil {
					ok = false
				}
			}
			if !ok {
				continue
			}
			in := site
			if bi, ok := base.(ssa.Instruction); ok {
				in = bi
			}
			o, s := u.rows(in, nv, depth+1)
			out, sites = append(out, o...), append(sites, s...)
		}
		return out, sites
	}
	return [][]ssa.Value{vs}, []ssa.Instruction{site}
}

// builtinCoders lists the coders that RegisterBasicTypes registers.
func (u *Unit) builtinCoders() []coderReg {
	reach := u.reachableFrom(u.MustFunc("textcoder", "RegisterBasicTypes"))
	var out []coderReg
	seen := map[string]bool{}
	for _, f := range u.Funcs {
		if !reach[f] || fnPkg(f) != "textcoder" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil || !inRepo(callee) || !takesCoder(callee) {
					continue
				}
				args := c.Common().Args
				n := len(args)
				// forwarding from one registration function to another is not a registration of its own
				if p, ok := strip(args[n-3]).(*ssa.Parameter); ok && takesCoder(p.Parent()) && fnPkg(p.Parent()) == "textcoder" && p.Parent().Parent() == nil && p.Parent().Object() != nil && (p.Parent().Name() == "Register" || p.Parent().Name() == "MustRegister" || p.Parent().Name() == "register") {
					continue
				}
				rs, ss := u.rows(in, []ssa.Value{args[n-3], args[n-2], args[n-1]}, 0)
				for i, rw := range rs {
					k := fmt.Sprintf("%v|%v|%v", rw[0], rw[1], rw[2])
					if seen[k] {
						continue
					}
					seen[k] = true
					out = append(out, coderReg{site: ss[i], typ: u.reflectTypeOf(rw[0], 0), enc: u.funcOf(rw[1]), dec: u.funcOf(rw[2]), encV: rw[1]})
				}
			}
		}
	}
	return out
}

// takesCoder: func(..., reflect.Type, interface{}, interface{}) error?
func takesCoder(f *ssa.Function) bool {
	p := f.Signature.Params()
	n := p.Len()
	if n < 3 {
		return false
	}
	isAny := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	return typeIs(p.At(n-3).Type(), "reflect", "Type") && isAny(p.At(n-2).Type()) && isAny(p.At(n-1).Type())
}

// ---------------------------------------------------------------- numeric provenance

type frame struct {
	call ssa.CallInstruction
	up   *frame
}

// numSource is where a numeric value comes from: one strconv parse call.
type numSource struct {
	call *ssa.Call // the strconv call
	kind string    // "int", "uint", "float"
	bits int       // 0 when not resolved
	base int       // -1 when not resolved
	text ssa.Value // resolved text argument
	fr   *frame
	via  []types.Type // types the value passed through by conversion
}

func (u *Unit) inFrame(v ssa.Value, fr *frame) (ssa.Value, *frame) {
	for i := 0; i < 20; i++ {
		v = strip(v)
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if cell := cellOf(ld.X); cell != nil && cellSimple(cell) {
				if ss := storesTo(cell); len(ss) == 1 {
					v = ss[0].Val
					continue
				}
			}
		}
		if p, ok := v.(*ssa.Parameter); ok && fr != nil {
			fn := p.Parent()
			if fr.call.Common().StaticCallee() == fn {
				if a := siteArg(fr.call, fn, paramIndex(p)); a != nil {
					v, fr = a, fr.up
					continue
				}
			}
		}
		return v, fr
	}
	return v, fr
}

func (u *Unit) constInt(v ssa.Value, fr *frame) (int, bool) {
	v, fr = u.inFrame(v, fr)
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n, ok := constant.Int64Val(c.Value)
		return int(n), ok
	}
	// unsafe.Sizeof, strconv.IntSize and the like are constants already; reflect Bits() of a known type
	if c, ok := v.(*ssa.Call); ok && calleeName(&c.Call) == "reflect.(Type).Bits" {
		if t := u.reflectTypeOf(c.Call.Value, 0); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok {
				return basicBits(b), true
			}
		}
	}
	if cv, ok := v.(*ssa.Convert); ok {
		return u.constInt(cv.X, fr)
	}
	return 0, false
}

// basicBits is the width of a numeric kind; int, uint and uintptr count as 64
// (the platforms the repository is built for; 32 on js/wasm is handled by strconv's 0).
func basicBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int64, types.Uint64, types.Float64, types.Int, types.Uint, types.Uintptr:
		return 64
	case types.Complex64:
		return 64
	case types.Complex128:
		return 128
	}
	return 0
}

func numClass(b *types.Basic) string {
	switch {
	case b.Info()&types.IsFloat != 0:
		return "float"
	case b.Info()&types.IsUnsigned != 0:
		return "uint"
	case b.Info()&types.IsInteger != 0:
		return "int"
	}
	return ""
}

// numSources traces a numeric value to strconv calls. Other origins are
// returned as values.
func (u *Unit) numSources(v ssa.Value, fr *frame, via []types.Type, depth int, seen map[ssa.Value]bool) (src []numSource, other []ssa.Value) {
	if depth > 12 || seen[v] {
		return nil, nil
	}
	if depth == 0 || seen == nil {
		seen = map[ssa.Value]bool{}
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.Convert:
		return u.numSources(x.X, fr, append(append([]types.Type(nil), via...), x.Type()), depth+1, seen)
	case *ssa.ChangeType:
		return u.numSources(x.X, fr, append(append([]types.Type(nil), via...), x.Type()), depth+1, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			s, o := u.numSources(e, fr, via, depth+1, seen)
			src, other = append(src, s...), append(other, o...)
		}
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
				for _, st := range storesTo(cell) {
					s, o := u.numSources(st.Val, fr, via, depth+1, seen)
					src, other = append(src, s...), append(other, o...)
				}
				return
			}
		}
	case *ssa.Parameter:
		if fr != nil && fr.call.Common().StaticCallee() == x.Parent() {
			if a := siteArg(fr.call, x.Parent(), paramIndex(x)); a != nil {
				return u.numSources(a, fr.up, via, depth+1, seen)
			}
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			break
		}
		n := calleeName(&c.Call)
		if x.Index == 0 {
			s := numSource{call: c, fr: fr, via: via, base: 10}
			a := c.Call.Args
			switch n {
			case "strconv.ParseInt", "strconv.ParseUint":
				s.kind = map[string]string{"strconv.ParseInt": "int", "strconv.ParseUint": "uint"}[n]
				var ok1, ok2 bool
				s.base, ok1 = u.constInt(a[1], fr)
				s.bits, ok2 = u.constInt(a[2], fr)
				if !ok1 {
					s.base = -1
				}
				if !ok2 {
					s.bits = -1
				} else if s.bits == 0 {
					s.bits = 64
				}
			case "strconv.ParseFloat":
				s.kind = "float"
				var ok2 bool
				if s.bits, ok2 = u.constInt(a[1], fr); !ok2 {
					s.bits = -1
				}
			case "strconv.Atoi":
				s.kind, s.bits = "int", 64
			}
			if s.kind != "" {
				s.text, _ = u.inFrame(a[0], fr)
				return []numSource{s}, nil
			}
		}
		if fn := c.Call.StaticCallee(); fn != nil && inRepo(fn) && fn.Blocks != nil {
			nf := &frame{c, fr}
			for _, r := range returnsOf(fn) {
				ei := errResultIndex(fn.Signature)
				if ei >= 0 && ei != x.Index && neverNilErr(r.Results[ei]) {
					if k, ok := r.Results[x.Index].(*ssa.Const); ok && (k.Value == nil || constant.Sign(k.Value) == 0) {
						continue // the zero that goes with an error
					}
				}
				s, o := u.numSources(r.Results[x.Index], nf, via, depth+1, seen)
				src, other = append(src, s...), append(other, o...)
			}
			return
		}
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && inRepo(fn) && fn.Blocks != nil {
			nf := &frame{x, fr}
			for _, r := range returnsOf(fn) {
				if len(r.Results) > 0 {
					s, o := u.numSources(r.Results[0], nf, via, depth+1, seen)
					src, other = append(src, s...), append(other, o...)
				}
			}
			return
		}
	}
	return nil, []ssa.Value{v}
}

// neverNilErr: a value that is certainly a non-nil error at the place it is returned.
func neverNilErr(v ssa.Value) bool {
	if isNilConst(v) {
		return false
	}
	if c, ok := v.(*ssa.Call); ok {
		switch calleeName(&c.Call) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	}
	if _, ok := v.(*ssa.MakeInterface); ok {
		return true
	}
	// guarded by v != nil
	if in, ok := v.(ssa.Instruction); ok {
		for _, r := range *v.Referrers() {
			if ret, ok := r.(*ssa.Return); ok {
				if nonNilAt(v, ret.Block()) {
					return true
				}
			}
		}
		_ = in
	}
	return false
}

// nilAt / nonNilAt: the branch structure establishes v == nil / v != nil at b.
func nilAt(v ssa.Value, b *ssa.BasicBlock) bool    { return nilGuard(v, b, true) }
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool { return nilGuard(v, b, false) }

func nilGuard(v ssa.Value, b *ssa.BasicBlock, want bool) bool {
	for _, g := range guardsOf(b) {
		bo, ok := g.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		var other ssa.Value
		switch {
		case sameVal(bo.X, v):
			other = bo.Y
		case sameVal(bo.Y, v):
			other = bo.X
		default:
			continue
		}
		if !isNilConst(other) {
			continue
		}
		isNil := (bo.Op == token.EQL) == g.Val
		if isNil == want {
			return true
		}
	}
	return false
}

// sameVal: equal values, or loads of the same simple cell with no difference that matters here.
func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL && la.X == lb.X {
		if cell := cellOf(la.X); cell != nil && cellSimple(cell) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- sinks

type numSink struct {
	fn   *ssa.Function
	in   ssa.Instruction
	val  ssa.Value
	typ  *types.Basic
	text *ssa.Parameter // the text parameter of the function
	what string
}

// numericSinks: values stored through the destination pointer of a decoder, or
// returned by an exported parsing helper.
func (u *Unit) storesThrough(fn *ssa.Function, p *ssa.Parameter, fr *frame, depth int, visit func(s *ssa.Store, fr *frame)) {
	if depth > 4 {
		return
	}
	al := map[ssa.Value]bool{p: true}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.ChangeType:
				if al[x.X] {
					al[x] = true
				}
			case *ssa.Store:
				if al[x.Addr] {
					visit(x, fr)
				}
			case ssa.CallInstruction:
				callee := x.Common().StaticCallee()
				if callee == nil || !inRepo(callee) || callee.Blocks == nil {
					continue
				}
				for i, a := range x.Common().Args {
					if al[a] && i < len(callee.Params) {
						u.storesThrough(callee, callee.Params[i], &frame{x, fr}, depth+1, visit)
					}
				}
			}
		}
	}
}

func textParam(fn *ssa.Function) *ssa.Parameter {
	for _, p := range fn.Params {
		if isStringType(p.Type()) {
			return p
		}
	}
	return nil
}

func init() {
	register("T01", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Value provenance over SSA: for every built-in decoder and every exported parsing helper of the generated code's runtime, each number that is stored in the destination or returned is traced backwards, through conversions, variables and (context-sensitively) helper functions, to its origin. The origin must be a strconv parse of the decoder's own text argument, in base ten, of the right signedness, whose bit size is exactly the width of the destination; no narrowing happens on the way; the number is only used when the parse's error is nil or is returned along with it."
		r.assumptions = []string{"strconv.ParseInt/ParseUint/ParseFloat/Atoi return exactly the denoted (for floats: nearest) value of the requested bit size or an error.", "int and uint are 64 bits wide."}
		for _, cr := range u.builtinCoders() {
			b, ok := basicOf(cr.typ)
			if !ok || numClass(b) == "" {
				continue
			}
			r.Count("numeric decoders", 1)
			if cr.dec == nil || len(cr.dec.Params) < 2 {
				r.Bad("exact-parse", "decoder|"+b.Name(), u.InstrPos(cr.site), "the decoder registered for %s could not be resolved", b.Name())
				continue
			}
			dst := cr.dec.Params[len(cr.dec.Params)-1]
			n := 0
			u.storesThrough(cr.dec, dst, nil, 0, func(s *ssa.Store, fr *frame) {
				n++
				checkNum(u, r, cr.dec, "decoder of "+b.Name(), s, s.Val, fr, b, textParam(cr.dec))
			})
			r.Check(n > 0, "decoder-stores", "decoder|"+b.Name(), u.InstrPos(cr.site), "the decoder of %s never stores a value", b.Name())
			checkErrKept(u, r, cr.dec, "decoder of "+b.Name())
		}
		for _, f := range u.PkgFuncs("csvtoprotoparse") {
			if f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 2 || textParam(f) == nil {
				continue
			}
			b, ok := basicOf(f.Signature.Results().At(0).Type())
			if !ok || numClass(b) == "" {
				continue
			}
			r.Count("numeric parsing helpers", 1)
			for _, ret := range returnsOf(f) {
				if k, ok := ret.Results[0].(*ssa.Const); ok && constant.Sign(k.Value) == 0 && neverNilErr(ret.Results[1]) {
					continue
				}
				checkNum(u, r, f, "helper "+f.Name(), ret, ret.Results[0], nil, b, textParam(f))
			}
			checkErrKept(u, r, f, "helper "+f.Name())
		}
		// the tables that map a kind to the type whose coder is borrowed keep the kind
		checkKindTable(u, r)
		r.Floor("numeric decoders", 12)
		r.Floor("numeric parsing helpers", 4)
	})
	register("T02", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Path rule over SSA: in every function of the text coder that decodes into a destination (registered decoders, coder implementations and the functions they hand the destination to), no store through the destination (direct, or by reflection) can be followed by a return of a possibly non-nil error, and none happens before the step that can fail has succeeded."
		r.assumptions = []string{"User-supplied decoders keep the same rule; the property is about the basic kinds."}
		decs := map[*ssa.Function]bool{}
		for _, cr := range u.builtinCoders() {
			if cr.dec != nil {
				decs[cr.dec] = true
			}
		}
		r.Count("registered decoders", len(decs))
		for _, f := range u.PkgFuncs("textcoder") {
			if len(f.Params) < 2 || errResultIndex(f.Signature) < 0 {
				continue
			}
			hasText, hasDst := false, false
			for _, p := range f.Params {
				if isStringType(p.Type()) {
					hasText = true
				}
				switch t := p.Type().Underlying().(type) {
				case *types.Interface:
					if t.NumMethods() == 0 {
						hasDst = true
					}
				case *types.Pointer:
					if hasText {
						hasDst = true
					}
				}
			}
			if hasText && hasDst {
				decs[f] = true
			}
		}
		for _, f := range u.PkgFuncs("textcoder") {
			if decs[f] {
				r.Count("decoding functions", 1)
				checkStoreAfterSuccess(u, r, f)
			}
		}
		r.Floor("registered decoders", 14)
		r.Floor("decoding functions", 18)
		r.Floor("stores to destinations", 14)
	})
	register("T04", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Table agreement over the type-checked program: every basic boolean, integer, float and string kind has one registered coder whose encoder takes, and whose decoder fills, exactly the registered type; the kind-to-type table maps each of these kinds to the type of that kind; and every use of reflection to call a registered function is dominated by a comparison of its number of arguments and results and of each argument and result type, with the argument list built for that same signature."
		checkCoderTable(u, r)
		checkKindTable(u, r)
		checkSignatureChecks(u, r)
	})
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func checkNum(u *Unit, r *Report, fn *ssa.Function, what string, at ssa.Instruction, v ssa.Value, fr *frame, b *types.Basic, text *ssa.Parameter) {
	src, other := u.numSources(v, fr, nil, 0, nil)
	key := what
	for _, o := range other {
		r.Bad("exact-parse", key, u.InstrPos(at), "%s: the value stored is not the direct result of parsing the text (it comes from %s)", what, describe(u, o))
	}
	if len(src) == 0 && len(other) == 0 {
		r.Bad("exact-parse", key, u.InstrPos(at), "%s: the origin of the value stored could not be determined", what)
	}
	for _, s := range src {
		pos := u.InstrPos(s.call)
		cls, bits := numClass(b), basicBits(b)
		switch {
		case s.kind != cls:
			r.Bad("exact-parse", key, pos, "%s: %s text is parsed as %s", what, cls, s.kind)
		case s.bits != bits:
			r.Bad("exact-parse", key, pos, "%s: parsed with bit size %d but stored in %d bits", what, s.bits, bits)
		case s.base != 10:
			r.Bad("exact-parse", key, pos, "%s: parsed in base %d instead of 10", what, s.base)
		case text != nil && s.text != ssa.Value(text):
			r.Bad("exact-parse", key, pos, "%s: what is parsed is not the given text but %s", what, describe(u, s.text))
		default:
			ok := true
			for _, t := range s.via {
				vb, isB := t.Underlying().(*types.Basic)
				if !isB || numClass(vb) != cls || basicBits(vb) < bits {
					r.Bad("exact-parse", key, u.InstrPos(at), "%s: the parsed number is converted to %s on its way to %s", what, t, b)
					ok = false
				}
			}
			if ok {
				r.OK("exact-parse", "%s %s base %d bits %d", what, pos, s.base, s.bits)
			}
		}
	}
}

func describe(u *Unit, v ssa.Value) string {
	s := fmt.Sprintf("%s", v)
	s = strings.ReplaceAll(s, modPath+"/", "")
	if p := v.Pos(); p.IsValid() {
		s += " at " + u.Pos(p)
	}
	return s
}

// checkErrKept: every strconv error met on the way is returned (or tested and answered with an error).
func checkErrKept(u *Unit, r *Report, f *ssa.Function, what string) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				fn := c.Call.StaticCallee()
				if fn == nil {
					continue
				}
				isParse := strings.HasPrefix(calleeName(&c.Call), "strconv.Parse") || calleeName(&c.Call) == "strconv.Atoi"
				if !isParse {
					if inRepo(fn) {
						walk(fn)
					}
					if !(inRepo(fn) && errResultIndex(fn.Signature) >= 0) {
						continue
					}
				}
				bad := errFlow(u, c)
				r.Check(bad == "", "parse-error-returned", what, u.InstrPos(c), "%s: the failure of %s is not reported: %s", what, calleeName(&c.Call), bad)
			}
		}
	}
	walk(f)
}

// checkStoreAfterSuccess implements T02 for one function.
func checkStoreAfterSuccess(u *Unit, r *Report, f *ssa.Function) {
	ei := errResultIndex(f.Signature)
	type wr struct {
		in   ssa.Instruction
		what string
	}
	var writes []wr
	dst := map[ssa.Value]bool{}
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if !typeIs(t.Elem(), modPath+"/textcoder", "Context") && !typeIs(t.Elem(), modPath+"/textcoder", "Registry") {
				dst[p] = true
			}
		case *types.Interface:
			if t.NumMethods() == 0 {
				dst[p] = true
			}
		}
	}
	// values derived from the destination
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || dst[v] {
					continue
				}
				d := false
				switch x := in.(type) {
				case *ssa.ChangeType:
					d = dst[x.X]
				case *ssa.ChangeInterface:
					d = dst[x.X]
				case *ssa.MakeInterface:
					d = dst[x.X]
				case *ssa.TypeAssert:
					d = dst[x.X]
				case *ssa.Extract:
					d = dst[x.Tuple]
				case *ssa.FieldAddr:
					d = dst[x.X]
				case *ssa.IndexAddr:
					d = dst[x.X]
				case *ssa.Phi:
					for _, e := range x.Edges {
						d = d || dst[e]
					}
				case *ssa.UnOp:
					if cell := cellOf(x.X); x.Op == token.MUL && cell != nil && cellSimple(cell) {
						for _, s := range storesTo(cell) {
							d = d || dst[s.Val]
						}
					}
				case *ssa.Call:
					switch calleeName(&x.Call) {
					case "reflect.ValueOf", "reflect.(Value).Elem", "reflect.Indirect", "reflect.(Value).Addr", "reflect.(Value).Interface":
						d = len(x.Call.Args) > 0 && dst[x.Call.Args[0]]
					}
				}
				if d {
					dst[v] = true
					changed = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if dst[x.Addr] {
					writes = append(writes, wr{in, "store"})
				}
			case *ssa.Call:
				n := calleeName(&x.Call)
				if strings.HasPrefix(n, "reflect.(Value).Set") && dst[x.Call.Args[0]] {
					writes = append(writes, wr{in, n})
				}
			}
		}
	}
	for _, wx := range writes {
		r.Count("stores to destinations", 1)
		bad := ""
		for _, ret := range returnsOf(f) {
			if wx.in.Block() != ret.Block() && !reach(wx.in.Block(), false)[ret.Block()] {
				continue
			}
			if why := mayFailAfter(u, ret.Results[ei], wx.in, ret); why != "" {
				bad = why + " at " + u.InstrPos(ret)
			}
		}
		r.Check(bad == "", "store-only-on-success", fnName(f), u.InstrPos(wx.in), "the destination is written (%s) although the decoding may still fail or has failed: %s", wx.what, bad)
	}
}

// mayFailAfter: the error returned may be non-nil on a path through the write.
func mayFailAfter(u *Unit, e ssa.Value, w, ret ssa.Instruction) string {
	if isNilConst(e) {
		return ""
	}
	if nilAt(e, w.Block()) || nilAt(e, ret.Block()) {
		return ""
	}
	if p, ok := e.(*ssa.Phi); ok {
		for i, x := range p.Edges {
			pb := p.Block().Preds[i]
			if pb != w.Block() && !reach(w.Block(), false)[pb] {
				continue
			}
			if isNilConst(x) || nilAt(x, w.Block()) || nilAt(x, pb) {
				continue
			}
			if q, ok := x.(*ssa.Phi); ok && q != p {
				if why := mayFailAfter(u, x, w, ret); why == "" {
					continue
				}
			}
			return "returns " + describe(u, x)
		}
		return ""
	}
	if ld, ok := e.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if cell := cellOf(ld.X); cell != nil && cellSimple(cell) {
			for _, s := range storesTo(cell) {
				if s.Parent() == w.Parent() && !isNilConst(s.Val) && !nilAt(s.Val, w.Block()) && (canReach(w, s) || canReach(s, w)) {
					return "returns " + describe(u, s.Val)
				}
			}
			return ""
		}
	}
	return "returns " + describe(u, e)
}

var basicKinds = []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String}

func checkCoderTable(u *Unit, r *Report) {
	byKind := map[types.BasicKind][]coderReg{}
	for _, cr := range u.builtinCoders() {
		r.Count("registered coders", 1)
		if cr.typ == nil {
			r.Bad("coder-types", "unresolved", u.InstrPos(cr.site), "the type of this registration could not be resolved")
			continue
		}
		if b, ok := cr.typ.(*types.Basic); ok {
			byKind[b.Kind()] = append(byKind[b.Kind()], cr)
		}
		name := cr.typ.String()
		if cr.enc == nil || cr.dec == nil {
			r.Bad("coder-types", name, u.InstrPos(cr.site), "the functions registered for %s could not be resolved", name)
			continue
		}
		es, ds := cr.enc.Signature, cr.dec.Signature
		r.Check(es.Params().Len() >= 1 && types.Identical(es.Params().At(es.Params().Len()-1).Type(), cr.typ) && es.Results().Len() == 2 && isStringType(es.Results().At(0).Type()) && isError(es.Results().At(1).Type()),
			"coder-types", "encoder|"+name, u.InstrPos(cr.site), "the encoder registered for %s has type %s", name, es)
		r.Check(ds.Params().Len() >= 2 && types.Identical(ds.Params().At(ds.Params().Len()-1).Type(), types.NewPointer(cr.typ)) && ds.Results().Len() == 1 && isError(ds.Results().At(0).Type()),
			"coder-types", "decoder|"+name, u.InstrPos(cr.site), "the decoder registered for %s has type %s", name, ds)
		// the registration's own error must not be lost
		if c, ok := cr.site.(*ssa.Call); ok && c.Call.StaticCallee() != nil && errResultIndex(c.Call.StaticCallee().Signature) >= 0 {
			bad := len(*c.Referrers()) == 0
			r.Check(!bad, "registration-error", name, u.InstrPos(cr.site), "the failure to register the coder of %s is ignored", name)
		}
	}
	for _, k := range basicKinds {
		r.Check(len(byKind[k]) == 1, "kind-has-coder", types.Typ[k].Name(), "-", "basic kind %s has %d registered coders, want exactly one", types.Typ[k].Name(), len(byKind[k]))
	}
	// one registration that is reached only conditionally leaves the kind without coder
	root := u.MustFunc("textcoder", "RegisterBasicTypes")
	for _, k := range basicKinds {
		for _, cr := range byKind[k] {
			if cr.site.Parent() != root {
				continue
			}
			cond := false
			for _, ret := range returnsOf(root) {
				if !mustPass(root, cr.site.Block(), ret.Block()) && isNilConst(ret.Results[errResultIndex(root.Signature)]) {
					cond = true
				}
			}
			r.Check(!cond, "kind-always-registered", types.Typ[k].Name(), u.InstrPos(cr.site), "the coder of %s is registered only on some paths that succeed", types.Typ[k].Name())
		}
	}
	r.Floor("registered coders", 14)
	// the default registry registers them
	found := false
	reg := u.MustFunc("textcoder", "RegisterBasicTypes")
	for _, s := range u.callSites(reg) {
		if fnPkg(s.Parent()) == "textcoder" {
			found = true
		}
	}
	r.Check(found, "default-registry", "RegisterBasicTypes", "-", "the default registry does not register the basic types")
}

// mustPass: every path from entry to b goes through m.
func mustPass(f *ssa.Function, m, b *ssa.BasicBlock) bool {
	if m == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{m: true}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Blocks[0] == m {
		return true
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

var reflectKindNames = map[string]types.BasicKind{
	"Bool": types.Bool, "Int": types.Int, "Int8": types.Int8, "Int16": types.Int16, "Int32": types.Int32, "Int64": types.Int64,
	"Uint": types.Uint, "Uint8": types.Uint8, "Uint16": types.Uint16, "Uint32": types.Uint32, "Uint64": types.Uint64, "Uintptr": types.Uintptr,
	"Float32": types.Float32, "Float64": types.Float64, "Complex64": types.Complex64, "Complex128": types.Complex128, "String": types.String,
}

// checkKindTable: the association from reflect.Kind to reflect.Type, found as
// stores into maps keyed by reflect.Kind (or as branches on a Kind), keeps the kind.
func checkKindTable(u *Unit, r *Report) {
	kindConst := map[int64]types.BasicKind{}
	if rp := u.Prog.ImportedPackage("reflect"); rp != nil {
		for n, k := range reflectKindNames {
			if c, ok := rp.Pkg.Scope().Lookup(n).(*types.Const); ok {
				v, _ := constant.Int64Val(c.Val())
				kindConst[v] = k
			}
		}
	}
	got := map[types.BasicKind]int{}
	check := func(k int64, v ssa.Value, pos string) {
		want, ok := kindConst[k]
		if !ok {
			return
		}
		t := u.reflectTypeOf(v, 0)
		b, isB := t.(*types.Basic)
		r.Check(isB && b.Kind() == want, "kind-table", types.Typ[want].Name(), pos, "reflect kind %s is associated with type %v", types.Typ[want].Name(), t)
		got[want]++
	}
	fs := u.PkgFuncs("textcoder")
	if f := u.Func("textcoder", "init"); f != nil {
		fs = append(fs, f)
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if typeIs(x.Key.Type(), "reflect", "Kind") && typeIs(x.Value.Type(), "reflect", "Type") {
						if c, ok := x.Key.(*ssa.Const); ok {
							check(c.Int64(), x.Value, u.InstrPos(x))
						}
					}
				case *ssa.Return:
					// switch k { case reflect.Bool: return reflect.TypeOf(false) }
					for _, v := range x.Results {
						if !typeIs(v.Type(), "reflect", "Type") || isNilConst(v) {
							continue
						}
						for _, g := range guardsOf(b) {
							if bo, ok := g.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL && g.Val && typeIs(bo.X.Type(), "reflect", "Kind") {
								if c, ok := bo.Y.(*ssa.Const); ok {
									check(c.Int64(), v, u.InstrPos(x))
								}
							}
						}
					}
				}
			}
		}
	}
	for _, k := range basicKinds {
		r.Check(got[k] >= 1, "kind-table-complete", types.Typ[k].Name(), "-", "no underlying type is associated with kind %s", types.Typ[k].Name())
	}
}
