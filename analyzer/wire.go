package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W01", checkW01)
	register("W02", checkW02)
	register("W03", checkW03)
}

const (
	wpPkg  = "wirepath"
	wpPB   = "proto/wirepath"
	prPath = "google.golang.org/protobuf/reflect/protoreflect"
)

// protoKinds are the scalar kinds of the protobuf language; the value says
// whether the kind may be a map key.
var protoKinds = map[string]bool{
	"bool": true, "int32": true, "sint32": true, "uint32": true, "int64": true, "sint64": true, "uint64": true,
	"sfixed32": true, "fixed32": true, "sfixed64": true, "fixed64": true, "string": true,
	"float": false, "double": false, "bytes": false, "enum": false, "message": false, "group": false,
}

type wireVariant struct {
	typ     types.Type // *WirePath_X
	name    string
	payload types.Type
	kind    string // protobuf kind of the payload
	mapKey  bool
}

type wireModel struct {
	u           *Unit
	slotI, elmI types.Type
	slots, elms []wireVariant
	kindVal     map[string]constant.Value // kind name -> protoreflect constant
	self        constant.Value
	pbWP, wp    types.Type // pointers
}

// oneofVariants lists the wrapper types that implement a generated oneof interface.
func (u *Unit) oneofVariants(rel, iface string) (types.Type, []wireVariant) {
	sp := u.SSA[rel]
	if sp == nil {
		fatalf("package %s not found", rel)
	}
	o := sp.Pkg.Scope().Lookup(iface)
	if o == nil {
		fatalf("generated interface %s.%s not found", rel, iface)
	}
	it := o.Type().Underlying().(*types.Interface)
	var out []wireVariant
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || st.NumFields() != 1 || !types.Implements(types.NewPointer(tn.Type()), it) {
			continue
		}
		tg := reflect.StructTag(st.Tag(0)).Get("protobuf")
		parts := strings.Split(tg, ",")
		name := ""
		for _, p := range parts {
			if strings.HasPrefix(p, "name=") {
				name = strings.TrimPrefix(p, "name=")
			}
		}
		v := wireVariant{typ: types.NewPointer(tn.Type()), name: name, payload: st.Field(0).Type(), mapKey: strings.HasPrefix(name, "map_key_")}
		if b, ok := v.payload.Underlying().(*types.Basic); ok {
			switch parts[0] + " " + b.Name() {
			case "varint bool", "varint int32", "varint int64", "varint uint32", "varint uint64":
				v.kind = b.Name()
			case "zigzag32 int32":
				v.kind = "sint32"
			case "zigzag64 int64":
				v.kind = "sint64"
			case "fixed32 uint32":
				v.kind = "fixed32"
			case "fixed32 int32":
				v.kind = "sfixed32"
			case "fixed64 uint64":
				v.kind = "fixed64"
			case "fixed64 int64":
				v.kind = "sfixed64"
			case "bytes string":
				v.kind = "string"
			}
		}
		out = append(out, v)
	}
	return o.Type(), out
}

func newWireModel(u *Unit) *wireModel {
	m := &wireModel{u: u, kindVal: map[string]constant.Value{}}
	m.slotI, m.slots = u.oneofVariants(wpPB, "isWirePath_Slot")
	m.elmI, m.elms = u.oneofVariants(wpPB, "isWirePath_Element")
	pb := u.SSA[wpPB].Pkg
	m.self = pb.Scope().Lookup("WirePath_SELF").(*types.Const).Val()
	m.pbWP = types.NewPointer(pb.Scope().Lookup("WirePath").Type())
	wp := u.SSA[wpPkg]
	if wp == nil {
		fatalf("package wirepath not found")
	}
	m.wp = types.NewPointer(wp.Pkg.Scope().Lookup("WirePath").Type())
	for _, imp := range wp.Pkg.Imports() {
		if imp.Path() == prPath {
			for k := range protoKinds {
				if o, ok := imp.Scope().Lookup(strings.Title(k) + "Kind").(*types.Const); ok {
					m.kindVal[k] = o.Val()
				}
			}
		}
	}
	return m
}

// wireAssume is the variant a run is specialised for.
type wireAssume struct {
	slot, elem *wireVariant
	payload    constant.Value // of the slot, or nil
	noSlot     bool
	noElem     bool
	nonNil     bool   // paths handed in are not nil
	endless    bool   // no path is ever nil: every component has a next one
	mapKind    string // key kind of the map fields of the message
	text       string // the key type spelled in the text
	literal    string // the literal spelled in the text
}

func (m *wireModel) run(root *ssa.Function, a wireAssume) (*specRun, *specCtx) {
	s := newSpec(m.u)
	s.recBot = a.endless
	isParamLike := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.Call, *ssa.Extract, *ssa.Field:
			return true
		case *ssa.UnOp:
			return x.Op == token.MUL
		}
		return false
	}
	s.hook = func(c *specCtx, v ssa.Value) (sval, bool) {
		t := v.Type()
		if types.Identical(t, m.slotI) && isParamLike(v) {
			if a.noSlot {
				return sval{k: sNil}, true
			}
			if a.slot != nil {
				return sval{k: sDyn, dyn: a.slot.typ, tags: "slot;"}, true
			}
		}
		if types.Identical(t, m.elmI) && isParamLike(v) {
			if a.noElem {
				return sval{k: sNil}, true
			}
			if a.elem != nil {
				return sval{k: sDyn, dyn: a.elem.typ}, true
			}
		}
		if a.endless && (types.Identical(t, m.pbWP) || types.Identical(t, m.wp)) && isParamLike(v) {
			return sval{k: sDyn}, true
		}
		if a.nonNil && (types.Identical(t, m.pbWP) || types.Identical(t, m.wp)) {
			switch x := v.(type) {
			case *ssa.Parameter:
				return sval{k: sDyn}, true
			case *ssa.UnOp:
				if x.Op == token.MUL {
					// the next component may be missing
					if fa, ok := x.X.(*ssa.FieldAddr); !ok || fieldNameOf(fa) != "Child" {
						return sval{k: sDyn}, true
					}
				}
			}
		}
		if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				for _, w := range append(append([]wireVariant{}, m.slots...), m.elms...) {
					if types.Identical(fa.X.Type(), w.typ) {
						if a.slot != nil && a.payload != nil && types.Identical(w.typ, a.slot.typ) {
							return sval{k: sConst, c: a.payload, tags: tag("payload:" + w.name)}, true
						}
						if w.name == "special_path" && a.elem != nil && a.elem.name == w.name {
							return sval{k: sConst, c: m.self, tags: tag("payload:" + w.name)}, true
						}
						return top(tag("payload:" + w.name)), true
					}
				}
			}
		}
		if x, ok := v.(*ssa.Call); ok {
			switch calleeName(&x.Call) {
			case ".(error).Error":
				return top(""), true // the texts of errors are not paths
			case prPath + ".(FieldDescriptor).MapKey":
				return sval{k: sDyn, tags: tag("mapkeydesc")}, true
			case prPath + ".(FieldDescriptor).Kind", prPath + ".(Descriptor).Kind":
				if a.mapKind != "" && x.Call.IsInvoke() && c.get(x.Call.Value).tags.has("mapkeydesc") {
					return sconst(m.kindVal[a.mapKind]), true
				}
			case prPath + ".(FieldDescriptor).IsMap":
				if a.mapKind != "" {
					return sbool(true), true
				}
			case prPath + ".(Kind).String":
				k := c.get(x.Call.Args[0])
				if k.k == sConst {
					for n, kv := range m.kindVal {
						if constant.Compare(kv, token.EQL, k.c) {
							return sval{k: sConst, c: constant.MakeString(n), tags: tag("kind:" + n)}, true
						}
					}
				}
				if k.k != sBot {
					return top(tag("kind:?")), true
				}
			case "strings.EqualFold":
				if a.text != "" {
					for i := 0; i < 2; i++ {
						if l, ok := c.get(x.Call.Args[i]).str(); ok {
							if _, isKind := protoKinds[strings.ToLower(l)]; isKind {
								return sbool(strings.ToLower(l) == a.text), true
							}
						}
					}
				}
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && isStringType(b.X.Type()) && (a.text != "" || a.literal != "") {
			x, y := c.get(b.X), c.get(b.Y)
			if _, isC := x.str(); isC {
				x, y = y, x
			}
			if l, isC := y.str(); isC && x.k == sTop {
				eq, known := false, false
				if _, isKind := protoKinds[l]; isKind && a.text != "" {
					eq, known = l == a.text, true
				} else if a.literal != "" && (l == "0" || l == "1" || l == "true" || l == "false") {
					eq, known = l == a.literal, true
				}
				if known {
					return sbool(eq == (b.Op == token.EQL)), true
				}
			}
		}
		return sval{}, false
	}
	c := s.run(root)
	return s, c
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// isSuccessReturn says whether a return can report success in a context.
func isSuccessReturn(c *specCtx, r *ssa.Return) bool {
	ei := errResultIndex(c.fn.Signature)
	if ei < 0 {
		return true
	}
	ev := r.Results[ei]
	if v := c.get(ev); v.k == sDyn || v.k == sBot {
		return false
	}
	for _, g := range guardsOf(r.Block()) {
		for _, e := range expandGuard(g.Cond, g.Val, g.If) {
			if b, ok := e.Cond.(*ssa.BinOp); ok {
				var o ssa.Value
				if isNilConst(b.Y) {
					o = b.X
				} else if isNilConst(b.X) {
					o = b.Y
				}
				if o == ev && (b.Op == token.NEQ) == e.Val {
					return false
				}
			}
		}
	}
	return true
}

// mustPass says whether every successful way through a context performs act,
// directly or in a callee; it names a return that does not.
func (s *specRun) mustPass(c *specCtx, act func(c *specCtx, call *ssa.Call) bool, busy map[*specCtx]bool) (bool, ssa.Instruction) {
	if busy[c] {
		return true, nil // coinduction: a recursive call passes if the others do
	}
	busy[c] = true
	defer delete(busy, c)
	if len(c.fn.Blocks) == 0 {
		return false, nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || bad != nil {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if act(c, call) {
					return
				}
				if sub := c.calls[call]; sub != nil {
					if busy[sub] {
						continue // handles another component
					}
					if ok, _ := s.mustPass(sub, act, busy); ok && s.returnsSuccess(sub) {
						return
					}
				}
			}
			if r, ok := in.(*ssa.Return); ok && isSuccessReturn(c, r) {
				bad = r
				return
			}
		}
		for _, n := range b.Succs {
			if c.edges[[2]*ssa.BasicBlock{b, n}] {
				walk(n)
			}
		}
	}
	walk(c.fn.Blocks[0])
	return bad == nil, bad
}

func (s *specRun) returnsSuccess(c *specCtx) bool {
	for _, r := range returnsOf(c.fn) {
		if c.reach[r.Block()] && isSuccessReturn(c, r) {
			return true
		}
	}
	return false
}

func basicWidth(t types.Type) (bits int, unsigned, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	return bits, b.Info()&types.IsUnsigned != 0, true
}

// losslessInt says whether every value of from is representable in to.
func losslessInt(from, to types.Type) bool {
	fb, fu, ok1 := basicWidth(from)
	tb, tu, ok2 := basicWidth(to)
	if !ok1 || !ok2 {
		return true
	}
	if fu == tu {
		return fb <= tb
	}
	return fu && !tu && fb < tb
}

func checkW01(w *World, r *Report) {
	u := w.Host
	m := newWireModel(u)
	r.explanation = "For every variant of the slot and element oneofs of the generated wire path message the functions behind String, GetValue and ParseString are specialised to that variant (conditional constant propagation over SSA, interprocedural): what remains reachable must print the payload and exactly the variant's kind, must look the payload up in the list or map before any success, only in maps of exactly that key kind, and must be built from exactly that kind's spelling with a parser of the payload's width."
	r.assumptions = append(r.assumptions, "generated getters of the oneof return the stored variant", "the protobuf runtime's reflection methods behave as documented", "the key type in the text is recognised by comparing strings")
	str := u.MustMethod(wpPkg, "WirePath", "String")
	get := u.MustFunc(wpPkg, "GetValue")
	parse := u.MustFunc(wpPkg, "ParseString")
	fieldElem := -1
	for i := range m.elms {
		if m.elms[i].name == "field_number" {
			fieldElem = i
		}
	}
	if fieldElem < 0 {
		fatalf("no field_number element")
	}
	var mapKinds []string
	for k, ok := range protoKinds {
		if ok {
			mapKinds = append(mapKinds, k)
		}
	}
	sort.Strings(mapKinds)

	// every key type of the language is representable
	have := map[string]bool{}
	for _, v := range m.slots {
		if v.mapKey {
			have[v.kind] = true
		}
	}
	for _, k := range mapKinds {
		r.Check(have[k], "representable", k, "-", "no slot of the wire path message holds a map key of type %s", k)
	}

	callIs := func(name string, tagName string, argTag string) func(c *specCtx, call *ssa.Call) bool {
		return func(c *specCtx, call *ssa.Call) bool {
			if calleeName(&call.Call) != prPath+"."+name {
				return false
			}
			for _, a := range call.Call.Args {
				if c.get(a).tags.has(argTag) {
					return true
				}
			}
			return false
		}
	}
	narrowing := func(s *specRun, v wireVariant, what string) {
		s.each(func(c *specCtx, in ssa.Instruction) {
			cv, ok := in.(*ssa.Convert)
			if !ok || !c.get(cv.X).tags.has("payload:"+v.name) || !sameOrWider(cv.X, v.payload) {
				return
			}
			r.Check(losslessInt(cv.X.Type(), cv.Type()), "lossless", v.name+" "+what+" "+fnName(c.fn), u.InstrPos(cv),
				"%s of a %s slot is converted from %s to %s, which cannot hold every value", what, v.name, cv.X.Type(), cv.Type())
		})
	}

	// ---- slots
	for i := range m.slots {
		v := &m.slots[i]
		if v.kind == "" {
			r.Bad("kind", v.name, "-", "the kind of slot %s cannot be determined", v.name)
			continue
		}
		// printing
		s, c := m.run(str, wireAssume{slot: v, elem: &m.elms[fieldElem]})
		ret := c.ret[0]
		r.Check(ret.tags.has("payload:"+v.name), "print-value", v.name, u.Pos(str.Pos()), "the text of a path does not contain the value of a %s slot", v.name)
		for _, o := range m.slots {
			if o.name != v.name && ret.tags.has("payload:"+o.name) {
				r.Bad("print-value", v.name+" as "+o.name, u.Pos(str.Pos()), "the text of a path with a %s slot contains the value of %s", v.name, o.name)
			}
		}
		kinds := map[string]bool{}
		for _, t := range ret.tags.list() {
			if strings.HasPrefix(t, "kind:") {
				kinds[t[5:]] = true
			}
		}
		s.each(func(c *specCtx, in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				k, ok := (*op).(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				l := constant.StringVal(k.Value)
				for n := range protoKinds {
					if l == ":"+n || strings.HasSuffix(l, ":"+n+"]") || strings.HasSuffix(l, ":"+n) {
						kinds[n] = true
					}
				}
			}
		})
		if v.mapKey && v.kind != "string" {
			ok := kinds[v.kind] && len(kinds) == 1
			r.Check(ok, "print-kind", v.name, u.Pos(str.Pos()), "a %s slot is printed with the key type %v instead of %s", v.name, sortedKeys(kinds), v.kind)
		} else {
			r.Check(len(kinds) == 0, "print-kind", v.name, u.Pos(str.Pos()), "a %s slot is printed with a key type %v", v.name, sortedKeys(kinds))
		}
		narrowing(s, *v, "printing")
		m.checkVerbs(r, s, *v)

		// following
		slotGet := "(Map).Get"
		if !v.mapKey {
			slotGet = "(List).Get"
		}
		act := callIs(slotGet, "", "payload:"+v.name)
		s, c = m.run(get, wireAssume{slot: v, elem: &m.elms[fieldElem], nonNil: true, mapKind: v.kind})
		found := false
		s.each(func(c *specCtx, in ssa.Instruction) {
			if call, ok := in.(*ssa.Call); ok && act(c, call) {
				found = true
			}
		})
		if r.Check(found, "follow", v.name, u.Pos(get.Pos()), "evaluating a path with a %s slot never looks its value up", v.name) {
			ok, at := s.mustPass(c, act, map[*specCtx]bool{})
			pos := u.Pos(get.Pos())
			if at != nil {
				pos = u.InstrPos(at)
			}
			r.Check(ok, "follow-always", v.name, pos, "evaluating a path with a %s slot can succeed without looking its value up", v.name)
		}
		narrowing(s, *v, "following")
		if v.mapKey {
			for _, k := range mapKinds {
				if k == v.kind {
					continue
				}
				s, _ := m.run(get, wireAssume{slot: v, elem: &m.elms[fieldElem], nonNil: true, mapKind: k})
				var at ssa.Instruction
				s.each(func(c *specCtx, in ssa.Instruction) {
					if call, ok := in.(*ssa.Call); ok && act(c, call) {
						at = in
					}
				})
				pos := "-"
				if at != nil {
					pos = u.InstrPos(at)
				}
				r.Check(at == nil, "kind-checked", v.name+" on "+k, pos, "a %s slot is looked up in a map whose key type is %s", v.name, k)
			}
		}
	}

	// ---- elements
	for i := range m.elms {
		v := &m.elms[i]
		s, c := m.run(get, wireAssume{noSlot: true, elem: v, nonNil: true})
		anyGet := func(c *specCtx, call *ssa.Call) bool { return calleeName(&call.Call) == prPath+".(Message).Get" }
		if v.name == "field_number" {
			ok, at := s.mustPass(c, callIs("(Message).Get", "", "payload:"+v.name), map[*specCtx]bool{})
			pos := u.Pos(get.Pos())
			if at != nil {
				pos = u.InstrPos(at)
			}
			r.Check(ok, "follow-element", v.name, pos, "evaluating a path can succeed without reading the field its number names")
			_, c := m.run(str, wireAssume{noSlot: true, elem: v})
			r.Check(c.ret[0].tags.has("payload:"+v.name), "print-value", v.name, u.Pos(str.Pos()), "the text of a path does not contain the field number")
		} else {
			m.selfCheck(r, s, c, v.name, anyGet)
		}
	}
	s, c := m.run(get, wireAssume{noSlot: true, noElem: true, nonNil: true})
	m.selfCheck(r, s, c, "unset element", func(c *specCtx, call *ssa.Call) bool { return calleeName(&call.Call) == prPath+".(Message).Get" })

	// ---- parsing
	m.checkParse(r, parse, str)
	r.Floor("print-kind", 13)
	r.Floor("follow", 13)
	r.Floor("parse-kind", 18)
}

func sameOrWider(x ssa.Value, payload types.Type) bool {
	_, _, ok := basicWidth(x.Type())
	return ok
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// selfCheck: a self element evaluates to the message and never to a field.
func (m *wireModel) selfCheck(r *Report, s *specRun, c *specCtx, name string, anyGet func(c *specCtx, call *ssa.Call) bool) {
	var at ssa.Instruction
	s.each(func(c *specCtx, in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok && anyGet(c, call) {
			at = in
		}
	})
	pos := m.u.Pos(c.fn.Pos())
	if at != nil {
		pos = m.u.InstrPos(at)
	}
	r.Check(at == nil && s.returnsSuccess(c), "follow-element", name, pos, "a path with %s, which refers to the message itself, is evaluated as a field or refused", name)
}

var verbRE = regexp.MustCompile(`%[-+# 0]*[0-9]*(?:\.[0-9]*)?[a-zA-Z%]`)

// checkVerbs: numbers are printed in decimal, and strings with escapes the parser knows.
func (m *wireModel) checkVerbs(r *Report, s *specRun, v wireVariant) {
	_, _, isInt := basicWidth(v.payload)
	pt := "payload:" + v.name
	s.each(func(c *specCtx, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		name := calleeName(&call.Call)
		switch name {
		case "fmt.Sprintf", "fmt.Fprintf", "fmt.Errorf":
			fi := 0
			if name == "fmt.Fprintf" {
				fi = 1
			}
			f, ok := c.get(call.Call.Args[fi]).str()
			els, ok2 := varargElems(call.Call.Args[fi+1])
			if !ok || !ok2 || name == "fmt.Errorf" {
				return
			}
			n := 0
			for _, verb := range verbRE.FindAllString(f, -1) {
				if verb == "%%" {
					continue
				}
				if n >= len(els) {
					break
				}
				e := els[n]
				n++
				if mi, ok := e.(*ssa.MakeInterface); ok {
					e = mi.X
				}
				if !c.get(e).tags.has(pt) {
					continue
				}
				last := verb[len(verb)-1]
				if isInt {
					if _, _, stillInt := basicWidth(e.Type()); stillInt && !isByteOrRune(e.Type()) {
						r.Check(verb == "%v" || verb == "%d", "decimal", v.name+" "+fnName(c.fn), m.u.InstrPos(call), "the number of a %s slot is printed with %s, but read as a decimal number", v.name, verb)
					}
				} else if last == 'q' {
					m.checkEscapes(r, v, "fmt verb "+verb, goQuoteForms, m.u.InstrPos(call))
				}
			}
		case "strconv.FormatInt", "strconv.FormatUint":
			if isInt && c.get(call.Call.Args[0]).tags.has(pt) {
				b := c.get(call.Call.Args[1])
				r.Check(b.k == sConst && b.c.ExactString() == "10", "decimal", v.name+" "+fnName(c.fn), m.u.InstrPos(call), "the number of a %s slot is not printed in base 10, but read as a decimal number", v.name)
			}
		case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic", "strconv.AppendQuote":
			if v.kind == "string" && c.get(call.Call.Args[len(call.Call.Args)-1]).tags.has(pt) {
				m.checkEscapes(r, v, name, goQuoteForms, m.u.InstrPos(call))
			}
		}
	})
	if v.kind != "string" {
		return
	}
	// escapes written by the repository's own quoting code
	done := map[string]bool{}
	s.each(func(c *specCtx, in ssa.Instruction) {
		if len(c.args) == 0 || !allTags(c.args).has(pt) {
			return
		}
		for _, op := range in.Operands(nil) {
			k, ok := (*op).(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			l := constant.StringVal(k.Value)
			if len(l) < 2 || l[0] != '\\' || done[l] {
				continue
			}
			done[l] = true
			l = verbRE.ReplaceAllStringFunc(l, func(vb string) string {
				w := strings.TrimLeft(strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(vb, "x"), "X"), "o"), "%0")
				n := 1
				fmt.Sscanf(w, "%d", &n)
				return strings.Repeat("1", n)
			})
			m.checkEscapes(r, v, "escape "+l+" in "+fnName(c.fn), []string{l}, m.u.InstrPos(in))
		}
	})
}

func isByteOrRune(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && (b.Name() == "byte" || b.Name() == "rune")
}

var goQuoteForms = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\x01`, `\u2028`, `\U000e0001`}

// checkEscapes: each escape that can be printed is one that the regular
// expressions of the parser recognise as one unit.
func (m *wireModel) checkEscapes(r *Report, v wireVariant, what string, forms []string, pos string) {
	var res []*regexp.Regexp
	for _, p := range m.u.regexpsOf(wpPkg) {
		if re, err := regexp.Compile(`\A(?:` + strings.TrimPrefix(p, "^") + `)\z`); err == nil {
			// a recogniser of one unit of a literal
			if re.MatchString("a") && !re.MatchString("ab") && re.MatchString(`\n`) {
				res = append(res, re)
			}
		}
	}
	if len(res) == 0 {
		return // the parser is not built on regular expressions
	}
	for _, f := range forms {
		ok := false
		for _, re := range res {
			ok = ok || re.MatchString(f)
		}
		r.Check(ok, "escape", what+" "+f, pos, "a string map key can be printed with the escape %s, which the parser of string literals does not accept", f)
	}
}

// regexpsOf lists the constant patterns compiled in a package.
func (u *Unit) regexpsOf(rel string) []string {
	var out []string
	sp := u.SSA[rel]
	if sp == nil {
		return nil
	}
	fs := append([]*ssa.Function{}, u.PkgFuncs(rel)...)
	if in := sp.Func("init"); in != nil {
		fs = append(fs, in)
	}
	seen := map[string]bool{}
	eachInstr(fs, func(fn *ssa.Function, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		switch calleeName(&call.Call) {
		case "regexp.MustCompile", "regexp.Compile":
			if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				l := constant.StringVal(k.Value)
				if !seen[l] {
					seen[l] = true
					out = append(out, l)
				}
			}
		}
	})
	sort.Strings(out)
	return out
}

type slotAlloc struct {
	c   *specCtx
	al  *ssa.Alloc
	v   *wireVariant
	val sval
	st  *ssa.Store
}

func (m *wireModel) slotAllocs(s *specRun) (out []slotAlloc) {
	s.each(func(c *specCtx, in ssa.Instruction) {
		al, ok := in.(*ssa.Alloc)
		if !ok {
			return
		}
		for i := range m.slots {
			if types.Identical(al.Type(), m.slots[i].typ) {
				sa := slotAlloc{c: c, al: al, v: &m.slots[i]}
				sa.val = sval{k: sConst, c: zeroConst(m.slots[i].payload)}
				for _, rf := range *al.Referrers() {
					if fa, ok := rf.(*ssa.FieldAddr); ok {
						for _, q := range *fa.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
								sa.val, sa.st = c.get(st.Val), st
							}
						}
					}
				}
				out = append(out, sa)
			}
		}
	})
	return
}

func zeroConst(t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsString != 0:
		return constant.MakeString("")
	}
	return constant.MakeInt64(0)
}

func (m *wireModel) checkParse(r *Report, parse, str *ssa.Function) {
	u := m.u
	var kinds []string
	for k := range protoKinds {
		kinds = append(kinds, k)
	}
	kinds = append(kinds, "no such type")
	sort.Strings(kinds)
	for _, k := range kinds {
		s, _ := m.run(parse, wireAssume{text: k})
		got := map[string]string{}
		for _, sa := range m.slotAllocs(s) {
			if sa.v.kind == "string" || !sa.v.mapKey {
				continue
			}
			got[sa.v.name] = u.InstrPos(sa.al)
			if sa.st == nil {
				if sa.v.kind != "bool" {
					r.Bad("parse-value", sa.v.name, u.InstrPos(sa.al), "a %s slot is built without a value", sa.v.name)
				}
				continue
			}
			m.checkParseWidth(r, sa)
		}
		want := ""
		for i := range m.slots {
			if m.slots[i].mapKey && m.slots[i].kind == k && k != "string" {
				want = m.slots[i].name
			}
		}
		ok := true
		for n, pos := range got {
			if n != want {
				ok = false
				r.Bad("parse-kind", k+" as "+n, pos, "a map key spelled with type %s is stored in slot %s", k, n)
			}
		}
		if want != "" && got[want] == "" {
			ok = false
			r.Bad("parse-kind", k, u.Pos(parse.Pos()), "a map key spelled with type %s is never stored in slot %s", k, want)
		}
		if ok {
			r.OK("parse-kind", "%s -> %s", k, want)
		}
	}
	// list offsets and string keys
	s, _ := m.run(parse, wireAssume{text: "no such type"})
	for i := range m.slots {
		v := &m.slots[i]
		if v.mapKey && v.kind != "string" {
			continue
		}
		n := 0
		for _, sa := range m.slotAllocs(s) {
			if sa.v == v {
				n++
				if !v.mapKey && sa.st != nil {
					m.checkParseWidth(r, sa)
				}
				r.Check(sa.st != nil, "parse-value", v.name, u.InstrPos(sa.al), "a %s slot is built without a value", v.name)
			}
		}
		r.Check(n > 0, "parse-kind", v.name, u.Pos(parse.Pos()), "no text is parsed into a %s slot", v.name)
	}
	// elements
	for i := range m.elms {
		n := 0
		s.each(func(c *specCtx, in ssa.Instruction) {
			if al, ok := in.(*ssa.Alloc); ok && types.Identical(al.Type(), m.elms[i].typ) {
				n++
			}
		})
		r.Check(n > 0, "parse-kind", m.elms[i].name, u.Pos(parse.Pos()), "no text is parsed into a %s element", m.elms[i].name)
	}
	// bool: what is printed for a value is parsed as that value
	for i := range m.slots {
		v := &m.slots[i]
		if v.kind != "bool" {
			continue
		}
		for _, b := range []bool{false, true} {
			s, _ := m.run(str, wireAssume{slot: v, payload: constant.MakeBool(b)})
			printed := map[string]string{}
			s.each(func(c *specCtx, in ssa.Instruction) {
				x, ok := in.(ssa.Value)
				if !ok {
					return
				}
				if l, ok := c.get(x).str(); ok {
					for _, suf := range []string{":bool", ":bool]"} {
						if strings.HasSuffix(l, suf) && len(l) > len(suf) {
							printed[strings.TrimPrefix(strings.TrimSuffix(l, suf), "[")] = u.InstrPos(in)
						}
					}
				}
			})
			for l, pos := range printed {
				s, _ := m.run(parse, wireAssume{text: "bool", literal: l})
				n, bad := 0, false
				for _, sa := range m.slotAllocs(s) {
					if sa.v != v {
						continue
					}
					n++
					val := sa.val
					if val.k == sConst && constant.BoolVal(val.c) != b {
						bad = true
					}
				}
				lit := false
				for _, p := range u.regexpsOf(wpPkg) {
					if re, err := regexp.Compile(p); err == nil && strings.HasPrefix(p, "^") && strings.HasSuffix(p, "$") && re.MatchString("1["+l+":bool]") {
						lit = true
					}
				}
				if len(u.regexpsOf(wpPkg)) == 0 {
					lit = true
				}
				r.Check(n > 0 && !bad && lit, "bool-literal", fmt.Sprintf("%v", b), pos, "the bool map key %v is printed as %q, which is not parsed as %v", b, l, b)
			}
			r.Count("bool literals printed", len(printed))
		}
	}
}

// checkParseWidth: the number of the slot comes from a parse of exactly its width and sign.
func (m *wireModel) checkParseWidth(r *Report, sa slotAlloc) {
	bits, unsigned, ok := basicWidth(sa.v.payload)
	if !ok {
		return
	}
	for _, l := range m.u.Leaves(sa.st.Val) {
		ex, ok := l.(*ssa.Extract)
		if !ok {
			continue
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			continue
		}
		name := calleeName(&call.Call)
		switch name {
		case "strconv.ParseInt", "strconv.ParseUint":
			base, ok1 := call.Call.Args[1].(*ssa.Const)
			size, ok2 := call.Call.Args[2].(*ssa.Const)
			if !ok1 || !ok2 {
				continue
			}
			bs := int(size.Int64())
			if bs == 0 {
				bs = 64
			}
			r.Check(base.Int64() == 10 && bs == bits && (name == "strconv.ParseUint") == unsigned, "parse-width", sa.v.name, m.u.InstrPos(call),
				"the value of a %s slot (%s) is parsed with %s(base %d, %d bits)", sa.v.name, sa.v.payload, name, base.Int64(), bs)
		case "strconv.Atoi":
			r.Check(bits == 64 && !unsigned, "parse-width", sa.v.name, m.u.InstrPos(call), "the value of a %s slot (%s) is parsed with strconv.Atoi", sa.v.name, sa.v.payload)
		}
	}
}

