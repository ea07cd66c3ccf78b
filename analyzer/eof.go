package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// E04 for XML and CSV input: what every operation that reads tokens, rows or
// records does when the input ends or a read fails.

type eofSummary struct {
	clean, dirty bool // may return io.EOF itself, having read nothing / something
	nested       bool // runs inside an element
}

type eofTS struct {
	consumed bool
	last     string // "", "tok", "call", "eof", "header-eof", "fail"
	lastID   int
	start    bool // an element was seen
}

func (t *eofTS) clone() pts { n := *t; return &n }
func (t *eofTS) roots() []int {
	if t.lastID != 0 {
		return []int{t.lastID}
	}
	return nil
}
func (t *eofTS) key(name func(int) string) string {
	k := fmt.Sprintf("%v %s %v", t.consumed, t.last, t.start)
	if t.lastID != 0 {
		k += name(t.lastID)
	}
	return k
}

type eofCheck struct {
	u       *Unit
	r       *Report // nil while summaries are computed
	readers map[*ssa.Function]bool
	sum     map[*ssa.Function]*eofSummary
	root    *ssa.Function
	changed bool
	endOK   ssa.Instruction // success right after the end of an element
	eofOK   ssa.Instruction // success at the end of the input
	seen    map[string]bool
	header  map[ssa.CallInstruction]bool
}

// primitive: what a call reads: "token", "row", "record", "all" or "".
func (c *eofCheck) primitive(cc *ssa.CallCommon) string {
	sig := cc.Signature()
	n := calleeName(cc)
	switch n {
	case "encoding/xml.(Decoder).Token", "encoding/xml.(Decoder).RawToken":
		return "token"
	case "encoding/xml.(Decoder).Decode", "encoding/xml.(Decoder).DecodeElement", "encoding/xml.(Decoder).Skip":
		return "record"
	case "encoding/csv.(Reader).Read":
		return "row"
	case "encoding/csv.(Reader).ReadAll":
		return "all"
	}
	if !cc.IsInvoke() || sig.Params().Len() != 0 || sig.Results().Len() != 2 || !isError(sig.Results().At(1).Type()) {
		return ""
	}
	t := sig.Results().At(0).Type()
	if typeIs(t, "encoding/xml", "Token") {
		return "token"
	}
	if !strings.HasPrefix(cc.Method.Name(), "Read") || cc.Method.Name() == "ReadByte" || cc.Method.Name() == "ReadRune" {
		return ""
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "row"
	}
	return "record"
}

func (c *eofCheck) bad(rule string, in ssa.Instruction, format string, a ...interface{}) {
	if c.r == nil {
		return
	}
	msg := fmt.Sprintf(format, a...)
	k := rule + c.u.InstrPos(in) + msg
	if !c.seen[k] {
		c.seen[k] = true
		c.r.Bad(rule, fnName(in.Parent()), c.u.InstrPos(in), "%s", msg)
	}
}

// isHeader: what is read here is kept in the object that reads, so that it is
// not a record.
func (c *eofCheck) isHeader(in ssa.CallInstruction) bool {
	if h, ok := c.header[in]; ok {
		return h
	}
	c.header[in] = false
	seen := map[ssa.Value]bool{}
	found := false
	var fwd func(v ssa.Value, d int)
	fwd = func(v ssa.Value, d int) {
		if v == nil || seen[v] || found || isError(v.Type()) || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v {
					if c.holdsSource(deref(fa.X.Type())) {
						found = true
						return
					}
				}
			case *ssa.Return:
				if d < 3 {
					for _, s := range c.u.callers[v.Parent()] {
						if fnPkg(s.Parent()) == fnPkg(v.Parent()) && s.Value() != nil {
							for i, r := range x.Results {
								if r != v {
									continue
								}
								if len(x.Results) == 1 {
									fwd(s.Value(), d+1)
								} else {
									for _, rr := range *s.Value().Referrers() {
										if ex, ok := rr.(*ssa.Extract); ok && ex.Index == i {
											fwd(ex, d+1)
										}
									}
								}
							}
						}
					}
				}
			case ssa.Value:
				if call, ok := x.(*ssa.Call); ok && c.readers[call.Call.StaticCallee()] {
					continue
				}
				fwd(x, d)
			}
		}
	}
	v := in.Value()
	if v != nil && v.Referrers() != nil {
		if _, ok := v.Type().(*types.Tuple); ok {
			for _, rr := range *v.Referrers() {
				if ex, ok := rr.(*ssa.Extract); ok && ex.Index == 0 {
					fwd(ex, 0)
				}
			}
		}
	}
	c.header[in] = found
	return found
}

// holdsSource: a struct with a field rows or tokens are read from.
func (c *eofCheck) holdsSource(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if typeIs(deref(ft), "encoding/csv", "Reader") || typeIs(deref(ft), "encoding/xml", "Decoder") {
			return true
		}
		if it, ok := ft.Underlying().(*types.Interface); ok {
			for j := 0; j < it.NumMethods(); j++ {
				s := it.Method(j).Type().(*types.Signature)
				if s.Params().Len() == 0 && s.Results().Len() == 2 && isError(s.Results().At(1).Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (c *eofCheck) note(s *pstate) {
	t := s.ts.(*eofTS)
	if t.last == "tok" && (c.tokenIs(s, t.lastID, "StartElement") || c.tokenIs(s, t.lastID, "EndElement")) {
		t.start = true
	}
}

func (c *eofCheck) tokenIs(s *pstate, id int, name string) bool {
	o := s.objs[id]
	return o != nil && o.dyn != nil && typeIs(o.dyn, "encoding/xml", name)
}

func (c *eofCheck) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	cc := in.Common()
	prim := c.primitive(cc)
	fn := cc.StaticCallee()
	if fn == nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fn = mc.Fn.(*ssa.Function)
		}
	}
	if prim == "" && (fn == nil || !c.readers[fn] || c.wrapper(fn)) {
		return nil, false
	}
	if _, ok := in.(*ssa.Call); !ok {
		return nil, false
	}
	c.note(s)
	g, _ := globalNamed(c.u, "io.EOF")
	rs := cc.Signature().Results()
	set := func(o *pstate, err pval) {
		var vals []pval
		for i := 0; i < rs.Len(); i++ {
			if isError(rs.At(i).Type()) {
				vals = append(vals, err)
			} else {
				vals = append(vals, e.fresh(o, in.Value()))
			}
		}
		e.setResult(o, in, vals...)
	}
	if c.r != nil {
		c.r.Count("reads followed", 1)
	}
	var outs []*pstate
	add := func(last string, consumed bool, mk func(o *pstate) pval) {
		o := s.clone()
		set(o, mk(o))
		t := o.ts.(*eofTS)
		t.last, t.lastID = last, 0
		t.consumed = t.consumed || consumed
		if last == "tok" {
			if v := o.top().env[in.Value()]; v.k == pTuple && v.parts[0].k == pSym {
				t.lastID = v.parts[0].id
			}
		}
		outs = append(outs, o)
	}
	ok := func(o *pstate) pval { return pval{k: pNil} }
	eof := func(o *pstate) pval { return pval{k: pGlobal, g: g} }
	fail := func(o *pstate) pval {
		v := e.nonNil(o, in.Value())
		if g != nil {
			o.objs[v.id].ne = append(o.objs[v.id].ne, pval{k: pGlobal, g: g})
		}
		return v
	}
	if errResultIndex(cc.Signature()) < 0 {
		add("call", true, ok)
		return outs, true
	}
	if prim != "" {
		last := "call"
		if prim == "token" {
			last = "tok"
		}
		add(last, !c.isHeader(in), ok)
		if prim != "all" && g != nil {
			if c.isHeader(in) {
				add("header-eof", true, eof)
			} else {
				add("eof", false, eof)
			}
		}
		add("fail", false, fail)
		return outs, true
	}
	sm := c.summary(fn)
	t := s.ts.(*eofTS)
	if (t.last == "tok" && c.tokenIs(s, t.lastID, "StartElement") || c.sum[c.root].nested) && !sm.nested {
		sm.nested = true
		c.changed = true
	}
	// what was read there is complete
	add("call", false, ok)
	outs[0].ts.(*eofTS).start = true
	outs[0].ts.(*eofTS).consumed = false
	if sm.clean && g != nil {
		add("eof", false, eof)
	}
	if sm.dirty && g != nil {
		add("header-eof", true, eof)
	}
	add("fail", false, fail)
	return outs, true
}

func (c *eofCheck) summary(fn *ssa.Function) *eofSummary {
	if c.sum[fn] == nil {
		c.sum[fn] = &eofSummary{}
	}
	return c.sum[fn]
}

// wrapper: a helper without loops that only passes on what it reads is
// analysed with its callers.
func (c *eofCheck) wrapper(fn *ssa.Function) bool {
	if fn == c.root || fn.Parent() != nil && fn.Parent() != c.root {
		return false
	}
	if len(fn.Blocks) > 14 {
		return false
	}
	for _, b := range fn.Blocks {
		if inCycle(b) {
			return false
		}
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && c.primitive(ci.Common()) == "" {
				if g := ci.Common().StaticCallee(); g != nil && c.readers[g] {
					return false
				}
			}
		}
	}
	return true
}

func (c *eofCheck) ret(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
	if len(s.frames) != 1 {
		return
	}
	c.note(s)
	t := s.ts.(*eofTS)
	ei := errResultIndex(c.root.Signature)
	if ei < 0 {
		return
	}
	who := fnName(c.root)
	v := s.resolve(vals[ei])
	if c.r != nil {
		c.r.Count("ways out", 1)
	}
	if v.k == pGlobal && v.g.String() == "io.EOF" {
		sm := c.summary(c.root)
		if t.last != "eof" && t.last != "header-eof" {
			c.bad("clean-end-only-between-records", in, "%s: reports the clean end of the input although the last read did not", who)
		}
		if t.consumed || t.last == "header-eof" {
			if !sm.dirty {
				sm.dirty, c.changed = true, true
			}
			if c.exported(c.root) {
				c.bad("clean-end-only-between-records", in, "%s: the clean end of the input is reported although part of a record or the header was expected or already read", who)
			}
		} else if !sm.clean {
			sm.clean, c.changed = true, true
		}
		return
	}
	if s.isNil(v) == -1 {
		return
	}
	switch t.last {
	case "fail":
		if s.isNil(v) != -1 {
			c.bad("failure-is-no-end", in, "%s: a read that failed, as it does when the input ends inside a record, ends in success", who)
		}
	case "header-eof":
		c.bad("clean-end-only-between-records", in, "%s: succeeds although the input ended inside the header or a record", who)
	case "eof":
		c.eofOK = in
		if !t.start && fnPkg(c.root) == "rdf/rdfxml" {
			c.bad("document-has-an-element", in, "%s: succeeds at the end of the input although no element was read", who)
		}
	case "tok":
		if c.tokenIs(s, t.lastID, "EndElement") {
			c.endOK = in
		}
	}
}

func (c *eofCheck) exported(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil
}

func hasErrorParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isError(p.Type()) {
			return true
		}
	}
	for _, p := range fn.FreeVars {
		if isError(deref(p.Type())) {
			return true
		}
	}
	return false
}

func (c *eofCheck) analyse(fn *ssa.Function) (ok bool, states int) {
	c.root, c.endOK, c.eofOK = fn, nil, nil
	c.summary(fn)
	e := newPathEng(c.u, pclient{call: c.call, ret: c.ret, inline: func(g *ssa.Function) bool {
		return inRepo(g) && !c.u.Generated(g) && (c.readers[g] && c.wrapper(g) || hasErrorParam(g) && !c.readers[g] && len(g.Blocks) < 20)
	}})
	ok = e.run(fn, &eofTS{}, nil)
	return ok, e.states
}

func checkEOF(w *World, r *Report) {
	u := w.Host
	c := &eofCheck{u: u, readers: map[*ssa.Function]bool{}, sum: map[*ssa.Function]*eofSummary{}, seen: map[string]bool{}, header: map[ssa.CallInstruction]bool{}}
	direct := map[*ssa.Function]bool{}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && c.primitive(ci.Common()) != "" {
					direct[f] = true
				}
			}
		}
	}
	// readers: functions that read tokens, rows or records, directly or not
	for changed := true; changed; {
		changed = false
		for _, f := range u.Funcs {
			if c.readers[f] {
				continue
			}
			is := direct[f]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(*ssa.Call); ok {
						if g := ci.Call.StaticCallee(); g != nil && c.readers[g] {
							is = true
						}
					}
				}
			}
			if is {
				c.readers[f] = true
				changed = true
			}
		}
	}
	var fns []*ssa.Function
	for f := range c.readers {
		if errResultIndex(f.Signature) >= 0 && len(f.Blocks) > 0 && (f.Synthetic == "" || direct[f]) {
			fns = append(fns, f)
		} else if len(f.Blocks) == 0 || errResultIndex(f.Signature) < 0 {
			delete(c.readers, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for round := 0; round < 12; round++ {
		c.changed = false
		for _, f := range fns {
			c.analyse(f)
		}
		if !c.changed {
			break
		}
	}
	c.r = r
	for _, f := range fns {
		n := len(r.findings)
		ok, states := c.analyse(f)
		r.Count("functions that read input", 1)
		r.Count("abstract states", states)
		if !ok {
			r.Bad("undecided", fnName(f), u.Pos(f.Pos()), "the ways through this function could not be enumerated")
			continue
		}
		if c.eofOK != nil && (c.endOK != nil || c.sum[f].nested) {
			c.bad("end-of-element-required", c.eofOK, "%s: an element is taken to be complete although the input ended before its end tag", fnName(f))
		}
		if len(r.findings) == n {
			what := "the end of the input is an error"
			switch {
			case c.eofOK != nil:
				what = "the end of the input is a success, between records"
			case c.sum[f].clean:
				what = "the end of the input is passed on, between records"
			}
			r.OK("end-of-input", "%s: %s (%d abstract states)", fnName(f), what, states)
		}
	}
	checkLenient(u, r)
}

// checkLenient: settings that make a truncated record acceptable.
func checkLenient(u *Unit, r *Report) {
	n := 0
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					switch calleeName(ci.Common()) {
					case "encoding/xml.(Decoder).RawToken":
						r.Bad("strict-input", fnName(f), u.InstrPos(in), "raw tokens are read, which end cleanly inside an element")
					case "encoding/xml.NewDecoder", "encoding/csv.NewReader", "encoding/xml.NewTokenDecoder":
						n++
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name := fieldName(fa)
				k, isC := st.Val.(*ssa.Const)
				isBool := func(want bool) bool {
					return isC && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) == want
				}
				switch {
				case typeIs(deref(fa.X.Type()), "encoding/xml", "Decoder") && (name == "Strict" && !isBool(true) || name == "AutoClose" && !isNilConst(st.Val)):
					r.Bad("strict-input", fnName(f), u.InstrPos(in), "the XML decoder is told to accept elements that are not closed (%s)", name)
				case typeIs(deref(fa.X.Type()), "encoding/csv", "Reader") && name == "LazyQuotes" && !isBool(false):
					r.Bad("strict-input", fnName(f), u.InstrPos(in), "the CSV reader is told to accept quoted fields that are not closed")
				case typeIs(deref(fa.X.Type()), "encoding/csv", "Reader") && name == "FieldsPerRecord":
					if !isC || k.Value == nil || constant.Sign(k.Value) < 0 {
						r.Bad("strict-input", fnName(f), u.InstrPos(in), "the CSV reader is told to accept rows with missing fields, as a truncated file has")
					}
				}
			}
		}
	}
	r.OK("strict-input", "%d XML and CSV decoders are created and none is made lenient", n)
	r.Count("decoders created", n)
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}


func init() {
	register("E04", func(w *World, r *Report) {
		r.explanation = "Path-sensitive typestate analysis of every operation that reads tokens, rows, records or characters: what it does when the input ends or a read fails. Ways through each function are enumerated over the SSA with the outcomes success / end of input / failure for every read; helpers are inlined or represented by computed summaries, so every truncation point corresponds to an analysed way."
		checkEOF(w, r)
		checkSexpr(w, r, true)
	})
}
