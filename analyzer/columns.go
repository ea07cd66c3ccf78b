package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G03: every mapped column has its field in the generated code.

const mappingPkg = "proto/recordtoproto"

// mappingPart: v is a field of a column mapping or field definition.
func mappingPart(v ssa.Value) (typ, part string) {
	named := func(t types.Type) string {
		n := namedOf(deref(t))
		if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), mappingPkg) {
			return ""
		}
		return n.Obj().Name()
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if n := named(fa.X.Type()); n != "" {
				return n, fieldNameOf(fa)
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) == 1 && strings.HasPrefix(f.Name(), "Get") {
			if n := named(x.Call.Args[0].Type()); n != "" {
				return n, f.Name()[3:]
			}
		}
	}
	return "", ""
}

// listOf: v is an element of a list of column mappings or field definitions.
func listOf(t types.Type) string {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	n := namedOf(deref(sl.Elem()))
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), mappingPkg) {
		return ""
	}
	if s := n.Obj().Name(); s == "ColumnToFieldMapping" || s == "FieldDefinition" {
		return s
	}
	return ""
}

func isIgnored(cond ssa.Value, want bool) func(ssa.Value, bool, *frame) bool {
	return func(c ssa.Value, val bool, _ *frame) bool {
		_, p := mappingPart(c)
		return p == "Ignored" && val == want
	}
}

// emptyText: the outcome says that the text is empty.
func emptyText(c ssa.Value, val bool, of func(ssa.Value) bool) bool {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	if call, ok := x.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && k.Value.ExactString() == "0" {
			// len(s) == 0, or not: len(s) != 0, len(s) > 0, 0 < len(s)
			return of(call.Call.Args[0]) && (b.Op == token.EQL && val || !val && (b.Op == token.NEQ || b.Op == token.GTR && x == b.X || b.Op == token.LSS && x == b.Y))
		}
	}
	if b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	return k.Value.ExactString() == `""` && of(x) && (b.Op == token.EQL) == val
}

func init() {
	register("G03", func(w *World, r *Report) {
		u := w.Host
		z := newPZ(u, newReport("G03"), "G03", u.entryPoints("csvtoproto", "service"))
		t := &cellTracer{u: u, z: z, stores: map[string][]*ssa.Store{}, stop: func(v ssa.Value) bool { _, p := mappingPart(v); return p != "" }}
		var fns []*ssa.Function
		for _, fn := range u.LibFuncs() {
			if strings.HasSuffix(fnPkg(fn), "csvtoproto") {
				fns = append(fns, fn)
				r.Count("functions", 1)
			}
		}
		each := func(f func(fn *ssa.Function, in ssa.Instruction)) {
			for _, fn := range fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						f(fn, in)
					}
				}
			}
		}
		each(func(fn *ssa.Function, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					k := fieldKey(fa)
					t.stores[k] = append(t.stores[k], s)
				}
			}
		})
		filtered := false // a list of the columns that are not ignored is made first
		type add struct {
			call   *ssa.Call
			direct bool
		}
		var adds []add
		loops := 0
		each(func(fn *ssa.Function, in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			kind := listOf(ia.X.Type())
			if kind == "" {
				return
			}
			body := sccOf(ia.Block())
			if body == nil {
				if _, ok := ia.X.(*ssa.Alloc); !ok {
					r.Check(false, "each-column", fnName(fn), u.InstrPos(in), "one element of a list of %ss is used, whatever the others are", kind)
				}
				return
			}
			loops++
			r.Count("loops over columns", 1)
			// from the first to the last
			why := "it does not count from the first to the last"
			tm, k := z.lin(ia.Index)
			if phi, ok := tm.v.(*ssa.Phi); ok {
				first, step := false, false
				for _, e := range phi.Edges {
					et, ek := z.lin(e)
					first = first || et.k == 'z' && ek+k == 0
					step = step || et.v == ssa.Value(phi) && ek == 1
				}
				bound := false
				for _, g := range guardsOf(ia.Block()) {
					b, ok := g.Cond.(*ssa.BinOp)
					if !ok {
						continue
					}
					x, y, op, val := b.X, b.Y, b.Op, g.Val
					if op == token.GTR || op == token.LEQ {
						x, y = y, x
						op = map[token.Token]token.Token{token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
					}
					xt, xk := z.lin(x)
					yt, yk := z.lin(y)
					lt, lk := z.length(ia.X)
					if xt == tm && xk == k && yt == lt && yk == lk && (op == token.LSS && val || op == token.GEQ && !val || op == token.NEQ && val) {
						bound = true
					}
				}
				if first && step && bound {
					why = ""
				}
			}
			if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				why = "only a part of the list is used"
			}
			r.Check(why == "", "each-column", fnName(fn), u.InstrPos(in), "not every %s is used: %s", kind, why)
			// what is made of each
			el := ssa.Value(nil)
			for _, ref := range *ia.Referrers() {
				if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
					el = ld
				}
			}
			direct := false
			for _, l := range t.leaves(ia.X) {
				_, p := mappingPart(l.v)
				direct = direct || p == "ColumnToFieldMappings"
			}
			for b := range body {
				for _, k := range b.Instrs {
					call, ok := k.(*ssa.Call)
					if !ok {
						continue
					}
					bi, ok := call.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "append" || len(call.Call.Args) != 2 {
						continue
					}
					// what is added, and nothing else, may be empty
					added := call.Call.Args[1]
					var els []ssa.Value
					if es, ok := literalElems(added); ok {
						els = es
					}
					own := func(v ssa.Value) bool {
						for _, e := range append(els, added) {
							if e == nil {
								continue
							}
							if z.norm(e) == z.norm(v) || sameFieldLoad(e, v) {
								return true
							}
							te, pe := mappingPart(e)
							tv, pv := mappingPart(v)
							if pe != "" && te == tv && pe == pv {
								return true
							}
						}
						return false
					}
					skip := func(c ssa.Value, val bool, fr *frame) bool {
						return isIgnored(nil, true)(c, val, fr) || emptyText(c, val, own)
					}
					why, _ := eachTurn(z, call, skip)
					r.Check(why == "", "each-column", fnName(fn), u.InstrPos(call), "a %s may be left out: %s", kind, why)
					if kind == "ColumnToFieldMapping" {
						adds = append(adds, add{call, direct})
						if el != nil {
							for _, e := range els {
								if z.norm(e) == z.norm(el) && u.established(b, nil, isIgnored(nil, false)) {
									filtered = true
								}
							}
						}
					}
				}
			}
		})
		for _, a := range adds {
			ok := u.established(a.call.Block(), nil, isIgnored(nil, false)) || filtered && !a.direct
			r.Check(ok, "ignored-column", fnName(a.call.Parent()), u.InstrPos(a.call), "a column marked as ignored may get a field")
		}
		// the extra fields
		extras := false
		isExtra := func(v ssa.Value) bool { _, p := mappingPart(v); return p == "ExtraFieldDefinitions" }
		each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				for _, l := range t.leaves(x.X) {
					extras = extras || isExtra(l.v)
				}
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || len(x.Call.Args) != 2 || !isExtra(x.Call.Args[1]) {
					return
				}
				always := true
				for _, ret := range returnsOf(fn) {
					last := ret.Results
					if len(last) > 0 && isError(last[len(last)-1].Type()) && z.nonNil(last[len(last)-1], ret.Block(), 4) {
						continue
					}
					always = always && x.Block().Dominates(ret.Block())
				}
				for _, g := range guardsOf(x.Block()) {
					always = always || emptyText(g.Cond, !g.Val, isExtra)
				}
				extras = extras || always
			}
		})
		r.Check(extras, "extra-fields", "csvtoproto", "csvtoproto", "the extra field definitions of a mapping may be left out")
		r.Check(loops >= 2, "each-column", "csvtoproto", "csvtoproto", "the columns are not gone through")
		each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				// a definition made of a column takes each part from the part of that name
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				n := namedOf(deref(fa.X.Type()))
				if n == nil || n.Obj().Name() != "FieldDefinition" || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), mappingPkg) {
					return
				}
				part := fieldNameOf(fa)
				switch part {
				case "ProtoName", "ProtoTag", "ProtoType", "ProtoImports":
				default:
					return
				}
				r.Count("parts of definitions", 1)
				why := ""
				for _, l := range t.leaves(x.Val) {
					if _, p := mappingPart(l.v); p != part {
						why = whatIs(l.v)
						if p != "" {
							why = "its " + p
						}
					}
				}
				r.Check(why == "", "same-part", fnName(fn), u.InstrPos(in), "the %s of a field is not that of its column: %s", part, why)
			case *ssa.Call:
				// the tag that binds a field of the record to its column
				if calleeName(&x.Call) != "fmt.Sprintf" || len(x.Call.Args) != 2 {
					return
				}
				format, ok := u.constStr(x.Call.Args[0], nil)
				if !ok || !strings.Contains(format, "csv:%") {
					return
				}
				els, ok := literalElems(x.Call.Args[1])
				n := strings.Count(strings.ReplaceAll(format[:strings.Index(format, "csv:%")], "%%", ""), "%")
				if !ok || n >= len(els) {
					return
				}
				r.Count("column tags", 1)
				why := ""
				for _, l := range t.leaves(els[n]) {
					if _, p := mappingPart(l.v); p != "ColName" {
						why = whatIs(l.v)
					}
				}
				r.Check(why == "", "column-tag", fnName(fn), u.InstrPos(in), "a field of the record is not bound to the very name of its column: %s", why)
			}
		})
	})
}

// sameLoad: two loads of one field of one value.
func sameFieldLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && f.X == g.X
}
