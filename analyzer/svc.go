package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxCall is an instruction together with the frames that reach it from an RPC method.
type ctxInstr struct {
	in ssa.Instruction
	fr *frame
}

// reachedFrom lists instructions satisfying p in root and everything it calls
// statically inside package service, each with its calling frames.
func (u *Unit) reachedFrom(root *ssa.Function, p func(ssa.Instruction) bool) (out []ctxInstr) {
	var walk func(fn *ssa.Function, fr *frame, depth int)
	walk = func(fn *ssa.Function, fr *frame, depth int) {
		if depth > 6 {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if p(in) {
					out = append(out, ctxInstr{in, fr})
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					callee := c.Common().StaticCallee()
					if callee != nil && inRepo(callee) && fnPkg(callee) == fnPkg(root) && callee.Blocks != nil {
						rec := false
						for f := fr; f != nil; f = f.up {
							rec = rec || f.call.Common().StaticCallee() == callee
						}
						if !rec {
							walk(callee, &frame{c, fr}, depth+1)
						}
					}
				}
			}
		}
	}
	walk(root, nil, 0)
	return out
}

// frames from the root outwards-in: instruction at each level, root first.
func (c ctxInstr) chain() []ssa.Instruction {
	var out []ssa.Instruction
	out = append(out, c.in)
	for f := c.fr; f != nil; f = f.up {
		out = append([]ssa.Instruction{f.call.(ssa.Instruction)}, out...)
	}
	return out
}

func isJoin(n string) bool {
	return n == "path.Join" || n == "path/filepath.Join"
}

// pathParts flattens a path built with Join and Clean into its components.
func (u *Unit) pathParts(v fval, at *ssa.BasicBlock) (parts []fval, joined bool, ok bool) {
	w, wf := u.inFrameV(v.v, v.fr)
	c, isCall := w.(*ssa.Call)
	if isCall {
		switch n := calleeName(&c.Call); {
		case isJoin(n):
			els, ok := literalElems(c.Call.Args[0])
			if !ok {
				return nil, false, false
			}
			for _, e := range els {
				ps, _, ok := u.pathParts(fval{e, wf}, c.Block())
				if !ok {
					return nil, false, false
				}
				parts = append(parts, ps...)
			}
			return parts, true, true
		case n == "path.Clean" || n == "path/filepath.Clean" || n == "path/filepath.FromSlash" || n == "path/filepath.ToSlash":
			ps, j, ok := u.pathParts(fval{c.Call.Args[0], wf}, c.Block())
			return ps, j || strings.HasSuffix(n, "Clean"), ok
		}
	}
	os := u.origins(w, wf, at)
	if len(os) == 1 && (os[0].v != w) {
		if oc, ok := os[0].v.(*ssa.Call); ok && (isJoin(calleeName(&oc.Call)) || strings.HasSuffix(calleeName(&oc.Call), ".Clean")) {
			return u.pathParts(os[0], nil)
		}
	}
	return []fval{{w, wf}}, false, true
}

func (u *Unit) sameParts(a, b []fval) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !u.sameOrigin(a[i], b[i]) {
			return false
		}
	}
	return true
}

func strConst(v ssa.Value) (string, bool) {
	c, ok := strip(v).(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// strTest decomposes a condition into a test on a string: "abs", "empty",
// "equals", "prefix", "contains", "local".
func strTest(cond ssa.Value) (kind string, subject ssa.Value, arg ssa.Value, neg bool) {
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			// len(x) > 0, len(x) < 1
			return
		}
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		neg = x.Op == token.NEQ
		if s, ok := strConst(b); ok && isStringType(a.Type()) {
			if s == "" {
				return "empty", a, nil, neg
			}
			return "equals", a, b, neg
		}
		if c, ok := a.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" {
			if k, ok := b.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
				return "empty", c.Call.Args[0], nil, neg
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "path.IsAbs", "path/filepath.IsAbs":
			return "abs", x.Call.Args[0], nil, false
		case "strings.HasPrefix":
			return "prefix", x.Call.Args[0], x.Call.Args[1], false
		case "strings.Contains":
			return "contains", x.Call.Args[0], x.Call.Args[1], false
		case "path/filepath.IsLocal":
			return "local", x.Call.Args[0], nil, false
		}
	}
	return
}

func isWorkspace(u *Unit, v fval) string {
	for _, o := range u.origins(v.v, v.fr, nil) {
		switch x := o.v.(type) {
		case *ssa.Call:
			if strings.HasSuffix(calleeName(&x.Call), ".GetWorkspacePath") {
				continue
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				fv := fieldVar(fa.X.Type(), fa.Field)
				if n := namedOf(fa.X.Type()); n != nil && n.Obj().Pkg() != nil && isStringType(fv.Type()) {
					if rel, _ := relPkg(n.Obj().Pkg()); rel == "service" {
						continue // the service's own default
					}
					if fv.Name() == "WorkspacePath" {
						continue
					}
				}
			}
		}
		return "the directory it is joined to may be " + describe(u, o.v)
	}
	return ""
}

// nonEmptyValue: every value v can be is visibly not the empty string.
func (u *Unit) nonEmptyValue(v fval, at *ssa.BasicBlock) bool {
	for _, o := range u.origins(v.v, v.fr, at) {
		if s, ok := strConst(o.v); ok && s != "" {
			continue
		}
		if c, ok := o.v.(*ssa.Call); ok {
			if calleeName(&c.Call) == "fmt.Sprintf" {
				if s, ok := strConst(c.Call.Args[0]); ok {
					lit := s
					for _, q := range []string{"%s", "%q", "%v", "%d"} {
						lit = strings.ReplaceAll(lit, q, "")
					}
					if lit != "" {
						continue
					}
				}
			}
		}
		if b, ok := o.v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if s, ok := strConst(b.X); ok && s != "" {
				continue
			}
			if s, ok := strConst(b.Y); ok && s != "" {
				continue
			}
		}
		return false
	}
	return true
}

func checkWritePath(u *Unit, r *Report, root *ssa.Function, w ctxInstr) {
	c := w.in.(ssa.CallInstruction).Common()
	pos := u.InstrPos(w.in)
	key := fnName(root)
	os := u.origins(c.Args[1], w.fr, w.in.Block())
	r.Count("written paths", 1)
	if len(os) == 0 {
		r.Bad("path-joined", key, pos, "the path written to could not be resolved")
	}
	for _, o := range os {
		parts, joined, ok := u.pathParts(o, nil)
		in, isIn := o.v.(ssa.Instruction)
		if !ok || !joined || len(parts) < 2 || !isIn {
			r.Bad("path-joined", key, pos, "the path written to is not the workspace joined with the requested place, but %s", describe(u, o.v))
			continue
		}
		at, fr := in.Block(), o.fr
		why := isWorkspace(u, parts[0])
		r.Check(why == "", "inside-workspace", key, u.InstrPos(in), "the file may be written outside the workspace: %s", why)
		rest := parts[1:]
		for i, p := range rest {
			name := "part " + fmt.Sprint(i+1)
			if g := getterName(u, p); g != "" {
				name = g
			}
			if s, ok := strConst(p.v); ok && !strings.HasPrefix(s, "/") && !strings.Contains(s, "..") {
				continue
			}
			abs := u.established(at, fr, func(cond ssa.Value, val bool, f *frame) bool {
				k, s, a, neg := strTest(cond)
				if neg {
					val = !val
				}
				if s == nil || !u.sameOrigin(fval{s, f}, p) {
					return false
				}
				if k == "prefix" {
					pre, _ := strConst(a)
					return !val && pre == "/"
				}
				return k == "abs" && !val || k == "local" && val
			})
			r.Check(abs, "absolute-refused", key+"|"+name, u.InstrPos(in), "%s of the output path may be absolute when the file is written", name)
		}
		last := rest[len(rest)-1]
		empty := u.nonEmptyValue(last, nil) || u.established(at, fr, func(cond ssa.Value, val bool, f *frame) bool {
			k, s, _, neg := strTest(cond)
			if neg {
				val = !val
			}
			return k == "empty" && !val && u.sameOrigin(fval{s, f}, last)
		})
		r.Check(empty, "empty-name-refused", key, u.InstrPos(in), "the output file name may be empty when the file is written")
		// climbing
		test := func(want string) bool {
			return u.established(at, fr, func(cond ssa.Value, val bool, f *frame) bool {
				k, s, a, neg := strTest(cond)
				if neg {
					val = !val
				}
				if s == nil {
					return false
				}
				ps, j, ok := u.pathParts(fval{s, f}, nil)
				isRel := ok && j && u.sameParts(ps, rest) || u.relToWorkspace(fval{s, f}, parts)
				isFull := ok && j && u.sameParts(ps, parts)
				arg := ""
				if a != nil {
					arg, _ = strConst(a)
				}
				switch k {
				case "local":
					return val && ok && u.sameParts(ps, rest)
				case "prefix":
					if isRel && !val {
						return arg == ".." || arg == "../" && want == "prefix"
					}
					if isFull && val && a != nil {
						b, ok := strip(a).(*ssa.BinOp)
						if ok && b.Op == token.ADD {
							sl, _ := strConst(b.Y)
							wp, wj, wok := u.pathParts(fval{b.X, f}, nil)
							return sl == "/" && wok && wj && len(wp) == 1 && u.sameOrigin(wp[0], parts[0])
						}
					}
				case "equals":
					return want == "equals" && isRel && !val && arg == ".."
				}
				return false
			})
		}
		all := true
		for _, p := range rest { // a coarser test is safe too: no part contains ".." at all
			pp := p
			if !u.established(at, fr, func(cond ssa.Value, val bool, f *frame) bool {
				k, s, a, _ := strTest(cond)
				if k != "contains" || val {
					return false
				}
				arg, _ := strConst(a)
				return arg == ".." && u.sameOrigin(fval{s, f}, pp)
			}) {
				all = false
			}
		}
		r.Check(all || test("prefix") && test("equals"), "climbing-refused", key, u.InstrPos(in), "the output path may lead out of the workspace with \"..\": nothing on the way to this join refuses a cleaned relative path that is \"..\" or starts with \"../\"")
	}
}

// relToWorkspace: v is filepath.Rel(workspace, full).
func (u *Unit) relToWorkspace(v fval, parts []fval) bool {
	w, wf := u.inFrameV(v.v, v.fr)
	ex, ok := w.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || calleeName(&c.Call) != "path/filepath.Rel" {
		return false
	}
	ps, _, ok := u.pathParts(fval{c.Call.Args[1], wf}, nil)
	return ok && u.sameParts(ps, parts) && u.sameOrigin(fval{c.Call.Args[0], wf}, parts[0])
}

func getterName(u *Unit, v fval) string {
	for _, o := range u.origins(v.v, v.fr, nil) {
		if c, ok := o.v.(*ssa.Call); ok {
			n := calleeName(&c.Call)
			if i := strings.LastIndex(n, ".Get"); i >= 0 {
				return n[i+4:]
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- status codes

// statusLeaf is one place where the error an RPC returns is made.
type statusLeaf struct {
	code int64 // -1 unknown
	at   ssa.Instruction
	fr   *frame
	v    ssa.Value
	edge []Guard // outcomes that led to the choice of this code
}

func (u *Unit) leafEstablished(l statusLeaf, q func(cond ssa.Value, val bool, fr *frame) bool) bool {
	for _, g := range l.edge {
		if u.guardGives(g.Cond, g.Val, l.fr, q, 0) {
			return true
		}
	}
	return u.established(l.at.Block(), l.fr, q)
}

func (u *Unit) statusCodes(v ssa.Value, fr *frame, at *ssa.BasicBlock) (out []statusLeaf) {
	for _, o := range u.origins(v, fr, at) {
		if isNilConst(o.v) {
			continue
		}
		c, ok := o.v.(*ssa.Call)
		leaf := statusLeaf{code: -1, fr: o.fr, v: o.v}
		if ok {
			leaf.at = c
			switch calleeName(&c.Call) {
			case "google.golang.org/grpc.Errorf", "google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error":
				if k, ok := u.constInt(c.Call.Args[0], o.fr); ok {
					leaf.code = int64(k)
				} else {
					for _, co := range u.origins(c.Call.Args[0], o.fr, c.Block()) {
						l2 := leaf
						if cc, ok := co.v.(*ssa.Const); ok && cc.Value != nil {
							l2.code = cc.Int64()
						}
						l2.edge = chosenAt(c.Call.Args[0], co.v)
						out = append(out, l2)
					}
					continue
				}
			case "google.golang.org/grpc/status.(Status).Err":
				if nc, ok := strip(c.Call.Args[0]).(*ssa.Call); ok && (calleeName(&nc.Call) == "google.golang.org/grpc/status.New" || calleeName(&nc.Call) == "google.golang.org/grpc/status.Newf") {
					if k, ok := u.constInt(nc.Call.Args[0], o.fr); ok {
						leaf.code = int64(k)
					}
				}
			}
		}
		out = append(out, leaf)
	}
	return out
}

// chosenAt: the branch outcomes on the way to the merge v taking the value c.
func chosenAt(v, c ssa.Value) []Guard {
	p, ok := strip(v).(*ssa.Phi)
	if !ok {
		return nil
	}
	for i, e := range p.Edges {
		if e == c {
			return edgeGuards(p.Block(), i)
		}
		if q, ok := e.(*ssa.Phi); ok && q != p {
			if g := chosenAt(q, c); g != nil {
				return append(g, edgeGuards(p.Block(), i)...)
			}
		}
	}
	return nil
}

const (
	codeInvalid    = 3
	codeNotFound   = 5
	codePermission = 7
)

func isHandlerErr(u *Unit, h ctxInstr) fval {
	c := h.in.(*ssa.Call)
	if tup, ok := c.Type().(*types.Tuple); ok {
		for _, ref := range *c.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == tup.Len()-1 {
				return fval{ex, h.fr}
			}
		}
		return fval{nil, nil}
	}
	return fval{c, h.fr}
}

// rpcReturns visits the returns of an RPC, following "return helper(...)".
func (u *Unit) rpcReturns(fn *ssa.Function, fr *frame, visit func(ret *ssa.Return, fr *frame)) {
	for _, ret := range returnsOf(fn) {
		if len(ret.Results) == 2 {
			a, ok1 := ret.Results[0].(*ssa.Extract)
			b, ok2 := ret.Results[1].(*ssa.Extract)
			if ok1 && ok2 && a.Tuple == b.Tuple && a.Index == 0 && b.Index == 1 {
				if c, ok := a.Tuple.(*ssa.Call); ok && u.inlinable(c) {
					u.rpcReturns(c.Call.StaticCallee(), &frame{c, fr}, visit)
					continue
				}
			}
		}
		visit(ret, fr)
	}
}

// holdsErrTest: at instruction at (in frame fr), os.IsNotExist/IsPermission of e is known to be val.
func (u *Unit) holdsErrTest(l statusLeaf, e fval, fn, sentinel string, want bool) bool {
	return u.leafEstablished(l, func(cond ssa.Value, val bool, f *frame) bool {
		c, ok := cond.(*ssa.Call)
		if !ok || val != want {
			return false
		}
		switch n := calleeName(&c.Call); {
		case n == "os."+fn:
			return u.sameOrigin(fval{c.Call.Args[0], f}, e)
		case n == "errors.Is":
			g, ok := c.Call.Args[1].(*ssa.UnOp)
			if !ok {
				return false
			}
			gl, ok := g.X.(*ssa.Global)
			return ok && gl.Name() == sentinel && u.sameOrigin(fval{c.Call.Args[0], f}, e)
		}
		return false
	})
}

func checkStatus(u *Unit, r *Report) {
	roots := u.serviceRoots()
	r.Count("RPC methods", len(roots))
	r.Floor("RPC methods", 2)
	for _, root := range roots {
		u.rpcReturns(root, nil, func(ret *ssa.Return, fr *frame) {
			r.Count("RPC returns", 1)
			pos := u.InstrPos(ret)
			key := fnName(ret.Parent())
			if len(ret.Results) != 2 {
				r.Bad("answer-or-error", key, pos, "unexpected results")
				return
			}
			resp, err := ret.Results[0], ret.Results[1]
			rs := u.origins(resp, fr, ret.Block())
			hasNil, hasVal := false, false
			for _, o := range rs {
				if isNilConst(o.v) {
					hasNil = true
				} else {
					hasVal = true
				}
			}
			errNil := isNilConst(err) || nilAt(err, ret.Block())
			leaves := u.statusCodes(err, fr, ret.Block())
			switch {
			case errNil:
				r.Check(!hasNil && hasVal, "answer-or-error", key, pos, "a return without an error may also be without a response")
			default:
				mayNil := false
				for _, o := range u.origins(err, fr, ret.Block()) {
					if isNilConst(o.v) {
						mayNil = true
					}
				}
				r.Check(!hasVal, "answer-or-error", key, pos, "a return with an error may also carry a response")
				r.Check(!mayNil || nonNilAt(err, ret.Block()), "answer-or-error", key, pos, "a return may carry neither a response nor an error")
				for _, l := range leaves {
					r.Check(l.code > 0 && l.code <= 16, "status-error", key, pos, "the error returned is not a gRPC status error with a failure code: %s", describe(u, l.v))
				}
			}
		})
		// handler failures keep their kind
		hs := u.reachedFrom(root, func(in ssa.Instruction) bool {
			_, isCall := in.(*ssa.Call)
			return isCall && handlerCall(in) != ""
		})
		for _, h := range hs {
			r.Count("handler calls", 1)
			e := isHandlerErr(u, h)
			if e.v == nil {
				r.Bad("failure-kind", fnName(h.in.Parent()), u.InstrPos(h.in), "the failure of the host's handler is ignored")
				continue
			}
			n := 0
			u.rpcReturns(root, nil, func(ret *ssa.Return, fr *frame) {
				if len(ret.Results) != 2 {
					return
				}
				for _, l := range u.statusCodes(ret.Results[1], fr, ret.Block()) {
					if l.at == nil {
						continue
					}
					// is this leaf made where the handler is known to have failed?
					failed := u.leafEstablished(l, func(cond ssa.Value, val bool, f *frame) bool {
						bo, ok := cond.(*ssa.BinOp)
						if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || (bo.Op == token.NEQ) != val || !isNilConst(bo.Y) {
							return false
						}
						return u.sameOrigin(fval{bo.X, f}, e)
					})
					if !failed {
						continue
					}
					n++
					key := fnName(root) + "|" + handlerCall(h.in)
					pos := u.InstrPos(l.at)
					switch l.code {
					case codeNotFound:
						r.Check(u.holdsErrTest(l, e, "IsNotExist", "ErrNotExist", true), "failure-kind", key, pos, "not-found is reported for a failure that is not a missing file")
					case codePermission:
						r.Check(u.holdsErrTest(l, e, "IsPermission", "ErrPermission", true), "failure-kind", key, pos, "permission-denied is reported for a failure that is not a forbidden file")
					default:
						r.Check(u.holdsErrTest(l, e, "IsNotExist", "ErrNotExist", false), "failure-kind", key, pos, "a missing file may be reported with code %d instead of not-found", l.code)
						r.Check(u.holdsErrTest(l, e, "IsPermission", "ErrPermission", false), "failure-kind", key, pos, "a forbidden file may be reported with code %d instead of permission-denied", l.code)
					}
				}
			})
			r.Check(n > 0, "failure-reported", fnName(root)+"|"+handlerCall(h.in), u.InstrPos(h.in), "no status error is returned where the host's %s handler has failed", handlerCall(h.in))
			bad := errFlow(u, h.in.(*ssa.Call))
			r.Check(bad == "", "failure-reported", fnName(h.in.Parent())+"|"+handlerCall(h.in), u.InstrPos(h.in), "a failure of the host's %s handler does not reach the caller: %s", handlerCall(h.in), bad)
			// and that of every function between
			for f := h.fr; f != nil; f = f.up {
				if c, ok := f.call.(*ssa.Call); ok {
					bad := errFlow(u, c)
					r.Check(bad == "", "failure-reported", fnName(c.Parent()), u.InstrPos(c), "a failure of the host's handler does not reach the caller: %s", bad)
				}
			}
		}
	}
	r.Floor("RPC returns", 8)
	r.Floor("handler calls", 2)
}

// ---------------------------------------------------------------- answers

func checkAnswers(u *Unit, r *Report) {
	respFile := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Name() == "GenerateCodeResponse_File"
	}
	for _, root := range u.serviceRoots() {
		ws := u.reachedFrom(root, func(in ssa.Instruction) bool { return handlerCall(in) == "write" })
		fs := u.reachedFrom(root, func(in ssa.Instruction) bool {
			a, ok := in.(*ssa.Alloc)
			return ok && respFile(a.Type()) && a.Heap
		})
		r.Count("write calls", len(ws))
		r.Count("reported files", len(fs))
		type file struct {
			ctxInstr
			content, rel []fval
		}
		var files []file
		for _, f := range fs {
			st := namedOf(f.in.(*ssa.Alloc).Type()).Underlying().(*types.Struct)
			x := file{ctxInstr: f}
			for i := 0; i < st.NumFields(); i++ {
				vs, _ := u.allocField(f.in.(*ssa.Alloc), i, f.fr)
				switch st.Field(i).Name() {
				case "NewContents":
					x.content = vs
				case "WorkspaceRelativePath":
					x.rel = vs
				}
			}
			files = append(files, x)
		}
		one := func(vs []fval, at *ssa.BasicBlock) (fval, bool) {
			var all []fval
			for _, v := range vs {
				all = append(all, u.origins(v.v, v.fr, at)...)
			}
			if len(all) != 1 {
				return fval{}, false
			}
			return all[0], true
		}
		used := map[int]bool{}
		for _, w := range ws {
			c := w.in.(ssa.CallInstruction).Common()
			pos := u.InstrPos(w.in)
			key := fnName(root)
			wc, ok := one([]fval{{c.Args[2], w.fr}}, w.in.Block())
			if !ok {
				r.Bad("write-reported", key, pos, "the contents written could not be resolved")
				continue
			}
			wp, ok := one([]fval{{c.Args[1], w.fr}}, w.in.Block())
			if !ok {
				r.Bad("write-reported", key, pos, "the path written to could not be resolved")
				continue
			}
			wparts, _, _ := u.pathParts(wp, nil)
			found := -1
			near := ""
			for i, f := range files {
				if !shareContext(w, f.ctxInstr) {
					continue
				}
				fc, ok1 := one(f.content, f.in.Block())
				fp, ok2 := one(f.rel, f.in.Block())
				if !ok1 || !ok2 {
					near = "the reported contents or place could not be resolved"
					continue
				}
				sameC := u.sameOrigin(wc, fc)
				fparts, _, _ := u.pathParts(fp, nil)
				sameP := len(wparts) > 1 && u.sameParts(wparts[1:], fparts)
				if sameC && sameP {
					found = i
					break
				}
				if sameC {
					near = "the place reported is not where the file was written"
				} else if sameP {
					near = "the contents reported are not what was written"
				}
			}
			if found < 0 {
				r.Bad("write-reported", key, pos, "the file written here is not reported in the response with the same contents and place: %s", near)
				continue
			}
			used[found] = true
			r.OK("write-reported", "%s %s", key, pos)
			u.checkWrittenFirst(r, root, w, files[found].ctxInstr)
			// the reported file reaches the field of the response it belongs to
			u.checkReportedField(r, root, w, files[found].ctxInstr, wp, wc)
		}
		for i, f := range files {
			r.Check(used[i], "report-written", fnName(root), u.InstrPos(f.in), "the response reports a file that was not written with these contents at this place")
		}
		// a refused request writes nothing
		for _, w := range ws {
			ch := w.chain()
			bad := ""
			for lvl, in := range ch {
				var lf *frame
				// the frame of level lvl
				k := len(ch) - 1 - lvl
				lf = w.fr
				for j := 0; j < k && lf != nil; j++ {
					lf = lf.up
				}
				if k == 0 {
					lf = w.fr
				}
				for _, ret := range returnsOf(in.Parent()) {
					ei := errResultIndex(in.Parent().Signature)
					if ei < 0 || !canReach(in, ret) {
						continue
					}
					for _, l := range u.statusCodes(ret.Results[ei], lf, ret.Block()) {
						through := false
						for f := l.fr; f != nil; f = f.up {
							through = through || f.call == in
						}
						if l.code == codeInvalid && !through && reachLeaf(in, l, ret) {
							bad = u.InstrPos(ret)
						}
					}
				}
			}
			r.Check(bad == "", "refused-before-writing", fnName(root), u.InstrPos(w.in), "the request may still be refused as invalid at %s after this file was written", bad)
		}
	}
	r.Floor("write calls", 1)
	r.Floor("reported files", 1)
}

// reachLeaf: the status was made after in, when both are in one function.
func reachLeaf(in ssa.Instruction, l statusLeaf, ret *ssa.Return) bool {
	if l.at != nil && l.at.Parent() == in.Parent() {
		return canReach(in, l.at)
	}
	return true
}

// shareContext: the write and the report happen under the same outermost call.
func shareContext(a, b ctxInstr) bool {
	ca, cb := a.chain(), b.chain()
	// when one passes through a helper called several times, the call sites must agree
	for i := 0; i < len(ca)-1 && i < len(cb)-1; i++ {
		if ca[i] != cb[i] {
			if ci, ok := ca[i].(ssa.CallInstruction); ok {
				if cj, ok := cb[i].(ssa.CallInstruction); ok && ci.Common().StaticCallee() == cj.Common().StaticCallee() {
					return false
				}
			}
			return true
		}
	}
	return true
}

// common level of two chains: the first position where they differ.
func split(a, b ctxInstr) (x, y ssa.Instruction) {
	ca, cb := a.chain(), b.chain()
	i := 0
	for i < len(ca)-1 && i < len(cb)-1 && ca[i] == cb[i] {
		i++
	}
	return ca[i], cb[i]
}

func (u *Unit) checkWrittenFirst(r *Report, root *ssa.Function, w, f ctxInstr) {
	x, y := split(w, f)
	ok := false
	if x.Parent() == y.Parent() {
		errOK := false
		if c, isC := x.(*ssa.Call); isC {
			errOK = errFlow(u, c) == ""
		}
		switch {
		case dominatesInstr(x, y):
			ok = errOK
		default:
			// reported only together with a write that follows
			ok = errOK
			for _, ret := range returnsOf(x.Parent()) {
				if isNilConst(ret.Results[0]) {
					continue
				}
				if canReach(y, ret) && !canReach(y, x) {
					ok = false
				} else if canReach(y, ret) && reachAvoiding(y.Block(), x.Block(), ret.Block()) {
					ok = false
				}
			}
		}
	} else if x == y {
		ok = true
	}
	r.Check(ok, "report-after-write", fnName(root), u.InstrPos(f.in), "the file may be reported although it was not written successfully")
}

func reachAvoiding(from, avoid, to *ssa.BasicBlock) bool {
	if from == avoid || to == avoid {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == to {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

// checkReportedField: on every successful return the write leads to, the response
// field of the file's kind holds the reported file.
func (u *Unit) checkReportedField(r *Report, root *ssa.Function, w, f ctxInstr, path, content fval) {
	// which kind of file: by the part of the request its place comes from
	kind := ""
	isGetter := func(n string) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(&c.Call), "."+n)
		}
	}
	parts, _, _ := u.pathParts(path, nil)
	if len(parts) < 2 {
		return
	}
	has := func(n string) bool {
		for _, p := range parts[1:] {
			if u.originDepends(p, isGetter(n)) {
				return true
			}
		}
		return false
	}
	p, g := has("GetProtoDefinition"), has("GetConverter")
	switch {
	case p && !g:
		kind = "ProtoFile"
	case g && !p:
		kind = "ConverterGoFile"
	default:
		r.Bad("right-place", fnName(root), u.InstrPos(w.in), "the place of this file does not come from exactly one of the request's output specifications")
		return
	}
	// contents of the right kind
	if ex, ok := content.v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeName(&c.Call), "csvtoproto.GenerateCode") {
			want := map[string]int{"ProtoFile": 0, "ConverterGoFile": 1}[kind]
			r.Check(ex.Index == want, "right-contents", fnName(root), u.InstrPos(w.in), "the %s is written with the other file's contents", kind)
		}
	}
	n := 0
	u.rpcReturns(root, nil, func(ret *ssa.Return, fr *frame) {
		if len(ret.Results) != 2 || !isNilConst(ret.Results[1]) && !nilAt(ret.Results[1], ret.Block()) {
			return
		}
		for _, o := range u.origins(ret.Results[0], fr, ret.Block()) {
			al, ok := o.v.(*ssa.Alloc)
			if !ok {
				continue
			}
			st, ok := deref(al.Type()).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if namedOf(st.Field(i).Type()) == nil || namedOf(st.Field(i).Type()).Obj().Name() != "GenerateCodeResponse_File" {
					continue
				}
				vs, _ := u.allocField(al, i, o.fr)
				holds := false
				always := true
				for _, v := range vs {
					for _, x := range u.origins(v.v, v.fr, nil) {
						if x.v == ssa.Value(f.in.(*ssa.Alloc)) && frameEq(x.fr, f.fr) {
							holds = true
						}
					}
					if !u.carriedAfter(v, w, f) {
						always = false
					}
				}
				if st.Field(i).Name() == kind {
					n++
					r.Check(holds && always, "report-returned", fnName(root)+"|"+kind, u.InstrPos(ret), "the file written at %s may be missing from %s of the successful response", u.InstrPos(w.in), kind)
				} else {
					r.Check(!holds, "report-returned", fnName(root)+"|"+st.Field(i).Name(), u.InstrPos(ret), "%s reports the file that belongs to %s", st.Field(i).Name(), kind)
				}
			}
		}
	})
	r.Check(n > 0, "report-returned", fnName(root)+"|"+kind, u.InstrPos(w.in), "no successful response holds the file written here")
}

// carriedAfter: where v merges several values, the ones coming from after the write are the report.
func (u *Unit) carriedAfter(v fval, w, f ctxInstr) bool {
	ph, ok := strip(v.v).(*ssa.Phi)
	if !ok {
		return true
	}
	var x ssa.Instruction
	for _, in := range w.chain() {
		if in.Parent() == ph.Parent() {
			x = in
		}
	}
	if x == nil {
		return true
	}
	for i, e := range ph.Edges {
		pb := ph.Block().Preds[i]
		if pb != x.Block() && !reach(x.Block(), false)[pb] {
			continue
		}
		if c, ok := x.(*ssa.Call); ok {
			if ev := errValue(c); ev != nil && nonNilAt(ev, pb) {
				continue
			}
		}
		good := false
		for _, o := range u.origins(e, v.fr, nil) {
			if o.v == ssa.Value(f.in.(*ssa.Alloc)) {
				good = true
			} else if isNilConst(o.v) {
				good = false
				break
			}
		}
		if q, ok := e.(*ssa.Phi); ok && !good {
			good = u.carriedAfter(fval{q, v.fr}, w, f)
		}
		if !good {
			return false
		}
	}
	return true
}

func errValue(c *ssa.Call) ssa.Value {
	if isError(c.Type()) {
		return c
	}
	if t, ok := c.Type().(*types.Tuple); ok {
		for _, ref := range *c.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && isError(t.At(ex.Index).Type()) {
				return ex
			}
		}
	}
	return nil
}

// originDepends: some part of the expression v denotes satisfies p.
func (u *Unit) originDepends(v fval, p func(ssa.Value) bool) bool {
	seen := map[fval]bool{}
	var walk func(v fval, d int) bool
	walk = func(v fval, d int) bool {
		if d > 20 {
			return false
		}
		for _, o := range u.origins(v.v, v.fr, nil) {
			if seen[o] {
				continue
			}
			seen[o] = true
			if p(o.v) {
				return true
			}
			in, ok := o.v.(ssa.Instruction)
			if !ok {
				continue
			}
			var ops [8]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if op == nil || *op == nil {
					continue
				}
				if els, ok := literalElems(*op); ok {
					for _, e := range els {
						if walk(fval{e, o.fr}, d+1) {
							return true
						}
					}
					continue
				}
				if walk(fval{*op, o.fr}, d+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

func init() {
	register("S02", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Provenance and guard rule over SSA: for every call of the host's writer reachable from an RPC method, the path is resolved through helpers to the Join that builds it; its first part must be the request's (or the service's default) workspace, and on every path to that Join each further part is known not to be absolute, the name not to be empty, and the cleaned relative path neither \"..\" nor below \"../\"."
		r.assumptions = []string{"path.Join and path.Clean behave as documented; symbolic links inside the workspace are the host's business."}
		for _, root := range u.serviceRoots() {
			for _, x := range u.reachedFrom(root, func(in ssa.Instruction) bool { return handlerCall(in) == "write" }) {
				checkWritePath(u, r, root, x)
			}
		}
		r.Floor("written paths", 1)
	})
	register("S03", func(w *World, r *Report) {
		u := w.Host
		r.explanation = "Value-identity rule over SSA: every call of the host's writer reachable from an RPC method is paired with the file object of the response that has the same contents value and the same path parts below the workspace; the pairing is one to one; the file object reaches the response field of its kind on every successful return after the write; the write's failure never reaches a successful return; and no return with code InvalidArgument is reachable after a write."
		checkAnswers(u, r)
	})
	register("S04", func(w *World, r *Report) {
		r.explanation = "Return-shape rule over SSA: every return of an RPC method carries either a non-nil response and a nil error or a nil response and a gRPC status error made with a constant failure code; the status made where a handler call has failed is NotFound exactly under os.IsNotExist of that error and PermissionDenied exactly under os.IsPermission; and the error of every handler call reaches the caller on every path."
		checkStatus(w.Host, r)
	})
}
