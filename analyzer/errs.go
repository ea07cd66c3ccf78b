package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error discipline. For one error value e, every path that starts where e is
// produced is followed under the assumption that e is non-nil, until e (or an
// error that carries it, or another certain failure) is returned, given to the
// caller in another way, or the process ends with a failure. A path that reaches
// a successful return, or goes round the loop, without that is a violation.

type errWalk struct {
	u       *Unit
	fn      *ssa.Function
	strict  bool // main programs: only a failing exit counts
	src     ssa.Instruction
	vals    []ssa.Value
	visited map[string]bool
	bad     string
	steps   int
	exits   func(c *ssa.CallCommon) bool // calls that end the process with a failure
}

type errState struct {
	carriers map[ssa.Value]bool // values that carry e: errors certainly non-nil, and things made from it
	cells    map[*ssa.Alloc]bool
	consumed bool // handed to some call or memory
	listed   bool // put in a list, sent, stored outside the function, or given to a function that reports no error itself
}

func (s *errState) clone() *errState {
	n := &errState{carriers: map[ssa.Value]bool{}, cells: map[*ssa.Alloc]bool{}, consumed: s.consumed, listed: s.listed}
	for k := range s.carriers {
		n.carriers[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	return n
}

func (s *errState) key() string {
	var ks []string
	for k := range s.carriers {
		ks = append(ks, k.Name())
	}
	for k := range s.cells {
		ks = append(ks, "&"+k.Name())
	}
	sort.Strings(ks)
	return fmt.Sprint(s.consumed, s.listed, ks)
}

// errFlow examines the error result of a call. "" means it is dealt with.
func errFlow(u *Unit, c *ssa.Call) string { return errFlowMode(u, c, false, nil) }

func errFlowMode(u *Unit, c *ssa.Call, strict bool, exits func(*ssa.CallCommon) bool) string {
	sig := c.Call.Signature()
	ei := errResultIndex(sig)
	if ei < 0 {
		return ""
	}
	var vals []ssa.Value
	if sig.Results().Len() == 1 {
		vals = append(vals, c)
	} else {
		for _, r := range *c.Referrers() {
			switch x := r.(type) {
			case *ssa.Extract:
				if x.Index == ei {
					vals = append(vals, x)
				}
			case *ssa.Return:
				return "" // return f() of several results
			}
		}
	}
	used := false
	for _, v := range vals {
		if len(*v.Referrers()) > 0 {
			used = true
		}
	}
	if !used {
		return "its error is discarded"
	}
	w := &errWalk{u: u, fn: c.Parent(), strict: strict, src: c, visited: map[string]bool{}, exits: exits, vals: vals}
	st := &errState{carriers: map[ssa.Value]bool{}, cells: map[*ssa.Alloc]bool{}}
	for _, v := range vals {
		st.carriers[v] = true
	}
	if sig.Results().Len() > 1 {
		// return f() forwards the tuple
		st.carriers[c] = true
	}
	w.walk(c.Block(), instrIndex(c)+1, nil, st)
	return w.bad
}

// errParamFlow examines an error parameter.
func errParamFlow(u *Unit, p *ssa.Parameter) string {
	w := &errWalk{u: u, fn: p.Parent(), visited: map[string]bool{}}
	st := &errState{carriers: map[ssa.Value]bool{p: true}, cells: map[*ssa.Alloc]bool{}}
	w.walk(p.Parent().Blocks[0], 0, nil, st)
	return w.bad
}

func isGlogExit(c *ssa.CallCommon) bool {
	n := calleeName(c)
	if strings.HasPrefix(n, "github.com/golang/glog.Exit") || strings.HasPrefix(n, "github.com/golang/glog.Fatal") {
		return true
	}
	if strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || strings.HasPrefix(n, "log.(Logger).Fatal") || strings.HasPrefix(n, "log.(Logger).Panic") {
		return true
	}
	if n == "os.Exit" || n == "syscall.Exit" {
		k, ok := c.Args[0].(*ssa.Const)
		return !ok || k.Value == nil || constant.Sign(k.Value) != 0
	}
	return false
}

// alwaysFails: a repository function that never returns normally or always ends the process with failure.
func (u *Unit) alwaysExits(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || !inRepo(fn) {
		return false
	}
	// every path from entry meets a failing exit or a panic
	seen := map[*ssa.BasicBlock]bool{}
	var ok func(b *ssa.BasicBlock) bool
	ok = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Call:
				if isGlogExit(&x.Call) {
					return true
				}
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if !ok(s) {
				return false
			}
		}
		return true
	}
	return ok(fn.Blocks[0])
}

func isLogCall(n string) bool {
	return strings.HasPrefix(n, "github.com/golang/glog.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") ||
		strings.HasPrefix(n, "builtin.print")
}

func pureFormat(n string) bool {
	return strings.HasPrefix(n, "fmt.Sprint") || n == "(error).Error" || n == ".Error" || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.")
}

func (w *errWalk) fail(format string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (w *errWalk) carries(st *errState, v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		if st.carriers[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func (w *errWalk) walk(b *ssa.BasicBlock, from int, pred *ssa.BasicBlock, st *errState) {
	if w.bad != "" {
		return
	}
	w.steps++
	if w.steps > 60000 {
		w.fail("undecided: too many paths")
		return
	}
	if from == 0 {
		// phis
		idx := -1
		for i, p := range b.Preds {
			if p == pred {
				idx = i
			}
		}
		var add, del []ssa.Value
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if idx >= 0 && w.carries(st, p.Edges[idx]) {
				add = append(add, p)
			} else {
				del = append(del, p)
			}
		}
		if len(add)+len(del) > 0 {
			st = st.clone()
			for _, d := range del {
				delete(st.carriers, d)
			}
			for _, a := range add {
				st.carriers[a] = true
			}
		}
		pi := -1
		if pred != nil {
			pi = pred.Index
		}
		k := fmt.Sprintf("%d/%d/%s", b.Index, pi, st.key())
		if w.visited[k] {
			return
		}
		w.visited[k] = true
	} else {
		st = st.clone()
	}
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == w.src {
			if st.listed {
				return
			}
			// only what is kept across iterations still carries the failure
			n := &errState{carriers: map[ssa.Value]bool{}, cells: st.cells, consumed: st.consumed}
			for v := range st.carriers {
				if p, ok := v.(*ssa.Phi); ok && p.Block().Dominates(b) {
					n.carriers[v] = true
				}
			}
			if len(n.carriers) == 0 && len(n.cells) == 0 && !st.consumed {
				w.fail("after it fails, the loop at %s goes on as if it had succeeded", w.u.InstrPos(in))
				return
			}
			st = n
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.Call:
			if w.call(x, st) {
				return
			}
		case *ssa.Defer, *ssa.Go:
			c := in.(ssa.CallInstruction).Common()
			for _, a := range c.Args {
				if w.carries(st, a) {
					st.consumed = true
				}
			}
		case *ssa.Store:
			cell := cellOf(x.Addr)
			if cell != nil && cell.Parent() == w.fn {
				if w.carries(st, x.Val) {
					st.cells[cell] = true
				} else {
					delete(st.cells, cell)
				}
				break
			}
			if w.carries(st, x.Val) {
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if a, ok := ia.X.(*ssa.Alloc); ok {
						st.carriers[a] = true // variadic argument array or slice literal
						break
					}
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if a, ok := fa.X.(*ssa.Alloc); ok {
						st.carriers[a] = true // a struct built around the error
					}
				}
				st.consumed, st.listed = true, true
			}
		case *ssa.MapUpdate:
			if w.carries(st, x.Value) || w.carries(st, x.Key) {
				st.consumed, st.listed = true, true
			}
		case *ssa.Send:
			if w.carries(st, x.X) {
				st.consumed, st.listed = true, true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if cell := cellOf(x.X); cell != nil && st.cells[cell] {
					st.carriers[x] = true
				} else {
					delete(st.carriers, x)
				}
			}
		case *ssa.MakeInterface:
			if st.carriers[x.X] {
				st.carriers[x] = true
			}
		case *ssa.ChangeInterface:
			if st.carriers[x.X] {
				st.carriers[x] = true
			}
		case *ssa.ChangeType:
			if st.carriers[x.X] {
				st.carriers[x] = true
			}
		case *ssa.Slice:
			if st.carriers[x.X] {
				st.carriers[x] = true
			}
		case *ssa.Extract:
			if st.carriers[x.Tuple] {
				st.carriers[x] = true
			}
		case *ssa.Convert:
			if st.carriers[x.X] {
				st.carriers[x] = true
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && (st.carriers[x.X] || st.carriers[x.Y]) {
				st.carriers[x] = true
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			w.ret(x, st)
			return
		case *ssa.Jump:
			w.walk(b.Succs[0], 0, b, st)
			return
		case *ssa.If:
			w.branch(x, b, st)
			return
		}
	}
}

// call updates the state for a call; true means the path ends well here.
func (w *errWalk) call(x *ssa.Call, st *errState) bool {
	c := &x.Call
	n := calleeName(c)
	if isGlogExit(c) {
		return true
	}
	if s, ok := w.src.(*ssa.Call); ok && s != x {
		if fn := s.Call.StaticCallee(); fn != nil && inRepo(fn) && fn == c.StaticCallee() && w.isTry(x) {
			return true // another attempt; its own failure is its own obligation
		}
	}
	any := false
	for _, a := range c.Args {
		if w.carries(st, a) {
			any = true
		}
	}
	recv := c.IsInvoke() && w.carries(st, c.Value)
	if fn := c.StaticCallee(); fn != nil && w.u.alwaysExits(fn) {
		return true
	}
	if !any && !recv {
		return false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			st.carriers[x] = true
			st.consumed, st.listed = true, true
		}
		return false
	}
	if recv {
		// err.Error() and the like
		st.carriers[x] = true
		return false
	}
	if fn := c.StaticCallee(); fn != nil && n == "errors.Is" || n == "errors.As" || strings.HasPrefix(n, "os.Is") {
		return false
	}
	if c.Signature().Results().Len() > 0 {
		st.carriers[x] = true
	}
	if !isLogCall(n) && !pureFormat(n) && n != "fmt.Errorf" {
		st.consumed = true
		if errResultIndex(c.Signature()) < 0 {
			if fn := c.StaticCallee(); fn == nil || !inRepo(fn) || c.Signature().Results().Len() == 0 {
				st.listed = true
			}
		}
	}
	return false
}

func (w *errWalk) branch(x *ssa.If, b *ssa.BasicBlock, st *errState) {
	take := func(i int) { w.walk(b.Succs[i], 0, b, st.clone()) }
	cond, neg := x.Cond, false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		break
	}
	tIdx, fIdx := 0, 1
	if neg {
		tIdx, fIdx = 1, 0
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			var other ssa.Value
			if w.carries(st, c.X) && isErrorish(c.X.Type()) {
				other = c.Y
			} else if w.carries(st, c.Y) && isErrorish(c.Y.Type()) {
				other = c.X
			}
			if other != nil {
				eq, ne := tIdx, fIdx
				if c.Op == token.NEQ {
					eq, ne = fIdx, tIdx
				}
				if isNilConst(other) {
					take(ne)
					return
				}
				if isSentinel(other) {
					take(ne) // the equal branch is the handling of a documented marker
					return
				}
				_ = eq
			} else {
				// where another error is known to be set, that failure is being reported already
				eq, ne := tIdx, fIdx
				if c.Op == token.NEQ {
					eq, ne = fIdx, tIdx
				}
				_ = ne
				if isNilConst(c.Y) && isError(c.X.Type()) || isNilConst(c.X) && isError(c.Y.Type()) {
					take(eq)
					return
				}
			}
		}
	case *ssa.Call:
		n := calleeName(&c.Call)
		if n == "errors.Is" || n == "errors.As" || strings.HasPrefix(n, "os.Is") {
			if len(c.Call.Args) > 0 && w.carries(st, c.Call.Args[0]) {
				take(fIdx) // a recognised kind of failure, handled in the true branch
				return
			}
		}
	case *ssa.Extract:
		if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && w.carries(st, ta.X) && c.Index == 1 {
			take(tIdx)
			take(fIdx)
			return
		}
	}
	take(0)
	take(1)
}

// isTry: the other call of the same function only happens because this one failed.
func (w *errWalk) isTry(b *ssa.Call) bool {
	for _, v := range w.vals {
		if nonNilAt(v, b.Block()) {
			return true
		}
	}
	return false
}

func isErrorish(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// isSentinel: a package-level error variable such as io.EOF.
func isSentinel(v ssa.Value) bool {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		g, ok := ld.X.(*ssa.Global)
		return ok && isError(deref(g.Type()))
	}
	return false
}

func (w *errWalk) ret(x *ssa.Return, st *errState) {
	ei := errResultIndex(w.fn.Signature)
	if ei < 0 {
		// a bool or other result may carry it
		for _, v := range x.Results {
			if w.carries(st, v) {
				return
			}
		}
		if st.consumed && !w.strict {
			return
		}
		if w.strict && w.fn.Name() == "main" {
			w.fail("the program goes on to end successfully at %s", w.u.InstrPos(x))
			return
		}
		if !st.consumed {
			w.fail("the failure is not passed on when returning at %s", w.u.InstrPos(x))
		}
		return
	}
	e := x.Results[ei]
	if w.carries(st, e) {
		return
	}
	if ld, ok := e.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if cell := cellOf(ld.X); cell != nil && st.cells[cell] {
			return
		}
	}
	if w.nonNil(e, x.Block(), 0) {
		return
	}
	if st.consumed && !isNilConst(e) {
		return
	}
	if st.listed {
		return
	}
	if isNilConst(e) {
		w.fail("success is reported at %s", w.u.InstrPos(x))
		return
	}
	w.fail("the error returned at %s may be nil", w.u.InstrPos(x))
}

func (w *errWalk) nonNil(e ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if depth > 5 {
		return false
	}
	if nonNilAt(e, b) {
		return true
	}
	switch x := e.(type) {
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			switch calleeName(&x.Call) {
			case "fmt.Errorf", "errors.New":
				return true
			}
			if w.u.alwaysError(fn) {
				return true
			}
			if strings.HasSuffix(fn.String(), "grpc.Errorf") || strings.HasSuffix(fn.String(), "status.Errorf") || strings.HasSuffix(fn.String(), "status.Error") {
				return true
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && w.u.alwaysError(fn) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		return isSentinel(x)
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if !w.nonNil(ed, x.Block().Preds[i], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// alwaysError: every return of the function gives a non-nil error (an error constructor).
func (u *Unit) alwaysError(fn *ssa.Function) bool {
	if u.errCtor == nil {
		u.errCtor = map[*ssa.Function]int{}
	}
	if s := u.errCtor[fn]; s != 0 {
		return s == 2
	}
	u.errCtor[fn] = 1
	if fn.Blocks == nil || !inRepo(fn) {
		return false
	}
	ei := errResultIndex(fn.Signature)
	if ei < 0 {
		return false
	}
	w := &errWalk{u: u, fn: fn}
	rs := returnsOf(fn)
	for _, r := range rs {
		if !w.nonNil(r.Results[ei], r.Block(), 0) {
			return false
		}
	}
	if len(rs) == 0 {
		return false
	}
	u.errCtor[fn] = 2
	return true
}

// neverFails lists functions whose error result is documented to be nil always
// or carries no information for these callers.
func neverFails(c *ssa.CallCommon) bool {
	n := calleeName(c)
	switch {
	case strings.HasPrefix(n, "strings.(Builder)."), strings.HasPrefix(n, "bytes.(Buffer).Write"), strings.HasPrefix(n, "hash."), n == "math/rand.Read":
		return true
	case n == "fmt.Print", n == "fmt.Printf", n == "fmt.Println":
		return true // standard output of a command
	case n == "fmt.Fprint", n == "fmt.Fprintf", n == "fmt.Fprintln", n == "io.WriteString":
		// in-memory writers never fail; so does text shown on standard error
		a := c.Args[0]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if nn := namedOf(mi.X.Type()); nn != nil && nn.Obj().Pkg() != nil {
				q := nn.Obj().Pkg().Path() + "." + nn.Obj().Name()
				if q == "strings.Builder" || q == "bytes.Buffer" {
					return true
				}
				if q == "os.File" {
					if ld, ok := mi.X.(*ssa.UnOp); ok {
						if g, ok := ld.X.(*ssa.Global); ok && (g.Name() == "Stderr" || g.Name() == "Stdout") {
							return true
						}
					}
				}
			}
		}
	case n == "context.(Context).Err":
		return true
	case n == "(error).Unwrap", strings.HasSuffix(n, "errors.Unwrap"):
		return true
	}
	return false
}

func errExempt(u *Unit, in ssa.CallInstruction) string {
	f := in.Parent()
	n := calleeName(in.Common())
	for _, e := range errExemptions {
		if fnPkg(f) == e.pkg && (n == e.callee || e.callee != "" && strings.HasSuffix(n, e.callee)) && (e.fn == "" || topFn(f).Name() == e.fn) {
			return e.why
		}
	}
	return ""
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

type errExemption struct{ pkg, fn, callee, why string }

// errExemptions are the confirmed places where a failure is one of the normal
// outcomes of a trial, each with its reason.
var errExemptions = []errExemption{
	{"recordinfer", "", "strconv.ParseFloat", "trial parse: a value that does not parse rules the type out (I01 decides how)"},
	{"recordinfer", "", "strconv.ParseInt", "trial parse (I01)"},
	{"recordinfer", "", "time.Parse", "trial parse (I01)"},
	{"recordinfer", "", "time.ParseInLocation", "trial parse (I01)"},
	{"xmlinfer", "", "strconv.ParseInt", "trial parse (I01)"},
	{"xmlinfer", "", "strconv.ParseFloat", "trial parse (I01)"},
	{"sexpr", "", "strconv.ParseUint", "trial parse: the next number syntax is tried, or the token is a symbol"},
	{"sexpr", "", "strconv.ParseInt", "trial parse"},
	{"sexpr", "", "strconv.ParseFloat", "trial parse"},
	{"codegen", "", "strconv.Atoi", "tests whether a path element looks like a version"},
	{"textpos", "", "textpos.(File).checkPos", "an out-of-range position is documented to give NoPos"},
	{"rdf/iri", "", "rdf/iri.(IRI).normalizePercentEncoding", "normalisation is documented to leave an IRI it cannot normalise as it is"},
	{"cmd/xtoproto_web", "", "cmd/xtoproto_web.printRunfiles", "only writes diagnostic log lines"},
}

func checkErrors(u *Unit, r *Report, fs []*ssa.Function, strict bool) {
	for _, f := range fs {
		r.Count("functions", 1)
		for _, p := range f.Params {
			if isError(p.Type()) && (f.Signature.Recv() == nil || p != f.Params[0]) && errResultIndex(f.Signature) >= 0 {
				if len(*p.Referrers()) == 0 {
					r.Bad("error-parameter", fnName(f), u.Pos(f.Pos()), "the error given to this function is ignored although it can report one")
					continue
				}
				bad := errParamFlow(u, p)
				r.Check(bad == "", "error-parameter", fnName(f), u.Pos(f.Pos()), "when the given error is set: %s", bad)
			}
		}
		for _, b := range f.Blocks {
			if f.Recover == b {
				continue
			}
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if errResultIndex(c.Signature()) < 0 || neverFails(c) {
					continue
				}
				callee := calleeName(c)
				if callee == "" {
					callee = "function value of type " + c.Signature().String()
				}
				callee = strings.ReplaceAll(callee, modPath+"/", "")
				key := fnName(f) + "|" + callee
				if why := errExempt(u, ci); why != "" {
					r.OK("error-exempt", "%s %s: %s", key, u.InstrPos(in), why)
					continue
				}
				r.Count("fallible calls", 1)
				call, ok := in.(*ssa.Call)
				if !ok {
					if strings.HasSuffix(callee, ".Close") {
						continue // decided by F01
					}
					r.Bad("error-not-swallowed", key, u.InstrPos(in), "the error of the deferred or concurrent call of %s is lost", callee)
					continue
				}
				bad := errFlowMode(u, call, strict, nil)
				r.Check(bad == "", "error-not-swallowed", key, u.InstrPos(in), "%s: when %s fails, %s", fnName(f), callee, bad)
			}
		}
	}
}

func init() {
	register("E01", func(w *World, r *Report) {
		r.explanation = "Path rule over SSA, for every call in every library function whose callee can return an error (static, interface and function-value calls alike), for every constructed error and for every error parameter: all control-flow paths that are possible while that error is non-nil are followed; each must end by returning a certainly non-nil error, by handing the error on (stored in a result list, sent, given to a callback), or by panicking. A discarded result, a successful return, a possibly-nil other error, or another round of the loop is a violation."
		r.assumptions = []string{"Comparing with a package-level error variable (io.EOF) or testing errors.Is/As or os.Is* is the handling of a documented alternative; E04 decides the io.EOF cases.", "Functions listed as never failing (in-memory writers) do not fail.", "The failure of closing a file is decided by F01."}
		u := w.Host
		checkErrors(u, r, u.LibFuncs(), false)
		r.Floor("functions", 400)
		r.Floor("fallible calls", 250)
	})
	register("E02", func(w *World, r *Report) {
		r.explanation = "The path rule of E01 over every function of the command programs, on both platforms; in main (and in functions that cannot return an error) logging is not enough: every path on which a step failed must return the error or reach a call that ends the process with a non-zero status."
		r.assumptions = []string{"glog.Exit*/Fatal*, log.Fatal* and os.Exit with a non-zero status end the process with a failure status."}
		checkErrors(w.Host, r, w.Host.MainFuncs(), true)
		checkErrors(w.Wasm, r, w.Wasm.MainFuncs(), true)
		r.Floor("functions", 20)
		r.Floor("fallible calls", 40)
	})
}
