package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Static lockset analysis of one package (Eraser-style, interprocedural).

type lockKey struct {
	obj  types.Object // the mutex field or global variable
	root string       // access path of the object that holds it; "?" unknown
}

type lockset map[lockKey]int // mode: 1 read, 2 write

func (a lockset) clone() lockset {
	b := lockset{}
	for k, v := range a {
		b[k] = v
	}
	return b
}
func (a lockset) String() string {
	var s []string
	for k, m := range a {
		s = append(s, fmt.Sprintf("%s.%s/%d", k.root, k.obj.Name(), m))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ",") + "}"
}

type lstate struct {
	must  lockset
	may   lockset
	defd  lockset // locks a deferred call will release, on every path
	valid bool
}

func (s lstate) clone() lstate {
	return lstate{s.must.clone(), s.may.clone(), s.defd.clone(), s.valid}
}

func joinState(a, b lstate) lstate {
	if !a.valid {
		return b.clone()
	}
	if !b.valid {
		return a.clone()
	}
	return lstate{meet(a.must, b.must), union(a.may, b.may), meet(a.defd, b.defd), true}
}
func meet(a, b lockset) lockset {
	o := lockset{}
	for k, m := range a {
		if n, ok := b[k]; ok {
			if n < m {
				m = n
			}
			o[k] = m
		}
	}
	return o
}
func union(a, b lockset) lockset {
	o := a.clone()
	for k, m := range b {
		if m > o[k] {
			o[k] = m
		}
	}
	return o
}
func eqLS(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}
func eqState(a, b lstate) bool {
	return a.valid == b.valid && eqLS(a.must, b.must) && eqLS(a.may, b.may) && eqLS(a.defd, b.defd)
}

type netEffect struct {
	acq      lockset          // held on every return
	rel      map[lockKey]bool // released although not acquired here
	mayAcq   map[types.Object]bool
	unlocker map[int]lockKey // results that are functions releasing a lock
}

type lockAnalysis struct {
	u     *Unit
	rel   string
	fns   []*ssa.Function
	eff   map[*ssa.Function]*netEffect
	entry map[*ssa.Function]lstate
	fresh map[*ssa.Parameter]bool
	at    map[ssa.Instruction]lstate // state before each instruction
	accs  []access
	// locks sites
	acqSites int
	r        *Report
}

type access struct {
	fn    *ssa.Function
	in    ssa.Instruction
	loc   types.Object
	elem  bool // element of the container held by loc
	write bool
	held  lockset
	base  string
	init  bool
}

func isMutexType(t types.Type) bool {
	return typeIs(t, "sync", "Mutex") || typeIs(t, "sync", "RWMutex")
}

// mutexOp classifies sync.(RW)Mutex method calls: op, mutex address.
func mutexOp(c *ssa.CallCommon) (string, ssa.Value) {
	n := calleeName(c)
	for _, t := range []string{"sync.(Mutex).", "sync.(RWMutex)."} {
		if strings.HasPrefix(n, t) && len(c.Args) > 0 {
			return strings.TrimPrefix(n, t), c.Args[0]
		}
	}
	if strings.HasPrefix(n, "sync.(Locker).") && c.IsInvoke() {
		return c.Method.Name(), c.Value
	}
	return "", nil
}

func (la *lockAnalysis) path(v ssa.Value) string { return accessPath(v, 0) }

func accessPath(v ssa.Value, d int) string {
	if d > 12 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return fmt.Sprintf("p%d", paramIndex(x))
	case *ssa.Global:
		return "g:" + x.Name()
	case *ssa.FreeVar:
		b := freeVarBinding(x)
		if b == nil {
			return "?"
		}
		if a, ok := b.(*ssa.Alloc); ok {
			return accessPath(a, d+1)
		}
		p := accessPath(b, d+1)
		return p
	case *ssa.Alloc:
		if cellSimple(x) {
			if ss := storesTo(x); len(ss) == 1 {
				return "&" + accessPath(ss[0].Val, d+1)
			}
		}
		return fmt.Sprintf("a:%s:%d", x.Parent().Name(), x.Pos())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := accessPath(x.X, d+1)
			if strings.HasPrefix(p, "&") {
				return p[1:]
			}
			if p == "?" {
				return "?"
			}
			return "*" + p
		}
	case *ssa.FieldAddr:
		p := accessPath(x.X, d+1)
		if p == "?" {
			return "?"
		}
		return p + "." + fieldVar(x.X.Type(), x.Field).Name()
	case *ssa.Field:
		p := accessPath(x.X, d+1)
		if p == "?" {
			return "?"
		}
		return p + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.ChangeType:
		return accessPath(x.X, d+1)
	}
	return "?"
}

func fieldVar(ptr types.Type, i int) *types.Var {
	return deref(ptr).Underlying().(*types.Struct).Field(i)
}

// lockOf names the lock a mutex address denotes.
func lockOf(addr ssa.Value) (lockKey, bool) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return lockKey{fieldVar(x.X.Type(), x.Field), accessPath(x.X, 0)}, true
	case *ssa.Global:
		return lockKey{x.Object(), "g"}, true
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return lockOf(b)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL { // pointer to mutex stored somewhere
			switch y := x.X.(type) {
			case *ssa.FieldAddr:
				return lockKey{fieldVar(y.X.Type(), y.Field), accessPath(y.X, 0)}, true
			case *ssa.Global:
				return lockKey{y.Object(), "g"}, true
			}
			if c := cellOf(x.X); c != nil {
				if ss := storesTo(c); len(ss) == 1 {
					return lockOf(ss[0].Val)
				}
			}
		}
	}
	return lockKey{}, false
}

func newLockAnalysis(u *Unit, rel string, r *Report) *lockAnalysis {
	la := &lockAnalysis{u: u, rel: rel, eff: map[*ssa.Function]*netEffect{}, entry: map[*ssa.Function]lstate{}, fresh: map[*ssa.Parameter]bool{}, at: map[ssa.Instruction]lstate{}, r: r}
	for _, f := range u.Funcs {
		if fnPkg(f) == rel && f.Blocks != nil {
			la.fns = append(la.fns, f)
		}
	}
	for _, f := range la.fns {
		la.eff[f] = &netEffect{acq: lockset{}, rel: map[lockKey]bool{}, mayAcq: map[types.Object]bool{}, unlocker: map[int]lockKey{}}
	}
	for it := 0; it < 6; it++ {
		for _, f := range la.fns {
			la.flow(f, lstate{lockset{}, lockset{}, lockset{}, true}, true)
		}
	}
	la.entries()
	return la
}

func (la *lockAnalysis) isRoot(f *ssa.Function) bool {
	if f.Synthetic != "" && strings.Contains(f.Synthetic, "package init") {
		return true
	}
	if f.Parent() != nil {
		return false
	}
	if o := f.Object(); o != nil && o.Exported() && exportedRecv(f) {
		return true
	}
	if strings.HasPrefix(f.Name(), "init#") || f.Name() == "main" {
		return true
	}
	return false
}

// isInit: runs only while the package initialises.
func (la *lockAnalysis) isInit(f *ssa.Function) bool {
	return f.Synthetic != "" && strings.Contains(f.Synthetic, "package init") || strings.HasPrefix(f.Name(), "init#") ||
		f.Parent() != nil && la.isInit(f.Parent()) && la.calledOnlyDirectly(f)
}

func (la *lockAnalysis) calledOnlyDirectly(f *ssa.Function) bool {
	for _, in := range la.u.refs[f] {
		mc, ok := in.(*ssa.MakeClosure)
		if !ok {
			return false
		}
		for _, rr := range *mc.Referrers() {
			if c, ok := rr.(*ssa.Call); !ok || c.Call.Value != mc {
				return false
			}
		}
	}
	return true
}

// sitesOf lists (call instruction, state before it) for calls of f; ok=false when f can also be called from elsewhere with nothing held.
type siteInfo struct {
	in     ssa.Instruction
	common *ssa.CallCommon
	direct bool // arguments map to parameters
	defers bool
}

var syncCallers = map[string]bool{"sort": true, "strings": true, "bytes": true, "slices": true, "sync": true, "unicode": true, "maps": true}

func (la *lockAnalysis) sitesOf(f *ssa.Function) (sites []siteInfo, anywhere bool) {
	for _, c := range la.u.callers[f] {
		if _, isGo := c.(*ssa.Go); isGo {
			anywhere = true
			continue
		}
		_, isDefer := c.(*ssa.Defer)
		if fnPkg(c.Parent()) != la.rel {
			anywhere = true
			continue
		}
		sites = append(sites, siteInfo{c, c.Common(), true, isDefer})
	}
	if la.isRoot(f) {
		anywhere = true
	}
	for _, ref := range la.u.refs[f] {
		var val ssa.Value
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			val = mc
		} else {
			val = f
		}
		var uses []ssa.Instruction
		if val == ssa.Value(f) {
			uses = []ssa.Instruction{ref}
		} else if val.Referrers() != nil {
			uses = *val.Referrers()
		}
		var visit func(v ssa.Value, in ssa.Instruction)
		visit = func(v ssa.Value, in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				c := x.Common()
				if c.Value == v {
					return // direct call, in callers
				}
				if _, isGo := x.(*ssa.Go); isGo {
					anywhere = true
					return
				}
				if callee := c.StaticCallee(); callee != nil {
					if fnPkg(callee) == la.rel && callee.Blocks != nil {
						// invoked inside callee wherever that parameter is called
						for i, a := range c.Args {
							if a != v || i >= len(callee.Params) {
								continue
							}
							ss, any := la.paramCalls(callee.Params[i])
							sites = append(sites, ss...)
							anywhere = anywhere || any
						}
						return
					}
					if callee.Pkg != nil && syncCallers[callee.Pkg.Pkg.Path()] {
						sites = append(sites, siteInfo{x, c, false, false})
						return
					}
				}
				anywhere = true
			case *ssa.ChangeType:
				for _, y := range *x.Referrers() {
					visit(x, y)
				}
			case *ssa.MakeInterface:
				anywhere = true
			case *ssa.Store:
				if cell := cellOf(x.Addr); cell != nil && cellSimple(cell) {
					// local variable holding the function: calls through loads
					n := 0
					for _, g := range la.fns {
						for _, b := range g.Blocks {
							for _, in2 := range b.Instrs {
								if ci, ok := in2.(ssa.CallInstruction); ok {
									if ld, ok := ci.Common().Value.(*ssa.UnOp); ok && cellOf(ld.X) == cell {
										n++
										_, isDefer := ci.(*ssa.Defer)
										sites = append(sites, siteInfo{ci, ci.Common(), true, isDefer})
									}
								}
							}
						}
					}
					return
				}
				ds := la.u.dyn().sites(f)
				if len(ds) == 0 {
					anywhere = true
				}
				for _, c := range ds {
					sites = append(sites, siteInfo{c, c.Common(), true, false})
				}
			case *ssa.Return, *ssa.Phi, *ssa.MapUpdate:
				ds := la.u.dyn().sites(f)
				if len(ds) == 0 {
					anywhere = true
				}
				for _, c := range ds {
					sites = append(sites, siteInfo{c, c.Common(), true, false})
				}
			case *ssa.DebugRef:
			default:
				anywhere = true
			}
		}
		for _, in := range uses {
			visit(val, in)
		}
	}
	if len(sites) == 0 {
		anywhere = true
	}
	return
}

func (la *lockAnalysis) paramCalls(p *ssa.Parameter) (sites []siteInfo, anywhere bool) {
	refs := p.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case ssa.CallInstruction:
			if x.Common().Value == p {
				if _, isGo := x.(*ssa.Go); isGo {
					anywhere = true
					continue
				}
				_, d := x.(*ssa.Defer)
				sites = append(sites, siteInfo{x, x.Common(), true, d})
				continue
			}
			if callee := x.Common().StaticCallee(); callee != nil && fnPkg(callee) == la.rel && callee.Blocks != nil {
				for i, a := range x.Common().Args {
					if a == p && i < len(callee.Params) && callee.Params[i] != p {
						s2, a2 := la.paramCalls(callee.Params[i])
						sites = append(sites, s2...)
						anywhere = anywhere || a2
					}
				}
				continue
			}
			if callee := x.Common().StaticCallee(); callee != nil && callee.Pkg != nil && syncCallers[callee.Pkg.Pkg.Path()] {
				sites = append(sites, siteInfo{x, x.Common(), false, false})
				continue
			}
			anywhere = true
		case *ssa.DebugRef, *ssa.BinOp:
		default:
			anywhere = true
		}
	}
	return
}

// entries computes entry locksets and parameter freshness to a fixpoint, and
// the state before every instruction.
func (la *lockAnalysis) entries() {
	empty := lstate{lockset{}, lockset{}, lockset{}, true}
	sitesOf := map[*ssa.Function][]siteInfo{}
	anyw := map[*ssa.Function]bool{}
	for _, f := range la.fns {
		sitesOf[f], anyw[f] = la.sitesOf(f)
		for _, p := range f.Params {
			la.fresh[p] = !anyw[f]
		}
		if anyw[f] {
			la.entry[f] = empty
		}
	}
	for it := 0; it < 12; it++ {
		la.at = map[ssa.Instruction]lstate{}
		for _, f := range la.fns {
			if e, ok := la.entry[f]; ok {
				la.flow(f, e, false)
			}
		}
		changed := false
		for _, f := range la.fns {
			st := lstate{}
			if anyw[f] {
				st = empty
			}
			for _, s := range sitesOf[f] {
				cs, ok := la.at[s.in]
				if !ok {
					continue // caller not yet reached
				}
				m := cs.must
				if s.defers {
					m = lockset{} // runs at exit
				}
				e := lstate{la.mapIn(m, s, f), la.mapIn(cs.may, s, f), lockset{}, true}
				st = joinState(st, e)
			}
			if !st.valid {
				continue
			}
			st.defd = lockset{}
			if old, ok := la.entry[f]; !ok || !eqState(old, st) {
				la.entry[f] = st
				changed = true
			}
			for pi, p := range f.Params {
				fr := !anyw[f]
				for _, s := range sitesOf[f] {
					if !s.direct {
						fr = false
						continue
					}
					var a ssa.Value
					if pi < len(s.common.Args) {
						a = s.common.Args[pi]
					}
					if a == nil || !la.isFresh(a, s.in, 0) {
						fr = false
					}
				}
				if la.fresh[p] != fr {
					la.fresh[p] = fr
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
}

// mapIn renames lock roots from caller to callee.
func (la *lockAnalysis) mapIn(ls lockset, s siteInfo, f *ssa.Function) lockset {
	o := lockset{}
	for k, m := range ls {
		nk := lockKey{k.obj, "?"}
		if k.root == "g" {
			nk.root = "g"
		} else if s.direct && k.root != "?" {
			for i, a := range s.common.Args {
				if accessPath(a, 0) == k.root && i < len(f.Params) {
					nk.root = fmt.Sprintf("p%d", i)
				}
			}
			// closures see the parent's names through free variables
			if nk.root == "?" && f.Parent() == s.in.Parent() {
				nk.root = k.root
			}
		} else if f.Parent() == s.in.Parent() && f.Parent() != nil {
			nk.root = k.root
		}
		if m > o[nk] {
			o[nk] = m
		}
	}
	return o
}

func (la *lockAnalysis) mapOut(k lockKey, c *ssa.CallCommon, callee *ssa.Function) lockKey {
	if k.root == "g" {
		return k
	}
	if strings.HasPrefix(k.root, "p") {
		for i, a := range c.Args {
			pre := fmt.Sprintf("p%d", i)
			if k.root == pre {
				return lockKey{k.obj, accessPath(a, 0)}
			}
			if strings.HasPrefix(k.root, pre+".") {
				p := accessPath(a, 0)
				if p != "?" {
					return lockKey{k.obj, p + k.root[len(pre):]}
				}
			}
		}
	}
	if callee.Parent() != nil {
		return k
	}
	return lockKey{k.obj, "?"}
}

// unlockerOf: the lock a function value releases when called, if it is an unlocker.
func (la *lockAnalysis) unlockerOf(v ssa.Value, d int) (lockKey, bool) {
	if d > 8 {
		return lockKey{}, false
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "bound method") && len(x.Bindings) == 1 {
			n := fn.Name()
			if strings.HasPrefix(n, "Unlock") || strings.HasPrefix(n, "RUnlock") {
				return lockOf(x.Bindings[0])
			}
		}
		if e := la.eff[fn]; e != nil && len(e.rel) == 1 {
			for k := range e.rel {
				return k, true
			}
		}
	case *ssa.Function:
		if e := la.eff[x]; e != nil && len(e.rel) == 1 {
			for k := range e.rel {
				return k, true
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if callee := c.Call.StaticCallee(); callee != nil {
				if e := la.eff[callee]; e != nil {
					if k, ok := e.unlocker[x.Index]; ok {
						return la.mapOut(k, &c.Call, callee), true
					}
				}
			}
		}
	case *ssa.Call:
		if callee := x.Call.StaticCallee(); callee != nil {
			if e := la.eff[callee]; e != nil {
				if k, ok := e.unlocker[0]; ok {
					return la.mapOut(k, &x.Call, callee), true
				}
			}
		}
	case *ssa.UnOp:
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			if ss := storesTo(cell); len(ss) == 1 {
				return la.unlockerOf(ss[0].Val, d+1)
			}
		}
	case *ssa.ChangeType:
		return la.unlockerOf(x.X, d+1)
	case *ssa.Phi:
		var k lockKey
		for i, e := range x.Edges {
			k2, ok := la.unlockerOf(e, d+1)
			if !ok || i > 0 && k2 != k {
				return lockKey{}, false
			}
			k = k2
		}
		return k, len(x.Edges) > 0
	}
	return lockKey{}, false
}

func release(st *lstate, k lockKey) bool {
	found := false
	for h := range st.must {
		if h.obj == k.obj && (h.root == k.root || h.root == "?" || k.root == "?") {
			delete(st.must, h)
			found = true
		}
	}
	for h := range st.may {
		if h.obj == k.obj && (h.root == k.root || h.root == "?" || k.root == "?") {
			delete(st.may, h)
			found = true
		}
	}
	return found
}

// flow runs the lockset dataflow over one function. With sum, it records the
// net effect; otherwise the state before each instruction.
func (la *lockAnalysis) flow(f *ssa.Function, entry lstate, sum bool) {
	in := map[*ssa.BasicBlock]lstate{}
	in[f.Blocks[0]] = entry.clone()
	work := []*ssa.BasicBlock{f.Blocks[0]}
	eff := la.eff[f]
	if sum {
		eff.rel = map[lockKey]bool{}
	}
	var exit lstate
	n := 0
	for len(work) > 0 && n < 2000 {
		n++
		b := work[0]
		work = work[1:]
		st := in[b].clone()
		for _, ins := range b.Instrs {
			if !sum {
				la.at[ins] = st.clone()
			}
			la.step(f, &st, ins, sum)
			if ret, ok := ins.(*ssa.Return); ok && f.Recover != b {
				exit = joinState(exit, st)
				if sum {
					for i, v := range ret.Results {
						if k, ok := la.unlockerOf(v, 0); ok {
							eff.unlocker[i] = k
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			ns := joinState(in[s], st)
			if !eqState(ns, in[s]) {
				in[s] = ns
				work = append(work, s)
			}
		}
	}
	if sum && exit.valid {
		eff.acq = exit.must
	}
}

func (la *lockAnalysis) step(f *ssa.Function, st *lstate, ins ssa.Instruction, sum bool) {
	eff := la.eff[f]
	switch x := ins.(type) {
	case *ssa.RunDefers:
		for k := range st.defd {
			release(st, k)
		}
		return
	case *ssa.Defer:
		c := x.Common()
		if op, addr := mutexOp(c); op == "Unlock" || op == "RUnlock" {
			if k, ok := lockOf(addr); ok {
				st.defd[k] = 1
			}
			return
		}
		if k, ok := la.unlockerOf(c.Value, 0); ok {
			st.defd[k] = 1
			return
		}
		if callee := c.StaticCallee(); callee != nil {
			if e := la.eff[callee]; e != nil {
				for k := range e.rel {
					st.defd[la.mapOut(k, c, callee)] = 1
				}
			}
		}
		return
	case *ssa.Call:
		c := x.Common()
		if op, addr := mutexOp(c); op != "" {
			k, ok := lockOf(addr)
			if !ok {
				return
			}
			switch op {
			case "Lock", "TryLock":
				st.must[k], st.may[k] = 2, 2
				eff.mayAcq[k.obj] = true
			case "RLock", "TryRLock":
				if st.must[k] < 1 {
					st.must[k] = 1
				}
				if st.may[k] < 1 {
					st.may[k] = 1
				}
				eff.mayAcq[k.obj] = true
			case "Unlock", "RUnlock":
				if !release(st, k) && sum {
					eff.rel[k] = true
				}
			}
			return
		}
		if k, ok := la.unlockerOf(c.Value, 0); ok && c.StaticCallee() == nil {
			if !release(st, k) && sum {
				eff.rel[k] = true
			}
			return
		}
		if callee := c.StaticCallee(); callee != nil {
			if e := la.eff[callee]; e != nil && callee != f {
				for k := range e.rel {
					k2 := la.mapOut(k, c, callee)
					if !release(st, k2) && sum {
						eff.rel[k2] = true
					}
				}
				for k, m := range e.acq {
					k2 := la.mapOut(k, c, callee)
					st.must[k2], st.may[k2] = m, m
				}
				for o := range e.mayAcq {
					eff.mayAcq[o] = true
				}
			}
		}
	}
}

// ---------------------------------------------------------------- freshness

// isFresh: v denotes an object created here that no other goroutine can see yet at instruction `at`.
func (la *lockAnalysis) isFresh(v ssa.Value, at ssa.Instruction, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if cellSimple(x) && len(storesTo(x)) > 0 {
			// a variable: only its content matters to callers that load it
			if _, isPtr := x.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
				for _, s := range storesTo(x) {
					if !la.isFresh(s.Val, at, d+1) {
						return false
					}
				}
			}
			return true
		}
		return !la.escapedBefore(x, at)
	case *ssa.MakeMap:
		return !la.escapedBefore(x, at)
	case *ssa.MakeSlice:
		return !la.escapedBefore(x, at)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !la.isFresh(e, at, d+1) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	case *ssa.ChangeType:
		return la.isFresh(x.X, at, d+1)
	case *ssa.FieldAddr:
		return la.isFresh(x.X, at, d+1)
	case *ssa.IndexAddr:
		return la.isFresh(x.X, at, d+1)
	case *ssa.Slice:
		return la.isFresh(x.X, at, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
				ss := storesTo(cell)
				if len(ss) == 0 {
					return false
				}
				for _, s := range ss {
					if !la.isFresh(s.Val, at, d+1) {
						return false
					}
				}
				return true
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok { // container inside a fresh object
				return la.isFresh(fa.X, at, d+1)
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			if _, ok := b.(*ssa.Alloc); ok {
				return la.isFresh(b, at, d+1)
			}
		}
	case *ssa.Parameter:
		return la.fresh[x]
	case *ssa.Call:
		if callee := x.Call.StaticCallee(); callee != nil && fnPkg(callee) == la.rel && callee.Blocks != nil {
			rets := returnsOf(callee)
			for _, r := range rets {
				if len(r.Results) == 0 || !la.isFresh(r.Results[0], r, d+1) {
					return false
				}
			}
			return len(rets) > 0 && !la.escapedBefore(x, at)
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return la.isFresh(x.Call.Args[0], at, d+1)
		}
	}
	return false
}

// escapedBefore: some instruction that can run before `at` makes v visible elsewhere.
func (la *lockAnalysis) escapedBefore(v ssa.Value, at ssa.Instruction) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		if in == at || in.Parent() != at.Parent() {
			if in == at {
				continue
			}
		}
		esc := false
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == v {
				if cell := cellOf(x.Addr); cell != nil && cellSimple(cell) {
					// loads of the variable are further aliases
					for _, rr := range *cell.Referrers() {
						if ld, ok := rr.(*ssa.UnOp); ok && ld.Op == token.MUL && la.escapedBefore(ld, at) {
							return true
						}
					}
				} else if la.isFresh(baseOf(x.Addr), at, 5) {
					// stored inside another fresh object
				} else {
					esc = true
				}
			}
		case *ssa.MapUpdate:
			if (x.Value == v || x.Key == v) && !la.isFresh(x.Map, at, 5) {
				esc = true
			}
		case *ssa.Send:
			esc = x.X == v
		case *ssa.Go:
			esc = true
		case *ssa.MakeInterface:
			if la.escapedBefore(x, at) {
				return true
			}
		case *ssa.ChangeType:
			if la.escapedBefore(x, at) {
				return true
			}
		case *ssa.Phi:
			if la.escapedBefore(x, at) {
				return true
			}
		case *ssa.MakeClosure:
			esc = false
		case *ssa.Call:
			for i, a := range x.Call.Args {
				if a != v {
					continue
				}
				if callee := x.Call.StaticCallee(); callee != nil && fnPkg(callee) == la.rel && callee.Blocks != nil && i < len(callee.Params) {
					if la.paramEscapes(callee.Params[i], 0) {
						esc = true
					}
				} else if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && i > 0 {
						esc = true
					}
				}
			}
		case *ssa.Return:
			esc = false
		}
		if esc && canReach(in, at) {
			return true
		}
	}
	return false
}

func (la *lockAnalysis) paramEscapes(p *ssa.Parameter, d int) bool {
	if d > 4 || p.Referrers() == nil {
		return d > 4
	}
	for _, in := range *p.Referrers() {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == p {
				if cell := cellOf(x.Addr); cell == nil || !cellSimple(cell) {
					return true
				}
			}
		case *ssa.MapUpdate:
			if x.Value == p || x.Key == p {
				return true
			}
		case *ssa.Go, *ssa.Send:
			return true
		case *ssa.Call:
			for i, a := range x.Call.Args {
				if a == p {
					if callee := x.Call.StaticCallee(); callee != nil && fnPkg(callee) == la.rel && callee.Blocks != nil && i < len(callee.Params) {
						if la.paramEscapes(callee.Params[i], d+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func baseOf(addr ssa.Value) ssa.Value {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		default:
			return addr
		}
	}
}

// ---------------------------------------------------------------- accesses

// sharedTypes: named struct types of the package that hold a mutex, are
// reachable from such a type or from a package-level variable.
func (la *lockAnalysis) sharedTypes() map[*types.Named]bool {
	out := map[*types.Named]bool{}
	pkg := la.u.Pkgs[la.rel].Types
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			if x.Obj().Pkg() != pkg || out[x] {
				return
			}
			if st, ok := x.Underlying().(*types.Struct); ok {
				out[x] = true
				for i := 0; i < st.NumFields(); i++ {
					visit(st.Field(i).Type())
				}
				return
			}
			visit(x.Underlying())
		case *types.Pointer:
			visit(x.Elem())
		case *types.Slice:
			visit(x.Elem())
		case *types.Array:
			visit(x.Elem())
		case *types.Map:
			visit(x.Key())
			visit(x.Elem())
		case *types.Interface:
			// implementations in the package may be stored behind it
		}
	}
	for _, n := range pkg.Scope().Names() {
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.Var:
			visit(o.Type())
		case *types.TypeName:
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if isMutexType(st.Field(i).Type()) || isMutexType(deref(st.Field(i).Type())) {
						visit(o.Type())
					}
				}
			}
		}
	}
	return out
}

// container origins: which guarded location a slice/map value was loaded from.
func (la *lockAnalysis) containerLocs(v ssa.Value, shared map[*types.Named]bool) []types.Object {
	var out []types.Object
	t := &Tracer{u: la.u, Params: true, Results: false}
	t.Stop = func(v ssa.Value) bool {
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			return la.locOf(ld.X, shared) != nil
		}
		return false
	}
	t.Leaf = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.UnOp:
			if o := la.locOf(x.X, shared); o != nil {
				out = append(out, o)
			}
		case *ssa.Slice:
			t.Trace(x.X)
		case *ssa.Field:
			// value loaded with its struct
		}
	}
	t.Trace(v)
	return out
}

// locOf: the shared location an address denotes.
func (la *lockAnalysis) locOf(addr ssa.Value, shared map[*types.Named]bool) types.Object {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		n := namedOf(x.X.Type())
		if n != nil && shared[n] {
			return fieldVar(x.X.Type(), x.Field)
		}
	case *ssa.Global:
		if x.Pkg != nil && x.Object() != nil {
			if r, ok := relPkg(x.Pkg.Pkg); ok && r == la.rel {
				return x.Object()
			}
		}
	}
	return nil
}

func skipLocType(t types.Type) bool {
	if isMutexType(t) || isMutexType(deref(t)) {
		return true
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

func (la *lockAnalysis) collect(shared map[*types.Named]bool) {
	for _, f := range la.fns {
		if la.isInit(f) {
			continue
		}
		if _, ok := la.entry[f]; !ok {
			continue // never called
		}
		for _, b := range f.Blocks {
			if b == f.Recover {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := la.at[in]
				if !ok {
					continue
				}
				add := func(loc types.Object, elem, write bool, baseAddr ssa.Value) {
					if loc == nil || skipLocType(loc.Type()) {
						return
					}
					base := "?"
					init := false
					if fa, ok := baseAddr.(*ssa.FieldAddr); ok {
						base = accessPath(fa.X, 0)
						init = la.isFresh(fa.X, in, 0)
					} else if g, ok := baseAddr.(*ssa.Global); ok {
						base = "g:" + g.Name()
					}
					la.accs = append(la.accs, access{f, in, loc, elem, write, st.must, base, init})
				}
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if o := la.locOf(x.X, shared); o != nil {
							add(o, false, false, x.X)
						} else if ia, ok := x.X.(*ssa.IndexAddr); ok {
							for _, o := range la.containerLocs(ia.X, shared) {
								add(o, true, false, srcAddr(ia.X))
							}
						}
					}
				case *ssa.Store:
					if o := la.locOf(x.Addr, shared); o != nil {
						add(o, false, true, x.Addr)
					} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						for _, o := range la.containerLocs(ia.X, shared) {
							add(o, true, true, srcAddr(ia.X))
						}
					} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						// element struct field: &slice[i].f
						if ia, ok := fa.X.(*ssa.IndexAddr); ok {
							for _, o := range la.containerLocs(ia.X, shared) {
								add(o, true, true, srcAddr(ia.X))
							}
						}
					}
				case *ssa.Lookup:
					for _, o := range la.containerLocs(x.X, shared) {
						add(o, true, false, srcAddr(x.X))
					}
				case *ssa.Range:
					for _, o := range la.containerLocs(x.X, shared) {
						add(o, true, false, srcAddr(x.X))
					}
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok {
						for _, o := range la.containerLocs(rg.X, shared) {
							add(o, true, false, srcAddr(rg.X))
						}
					}
				case *ssa.MapUpdate:
					for _, o := range la.containerLocs(x.Map, shared) {
						add(o, true, true, srcAddr(x.Map))
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy":
							for _, o := range la.containerLocs(x.Call.Args[0], shared) {
								add(o, true, true, srcAddr(x.Call.Args[0]))
							}
							for _, o := range la.containerLocs(x.Call.Args[1], shared) {
								add(o, true, false, srcAddr(x.Call.Args[1]))
							}
						case "delete", "clear":
							for _, o := range la.containerLocs(x.Call.Args[0], shared) {
								add(o, true, true, srcAddr(x.Call.Args[0]))
							}
						case "append":
							if len(x.Call.Args) == 2 {
								for _, o := range la.containerLocs(x.Call.Args[1], shared) {
									add(o, true, false, srcAddr(x.Call.Args[1]))
								}
							}
						}
					} else if callee := x.Call.StaticCallee(); callee != nil && callee.Pkg != nil && !inRepo(callee) {
						// an external function given the container reads (or sorts) it
						switch callee.Pkg.Pkg.Path() {
						case "sort", "slices", "bytes", "strings":
							for _, a := range x.Call.Args {
								w := callee.Pkg.Pkg.Path() == "sort" || callee.Pkg.Pkg.Path() == "slices"
								if strings.HasPrefix(callee.Name(), "Search") || strings.HasPrefix(callee.Name(), "BinarySearch") {
									w = false
								}
								if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
									continue
								}
								for _, o := range la.containerLocs(a, shared) {
									add(o, true, w, srcAddr(a))
								}
							}
						}
					}
				}
			}
		}
	}
}

// srcAddr: the address a container value was loaded from, when local.
func srcAddr(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return x.X
			}
			return nil
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func rootsMatch(a, b string) bool {
	if a == "?" || b == "?" || a == b {
		return true
	}
	if strings.HasPrefix(a, "a:") || strings.HasPrefix(b, "a:") {
		return true
	}
	// "*p0.x" style differences: comparable only when both are plain parameters
	plain := func(s string) bool { return len(s) >= 2 && s[0] == 'p' && !strings.ContainsAny(s[1:], ".*&") }
	return !(plain(a) && plain(b))
}

// checkLockset is the guarded-by rule.
func (la *lockAnalysis) checkLockset() {
	r := la.r
	shared := la.sharedTypes()
	r.Count("shared types", len(shared))
	la.collect(shared)
	type lk struct {
		o    types.Object
		elem bool
	}
	by := map[lk][]access{}
	for _, a := range la.accs {
		by[lk{a.loc, a.elem}] = append(by[lk{a.loc, a.elem}], a)
	}
	var keys []lk
	for k := range by {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].o.Pos() != keys[j].o.Pos() {
			return keys[i].o.Pos() < keys[j].o.Pos()
		}
		return !keys[i].elem && keys[j].elem
	})
	for _, k := range keys {
		as := by[k]
		writes := 0
		for _, a := range as {
			if a.write && !a.init {
				writes++
			}
		}
		if writes == 0 {
			r.Count("locations immutable after construction", 1)
			continue
		}
		r.Count("mutable shared locations", 1)
		// candidate guards: how many accesses hold each lock object suitably
		cnt := map[types.Object]int{}
		n := 0
		for _, a := range as {
			if a.init {
				continue
			}
			n++
			for h, m := range a.held {
				if (!a.write || m == 2) && la.rootOK(h, a) {
					cnt[h.obj]++
				}
			}
		}
		var best types.Object
		for o, c := range cnt {
			if best == nil || c > cnt[best] || c == cnt[best] && o.Pos() < best.Pos() {
				best = o
			}
		}
		name := k.o.Name()
		if k.elem {
			name += "[]"
		}
		if best != nil && cnt[best] == n {
			r.OK("guarded-by", "%s.%s: %d accesses, all under %s", la.rel, name, n, best.Name())
			r.Count("guarded accesses", n)
			continue
		}
		for _, a := range as {
			if a.init {
				continue
			}
			ok := false
			for h, m := range a.held {
				if h.obj == best && (!a.write || m == 2) && la.rootOK(h, a) {
					ok = true
				}
			}
			if ok {
				r.OK("guarded-by", "%s.%s", la.rel, name)
				continue
			}
			kind := "read"
			if a.write {
				kind = "write"
			}
			g := "no lock protects any access"
			if best != nil {
				g = "other accesses are protected by " + best.Name()
			}
			r.Bad("guarded-by", fnName(a.fn)+"|"+name+"|"+kind, la.u.InstrPos(a.in), "unprotected %s of shared %s in %s (%s; held here: %s)", kind, name, fnName(a.fn), g, a.held)
		}
	}
}

func (la *lockAnalysis) rootOK(h lockKey, a access) bool {
	if h.root == "g" {
		return true
	}
	// the mutex field and the data must belong to the same object when both are known
	return rootsMatch(h.root, a.base)
}

// checkDiscipline: release on every exit, no double acquisition, no callbacks under a lock, lock order.
func (la *lockAnalysis) checkDiscipline() {
	r := la.r
	order := map[types.Object]map[types.Object]string{}
	for _, f := range la.fns {
		if _, ok := la.entry[f]; !ok {
			continue
		}
		ent := la.entry[f]
		callers, anywhere := la.sitesOf(f)
		_ = callers
		usesLocks := len(la.eff[f].mayAcq) > 0
		for _, b := range f.Blocks {
			if b == f.Recover {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := la.at[in]
				if !ok {
					continue
				}
				switch x := in.(type) {
				case *ssa.Call:
					c := x.Common()
					if op, addr := mutexOp(c); op == "Lock" || op == "RLock" {
						k, ok := lockOf(addr)
						if !ok {
							r.Bad("lock-identity", fnName(f), la.u.InstrPos(in), "cannot tell which lock this acquires")
							continue
						}
						r.Count("lock acquisitions", 1)
						la.acqSites++
						bad := false
						for h := range st.may {
							if h.obj == k.obj {
								bad = true
							} else {
								addOrder(order, h.obj, k.obj, la.u.InstrPos(in))
							}
						}
						r.Check(!bad, "no-reacquire", fnName(f)+"|"+k.obj.Name(), la.u.InstrPos(in), "%s acquires %s while it may already hold it (deadlock)", fnName(f), k.obj.Name())
						continue
					}
					if op, _ := mutexOp(c); op != "" {
						continue
					}
					if len(st.may) == 0 {
						continue
					}
					callee := c.StaticCallee()
					if callee != nil && la.eff[callee] != nil {
						for o := range la.eff[callee].mayAcq {
							for h := range st.may {
								if h.obj == o {
									r.Bad("no-reacquire", fnName(f)+"|"+o.Name()+"|via "+callee.Name(), la.u.InstrPos(in), "%s calls %s, which acquires %s, while it may already hold it (deadlock)", fnName(f), fnName(callee), o.Name())
								} else {
									addOrder(order, h.obj, o, la.u.InstrPos(in))
								}
							}
						}
						continue
					}
					if callee == nil {
						if _, isB := c.Value.(*ssa.Builtin); isB {
							continue
						}
						if _, isU := la.unlockerOf(c.Value, 0); isU {
							continue
						}
						if !c.IsInvoke() && la.ownClosure(c.Value, 0) {
							continue
						}
						if c.IsInvoke() && !callbackInterface(c) {
							continue
						}
						r.Bad("no-callback-under-lock", fnName(f), la.u.InstrPos(in), "%s calls code supplied by its caller while holding %s", fnName(f), st.may)
					}
				case *ssa.Return:
					leak := st.may.clone()
					for k := range ent.may {
						delete(leak, k)
					}
					e := la.eff[f]
					wrapper := !anywhere || len(e.unlocker) > 0
					for k := range leak {
						_, must := st.must[k]
						if must && wrapper && e.acq[k] != 0 {
							continue
						}
						r.Bad("released-on-exit", fnName(f)+"|"+k.obj.Name(), la.u.InstrPos(in), "%s may return still holding %s", fnName(f), k.obj.Name())
					}
					if usesLocks && len(leak) == 0 {
						r.OK("released-on-exit", "%s %s", fnName(f), la.u.InstrPos(in))
					}
				case *ssa.Panic:
					leak := st.may.clone()
					for k := range ent.may {
						delete(leak, k)
					}
					tmp := st.clone()
					for k := range tmp.defd {
						release(&tmp, k)
					}
					for k := range leak {
						if _, still := tmp.may[k]; still {
							r.Bad("released-on-panic", fnName(f)+"|"+k.obj.Name(), la.u.InstrPos(in), "%s panics here while holding %s without a deferred release", fnName(f), k.obj.Name())
						}
					}
				}
			}
		}
		// a function that releases a lock it did not take must only be an unlocker
		for k := range la.eff[f].rel {
			held := false
			for h := range ent.must {
				if h.obj == k.obj {
					held = true
				}
			}
			if f.Parent() != nil || held {
				continue
			}
			r.Bad("balanced", fnName(f)+"|"+k.obj.Name(), la.u.Pos(f.Pos()), "%s releases %s without holding it", fnName(f), k.obj.Name())
		}
	}
	for a, m := range order {
		for b, pos := range m {
			if order[b] != nil && order[b][a] != "" && a.Pos() < b.Pos() {
				r.Bad("lock-order", a.Name()+"|"+b.Name(), pos, "%s and %s are acquired in both orders (%s and %s)", a.Name(), b.Name(), pos, order[b][a])
			}
		}
	}
	// unlock calls with no lock held within the same function and not an unlocker are covered by "balanced"
}

func callbackInterface(c *ssa.CallCommon) bool {
	// interfaces of the standard library used as values (error, reflect.Type) are not callbacks
	if n := namedOf(c.Value.Type()); n != nil {
		if n.Obj().Pkg() == nil {
			return false
		}
		if _, ok := relPkg(n.Obj().Pkg()); !ok {
			return false
		}
	}
	return true
}

// ownClosure: the called function value is a closure of the analysed code.
func (la *lockAnalysis) ownClosure(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.UnOp:
		if cell := cellOf(x.X); cell != nil && cellSimple(cell) {
			ss := storesTo(cell)
			for _, s := range ss {
				if !la.ownClosure(s.Val, d+1) {
					return false
				}
			}
			return len(ss) > 0
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !la.ownClosure(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if la.isRoot(x.Parent()) {
			return false
		}
		sites := la.u.callSites(x.Parent())
		for _, s := range sites {
			a := siteArg(s, x.Parent(), paramIndex(x))
			if a == nil || !la.ownClosure(a, d+1) {
				return false
			}
		}
		return len(sites) > 0
	}
	return false
}

func addOrder(m map[types.Object]map[types.Object]string, a, b types.Object, pos string) {
	if m[a] == nil {
		m[a] = map[types.Object]string{}
	}
	if m[a][b] == "" {
		m[a][b] = pos
	}
}

// checkNoLeak: exported operations never hand out a container or record that a
// lock protects.
func (la *lockAnalysis) checkNoLeak() {
	r := la.r
	shared := la.sharedTypes()
	// guarded locations: mutable after construction
	mutable := map[types.Object]bool{}
	for _, a := range la.accs {
		if a.write && !a.init {
			mutable[a.loc] = true
		}
	}
	hasMutex := func(n *types.Named) bool {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	isRef := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		return false
	}
	for _, f := range la.fns {
		if f.Object() == nil || !f.Object().Exported() || !exportedRecv(f) {
			continue
		}
		for _, ret := range returnsOf(f) {
			for _, v := range ret.Results {
				t := v.Type()
				bad := ""
				if isRef(t) {
					for _, o := range la.containerLocs(v, shared) {
						if mutable[o] {
							bad = "the shared table " + o.Name()
						}
					}
				}
				if p, ok := t.Underlying().(*types.Pointer); ok {
					if n := namedOf(p); n != nil && shared[n] && !hasMutex(n) {
						// record type with mutable fields handed out?
						if st, ok := n.Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								if mutable[st.Field(i)] {
									bad = "a record with shared mutable field " + st.Field(i).Name()
								}
							}
						}
						_ = p
					}
				}
				r.Check(bad == "", "no-internal-reference", fnName(f), la.u.InstrPos(ret), "%s returns %s", fnName(f), bad)
			}
		}
	}
}

func runLocks(w *World, r *Report, rel string, minAcq, minLoc int) *lockAnalysis {
	la := newLockAnalysis(w.Host, rel, r)
	la.checkLockset()
	la.checkDiscipline()
	la.checkNoLeak()
	r.Count("functions analysed", len(la.fns))
	r.Floor("lock acquisitions", minAcq)
	r.Floor("mutable shared locations", minLoc)
	return la
}

const lockExpl = "Static interprocedural lockset analysis (must/may locksets over SSA, entry locksets from all call sites, lock wrappers and unlock closures summarised): every location of the package that is shared (fields of types with a mutex, types reachable from them and from package variables, and the elements of their containers) and is written after construction must have one lock that is held, in write mode for writes, at every access; every acquired lock is released on every return and explicit panic; no lock is acquired while held, in two orders, or while calling caller-supplied code; no guarded container is returned."

func init() {
	register("C01", func(w *World, r *Report) {
		r.explanation = lockExpl
		r.assumptions = []string{"Instances of one type are distinguished only when both access paths are known; accesses through unknown paths are matched by lock and type.", "SetLines keeps the caller's slice by contract."}
		runLocks(w, r, "textpos", 8, 3)
	})
	register("C02", func(w *World, r *Report) {
		r.explanation = lockExpl + " In addition each insertion into the guarded table must be preceded, in the same critical section, by a comparison of the inserted name with the names in the table."
		la := runLocks(w, r, "codegen", 1, 1)
		checkClaim(la)
	})
	register("C03", func(w *World, r *Report) {
		r.explanation = lockExpl
		runLocks(w, r, "csvcoder", 3, 2)
	})
}

// checkClaim: every insertion of a record into a guarded container happens in
// the same critical section as a lookup of the inserted name.
func checkClaim(la *lockAnalysis) {
	r := la.r
	shared := la.sharedTypes()
	n := 0
	for _, f := range la.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				loc := la.locOf(s.Addr, shared)
				if loc == nil {
					continue
				}
				ap, ok := s.Val.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := ap.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				if len(la.at[in].must) == 0 {
					continue // reported by guarded-by
				}
				n++
				// the inserted record and its name
				names := la.insertedNames(ap)
				if len(names) == 0 {
					r.Bad("claim-after-lookup", fnName(f), la.u.InstrPos(in), "cannot tell which name is inserted into %s", loc.Name())
					continue
				}
				ok2 := false
				for _, nm := range names {
					found := la.lookedUp(nm, in, loc, shared)
					if len(found) == 0 {
						continue
					}
					ok2 = true
					free := false
					for _, l := range found {
						if la.freeAt(l, in) {
							free = true
						}
					}
					r.Check(free, "claim-only-if-free", fnName(f), la.u.InstrPos(in), "%s can insert into %s a name that the lookup found to be taken", fnName(f), loc.Name())
				}
				r.Check(ok2, "claim-after-lookup", fnName(f), la.u.InstrPos(in), "%s inserts into %s a name that was not looked up in the same critical section", fnName(f), loc.Name())
			}
		}
	}
	r.Count("claims", n)
	r.Floor("claims", 2)
}

// insertedNames: string values stored into the records appended.
func (la *lockAnalysis) insertedNames(ap *ssa.Call) []ssa.Value {
	var out []ssa.Value
	if len(ap.Call.Args) < 2 {
		return nil
	}
	t := &Tracer{u: la.u, Results: true, Params: true, Derive: false, Fields: true}
	seen := map[ssa.Value]bool{}
	var fields func(a ssa.Value)
	fields = func(a ssa.Value) {
		if seen[a] || a.Referrers() == nil {
			return
		}
		seen[a] = true
		for _, in := range *a.Referrers() {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				for _, in2 := range *fa.Referrers() {
					if s, ok := in2.(*ssa.Store); ok && s.Addr == fa && isStringType(s.Val.Type()) {
						out = append(out, s.Val)
					}
				}
			}
		}
	}
	t.Leaf = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.Alloc:
			fields(x)
			// variadic array holding the records
			for _, in := range *x.Referrers() {
				if ia, ok := in.(*ssa.IndexAddr); ok {
					for _, in2 := range *ia.Referrers() {
						if s, ok := in2.(*ssa.Store); ok {
							t.Trace(s.Val)
						}
					}
				}
			}
		case *ssa.Slice:
			t.Trace(x.X)
		}
	}
	t.Trace(ap.Call.Args[1])
	return out
}

// lookedUp: on every path to `at`, inside the current critical section, name is
// compared with the names in the table.
func (la *lockAnalysis) lookedUp(name ssa.Value, at ssa.Instruction, loc types.Object, shared map[*types.Named]bool) (found []ssa.Value) {
	f := at.Parent()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !dominatesInstr(in, at) || !la.sameSection(in, at) {
				continue
			}
			switch x := in.(type) {
			case *ssa.Call:
				callee := x.Call.StaticCallee()
				if callee == nil || la.eff[callee] == nil {
					continue
				}
				for i, a := range x.Call.Args {
					if sameValue(a, name) && i < len(callee.Params) && la.comparesWithTable(callee, callee.Params[i], loc, shared) {
						found = append(found, x)
					}
				}
			case *ssa.BinOp:
				_ = x
			}
		}
	}
	// inlined lookup loop: a comparison of name with a loaded string, in the section, reaching at
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			var other ssa.Value
			if sameValue(x.X, name) {
				other = x.Y
			} else if sameValue(x.Y, name) {
				other = x.X
			} else {
				continue
			}
			if la.loadedFromTable(other, loc, shared) && canReach(in, at) && la.sameSection(in, at) {
				found = append(found, x)
			}
		}
	}
	return found
}

// freeAt: whenever control gets to at, the lookup l has found the name free, or
// has found it under the blank name, which may be claimed many times.
func (la *lockAnalysis) freeAt(l ssa.Value, at ssa.Instruction) bool {
	u := la.u
	// the record the lookup found
	var rec ssa.Value = l
	var start *ssa.BasicBlock
	if b, ok := l.(*ssa.BinOp); ok { // a comparison inlined into this function
		ifi, ok := b.Block().Instrs[len(b.Block().Instrs)-1].(*ssa.If)
		if !ok || ifi.Cond != ssa.Value(b) {
			return false
		}
		start = b.Block().Succs[0]
		if b.Op == token.NEQ {
			start = b.Block().Succs[1]
		}
		for _, o := range []ssa.Value{b.X, b.Y} {
			if ld, ok := o.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					rec = fa.X
				}
			}
		}
	}
	is := func(x ssa.Value) bool {
		if x == rec {
			return true
		}
		ex, ok := x.(*ssa.Extract)
		return ok && ex.Tuple == rec
	}
	from := func(v ssa.Value, fr *frame) bool {
		hit := false
		var look func(v ssa.Value, fr *frame, d int)
		look = func(v ssa.Value, fr *frame, d int) {
			w, wf := u.inFrameV(v, fr)
			t := &Tracer{u: u, Derive: true, Fields: true, Leaf: func(ssa.Value) {}, Stop: func(x ssa.Value) bool {
				if is(x) {
					hit = true
				} else if p, ok := x.(*ssa.Parameter); ok && d < 6 && wf != nil {
					if y, _ := u.inFrameV(p, wf); y != x {
						look(p, wf, d+1)
					}
				}
				return hit
			}}
			t.Trace(w)
		}
		look(v, fr, 0)
		return hit
	}
	// found: the value is the record whenever control comes from start.
	found := func(v ssa.Value) bool {
		if start == nil {
			return false
		}
		if v == rec {
			return true
		}
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		cut := reachAvoid(start, ph.Block())
		for i, e := range ph.Edges {
			if cut[ph.Block().Preds[i]] && e != rec {
				return false
			}
		}
		return true
	}
	q := func(cond ssa.Value, val bool, fr *frame) bool {
		if c, ok := cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
			eq := (c.Op == token.EQL) == val
			for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				if k, ok := p[1].(*ssa.Const); ok && eq {
					w, _ := u.inFrameV(p[0], fr)
					if k.Value == nil && start != nil {
						if found(w) {
							return true // cannot happen
						}
					} else if from(p[0], fr) && (k.Value == nil || k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "_") {
						return true
					}
				}
			}
			return false
		}
		if b, ok := cond.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && !val {
			w, _ := u.inFrameV(cond, fr)
			return is(w)
		}
		return false
	}
	if start != nil {
		return !u.reachWithout(start, at.Block(), nil, q, 0)
	}
	return u.established(at.Block(), nil, q)
}

// reachAvoid: the blocks that can be reached from b without passing through avoid.
func reachAvoid(b, avoid *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if out[b] || b == avoid {
			return
		}
		out[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(b)
	return out
}

func (la *lockAnalysis) comparesWithTable(fn *ssa.Function, p *ssa.Parameter, loc types.Object, shared map[*types.Named]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					if x.X == p && la.loadedFromTable(x.Y, loc, shared) || x.Y == p && la.loadedFromTable(x.X, loc, shared) {
						return true
					}
				}
			case *ssa.Lookup:
				if x.Index == p {
					return true
				}
			case *ssa.Call:
				if callee := x.Call.StaticCallee(); callee != nil && la.eff[callee] != nil && callee != fn {
					for i, a := range x.Call.Args {
						if a == p && i < len(callee.Params) && la.comparesWithTable(callee, callee.Params[i], loc, shared) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// loadedFromTable: a field of a record that was loaded from the guarded container, and that is the name field.
func (la *lockAnalysis) loadedFromTable(v ssa.Value, loc types.Object, shared map[*types.Named]bool) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := namedOf(fa.X.Type())
	if n == nil || !shared[n] {
		return false
	}
	return la.isNameField(fieldVar(fa.X.Type(), fa.Field))
}

// isNameField: the record field that the public package-name accessor reports.
func (la *lockAnalysis) isNameField(v *types.Var) bool {
	m := la.u.MustMethod(la.rel, "Import", "PackageName")
	// field of Import returned by PackageName
	var pub *types.Var
	for _, ret := range returnsOf(m) {
		for _, l := range la.u.LocalLeaves(ret.Results[0]) {
			if ld, ok := l.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					pub = fieldVar(fa.X.Type(), fa.Field)
				}
			}
		}
	}
	if pub == nil {
		return false
	}
	if pub == v {
		return true
	}
	// record field copied into it
	for _, f := range la.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != pub {
					continue
				}
				if ld, ok := s.Val.(*ssa.UnOp); ok {
					if fb, ok := ld.X.(*ssa.FieldAddr); ok && fieldVar(fb.X.Type(), fb.Field) == v {
						return true
					}
				}
			}
		}
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && ca.Value != nil && cb.Value != nil {
		return ca.Value.ExactString() == cb.Value.ExactString()
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		if c := cellOf(la.X); c != nil && c == cellOf(lb.X) && len(storesTo(c)) <= 1 {
			return true
		}
	}
	return false
}

// sameSection: no release of a lock can happen between a and b.
func (la *lockAnalysis) sameSection(a, b ssa.Instruction) bool {
	if len(la.at[a].must) == 0 {
		return false
	}
	for _, blk := range a.Parent().Blocks {
		for _, in := range blk.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			op, _ := mutexOp(&c.Call)
			rel := op == "Unlock" || op == "RUnlock"
			if _, isU := la.unlockerOf(c.Call.Value, 0); isU && c.Call.StaticCallee() == nil {
				rel = true
			}
			if callee := c.Call.StaticCallee(); callee != nil && la.eff[callee] != nil && len(la.eff[callee].rel) > 0 {
				rel = true
			}
			if rel && canReach(a, in) && canReach(in, b) {
				return false
			}
		}
	}
	return true
}
