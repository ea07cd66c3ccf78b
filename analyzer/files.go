package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F01: typestate of opened files, streams and response bodies.

type fileRes struct {
	open     bool
	closed   bool
	written  bool
	handed   bool // ownership given away
	closeErr bool // the last close failed
	site     ssa.CallInstruction
}

type fileTS struct {
	res   map[int]*fileRes
	alias map[int]int // derived value -> resource
}

func (t *fileTS) clone() pts {
	n := &fileTS{res: map[int]*fileRes{}, alias: map[int]int{}}
	for k, v := range t.res {
		c := *v
		n.res[k] = &c
	}
	for k, v := range t.alias {
		n.alias[k] = v
	}
	return n
}

func (t *fileTS) roots() []int {
	var out []int
	for k := range t.res {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (t *fileTS) key(name func(int) string) string {
	var ss []string
	for _, k := range t.roots() {
		v := t.res[k]
		ss = append(ss, fmt.Sprintf("%s:%v%v%v%v%v%p", name(k), v.open, v.closed, v.written, v.handed, v.closeErr, v.site))
	}
	var as []int
	for a := range t.alias {
		as = append(as, a)
	}
	sort.Ints(as)
	for _, a := range as {
		ss = append(ss, name(a)+"~"+name(t.alias[a]))
	}
	return strings.Join(ss, " ")
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := o.(*types.Func)
	return ok && f != nil
}

func hasClose(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	f, ok := o.(*types.Func)
	if !ok {
		return false
	}
	sig := f.Type().(*types.Signature)
	return sig.Params().Len() == 0
}

// resourceType: 1 for something with Close, 2 for an HTTP response.
func resourceType(t types.Type) int {
	n := namedOf(deref(t))
	if n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "net/http":
			if n.Obj().Name() == "Response" {
				return 2
			}
		case "reflect", "context", "compress/gzip", "compress/flate", "compress/zlib", "archive/tar", "encoding/csv", "encoding/base64", "encoding/hex", "text/tabwriter", "log":
			return 0
		}
	}
	if !hasClose(t) {
		return 0
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return 1
	}
	if n != nil && n.Obj().Pkg() != nil {
		switch p := n.Obj().Pkg().Path(); {
		case p == "os", p == "net", p == "archive/zip", p == "net/http", strings.HasPrefix(p, modPath):
			return 1
		}
	}
	return 0
}

// acquires says whether a call opens something, and which result it is.
func acquires(c *ssa.CallCommon) (idx int, kind int) {
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if k := resourceType(rs.At(i).Type()); k != 0 {
			switch n := calleeName(c); {
			case strings.HasSuffix(n, ".NopCloser"), strings.HasPrefix(n, "os/exec.("), strings.HasPrefix(n, "os/exec."):
				return -1, 0
			case strings.HasPrefix(n, "os.NewFile"):
				return -1, 0
			}
			return i, k
		}
	}
	return -1, 0
}

type fileCheck struct {
	u    *Unit
	r    *Report
	root *ssa.Function
	e    *pathEng
	seen map[ssa.CallInstruction]bool
}

func (fc *fileCheck) bad(rule string, res *fileRes, at ssa.Instruction, format string, a ...interface{}) {
	callee := calleeName(res.site.Common())
	if callee == "" {
		callee = "function value"
	}
	callee = strings.ReplaceAll(callee, modPath+"/", "")
	fc.r.Bad(rule, fnName(res.site.Parent())+"|"+callee, fc.u.InstrPos(at), format, a...)
}

// resOf finds the resource a value stands for.
func (t *fileTS) resOf(v pval) (*fileRes, bool) {
	if v.k != pSym {
		return nil, false
	}
	if r := t.res[v.id]; r != nil {
		return r, true
	}
	return nil, false
}

// reachRes visits the resources inside a value.
func (fc *fileCheck) reachRes(s *pstate, v pval, seen map[int]bool, f func(r *fileRes)) {
	t := s.ts.(*fileTS)
	switch v.k {
	case pSym, pAddr:
		id := v.id
		if v.k == pAddr {
			id = v.loc.obj
		}
		if id < 0 || seen[id] {
			return
		}
		seen[id] = true
		if r := t.res[id]; r != nil && v.k == pSym {
			f(r)
		}
		if a, ok := t.alias[id]; ok && t.res[a] != nil && v.k == pSym && s.objs[id] != nil && s.objs[id].tags == "holds" {
			f(t.res[a])
		}
		var ls []ploc
		for l := range s.mem {
			if l.obj == id {
				ls = append(ls, l)
			}
		}
		for _, l := range ls {
			fc.reachRes(s, s.mem[l], seen, f)
		}
	case pFunc, pTuple:
		for _, p := range v.parts {
			fc.reachRes(s, p, seen, f)
		}
	}
}

func (fc *fileCheck) handOver(s *pstate, v pval) {
	fc.reachRes(s, v, map[int]bool{}, func(r *fileRes) { r.handed = true })
}

func ifaceHas(t types.Type, m string) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == m {
			return true
		}
	}
	return false
}

func (fc *fileCheck) call(e *pathEng, s *pstate, in ssa.CallInstruction, args []pval) ([]*pstate, bool) {
	cc := in.Common()
	t := s.ts.(*fileTS)
	name := calleeName(cc)
	mname := ""
	if cc.IsInvoke() {
		mname = cc.Method.Name()
	} else if fn := cc.StaticCallee(); fn != nil && fn.Signature.Recv() != nil {
		mname = fn.Name()
	}
	// close
	if mname == "Close" && len(args) == 1 {
		if r, ok := t.resOf(args[0]); ok {
			var outs []*pstate
			rs := cc.Signature().Results()
			for _, fail := range []bool{false, true} {
				if fail && (rs.Len() != 1 || !isError(rs.At(0).Type())) {
					continue
				}
				o := s.clone()
				or := o.ts.(*fileTS).res[args[0].id]
				or.open, or.closed, or.closeErr = false, true, fail
				_ = r
				if c, ok := in.(*ssa.Call); ok {
					if fail {
						e.setResult(o, in, e.nonNil(o, c))
					} else {
						e.setResult(o, in, pval{k: pNil})
					}
				}
				outs = append(outs, o)
			}
			return outs, true
		}
	}
	// uses
	sig := cc.Signature()
	for i, a := range args {
		var r *fileRes
		if x, ok := t.resOf(a); ok {
			r = x
		} else if a.k == pSym {
			if id, ok := t.alias[a.id]; ok {
				r = t.res[id]
			}
		}
		if r == nil {
			continue
		}
		if r.closed && !r.handed && mname != "Name" && mname != "Close" && !isLogCall(name) && !pureFormat(name) {
			fc.bad("use-after-close", r, in, "%s: what was opened is still used by %s after it was closed", fnName(in.Parent()), strings.ReplaceAll(callName(in), modPath+"/", ""))
		}
		if strings.HasPrefix(mname, "Write") && i == 0 || mname == "ReadFrom" && i == 0 || mname == "Truncate" && i == 0 {
			r.written = true
		}
		pi := i
		if cc.IsInvoke() || sig.Recv() != nil {
			pi = i - 1
		}
		if pi >= 0 && pi < sig.Params().Len() {
			pt := sig.Params().At(pi).Type()
			if ifaceHas(pt, "Write") && !ifaceHas(pt, "Read") {
				r.written = true
			}
		}
		if name == "net/http.Serve" || name == "net/http.(Server).Serve" || name == "net/http.ServeTLS" {
			r.handed = true
		}
	}
	idx, kind := acquires(cc)
	if idx < 0 {
		// what wraps an open file needs it open
		if fn := cc.StaticCallee(); fn != nil && !inRepo(fn) && !exits(e.u, cc) {
			src := 0
			for _, a := range args {
				if _, ok := t.resOf(a); ok {
					src = a.id
				} else if id, ok := t.alias[a.id]; ok && a.k == pSym {
					src = id
				}
			}
			if c, ok := in.(*ssa.Call); ok && src != 0 {
				e.opaque(s, in, fn, args)
				v := s.top().env[c]
				ps := v.parts
				if v.k != pTuple {
					ps = []pval{v}
				}
				for i, p := range ps {
					if p.k != pSym || isError(sig.Results().At(i).Type()) {
						continue
					}
					switch sig.Results().At(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface:
						t.alias[p.id] = src
					}
				}
				return []*pstate{s}, true
			}
		}
		return nil, false
	}
	if fn := cc.StaticCallee(); fn != nil && inRepo(fn) && len(fn.Blocks) > 0 && !e.u.Generated(fn) {
		busy := false
		for _, f := range s.frames {
			busy = busy || f.fn == fn
		}
		if !busy {
			return nil, false // analysed inline
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	fc.seen[in] = true
	var outs []*pstate
	rs := sig.Results()
	ei := errResultIndex(sig)
	for _, fail := range []bool{false, true} {
		if fail && ei < 0 {
			continue
		}
		o := s.clone()
		for _, a := range args {
			e.havoc(o, a, map[int]bool{})
		}
		ot := o.ts.(*fileTS)
		var vals []pval
		for i := 0; i < rs.Len(); i++ {
			switch {
			case i == ei && fail:
				vals = append(vals, e.nonNil(o, c))
			case i == ei:
				vals = append(vals, pval{k: pNil})
			case i == idx && fail:
				vals = append(vals, e.fresh(o, c))
			case i == idx:
				v := e.nonNil(o, c)
				r := v
				if kind == 2 {
					st := deref(rs.At(i).Type()).Underlying().(*types.Struct)
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == "Body" {
							r = e.nonNil(o, c)
							o.mem[ploc{v.id, fmt.Sprintf(".%d", j)}] = r
						}
					}
				}
				ot.res[r.id] = &fileRes{open: true, site: in, written: opensForWriting(cc, rs.At(i).Type())}
				vals = append(vals, v)
			default:
				vals = append(vals, e.fresh(o, c))
			}
		}
		e.setResult(o, in, vals...)
		outs = append(outs, o)
	}
	return outs, true
}

func opensForWriting(cc *ssa.CallCommon, t types.Type) bool {
	switch calleeName(cc) {
	case "os.Create", "os.CreateTemp", "io/ioutil.TempFile":
		return true
	case "os.OpenFile":
		if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil {
			if n, ok := constant.Int64Val(k.Value); ok {
				return n&3 != 0
			}
		}
		return true
	}
	_, isIface := t.Underlying().(*types.Interface)
	return isIface && ifaceHas(t, "Write") && !ifaceHas(t, "Read")
}

func (fc *fileCheck) instr(e *pathEng, s *pstate, in ssa.Instruction) {
	t := s.ts.(*fileTS)
	if len(t.res) == 0 {
		return
	}
	switch x := in.(type) {
	case *ssa.Store:
		a := e.get(s, x.Addr)
		local := false
		if a.k == pAddr && a.loc.obj >= 0 {
			if o := s.objs[a.loc.obj]; o != nil {
				_, local = o.site.(*ssa.Alloc)
			}
		}
		if !local {
			fc.handOver(s, e.get(s, x.Val))
		}
	case *ssa.Send:
		fc.handOver(s, e.get(s, x.X))
	case *ssa.MapUpdate:
		fc.handOver(s, e.get(s, x.Value))
	case *ssa.Go:
		for _, a := range e.args(s, &x.Call) {
			fc.handOver(s, a)
		}
		fc.handOver(s, e.get(s, x.Call.Value))
	}
}

func (fc *fileCheck) ret(e *pathEng, s *pstate, in *ssa.Return, vals []pval) {
	if len(s.frames) != 1 {
		return
	}
	t := s.ts.(*fileTS)
	fn := s.top().fn
	var out []*fileRes
	for _, v := range vals {
		fc.reachRes(s, s.resolve(v), map[int]bool{}, func(r *fileRes) { out = append(out, r) })
	}
	ei := errResultIndex(fn.Signature)
	failing := ei >= 0 && s.isNil(vals[ei]) == -1
	for _, r := range out {
		if r.closed && !failing {
			fc.bad("use-after-close", r, in, "%s returns something that is already closed", fnName(fn))
		}
		r.handed = true
	}
	for _, id := range t.roots() {
		r := t.res[id]
		if r.open && !r.handed {
			fc.bad("closed-on-every-way-out", r, r.site, "%s: what is opened here is neither closed nor handed on when the function returns (%s)", fnName(r.site.Parent()), fc.u.InstrPos(in))
		}
		if r.closed && r.closeErr && r.written && !failing {
			fc.bad("close-failure-reported", r, r.site, "%s: the file was written to, but when closing it fails the function can still return success (%s)", fnName(r.site.Parent()), fc.u.InstrPos(in))
		}
	}
}

func checkFiles(u *Unit, r *Report, fs []*ssa.Function) {
	for _, f := range fs {
		var sites []ssa.CallInstruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if i, _ := acquires(c.Common()); i >= 0 {
						sites = append(sites, c)
						if _, ok := c.(*ssa.Call); !ok {
							r.Bad("closed-on-every-way-out", fnName(f), u.InstrPos(in), "what a deferred or concurrent call opens is never closed")
						}
					}
				}
			}
		}
		if len(sites) == 0 {
			continue
		}
		fc := &fileCheck{u: u, r: r, root: f, seen: map[ssa.CallInstruction]bool{}}
		e := newPathEng(u, pclient{call: fc.call, instr: fc.instr, ret: fc.ret})
		fc.e = e
		n := len(r.findings)
		if !e.run(f, &fileTS{res: map[int]*fileRes{}, alias: map[int]int{}}, nil) {
			r.Bad("undecided", fnName(f), u.Pos(f.Pos()), "the ways through this function could not be enumerated within %d states", e.limit)
		}
		r.Count("functions that open something", 1)
		r.Count("abstract states", e.states)
		r.Count("instructions followed", e.inst)
		for range sites {
			r.Count("opening calls", 1)
			if len(r.findings) == n {
				r.OK("closed-on-every-way-out", "%s %s", fnName(f), u.Pos(f.Pos()))
			}
		}
	}
	r.Count("functions", len(fs))
}

func init() {
	register("F01", func(w *World, r *Report) {
		r.explanation = "Typestate analysis (open, written, closed, handed on) of every call, in the libraries and the commands on both platforms, that returns a file, a stream with a Close method or an HTTP response: all ways through the opening function are followed over the SSA with helpers and deferred functions analysed inline; at each return what was opened must be closed or handed on (returned, stored outside the function, given to another goroutine), nothing closed may be used, and when something written to fails to close the function must return an error."
		r.assumptions = []string{"Closing a response means closing its Body.", "Panics raised by callees are not followed.", "Files written by ioutil.WriteFile and read by ioutil.ReadFile are opened and closed by the standard library."}
		checkFiles(w.Host, r, append(append([]*ssa.Function(nil), w.Host.LibFuncs()...), w.Host.MainFuncs()...))
		checkFiles(w.Wasm, r, w.Wasm.MainFuncs())
		r.Floor("functions", 400)
		r.Floor("opening calls", 3)
	})
}
