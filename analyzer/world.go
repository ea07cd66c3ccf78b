package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/google/xtoproto"

// World is the resolved program under analysis: every non-test package of the
// repository for the host platform, plus (separately) the js/wasm playground.
type World struct {
	Repo string
	Host *Unit
	Wasm *Unit
}

// Unit is one consistently type-checked set of packages.
type Unit struct {
	Name  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path relative to module ("" not used)
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every source function and closure of the repo packages, sorted by position
	repo  string
	// callers of each repo function (static calls only) and dynamic sites
	callers map[*ssa.Function][]ssa.CallInstruction
	refs    map[*ssa.Function][]ssa.Instruction // non-call references
	byObj   map[types.Object]*ssa.Function
	lits    map[*ssa.Function]ast.Node
	edges   *dynEdges
	errCtor map[*ssa.Function]int
	globalIdx map[string]*ssa.Global
	gstores   map[*ssa.Global][]*ssa.Store
	gtaken    map[*ssa.Global]bool
	gupdated  map[*ssa.Global]bool
}

type fatal struct{ msg string }

func fatalf(format string, a ...interface{}) { panic(fatal{fmt.Sprintf(format, a...)}) }

func goEnv(extra ...string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED", "GOROOT":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	return append(env, extra...)
}

func loadUnit(repo, name string, env []string, patterns ...string) *Unit {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:   repo,
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatalf("cannot load packages of %s: %v", repo, err)
	}
	u := &Unit{Name: name, Fset: cfg.Fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, repo: repo}
	var bad []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			bad = append(bad, fmt.Sprintf("%s: %v", p.PkgPath, e))
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		if len(bad) > 10 {
			bad = bad[:10]
		}
		fatalf("the repository does not type-check (%s): %s", name, strings.Join(bad, "; "))
	}
	if len(pkgs) == 0 {
		fatalf("no packages loaded for %v", patterns)
	}
	u.Fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	u.Prog = prog
	for i, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		u.Pkgs[rel] = p
		if spkgs[i] == nil {
			fatalf("no SSA for package %s", p.PkgPath)
		}
		u.SSA[rel] = spkgs[i]
	}
	u.index()
	return u
}

func (u *Unit) index() {
	u.callers = map[*ssa.Function][]ssa.CallInstruction{}
	u.refs = map[*ssa.Function][]ssa.Instruction{}
	u.byObj = map[types.Object]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil && f.Synthetic == "" {
			return
		}
		seen[f] = true
		u.Funcs = append(u.Funcs, f)
		if f.Object() != nil {
			u.byObj[f.Object()] = f
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	rels := make([]string, 0, len(u.SSA))
	for rel := range u.SSA {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sp := u.SSA[rel]
		names := make([]string, 0)
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					add(u.Prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						u.callers[callee] = append(u.callers[callee], c)
					}
				}
				var ops [16]*ssa.Value
				for i, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && callee == fn && c.Common().Value == fn && i == 0 {
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							// closures are tracked through the MakeClosure value
							u.refs[fn] = append(u.refs[fn], in)
							continue
						}
						u.refs[fn] = append(u.refs[fn], in)
					}
				}
			}
		}
	}
}

// Load type-checks the repository's working tree.
func Load(repo string, wasm bool) *World {
	w := &World{Repo: repo}
	w.Host = loadUnit(repo, "host", goEnv("CGO_ENABLED=1"), "./...")
	if wasm {
		w.Wasm = loadUnit(repo, "js/wasm", goEnv("GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0"), "./playground")
	}
	return w
}

func (u *Unit) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pos := u.Fset.Position(p)
	f := pos.Filename
	if r, err := filepath.Rel(u.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, pos.Line)
}

// InstrPos finds the best position for an instruction.
func (u *Unit) InstrPos(in ssa.Instruction) string {
	if p := in.Pos(); p.IsValid() {
		return u.Pos(p)
	}
	// fall back on neighbours
	b := in.Block()
	idx := -1
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	for d := 1; d < len(b.Instrs); d++ {
		for _, j := range []int{idx - d, idx + d} {
			if j >= 0 && j < len(b.Instrs) && b.Instrs[j].Pos().IsValid() {
				return u.Pos(b.Instrs[j].Pos())
			}
		}
	}
	return u.Pos(in.Parent().Pos())
}

// FileOf is the repo-relative file of a position.
func (u *Unit) FileOf(p token.Pos) string {
	s := u.Pos(p)
	if i := strings.LastIndex(s, ":"); i >= 0 {
		return s[:i]
	}
	return s
}

// relPkg is the module-relative path of a package, and whether it is in the module.
func relPkg(p *types.Package) (string, bool) {
	if p == nil {
		return "", false
	}
	if p.Path() == modPath {
		return "", true
	}
	if strings.HasPrefix(p.Path(), modPath+"/") {
		return p.Path()[len(modPath)+1:], true
	}
	return p.Path(), false
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		r, _ := relPkg(f.Pkg.Pkg)
		return r
	}
	if f.Object() != nil {
		r, _ := relPkg(f.Object().Pkg())
		return r
	}
	return ""
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		_, ok := relPkg(f.Pkg.Pkg)
		return ok
	}
	if f.Object() != nil {
		_, ok := relPkg(f.Object().Pkg())
		return ok
	}
	return false
}

// fnName is a stable human name: pkg.Func, pkg.(*T).M, pkg.Func$1.
func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// Generated reports whether the file of f is generated protobuf code.
func (u *Unit) Generated(f *ssa.Function) bool {
	return strings.HasSuffix(u.FileOf(f.Pos()), ".pb.go") || f.Pos() == token.NoPos
}

// IsMainPkg reports whether the package is a command.
func (u *Unit) IsMainPkg(rel string) bool {
	p := u.Pkgs[rel]
	return p != nil && p.Name == "main"
}

// LibFuncs are source functions of the non-command, non-generated packages.
func (u *Unit) LibFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range u.Funcs {
		rel := fnPkg(f)
		if !inRepo(f) || u.IsMainPkg(rel) || u.Generated(f) || strings.HasPrefix(rel, "examples/") || strings.HasPrefix(rel, "proto/") {
			continue
		}
		out = append(out, f)
	}
	return out
}

// MainFuncs are source functions of the command packages.
func (u *Unit) MainFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range u.Funcs {
		if inRepo(f) && u.IsMainPkg(fnPkg(f)) && !u.Generated(f) {
			out = append(out, f)
		}
	}
	return out
}

// PkgFuncs are the source functions of the given packages (module-relative).
func (u *Unit) PkgFuncs(rels ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, r := range rels {
		want[r] = true
		if u.Pkgs[r] == nil {
			fatalf("package %s is missing", r)
		}
	}
	var out []*ssa.Function
	for _, f := range u.Funcs {
		if want[fnPkg(f)] && !u.Generated(f) {
			out = append(out, f)
		}
	}
	return out
}

// Func finds a package-level function, or nil.
func (u *Unit) Func(rel, name string) *ssa.Function {
	sp := u.SSA[rel]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds a method by receiver type name (without *), or nil.
func (u *Unit) Method(rel, typ, name string) *ssa.Function {
	sp := u.SSA[rel]
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	named, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if named.Method(i).Name() == name {
			return u.Prog.FuncValue(named.Method(i))
		}
	}
	return nil
}

// MustFunc and MustMethod find exported anchors; a missing exported anchor is
// an unresolved anchor, reported as such.
func (u *Unit) MustFunc(rel, name string) *ssa.Function {
	f := u.Func(rel, name)
	if f == nil {
		fatalf("anchor %s.%s not found", rel, name)
	}
	return f
}
func (u *Unit) MustMethod(rel, typ, name string) *ssa.Function {
	f := u.Method(rel, typ, name)
	if f == nil {
		fatalf("anchor %s.(%s).%s not found", rel, typ, name)
	}
	return f
}

// calleeName gives "pkgpath.Func" or "pkgpath.(T).Method" for static callees
// and interface method calls; "" for calls of function values.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return objName(c.Method)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Object() != nil {
			return objName(f.Object())
		}
		return f.String()
	}
	return ""
}

// objName gives "pkgpath.Name" or "pkgpath.(T).Name" of a function object.
func objName(o types.Object) string {
	fn, ok := o.(*types.Func)
	if !ok {
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path()
			}
			return pk + ".(" + n.Obj().Name() + ")." + fn.Name()
		}
		if _, ok := t.Underlying().(*types.Interface); ok && fn.Pkg() != nil {
			return fn.Pkg().Path() + ".(interface)." + fn.Name()
		}
		return "." + fn.Name()
	}
	if fn.Pkg() == nil {
		return fn.Name()
	}
	return fn.Pkg().Path() + "." + fn.Name()
}

func callName(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		return calleeName(c.Common())
	}
	return ""
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	n, _ := deref(types.Unalias(t)).(*types.Named)
	return n
}

func typeIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func eachInstr(fs []*ssa.Function, f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range fs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}
