package main

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: a who-may-reference rule over resolved objects. Any reference (call,
// method value, stored function) to an effectful object counts.

// effectPkgs are packages whose objects are effectful unless listed in pureObjs.
var effectPkgs = map[string]bool{
	"os": true, "io/ioutil": true, "os/exec": true, "os/signal": true, "os/user": true, "syscall": true, "net": true,
	"net/http": true, "net/rpc": true, "net/smtp": true, "log": true, "log/slog": true, "log/syslog": true, "flag": true, "plugin": true, "runtime": true,
	"runtime/debug": true, "unsafe": true, "github.com/golang/glog": true, "syscall/js": true, "expvar": true, "net/http/pprof": true,
	"path/filepath": true, "embed": true, "io/fs": true, "testing": true, "crypto/tls": true, "database/sql": true, "os/signal/internal": true,
	"github.com/bazelbuild/rules_go/go/tools/bazel": true, "golang.org/x/sys/unix": true, "internal/poll": true, "mime": true, "html/template": true,
	"go/build": true, "archive/zip": true, "golang.org/x/exp": true,
}

var pureObjs = map[string]bool{
	"os.IsNotExist": true, "os.IsPermission": true, "os.IsExist": true, "os.IsTimeout": true,
	"os.ErrNotExist": true, "os.ErrPermission": true, "os.ErrExist": true, "os.ErrInvalid": true, "os.ErrClosed": true, "os.FileInfo": true, "os.FileMode": true,
	"os.PathError": true, "os.PathSeparator": true,
	"os.(PathError).Error": true, "os.(PathError).Unwrap": true,
	"path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.IsAbs": true, "path/filepath.Base": true, "path/filepath.Dir": true,
	"path/filepath.Ext": true, "path/filepath.Rel": true, "path/filepath.Split": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true,
	"path/filepath.IsLocal": true, "path/filepath.Match": true, "path/filepath.SplitList": true, "path/filepath.VolumeName": true,
	"path/filepath.Separator": true,
	"io/fs.ErrNotExist":       true, "io/fs.ErrPermission": true, "io/fs.ErrExist": true, "io/fs.ValidPath": true, "io/fs.FileInfo": true, "io/fs.FileMode": true,
	"io/fs.PathError": true, "io/fs.File": true, "io/fs.FS": true,
	"net/http.StatusOK": true, "unsafe.Pointer": true, "runtime.Error": true, "runtime.(Error).Error": true, "runtime.(Error).RuntimeError": true,
}

// effectObjs are effectful objects of otherwise pure packages.
var effectObjs = map[string]string{
	"fmt.Print": "prints to standard output", "fmt.Printf": "prints to standard output", "fmt.Println": "prints to standard output",
	"fmt.Scan": "reads standard input", "fmt.Scanf": "reads standard input", "fmt.Scanln": "reads standard input",
	"text/template.ParseFiles": "reads files", "text/template.ParseGlob": "reads files", "text/template.(Template).ParseFiles": "reads files", "text/template.(Template).ParseGlob": "reads files",
	"text/template.ParseFS": "reads files", "go/parser.ParseDir": "reads files",
	"os.Exit":        "ends the process",
	"time.AfterFunc": "starts a goroutine", "context.AfterFunc": "starts a goroutine",
}

func effectOf(o types.Object) (string, bool) {
	if o == nil {
		return "", false
	}
	if b, ok := o.(*types.Builtin); ok {
		if b.Name() == "print" || b.Name() == "println" {
			return "builtin " + b.Name(), true
		}
		return "", false
	}
	if o.Pkg() == nil {
		return "", false
	}
	if _, ok := o.(*types.PkgName); ok {
		return "", false
	}
	n := objName(o)
	if _, ok := effectObjs[n]; ok {
		return n, true
	}
	if o.Pkg().Path() == "github.com/golang/glog" {
		for _, p := range []string{"Info", "Warning", "Error", "V"} {
			if strings.HasPrefix(o.Name(), p) && !strings.Contains(o.Name(), "Fatal") && !strings.Contains(o.Name(), "Exit") {
				return "", false // diagnostic log lines
			}
		}
		if strings.HasPrefix(n, "github.com/golang/glog.(Verbose).") {
			return "", false
		}
	}
	if effectPkgs[o.Pkg().Path()] && !pureObjs[n] {
		// struct fields and constants, and types, have no effect by themselves
		switch o := o.(type) {
		case *types.Var:
			if o.IsField() {
				return "", false
			}
		case *types.Const, *types.TypeName:
			return "", false
		}
		return n, true
	}
	return "", false
}

// effectUses lists references to effectful objects in a package's sources.
type effectUse struct {
	what, pos, fn string
}

func (u *Unit) effectUses(rel string) (uses []effectUse, idents int) {
	p := u.Pkgs[rel]
	for _, f := range p.Syntax {
		if strings.HasSuffix(u.FileOf(f.Pos()), ".pb.go") {
			continue
		}
		for _, d := range f.Decls {
			fn := "package-level declaration"
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.Ident:
					idents++
					if o := p.TypesInfo.Uses[x]; o != nil {
						if what, bad := effectOf(o); bad {
							uses = append(uses, effectUse{what, u.Pos(x.Pos()), rel + "." + fn})
						}
					}
				case *ast.GoStmt:
					uses = append(uses, effectUse{"go statement", u.Pos(x.Pos()), rel + "." + fn})
				case *ast.ImportSpec:
				}
				return true
			})
		}
		for _, imp := range f.Imports {
			path := strings.Trim(imp.Path.Value, `"`)
			if imp.Name != nil && (imp.Name.Name == "_" || imp.Name.Name == ".") {
				if imp.Name.Name == "_" && (path == "net/http/pprof" || path == "expvar" || path == "plugin" || path == "C" || path == "unsafe") {
					uses = append(uses, effectUse{"import of " + path, u.Pos(imp.Pos()), rel})
				}
			}
			if path == "C" {
				uses = append(uses, effectUse{"cgo", u.Pos(imp.Pos()), rel})
			}
		}
	}
	return
}

func (u *Unit) libPkgs() []string {
	var out []string
	for rel := range u.Pkgs {
		if u.IsMainPkg(rel) || strings.HasPrefix(rel, "examples") || strings.HasPrefix(rel, "proto/") || strings.HasPrefix(rel, "third_party") || strings.HasSuffix(rel, "testproto") {
			continue
		}
		// generated converters are outputs, not code under analysis
		out = append(out, rel)
	}
	sort.Strings(out)
	return out
}

func init() {
	register("E03", func(w *World, r *Report) {
		r.explanation = "Resolved who-may-reference rule: every identifier of every library package (all packages that are not commands, generated protobuf code or examples) is resolved through the type checker; a reference to an object that ends the process, does I/O on its own, changes process-wide state, prints, or starts a goroutine is a violation. Both platforms of the build are loaded; library packages are platform independent."
		r.assumptions = []string{"Third-party and standard packages outside the effect list (strings, regexp, reflect, protobuf runtime, ...) have no such effects.", "time.LoadLocation may read the time zone database; that is part of the time package's contract."}
		u := w.Host
		var files int
		for _, rel := range u.libPkgs() {
			uses, n := u.effectUses(rel)
			files += len(u.Pkgs[rel].Syntax)
			r.Count("identifiers resolved", n)
			r.Count("library packages", 1)
			if len(uses) == 0 {
				r.OK("no-process-effect", "%s (%d identifiers)", rel, n)
			}
			for _, us := range uses {
				r.Bad("no-process-effect", us.fn+"|"+us.what, us.pos, "library code references %s", us.what)
			}
		}
		r.Count("source files", files)
		r.Floor("library packages", 18)
		r.Floor("identifiers resolved", 5000)
		// goroutines in SSA as a cross-check, and writes to other packages' variables
		for _, f := range u.LibFuncs() {
			r.Count("functions", 1)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := rootOf(s.Addr).(*ssa.Global); ok && g.Pkg != nil {
							if rp, in := relPkg(g.Pkg.Pkg); !in || rp != fnPkg(f) {
								r.Bad("no-foreign-globals", fnName(f)+"|"+g.String(), u.InstrPos(s), "writes package variable %s of another package", g.String())
							}
						}
					}
				}
			}
		}
		selfTestEffects(r)
	})
	register("S01", func(w *World, r *Report) {
		r.explanation = "Call-graph rule: starting from every method of the service implementation (and everything it can reach in the repository through static calls, closures and interface calls), each referenced object is resolved; file, process, network, environment, flag and print effects are violations, so the only way to a file is the two function values given to the constructor. The constructor must store exactly its arguments in the fields the methods call."
		u := w.Host
		roots := u.serviceRoots()
		r.Count("service entry points", len(roots))
		r.Floor("service entry points", 2)
		seen := u.reachableFrom(roots...)
		// package initialisers of the packages involved also run on behalf of the service
		pkgs := map[string]bool{}
		for f := range seen {
			if inRepo(f) {
				pkgs[fnPkg(f)] = true
			}
		}
		var names []*ssa.Function
		for f := range seen {
			if inRepo(f) && !u.Generated(f) {
				names = append(names, f)
			}
		}
		sort.Slice(names, func(i, j int) bool { return fnName(names[i]) < fnName(names[j]) })
		r.Count("functions reachable from the service", len(names))
		r.Floor("functions reachable from the service", 25)
		for _, f := range names {
			bad := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range referencedObjs(in) {
						if what, isBad := effectOf(o); isBad {
							bad++
							r.Bad("only-host-file-access", fnName(f)+"|"+what, u.InstrPos(in), "%s, reachable from the service, references %s", fnName(f), what)
						}
					}
					if _, ok := in.(*ssa.Go); ok {
						bad++
						r.Bad("only-host-file-access", fnName(f)+"|go", u.InstrPos(in), "%s, reachable from the service, starts a goroutine", fnName(f))
					}
				}
			}
			if bad == 0 {
				r.OK("only-host-file-access", "%s", fnName(f))
			}
		}
		var prs []string
		for rel := range pkgs {
			prs = append(prs, rel)
		}
		sort.Strings(prs)
		for _, rel := range prs {
			if strings.HasPrefix(rel, "proto/") {
				continue
			}
			uses, _ := u.effectUses(rel)
			n := 0
			for _, us := range uses {
				n++
				r.Bad("no-effect-in-service-package", us.fn+"|"+us.what, us.pos, "package %s, which the service is built on, references %s", rel, us.what)
			}
			if n == 0 {
				r.OK("no-effect-in-service-package", "%s", rel)
			}
		}
		// the handlers that are called are the ones that were injected
		checkInjected(u, r)
		selfTestEffects(r)
	})
}

// selfTestEffects keeps the zero-count rule honest: the same classifier must
// recognise effectful objects on synthetic references.
func selfTestEffects(r *Report) {
	for _, n := range []string{"ReadFile", "Exit", "Stdout"} {
		o := types.NewFunc(0, types.NewPackage("os", "os"), n, types.NewSignatureType(nil, nil, nil, nil, nil, false))
		_, bad := effectOf(o)
		r.Check(bad, "self-test", "os."+n, "-", "the effect classifier no longer recognises os.%s", n)
	}
	o := types.NewFunc(0, types.NewPackage("os", "os"), "IsNotExist", types.NewSignatureType(nil, nil, nil, nil, nil, false))
	_, bad := effectOf(o)
	r.Check(!bad, "self-test", "os.IsNotExist", "-", "the effect classifier flags a pure function")
}

func referencedObjs(in ssa.Instruction) []types.Object {
	var out []types.Object
	var ops [16]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if op == nil || *op == nil {
			continue
		}
		switch x := (*op).(type) {
		case *ssa.Function:
			if x.Object() != nil {
				out = append(out, x.Object())
			}
		case *ssa.Global:
			if x.Object() != nil {
				out = append(out, x.Object())
			}
		case *ssa.Builtin:
			if x.Name() == "print" || x.Name() == "println" {
				out = append(out, x.Object())
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
		out = append(out, c.Common().Method)
	}
	return out
}

// rootOf walks address computations to their base.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// serviceRoots are the methods of the type that implements the generated
// server interface, found through that interface.
func (u *Unit) serviceRoots() []*ssa.Function {
	p := u.Pkgs["proto/service"]
	if p == nil {
		fatalf("package proto/service is missing")
	}
	o := p.Types.Scope().Lookup("XToProtoServiceServer")
	if o == nil {
		fatalf("server interface not found")
	}
	it := o.Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, f := range u.PkgFuncs("service") {
		if f.Signature.Recv() == nil || f.Object() == nil {
			continue
		}
		rt := f.Signature.Recv().Type()
		if !types.Implements(rt, it) {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == f.Name() {
				out = append(out, f)
			}
		}
	}
	return out
}

// handlerCall classifies a dynamic call as a use of the injected reader
// ("read") or writer ("write") by the type of the function value.
func handlerCall(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
		return ""
	}
	switch {
	case isHandlerType(c.Common().Value.Type(), "FileReaderFunc"):
		return "read"
	case isHandlerType(c.Common().Value.Type(), "FileWriterFunc"):
		return "write"
	}
	return ""
}

func isHandlerType(t types.Type, name string) bool {
	if typeIs(t, modPath+"/service", name) {
		return true
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() < 2 {
		return false
	}
	// the underlying signatures are also accepted: (ctx, string) ([]byte, error) and (ctx, string, []byte) error
	if !typeIs(sig.Params().At(0).Type(), "context", "Context") || !isStringType(sig.Params().At(1).Type()) {
		return false
	}
	switch name {
	case "FileReaderFunc":
		return sig.Params().Len() == 2 && sig.Results().Len() == 2 && isStringOrBytes(sig.Results().At(0).Type()) && isError(sig.Results().At(1).Type())
	case "FileWriterFunc":
		return sig.Params().Len() == 3 && isStringOrBytes(sig.Params().At(2).Type()) && sig.Results().Len() == 1 && isError(sig.Results().At(0).Type())
	}
	return false
}

func checkInjected(u *Unit, r *Report) {
	nw := u.MustFunc("service", "New")
	// every handler call's function value must be a field of the service object
	reads, writes := 0, 0
	fields := map[string]map[int]bool{"read": {}, "write": {}}
	for _, f := range u.PkgFuncs("service") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k := handlerCall(in)
				if k == "" {
					continue
				}
				if k == "read" {
					reads++
				} else {
					writes++
				}
				c := in.(ssa.CallInstruction).Common()
				for _, l := range u.Leaves(c.Value) {
					fi := -1
					switch x := l.(type) {
					case *ssa.UnOp:
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							fi = fa.Field
						}
					case *ssa.Field:
						fi = x.Field
					}
					if fi < 0 {
						r.Bad("handler-is-injected", fnName(f)+"|"+k, u.InstrPos(in), "the %s handler called here is not the one given to the constructor", k)
						continue
					}
					fields[k][fi] = true
					r.OK("handler-is-injected", "%s %s", fnName(f), u.InstrPos(in))
				}
			}
		}
	}
	r.Count("reader call sites", reads)
	r.Count("writer call sites", writes)
	r.Floor("reader call sites", 1)
	r.Floor("writer call sites", 1)
	// no store to those fields outside the constructor, and the constructor stores its parameters
	for _, f := range u.PkgFuncs("service") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, k := range []string{"read", "write"} {
					name := map[string]string{"read": "FileReaderFunc", "write": "FileWriterFunc"}[k]
					if !isHandlerType(s.Val.Type(), name) {
						continue
					}
					good := true
					for _, l := range u.LocalLeaves(s.Val) {
						p, ok := l.(*ssa.Parameter)
						if !ok || p.Parent() != nw && !(p.Parent().Object() != nil && p.Parent().Object().Exported()) {
							good = false
						}
					}
					_ = fa
					r.Check(good, "handler-stored-unchanged", fnName(f)+"|"+k, u.InstrPos(s), "the stored %s handler is not the function the host supplied", k)
				}
			}
		}
	}
}
