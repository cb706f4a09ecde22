package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/grafana/thema"

// Program is the type-checked, SSA-form view of /repo's current source.
type Program struct {
	optFields map[string]string // by option: the field it sets
	dir       string
	fset      *token.FileSet
	pkgs      []*packages.Package // packages of the module
	prog      *ssa.Program
	spkgs     map[string]*ssa.Package // by import path
	funcs     []*ssa.Function         // every function with a body in the module (incl. closures)
	byKey     map[string]*ssa.Function

	canon  map[string]*ssa.Function
	wparam map[string]bool

	gstores map[*ssa.Global][]*ssa.Store
	all     []*ssa.Function
	callees map[*ssa.Function][]*ssa.Function
	recur   map[*ssa.Function]bool
	roles   roles
	fnv     *fnValues
}

// loadError is a failure that makes the analysis undecided.
type loadError struct{ msg string }

func (e loadError) Error() string { return e.msg }

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		p := k + "="
		for i, e := range env {
			if strings.HasPrefix(e, p) {
				env[i] = p + v
				return
			}
		}
		env = append(env, p+v)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.23.12/bin/go"); err == nil {
		path = "/opt/veriftools/go1.23.12/bin:" + path
	}
	set("PATH", path)
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("GOTOOLCHAIN", "local")
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOWORK", "off")
	set("GOSUMDB", "off")
	set("CGO_ENABLED", "0")
	return env
}

func loadProgram(dir string) (*Program, error) {
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	env := goEnv()
	os.Setenv("PATH", envGet(env, "PATH")) // exec.LookPath consults our own environment
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   abs,
		Env:   env,
		Fset:  fset,
		Tests: false,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			if strings.HasPrefix(filename, abs+string(filepath.Separator)) {
				return parser.ParseFile(fset, filename, src, parser.ParseComments|parser.AllErrors)
			}
			// Dependencies are only needed for their declarations.
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			if f != nil {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, loadError{"go/packages: " + err.Error()}
	}
	p := &Program{dir: abs, fset: fset, spkgs: map[string]*ssa.Package{}, byKey: map[string]*ssa.Function{}}
	var bad []string
	for _, pk := range pkgs {
		if !inModule(pk.PkgPath) {
			continue
		}
		for _, e := range pk.Errors {
			if e.Kind == packages.ListError && strings.Contains(e.Msg, "build constraints exclude") {
				continue
			}
			bad = append(bad, e.Error())
		}
		if pk.Types == nil || len(pk.Syntax) == 0 {
			continue
		}
		p.pkgs = append(p.pkgs, pk)
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		if len(bad) > 5 {
			bad = bad[:5]
		}
		return nil, loadError{"the module does not type-check: " + strings.Join(bad, "; ")}
	}
	if len(p.pkgs) == 0 {
		return nil, loadError{"no packages of " + modPath + " found in " + abs}
	}
	// Dependencies are loaded without function bodies, which the type checker counts
	// as an error in each of them; errors in the module itself were handled above.
	packages.Visit(pkgs, nil, func(pk *packages.Package) { pk.IllTyped = false })
	prog, spkgs := ssautil.Packages(p.pkgs, ssa.BuilderMode(0))
	p.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, loadError{"no SSA for " + p.pkgs[i].PkgPath}
		}
		sp.Build()
		p.spkgs[p.pkgs[i].PkgPath] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		if fn.Blocks != nil {
			p.funcs = append(p.funcs, fn)
			p.byKey[fn.String()] = fn
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					add(prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].String() != p.funcs[j].String() {
			return p.funcs[i].String() < p.funcs[j].String()
		}
		return p.funcs[i].Pos() < p.funcs[j].Pos()
	})
	if err := p.resolveRoles(); err != nil {
		return nil, err
	}
	return p, nil
}

func envGet(env []string, k string) string {
	for _, e := range env {
		if strings.HasPrefix(e, k+"=") {
			return e[len(k)+1:]
		}
	}
	return ""
}

func inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// analysedPkg reports whether functions of the package may be inlined: the
// module's own code, without the vendored third-party generator.
func analysedPkg(path string) bool {
	return inModule(path) && !strings.Contains(path, "/internal/deepmap")
}

// fn returns the function or method with the given name: "pkg.Func",
// "pkg.Type.Method" where pkg is relative to the module ("" is the root).
func (p *Program) fn(pkg, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.spkgs[path]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t, ok := sp.Members[tn].(*ssa.Type)
		if !ok {
			return nil
		}
		named, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < named.NumMethods(); i++ {
			if m := named.Method(i); m.Name() == mn {
				return p.prog.FuncValue(m)
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// fname is the short printable name of a function.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "thema.")
	return s
}

func fnPos(fn *ssa.Function) token.Pos {
	if fn == nil {
		return token.NoPos
	}
	if fn.Pos().IsValid() {
		return fn.Pos()
	}
	if fn.Syntax() != nil {
		return fn.Syntax().Pos()
	}
	return token.NoPos
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			return fnPkgPath(o)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}
