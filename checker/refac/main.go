// Command refac rewrites a copy of the module with edits that keep its
// behaviour, to see that the checks stay quiet on them.
//
//	refac -dir COPY -kind KIND [-pick N] [-func NAME] [-pkg PATTERN]
//
// KIND is one of those printed by -kinds. Each edit is applied wherever it fits
// (kinds that extract functions: once per function, at the N-th place).
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type ctx struct {
	pkg   *packages.Package
	file  *ast.File
	fn    *ast.FuncDecl
	pick  int
	n     int
	added []ast.Decl
	done  int
}

func (c *ctx) info() *types.Info { return c.pkg.TypesInfo }

var serial int

func (c *ctx) fresh(p string) *ast.Ident {
	serial++
	p = strings.ToLower(p[:1]) + p[1:]
	return ast.NewIdent(fmt.Sprintf("%sZ%d", p, serial))
}

var kinds = map[string]func(*ctx){
	"ifswap": ifswap, "condvar": condvar, "initout": initout, "rangeidx": rangeidx, "retvar": retvar,
	"tail": tail, "whole": whole, "extractcond": extractcond, "extractexpr": extractexpr, "argvar": argvar, "earlyelse": earlyelse,
	"unelse": unelse, "switchif": switchif, "demorgan": demorgan, "nestif": nestif, "appendsplit": appendsplit,
	"continueif": continueif, "ifcontinue": ifcontinue, "lenzero": lenzero, "notnil": notnil, "vardecl": vardecl,
	"named": named, "kvreverse": kvreverse, "selvar": selvar, "loopbody": loopbody, "ifblock": ifblock, "flip": flip, "litvar": litvar,
}

func main() {
	dir := flag.String("dir", "", "copy of the module")
	kind := flag.String("kind", "", "edit")
	pick := flag.Int("pick", 0, "which place")
	only := flag.String("func", "", "only this function")
	pat := flag.String("pkg", "./...", "packages")
	list := flag.Bool("kinds", false, "list the edits")
	flag.Parse()
	if *list {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		return
	}
	f := kinds[*kind]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such kind")
		os.Exit(2)
	}
	cfg := &packages.Config{Dir: *dir, Mode: packages.LoadSyntax}
	pkgs, err := packages.Load(cfg, strings.Fields(*pat)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	total := 0
	for _, p := range pkgs {
		touched = false
		var cs []*ctx
		for _, file := range p.Syntax {
			c := &ctx{pkg: p, file: file, pick: *pick}
			for _, d := range file.Decls {
				fn, ok := d.(*ast.FuncDecl)
				if !ok || fn.Body == nil || *only != "" && fn.Name.Name != *only {
					continue
				}
				if ast.IsGenerated(file) {
					continue
				}
				c.fn = fn
				f(c)
			}
			cs = append(cs, c)
		}
		for i, file := range p.Syntax {
			name := p.CompiledGoFiles[i]
			c := cs[i]
			if c.done == 0 && !touched {
				continue
			}
			total += c.done
			file.Decls = append(file.Decls, c.added...)
			strip(file)
			var buf bytes.Buffer
			if err := format.Node(&buf, p.Fset, file); err != nil {
				fmt.Fprintln(os.Stderr, name, err)
				os.Exit(2)
			}
			if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	}
	fmt.Println(total, "edits")
}

// strip drops the comments inside functions, which have lost their place.
func strip(file *ast.File) {
	keep := map[*ast.CommentGroup]bool{}
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.GenDecl:
			if d.Doc != nil {
				keep[d.Doc] = true
			}
		}
	}
	var out []*ast.CommentGroup
	for _, g := range file.Comments {
		if keep[g] || g.End() < file.Package {
			out = append(out, g)
		}
	}
	file.Comments = out
}

// ---------------------------------------------------------------- helpers

func block(ss ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: ss} }

func define(id *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func use(id *ast.Ident) *ast.Ident { return ast.NewIdent(id.Name) }

// lists calls f on every list of statements, innermost first, and replaces it.
func (c *ctx) lists(f func([]ast.Stmt) []ast.Stmt) {
	astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
		switch n := cur.Node().(type) {
		case *ast.BlockStmt:
			n.List = f(n.List)
		case *ast.CaseClause:
			n.Body = f(n.Body)
		}
		return true
	})
}

// eachStmt replaces single statements of lists.
func (c *ctx) eachStmt(f func(ast.Stmt) []ast.Stmt) {
	c.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r := f(s); r != nil {
				c.done++
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	})
}

func (c *ctx) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		for _, im := range c.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					if im.Name.Name == "_" || im.Name.Name == "." {
						break
					}
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "invalid") || strings.Contains(s, "untyped") {
		ok = false
	}
	return ast.NewIdent(s), ok
}

func (c *ctx) generic() bool {
	if c.fn.Type.TypeParams != nil {
		return true
	}
	if c.fn.Recv != nil {
		t := c.info().TypeOf(c.fn.Recv.List[0].Type)
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			return true
		}
	}
	return false
}

// pinned are the variables whose identity matters: their address is taken or
// functions capture them.
func (c *ctx) pinned() map[types.Object]bool {
	out := map[types.Object]bool{}
	root := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if t := c.info().TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return
					}
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if t := c.info().TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); !ok {
						return
					}
				}
				e = x.X
				continue
			case *ast.Ident:
				if o := c.info().ObjectOf(x); o != nil {
					out[o] = true
				}
			}
			return
		}
	}
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				root(n.X)
			}
		case *ast.SelectorExpr:
			if s := c.info().Selections[n]; s != nil && s.Kind() == types.MethodVal {
				if sig := s.Obj().Type().(*types.Signature); sig.Recv() != nil {
					_, rp := sig.Recv().Type().Underlying().(*types.Pointer)
					_, xp := s.Recv().Underlying().(*types.Pointer)
					if rp && !xp {
						root(n.X)
					}
				}
			}
		case *ast.FuncLit:
			ast.Inspect(n.Body, func(k ast.Node) bool {
				if id, ok := k.(*ast.Ident); ok {
					if o, ok := c.info().Uses[id].(*types.Var); ok && !o.IsField() && (o.Pos() < n.Pos() || o.Pos() > n.End()) {
						out[o] = true
					}
				}
				return true
			})
		}
		return true
	})
	return out
}

// free are the local variables used but not declared in the nodes.
func (c *ctx) free(ns ...ast.Node) []*types.Var {
	seen := map[*types.Var]bool{}
	decl := map[types.Object]bool{}
	var out []*types.Var
	for _, n := range ns {
		ast.Inspect(n, func(k ast.Node) bool {
			if id, ok := k.(*ast.Ident); ok {
				if o := c.info().Defs[id]; o != nil {
					decl[o] = true
				}
			}
			if cc, ok := k.(*ast.CaseClause); ok {
				if o := c.info().Implicits[cc]; o != nil {
					decl[o] = true
				}
			}
			return true
		})
	}
	for _, n := range ns {
		ast.Inspect(n, func(k ast.Node) bool {
			if id, ok := k.(*ast.Ident); ok {
				if o, ok := c.info().Uses[id].(*types.Var); ok && !o.IsField() && !seen[o] && !decl[o] && o.Pos() >= c.fn.Pos() && o.Pos() < c.fn.End() {
					seen[o] = true
					out = append(out, o)
				}
			}
			return true
		})
	}
	return out
}

// localTypes: the nodes refer to types or constants declared in the function.
func (c *ctx) localTypes(ns ...ast.Node) bool {
	bad := false
	for _, n := range ns {
		ast.Inspect(n, func(k ast.Node) bool {
			if id, ok := k.(*ast.Ident); ok {
				switch o := c.info().ObjectOf(id).(type) {
				case *types.TypeName, *types.Const, *types.Label:
					if o.Pos() >= c.fn.Pos() && o.Pos() < c.fn.End() {
						bad = true
					}
				}
			}
			return !bad
		})
	}
	return bad
}

func (c *ctx) params(vs []*types.Var) (*ast.FieldList, []ast.Expr, bool) {
	fl := &ast.FieldList{}
	var args []ast.Expr
	for _, v := range vs {
		t, ok := c.typeExpr(v.Type())
		if !ok {
			return nil, nil, false
		}
		if strings.HasPrefix(t.(*ast.Ident).Name, "...") {
			return nil, nil, false
		}
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: t})
		args = append(args, ast.NewIdent(v.Name()))
	}
	return fl, args, true
}

func (c *ctx) hasNamedResults() bool {
	r := c.fn.Type.Results
	return r != nil && len(r.List) > 0 && len(r.List[0].Names) > 0
}

func (c *ctx) results() (*ast.FieldList, bool) {
	if c.fn.Type.Results == nil {
		return nil, true
	}
	out := &ast.FieldList{}
	for _, f := range c.fn.Type.Results.List {
		t, ok := c.typeExpr(c.info().TypeOf(f.Type))
		if !ok {
			return nil, false
		}
		out.List = append(out.List, &ast.Field{Type: t})
	}
	return out, true
}

func mentions(n ast.Node, name string) bool {
	found := false
	ast.Inspect(n, func(k ast.Node) bool {
		if id, ok := k.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return !found
	})
	return found
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(k ast.Node) bool {
		switch k.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if k.(*ast.UnaryExpr).Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func branches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(k ast.Node) bool {
		switch k.(type) {
		case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func declares(l []ast.Stmt) bool {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		case *ast.DeclStmt:
			return true
		}
	}
	return false
}
