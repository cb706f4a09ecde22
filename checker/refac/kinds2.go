package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

func init() {
	for k, f := range map[string]func(*ctx){
		"emptythen": emptythen, "iife": iife, "forbreak": forbreak, "ifswitch": ifswitch, "typeswif": typeswif,
		"swapstmts": swapstmts, "mergeassign": mergeassign, "splitassign": splitassign, "inline": inline,
		"paramswap": paramswap, "renamefn": renamefn, "renamefield": renamefield, "renametype": renametype, "hoistargs": hoistargs,
		"flagret": flagret, "resultvar": resultvar,
	} {
		kinds[k] = f
	}
}

// if c {A}  ->  if !c {} else {A}
func emptythen(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		i, ok := s.(*ast.IfStmt)
		if !ok || i.Else != nil {
			return nil
		}
		return []ast.Stmt{&ast.IfStmt{Init: i.Init, Cond: not(i.Cond), Body: block(), Else: i.Body}}
	})
}

// x := e  ->  x := func() T { return e }()
func iife(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 || !hasCall(a.Rhs[0]) {
			return nil
		}
		t := c.info().TypeOf(a.Rhs[0])
		if t == nil {
			return nil
		}
		te, ok := c.typeExpr(t)
		if !ok {
			return nil
		}
		a.Rhs[0] = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: te}}}}, Body: block(&ast.ReturnStmt{Results: []ast.Expr{a.Rhs[0]}})}}
		return []ast.Stmt{a}
	})
}

// for c {  ->  for { if !c {break}
func forbreak(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		f, ok := s.(*ast.ForStmt)
		if !ok || f.Cond == nil {
			return nil
		}
		n := &ast.ForStmt{Init: f.Init, Post: f.Post, Body: block(append([]ast.Stmt{&ast.IfStmt{Cond: not(f.Cond), Body: block(&ast.BranchStmt{Tok: token.BREAK})}}, f.Body.List...)...)}
		return []ast.Stmt{n}
	})
}

// if a {} else if b {} else {}  ->  switch
func ifswitch(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		i, ok := s.(*ast.IfStmt)
		if !ok {
			return nil
		}
		bad := false
		ast.Inspect(i, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.BREAK {
				bad = true
			}
			return !bad
		})
		if bad {
			return nil
		}
		sw := &ast.SwitchStmt{Init: i.Init, Body: block()}
		for {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List})
			switch e := i.Else.(type) {
			case *ast.IfStmt:
				if e.Init != nil {
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{e}})
					return []ast.Stmt{sw}
				}
				i = e
				continue
			case *ast.BlockStmt:
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: e.List})
			}
			return []ast.Stmt{sw}
		}
	})
}

// switch x := v.(type) {case A:  ->  if x, ok := v.(A); ok {
func typeswif(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		sw, ok := s.(*ast.TypeSwitchStmt)
		if !ok || sw.Init != nil {
			return nil
		}
		var name *ast.Ident
		var x ast.Expr
		switch a := sw.Assign.(type) {
		case *ast.AssignStmt:
			name = a.Lhs[0].(*ast.Ident)
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		}
		bad := false
		ast.Inspect(sw.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok != token.CONTINUE {
				bad = true
			}
			return !bad
		})
		if bad {
			return nil
		}
		v := c.fresh("sw")
		var els ast.Stmt
		var cases []*ast.CaseClause
		for _, k := range sw.Body.List {
			cc := k.(*ast.CaseClause)
			if cc.List == nil {
				els = &ast.BlockStmt{List: cc.Body}
				if name != nil && mentions(els, name.Name) {
					els = block(define(ast.NewIdent(name.Name), use(v)), els)
				}
				continue
			}
			if len(cc.List) != 1 {
				return nil
			}
			if id, ok := cc.List[0].(*ast.Ident); ok && id.Name == "nil" {
				return nil
			}
			cases = append(cases, cc)
		}
		for i := len(cases) - 1; i >= 0; i-- {
			ok := c.fresh("ok")
			b := ast.NewIdent("_")
			body := &ast.BlockStmt{List: cases[i].Body}
			if name != nil && mentions(body, name.Name) {
				b = ast.NewIdent(name.Name)
			}
			els = &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{b, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: use(v), Type: cases[i].List[0]}}},
				Cond: use(ok), Body: body, Else: els}
		}
		if len(cases) == 0 {
			return nil
		}
		return []ast.Stmt{block(define(v, x), els)}
	})
}

func names(s *ast.AssignStmt) []string {
	var out []string
	for _, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			out = append(out, id.Name)
		} else {
			return nil
		}
	}
	return out
}

func independent(a, b *ast.AssignStmt) bool {
	na, nb := names(a), names(b)
	if na == nil || nb == nil || hasCall(a) && hasCall(b) {
		return false
	}
	for _, x := range na {
		for _, y := range nb {
			if x == y {
				return false
			}
		}
		for _, r := range b.Rhs {
			if mentions(r, x) {
				return false
			}
		}
	}
	for _, y := range nb {
		for _, r := range a.Rhs {
			if mentions(r, y) {
				return false
			}
		}
	}
	return true
}

// pure: no calls, dereferences, indexing or conversions that may panic
func pure(s *ast.AssignStmt) bool {
	ok := true
	for _, r := range s.Rhs {
		ast.Inspect(r, func(n ast.Node) bool {
			switch n.(type) {
			case nil, *ast.Ident, *ast.BasicLit, *ast.CompositeLit, *ast.KeyValueExpr, *ast.SelectorExpr, *ast.BinaryExpr:
			default:
				ok = false
			}
			return ok
		})
	}
	return ok
}

// a := x; b := f()  ->  b := f(); a := x
func swapstmts(c *ctx) {
	c.lists(func(l []ast.Stmt) []ast.Stmt {
		for k := 0; k+1 < len(l); k++ {
			a, ok := l[k].(*ast.AssignStmt)
			b, ok2 := l[k+1].(*ast.AssignStmt)
			if !ok || !ok2 || a.Tok != token.DEFINE || b.Tok != token.DEFINE || !independent(a, b) {
				continue
			}
			// calls may change what fields hold
			sel := false
			for _, s := range []*ast.AssignStmt{a, b} {
				if !hasCall(s) && !pure(s) {
					sel = true
				}
				for _, r := range s.Rhs {
					ast.Inspect(r, func(n ast.Node) bool {
						if _, ok := n.(*ast.SelectorExpr); ok && (hasCall(a) || hasCall(b)) && !hasCall(s) {
							sel = true
						}
						return true
					})
				}
			}
			if sel {
				continue
			}
			l[k], l[k+1] = b, a
			c.done++
			k++
		}
		return l
	})
}

// a := x; b := y  ->  a, b := x, y
func mergeassign(c *ctx) {
	c.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for k := 0; k < len(l); k++ {
			if k+1 < len(l) {
				a, ok := l[k].(*ast.AssignStmt)
				b, ok2 := l[k+1].(*ast.AssignStmt)
				if ok && ok2 && a.Tok == token.DEFINE && b.Tok == token.DEFINE && len(a.Lhs) == len(a.Rhs) && len(b.Lhs) == len(b.Rhs) && independent(a, b) {
					out = append(out, &ast.AssignStmt{Lhs: append(append([]ast.Expr{}, a.Lhs...), b.Lhs...), Tok: token.DEFINE, Rhs: append(append([]ast.Expr{}, a.Rhs...), b.Rhs...)})
					c.done++
					k++
					continue
				}
			}
			out = append(out, l[k])
		}
		return out
	})
}

// a, b := x, y  ->  a := x; b := y
func splitassign(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Rhs) < 2 || a.Tok != token.DEFINE {
			return nil
		}
		ns := names(a)
		for i, n := range ns {
			if c.info().Defs[a.Lhs[i].(*ast.Ident)] == nil {
				return nil
			}
			for _, r := range a.Rhs[i+1:] {
				if mentions(r, n) {
					return nil
				}
			}
		}
		var out []ast.Stmt
		for i := range a.Lhs {
			out = append(out, &ast.AssignStmt{Lhs: a.Lhs[i : i+1], Tok: token.DEFINE, Rhs: a.Rhs[i : i+1]})
		}
		return out
	})
}

func (c *ctx) declOf(fn *types.Func) *ast.FuncDecl {
	for _, f := range c.pkg.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && c.info().Defs[fd.Name] == fn {
				return fd
			}
		}
	}
	return nil
}

// calls of functions that only return an expression become that expression
func inline(c *ctx) {
	astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
		call, ok := cur.Node().(*ast.CallExpr)
		if !ok || call.Ellipsis != 0 {
			return true
		}
		var fn *types.Func
		var recv ast.Expr
		switch f := call.Fun.(type) {
		case *ast.Ident:
			fn, _ = c.info().Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			fn, _ = c.info().Uses[f.Sel].(*types.Func)
			if s := c.info().Selections[f]; s != nil {
				recv = f.X
				if s.Kind() != types.MethodVal {
					return true
				}
				if _, ok := s.Recv().Underlying().(*types.Interface); ok {
					return true
				}
				if len(s.Index()) > 1 {
					return true
				}
				sig := s.Obj().Type().(*types.Signature)
				if sig.Recv() == nil || c.info().TypeOf(recv) == nil {
					return true
				}
				if !types.Identical(sig.Recv().Type(), s.Recv()) {
					return true
				}
			}
		}
		if fn == nil || fn.Pkg() != c.pkg.Types {
			return true
		}
		d := c.declOf(fn)
		if d == nil || d == c.fn || d.Type.TypeParams != nil || d.Body == nil || len(d.Body.List) != 1 {
			return true
		}
		r, ok := d.Body.List[0].(*ast.ReturnStmt)
		if !ok || len(r.Results) != 1 {
			return true
		}
		sub := map[types.Object]ast.Expr{}
		simple := func(e ast.Expr) bool {
			ok := true
			ast.Inspect(e, func(n ast.Node) bool {
				switch n.(type) {
				case nil, *ast.Ident, *ast.SelectorExpr:
				default:
					ok = false
				}
				return ok
			})
			return ok
		}
		args := call.Args
		i := 0
		for _, f := range d.Type.Params.List {
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				return true
			}
			for _, n := range f.Names {
				if i >= len(args) || !simple(args[i]) || c.info().TypeOf(args[i]) == nil {
					return true
				}
				// the argument's type must not change
				if !types.Identical(c.info().TypeOf(args[i]), c.info().TypeOf(f.Type)) {
					return true
				}
				sub[c.info().Defs[n]] = args[i]
				i++
			}
		}
		if i != len(args) {
			return true
		}
		if recv != nil {
			if !simple(recv) || len(d.Recv.List[0].Names) == 0 {
				return true
			}
			sub[c.info().Defs[d.Recv.List[0].Names[0]]] = recv
		}
		t := c.info().TypeOf(r.Results[0])
		if t == nil || c.info().TypeOf(call) == nil || !types.Identical(t, c.info().TypeOf(call)) {
			return true
		}
		hasLit := false
		ast.Inspect(r, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				hasLit = true
			}
			return true
		})
		if hasLit {
			return true
		}
		e := c.copyExpr(r.Results[0], sub)
		if e == nil {
			return true
		}
		cur.Replace(&ast.ParenExpr{X: e})
		c.done++
		return true
	})
}

// copyExpr copies an expression, replacing variables.
func (c *ctx) copyExpr(e ast.Expr, sub map[types.Object]ast.Expr) ast.Expr {
	list := func(l []ast.Expr) ([]ast.Expr, bool) {
		var out []ast.Expr
		for _, x := range l {
			y := c.copyExpr(x, sub)
			if y == nil {
				return nil, false
			}
			out = append(out, y)
		}
		return out, true
	}
	switch e := e.(type) {
	case *ast.Ident:
		if r, ok := sub[c.info().Uses[e]]; ok {
			return r
		}
		return ast.NewIdent(e.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.SelectorExpr:
		if x := c.copyExpr(e.X, sub); x != nil {
			return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(e.Sel.Name)}
		}
	case *ast.ParenExpr:
		if x := c.copyExpr(e.X, sub); x != nil {
			return &ast.ParenExpr{X: x}
		}
	case *ast.StarExpr:
		if x := c.copyExpr(e.X, sub); x != nil {
			return &ast.StarExpr{X: x}
		}
	case *ast.UnaryExpr:
		if x := c.copyExpr(e.X, sub); x != nil {
			return &ast.UnaryExpr{Op: e.Op, X: x}
		}
	case *ast.TypeAssertExpr:
		if x := c.copyExpr(e.X, sub); x != nil {
			return &ast.TypeAssertExpr{X: x, Type: e.Type}
		}
	case *ast.BinaryExpr:
		x, y := c.copyExpr(e.X, sub), c.copyExpr(e.Y, sub)
		if x != nil && y != nil {
			return &ast.BinaryExpr{X: x, Op: e.Op, Y: y}
		}
	case *ast.IndexExpr:
		x, y := c.copyExpr(e.X, sub), c.copyExpr(e.Index, sub)
		if x != nil && y != nil {
			return &ast.IndexExpr{X: x, Index: y}
		}
	case *ast.CallExpr:
		f := c.copyExpr(e.Fun, sub)
		args, ok := list(e.Args)
		if f != nil && ok {
			n := &ast.CallExpr{Fun: f, Args: args}
			if e.Ellipsis != 0 {
				n.Ellipsis = 1
			}
			return n
		}
	}
	return nil
}

// unexported package-level functions take their first two parameters the other
// way round
func paramswap(c *ctx) {
	fn, ok := c.info().Defs[c.fn.Name].(*types.Func)
	if !ok || fn.Exported() || c.fn.Recv != nil || c.fn.Type.TypeParams != nil || fn.Name() == "main" || fn.Name() == "init" {
		return
	}
	var fields []*ast.Field
	for _, f := range c.fn.Type.Params.List {
		if len(f.Names) == 0 {
			return
		}
		for _, n := range f.Names {
			fields = append(fields, &ast.Field{Names: []*ast.Ident{n}, Type: f.Type})
		}
	}
	if len(fields) < 2 {
		return
	}
	if _, ok := fields[1].Type.(*ast.Ellipsis); ok {
		return
	}
	// every use must be a call, with arguments whose order does not matter
	var calls []*ast.CallExpr
	uses := 0
	for _, f := range c.pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if c.info().Uses[n] == fn {
					uses++
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && c.info().Uses[id] == fn {
					calls = append(calls, n)
				}
			}
			return true
		})
	}
	if uses != len(calls) || len(calls) == 0 {
		return
	}
	for _, k := range calls {
		if len(k.Args) < 2 || hasCall(k.Args[0]) && hasCall(k.Args[1]) {
			return
		}
	}
	for _, k := range calls {
		k.Args[0], k.Args[1] = k.Args[1], k.Args[0]
	}
	fields[0], fields[1] = fields[1], fields[0]
	c.fn.Type.Params.List = fields
	c.done++
	touched = true
}

var touched bool

// rename gives an object and all its uses in the package another name
func (c *ctx) rename(o types.Object) {
	if renamed[o] {
		return
	}
	renamed[o] = true
	c.done++
	for _, f := range c.pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				p := c.info().Defs[id]
				if p == nil {
					p = c.info().Uses[id]
				}
				if p == o || p != nil && origin(p) == o {
					id.Name = o.Name() + "Rn"
				}
			}
			return true
		})
	}
}

func origin(o types.Object) types.Object {
	switch o := o.(type) {
	case *types.Func:
		return o.Origin()
	case *types.Var:
		return o.Origin()
	}
	return o
}

var renamed = map[types.Object]bool{}

func private(name string) bool {
	return name != "_" && name != "main" && name != "init" && strings.ToLower(name[:1]) == name[:1]
}

// unexported functions and methods
func renamefn(c *ctx) {
	fn, ok := c.info().Defs[c.fn.Name].(*types.Func)
	if !ok || !private(fn.Name()) || renamed[fn] {
		return
	}
	if c.fn.Recv != nil {
		// methods of an interface of the package keep their names
		for _, n := range c.pkg.Types.Scope().Names() {
			if t, ok := c.pkg.Types.Scope().Lookup(n).Type().Underlying().(*types.Interface); ok {
				for i := 0; i < t.NumMethods(); i++ {
					if t.Method(i).Name() == fn.Name() {
						return
					}
				}
			}
		}
	}
	c.rename(fn)
	touched = true
}

// unexported fields of structs
func renamefield(c *ctx) {
	for _, n := range c.pkg.Types.Scope().Names() {
		tn, ok := c.pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); !f.Embedded() && private(f.Name()) {
				c.rename(f)
				touched = true
			}
		}
	}
}

// unexported types
func renametype(c *ctx) {
	for _, n := range c.pkg.Types.Scope().Names() {
		tn, ok := c.pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || !private(n) {
			continue
		}
		embedded := false
		for _, m := range c.pkg.Types.Scope().Names() {
			if st, ok := c.pkg.Types.Scope().Lookup(m).Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Embedded() && st.Field(i).Name() == n {
						embedded = true
					}
				}
			}
		}
		if !embedded {
			c.rename(tn)
			touched = true
		}
	}
}

// f(a, g(x))  ->  every argument that is a call gets a variable, in order
func hoistargs(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		r, ok := s.(*ast.ReturnStmt)
		if !ok {
			return nil
		}
		var out []ast.Stmt
	args:
		for _, e := range r.Results {
			call, ok := e.(*ast.CallExpr)
			if !ok {
				if hasCall(e) {
					break args
				}
				continue
			}
			if hasCall(call.Fun) {
				break args
			}
			for i, a := range call.Args {
				k, ok := a.(*ast.CallExpr)
				if !ok {
					if hasCall(a) {
						break args
					}
					continue
				}
				t := c.info().TypeOf(k)
				if _, tuple := t.(*types.Tuple); tuple || t == nil {
					break args
				}
				v := c.fresh("h")
				out = append(out, define(v, k))
				call.Args[i] = use(v)
			}
			break
		}
		if out == nil {
			return nil
		}
		return append(out, s)
	})
}

// return a == b  ->  if a == b { return true }; return false
func flagret(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		r, ok := s.(*ast.ReturnStmt)
		if !ok || len(r.Results) != 1 {
			return nil
		}
		b, ok := r.Results[0].(*ast.BinaryExpr)
		if !ok {
			return nil
		}
		t, ok := c.info().TypeOf(b).(*types.Basic)
		if !ok || t.Info()&types.IsBoolean == 0 {
			return nil
		}
		return []ast.Stmt{&ast.IfStmt{Cond: b, Body: block(&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("true")}})}, &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("false")}}}
	})
}

// every return assigns to a variable, and the function ends in one return: only
// for if/else at the end of a function
func resultvar(c *ctx) {
	res := c.fn.Type.Results
	if res == nil || len(res.List) != 1 || len(res.List[0].Names) > 1 || c.generic() {
		return
	}
	l := c.fn.Body.List
	if len(l) < 2 {
		return
	}
	i, ok := l[len(l)-2].(*ast.IfStmt)
	last, ok2 := l[len(l)-1].(*ast.ReturnStmt)
	if !ok || !ok2 || i.Else != nil || len(i.Body.List) == 0 || len(last.Results) != 1 {
		return
	}
	in, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt)
	if !ok || len(in.Results) != 1 {
		return
	}
	n := 0
	ast.Inspect(i, func(k ast.Node) bool {
		if _, ok := k.(*ast.ReturnStmt); ok {
			n++
		}
		return true
	})
	t, ok := c.typeExpr(c.info().TypeOf(res.List[0].Type))
	if n != 1 || !ok {
		return
	}
	v := c.fresh("out")
	set := func(e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{use(v)}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}
	}
	i.Body.List[len(i.Body.List)-1] = set(in.Results[0])
	i.Else = block(set(last.Results[0]))
	c.fn.Body.List = append(append([]ast.Stmt{}, l[:len(l)-2]...),
		&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Type: t}}}},
		i, &ast.ReturnStmt{Results: []ast.Expr{use(v)}})
	c.done++
}
