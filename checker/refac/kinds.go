package main

import (
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

// if c {A} else {B}  ->  if !c {B} else {A}
func ifswap(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		i, ok := s.(*ast.IfStmt)
		if !ok {
			return nil
		}
		b, ok := i.Else.(*ast.BlockStmt)
		if !ok {
			return nil
		}
		return []ast.Stmt{&ast.IfStmt{Init: i.Init, Cond: not(i.Cond), Body: b, Else: i.Body}}
	})
}

// if c {  ->  cond := c; if cond {
func condvar(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		i, ok := s.(*ast.IfStmt)
		if !ok {
			return nil
		}
		v := c.fresh("cond")
		n := &ast.IfStmt{Cond: use(v), Body: i.Body, Else: i.Else}
		if i.Init == nil {
			return []ast.Stmt{define(v, i.Cond), n}
		}
		return []ast.Stmt{block(i.Init, define(v, i.Cond), n)}
	})
}

// if x := f(); c {  ->  { x := f(); if c { } }
func initout(c *ctx) {
	c.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for k, s := range l {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init == nil {
				out = append(out, s)
				continue
			}
			c.done++
			n := &ast.IfStmt{Cond: i.Cond, Body: i.Body, Else: i.Else}
			if k == len(l)-1 {
				// nothing follows in this list
				clash := false
				if a, ok := i.Init.(*ast.AssignStmt); ok {
					for _, e := range a.Lhs {
						if id, ok := e.(*ast.Ident); ok {
							for _, p := range l[:k] {
								if a, ok := p.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
									for _, e := range a.Lhs {
										if j, ok := e.(*ast.Ident); ok && j.Name == id.Name {
											clash = true
										}
									}
								}
							}
						}
					}
				}
				if !clash {
					out = append(out, i.Init, n)
					continue
				}
			}
			out = append(out, block(i.Init, n))
		}
		return out
	})
}

// for i, v := range xs  ->  for i := 0; i < len(xs); i++ { v := xs[i]
func rangeidx(c *ctx) {
	pin := c.pinned()
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		r, ok := s.(*ast.RangeStmt)
		if !ok || r.Tok == token.ASSIGN {
			return nil
		}
		t := c.info().TypeOf(r.X)
		if t == nil {
			return nil
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return nil
		}
		xs, i := c.fresh("xs"), c.fresh("i")
		if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
			if o := c.info().Defs[id]; o != nil && pin[o] {
				return nil
			}
			i = id
		}
		body := &ast.BlockStmt{List: r.Body.List}
		if id, ok := r.Value.(*ast.Ident); ok && id.Name != "_" {
			body.List = append([]ast.Stmt{define(id, &ast.IndexExpr{X: use(xs), Index: use(i)})}, body.List...)
		}
		loop := &ast.ForStmt{
			Init: define(use(i), &ast.BasicLit{Kind: token.INT, Value: "0"}),
			Cond: &ast.BinaryExpr{X: use(i), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{use(xs)}}},
			Post: &ast.IncDecStmt{X: use(i), Tok: token.INC},
			Body: body,
		}
		if _, ok := r.X.(*ast.Ident); ok && c.pick == 1 {
			// without a copy of the slice
			id := r.X.(*ast.Ident)
			assigned := false
			ast.Inspect(r.Body, func(n ast.Node) bool {
				if a, ok := n.(*ast.AssignStmt); ok {
					for _, e := range a.Lhs {
						if k, ok := e.(*ast.Ident); ok && k.Name == id.Name {
							assigned = true
						}
					}
				}
				return true
			})
			if !assigned {
				loop.Cond = &ast.BinaryExpr{X: use(i), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{use(id)}}}
				if vid, ok := r.Value.(*ast.Ident); ok && vid.Name != "_" {
					body.List[0] = define(vid, &ast.IndexExpr{X: use(id), Index: use(i)})
				}
				return []ast.Stmt{loop}
			}
		}
		return []ast.Stmt{block(define(xs, r.X), loop)}
	})
}

// return a, b  ->  var r0 T = a; var r1 U = b; return r0, r1
func retvar(c *ctx) {
	if c.fn.Type.Results == nil || c.generic() {
		return
	}
	var ts []ast.Expr
	for _, f := range c.fn.Type.Results.List {
		t, ok := c.typeExpr(c.info().TypeOf(f.Type))
		if !ok {
			return
		}
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			ts = append(ts, t)
		}
	}
	lit := map[ast.Stmt]bool{}
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(f.Body, func(k ast.Node) bool {
				if s, ok := k.(*ast.ReturnStmt); ok {
					lit[s] = true
				}
				return true
			})
		}
		return true
	})
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		r, ok := s.(*ast.ReturnStmt)
		if !ok || len(r.Results) == 0 || lit[s] {
			return nil
		}
		var vs []*ast.Ident
		var out []ast.Stmt
		for range ts {
			vs = append(vs, c.fresh("r"))
		}
		ret := &ast.ReturnStmt{}
		if len(r.Results) == 1 && len(ts) > 1 {
			a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: r.Results}
			for _, v := range vs {
				a.Lhs = append(a.Lhs, v)
				ret.Results = append(ret.Results, use(v))
			}
			return []ast.Stmt{a, ret}
		}
		for i, e := range r.Results {
			out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{vs[i]}, Type: ts[i], Values: []ast.Expr{e}}}}})
			ret.Results = append(ret.Results, use(vs[i]))
		}
		return append(out, ret)
	})
}

// the end of a function becomes a function of its own
func tail(c *ctx) {
	l := c.fn.Body.List
	if len(l) < 3 || c.generic() || c.hasNamedResults() || mentions(c.fn.Body, "recover") {
		return
	}
	k := 1 + c.pick%(len(l)-1)
	rest := l[k:]
	var ns []ast.Node
	for _, s := range rest {
		ns = append(ns, s)
	}
	if c.localTypes(ns...) {
		return
	}
	vs := c.free(ns...)
	pin := c.pinned()
	for _, v := range vs {
		if pin[v] {
			return
		}
	}
	ps, args, ok := c.params(vs)
	if !ok {
		return
	}
	res, ok := c.results()
	if !ok {
		return
	}
	name := c.fresh(c.fn.Name.Name + "Rest")
	c.added = append(c.added, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: ps, Results: res}, Body: &ast.BlockStmt{List: rest}})
	call := &ast.CallExpr{Fun: use(name), Args: args}
	var last ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
	if res == nil {
		last = &ast.ExprStmt{X: call}
	}
	c.fn.Body.List = append(append([]ast.Stmt{}, l[:k]...), last)
	c.done++
}

// the whole body becomes a function of its own
func whole(c *ctx) {
	if c.fn.Name.Name == "init" || c.fn.Name.Name == "main" || c.generic() || mentions(c.fn.Body, "recover") {
		return
	}
	var args []ast.Expr
	ell := token.NoPos
	for _, f := range c.fn.Type.Params.List {
		if len(f.Names) == 0 {
			return
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return
			}
			args = append(args, ast.NewIdent(n.Name))
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			ell = 1
		}
	}
	var fun ast.Expr
	name := c.fresh(c.fn.Name.Name + "Impl")
	fun = use(name)
	if c.fn.Recv != nil {
		if len(c.fn.Recv.List[0].Names) == 0 || c.fn.Recv.List[0].Names[0].Name == "_" {
			return
		}
		fun = &ast.SelectorExpr{X: ast.NewIdent(c.fn.Recv.List[0].Names[0].Name), Sel: use(name)}
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
	c.added = append(c.added, &ast.FuncDecl{Recv: c.fn.Recv, Name: name, Type: c.fn.Type, Body: c.fn.Body})
	nt := &ast.FuncType{Params: c.fn.Type.Params}
	if c.fn.Type.Results != nil {
		nt.Results = &ast.FieldList{}
		for _, f := range c.fn.Type.Results.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				nt.Results.List = append(nt.Results.List, &ast.Field{Type: f.Type})
			}
		}
	}
	if c.fn.Type.Results == nil {
		c.fn.Body = block(&ast.ExprStmt{X: call})
	} else {
		c.fn.Body = block(&ast.ReturnStmt{Results: []ast.Expr{call}})
	}
	c.fn.Type = nt
	c.done++
}

// extract replaces an expression with a call of a new function.
func (c *ctx) extract(e ast.Expr, t types.Type, name string) ast.Expr {
	if c.localTypes(e) {
		return nil
	}
	vs := c.free(e)
	ps, args, ok := c.params(vs)
	if !ok {
		return nil
	}
	rt, ok := c.typeExpr(t)
	if !ok {
		return nil
	}
	id := c.fresh(name)
	c.added = append(c.added, &ast.FuncDecl{Name: id, Type: &ast.FuncType{Params: ps, Results: &ast.FieldList{List: []*ast.Field{{Type: rt}}}},
		Body: block(&ast.ReturnStmt{Results: []ast.Expr{e}})})
	return &ast.CallExpr{Fun: use(id), Args: args}
}

// if c {  ->  if isC(x, y) {
func extractcond(c *ctx) {
	if c.generic() {
		return
	}
	pin := c.pinned()
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		i, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		for _, v := range c.free(i.Cond) {
			if pin[v] && hasCall(i.Cond) {
				return true
			}
		}
		// a condition of something declared in the if statement is fine too
		if x := c.extract(i.Cond, types.Typ[types.Bool], "is"); x != nil {
			i.Cond = x
			c.done++
		}
		return true
	})
}

// x := f(a, b)  ->  x := helper(a, b)
func extractexpr(c *ctx) {
	if c.generic() {
		return
	}
	pin := c.pinned()
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 {
			return true
		}
		if _, ok := a.Rhs[0].(*ast.CallExpr); !ok {
			return true
		}
		t := c.info().TypeOf(a.Rhs[0])
		if t == nil {
			return true
		}
		if _, ok := t.(*types.Tuple); ok {
			return true
		}
		for _, v := range c.free(a.Rhs[0]) {
			if pin[v] {
				return true
			}
		}
		if x := c.extract(a.Rhs[0], t, "get"); x != nil {
			a.Rhs[0] = x
			c.done++
		}
		return true
	})
}

// f(g(x))  ->  t := g(x); f(t)
func argvar(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		var call *ast.CallExpr
		switch s := s.(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				for _, l := range s.Lhs {
					if hasCall(l) {
						return nil
					}
				}
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				call, _ = s.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil || len(call.Args) == 0 || hasCall(call.Fun) {
			return nil
		}
		if id, ok := call.Fun.(*ast.Ident); ok {
			if _, ok := c.info().Uses[id].(*types.Builtin); ok && id.Name != "append" {
				return nil
			}
		}
		for i, a := range call.Args {
			if !hasCall(a) {
				continue
			}
			t := c.info().TypeOf(a)
			if _, ok := t.(*types.Tuple); ok || t == nil {
				return nil
			}
			if _, ok := a.(*ast.CallExpr); !ok {
				return nil
			}
			v := c.fresh("arg")
			call.Args[i] = use(v)
			return []ast.Stmt{define(v, a), s}
		}
		return nil
	})
}

// if c {return}; rest  ->  if c {return} else {rest}
func earlyelse(c *ctx) {
	c.lists(func(l []ast.Stmt) []ast.Stmt {
		for k := len(l) - 2; k >= 0; k-- {
			i, ok := l[k].(*ast.IfStmt)
			if !ok || i.Else != nil || !terminates(i.Body.List) {
				continue
			}
			if i.Init != nil {
				continue
			}
			rest := l[k+1:]
			bad := false
			for _, s := range rest {
				if _, ok := s.(*ast.LabeledStmt); ok {
					bad = true
				}
			}
			if bad {
				continue
			}
			i.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, rest...)}
			l = append(append([]ast.Stmt{}, l[:k]...), i)
			c.done++
		}
		return l
	})
}

// if c {return} else {B}  ->  if c {return}; B
func unelse(c *ctx) {
	c.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for k, s := range l {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else == nil || i.Init != nil || !terminates(i.Body.List) {
				out = append(out, s)
				continue
			}
			c.done++
			e := i.Else
			i.Else = nil
			out = append(out, i)
			if b, ok := e.(*ast.BlockStmt); ok && (k == len(l)-1 || !declares(b.List)) {
				out = append(out, b.List...)
			} else {
				out = append(out, e)
			}
		}
		return out
	})
}

// switch  ->  if chain
func switchif(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		sw, ok := s.(*ast.SwitchStmt)
		if !ok {
			return nil
		}
		bad := false
		ast.Inspect(sw.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok != token.CONTINUE {
				bad = true
			}
			return !bad
		})
		if bad || len(sw.Body.List) == 0 {
			return nil
		}
		var out []ast.Stmt
		if sw.Init != nil {
			out = append(out, sw.Init)
		}
		var tag *ast.Ident
		if sw.Tag != nil {
			tag = c.fresh("tag")
			out = append(out, define(tag, sw.Tag))
		}
		var els ast.Stmt
		var first *ast.IfStmt
		var cases []*ast.CaseClause
		for _, k := range sw.Body.List {
			cc := k.(*ast.CaseClause)
			if cc.List == nil {
				els = &ast.BlockStmt{List: cc.Body}
				continue
			}
			cases = append(cases, cc)
		}
		for i := len(cases) - 1; i >= 0; i-- {
			var cond ast.Expr
			for _, e := range cases[i].List {
				if tag != nil {
					e = &ast.BinaryExpr{X: use(tag), Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = e
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
				}
			}
			first = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cases[i].Body}, Else: els}
			els = first
		}
		if first == nil {
			return nil
		}
		if len(out) == 0 {
			return []ast.Stmt{first}
		}
		return []ast.Stmt{block(append(out, first)...)}
	})
}

// a && b  ->  !(!a || !b)
func demorgan(c *ctx) {
	astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
		b, ok := cur.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR {
			return true
		}
		op := token.LOR
		if b.Op == token.LOR {
			op = token.LAND
		}
		cur.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)}))
		c.done++
		return true
	})
}

// if a && b {A}  ->  if a { if b {A} }
func nestif(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		i, ok := s.(*ast.IfStmt)
		if !ok || i.Else != nil {
			return nil
		}
		b, ok := i.Cond.(*ast.BinaryExpr)
		if !ok {
			return nil
		}
		if b.Op == token.LAND {
			return []ast.Stmt{&ast.IfStmt{Init: i.Init, Cond: b.X, Body: block(&ast.IfStmt{Cond: b.Y, Body: i.Body})}}
		}
		if b.Op == token.LOR && terminates(i.Body.List) && !declares(i.Body.List) && i.Init == nil {
			return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: i.Body}, &ast.IfStmt{Cond: b.Y, Body: i.Body}}
		}
		return nil
	})
}

// x = append(x, a, b)  ->  x = append(x, a); x = append(x, b)
func appendsplit(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		a, ok := s.(*ast.AssignStmt)
		if !ok || a.Tok != token.ASSIGN || len(a.Rhs) != 1 {
			return nil
		}
		call, ok := a.Rhs[0].(*ast.CallExpr)
		if !ok || len(call.Args) < 3 {
			return nil
		}
		id, ok := call.Fun.(*ast.Ident)
		if !ok || id.Name != "append" || call.Ellipsis != 0 {
			return nil
		}
		l, ok := a.Lhs[0].(*ast.Ident)
		x, ok2 := call.Args[0].(*ast.Ident)
		if !ok || !ok2 || l.Name != x.Name {
			return nil
		}
		var out []ast.Stmt
		for _, e := range call.Args[1:] {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{use(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent("append"), Args: []ast.Expr{use(l), e}}}})
		}
		return out
	})
}

// for { if c {continue}; rest }  ->  for { if !c {rest} }
func continueif(c *ctx) {
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch n := n.(type) {
		case *ast.ForStmt:
			b = n.Body
		case *ast.RangeStmt:
			b = n.Body
		}
		if b == nil {
			return true
		}
		for k, s := range b.List {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else != nil || i.Init != nil || len(i.Body.List) != 1 || k == len(b.List)-1 {
				continue
			}
			br, ok := i.Body.List[0].(*ast.BranchStmt)
			if !ok || br.Tok != token.CONTINUE || br.Label != nil {
				continue
			}
			b.List = append(append([]ast.Stmt{}, b.List[:k]...), &ast.IfStmt{Cond: not(i.Cond), Body: &ast.BlockStmt{List: b.List[k+1:]}})
			c.done++
			break
		}
		return true
	})
}

// for { if c {A} }  ->  for { if !c {continue}; A }
func ifcontinue(c *ctx) {
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch n := n.(type) {
		case *ast.ForStmt:
			b = n.Body
		case *ast.RangeStmt:
			b = n.Body
		}
		if b == nil || len(b.List) == 0 {
			return true
		}
		k := len(b.List) - 1
		i, ok := b.List[k].(*ast.IfStmt)
		if !ok || i.Else != nil || i.Init != nil {
			return true
		}
		b.List = append(append(append([]ast.Stmt{}, b.List[:k]...), &ast.IfStmt{Cond: not(i.Cond), Body: block(&ast.BranchStmt{Tok: token.CONTINUE})}), i.Body.List...)
		c.done++
		return true
	})
}

// len(x) == 0  ->  len(x) < 1, and the like
func lenzero(c *ctx) {
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		if l, ok := b.Y.(*ast.BasicLit); ok {
			if call, isCall := b.X.(*ast.CallExpr); isCall && l.Value == "0" {
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "len" {
					switch b.Op {
					case token.EQL:
						b.Op, b.Y = token.LSS, &ast.BasicLit{Kind: token.INT, Value: "1"}
						c.done++
					case token.NEQ, token.GTR:
						b.Op, b.Y = token.GEQ, &ast.BasicLit{Kind: token.INT, Value: "1"}
						c.done++
					}
				}
			}
			if l.Value == `""` && (b.Op == token.EQL || b.Op == token.NEQ) {
				if t, ok := c.info().TypeOf(b.X).Underlying().(*types.Basic); ok && t.Kind() == types.String {
					b.X = &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{b.X}}
					b.Y = &ast.BasicLit{Kind: token.INT, Value: "0"}
					c.done++
				}
			}
		}
		return true
	})
}

// x != y  ->  !(x == y)
func notnil(c *ctx) {
	astutil.Apply(c.fn.Body, nil, func(cur *astutil.Cursor) bool {
		b, ok := cur.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.NEQ {
			return true
		}
		b.Op = token.EQL
		cur.Replace(not(b))
		c.done++
		return true
	})
}

// a < b  ->  b > a, a == b -> b == a
func flip(c *ctx) {
	ops := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok {
			if op, ok := ops[b.Op]; ok && !(hasCall(b.X) && hasCall(b.Y)) {
				b.X, b.Op, b.Y = b.Y, op, b.X
				c.done++
			}
		}
		return true
	})
}

// x := e  ->  var x T; x = e
func vardecl(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		a, ok := s.(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE {
			return nil
		}
		var out []ast.Stmt
		for _, l := range a.Lhs {
			id := l.(*ast.Ident)
			o := c.info().Defs[id]
			if o == nil {
				continue
			}
			t, ok := c.typeExpr(o.Type())
			if !ok {
				return nil
			}
			for _, r := range a.Rhs {
				if mentions(r, id.Name) {
					return nil
				}
			}
			if id.Name == "_" {
				continue
			}
			out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Type: t}}}})
		}
		a.Tok = token.ASSIGN
		return append(out, a)
	})
}

// results get names, returns assign to them
func named(c *ctx) {
	if c.fn.Type.Results == nil || c.hasNamedResults() {
		return
	}
	has := false
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		if _, ok := n.(*ast.DeferStmt); ok {
			has = true
		}
		return true
	})
	if has {
		return
	}
	res := &ast.FieldList{}
	var ids []*ast.Ident
	for _, f := range c.fn.Type.Results.List {
		id := c.fresh("res")
		ids = append(ids, id)
		res.List = append(res.List, &ast.Field{Names: []*ast.Ident{id}, Type: f.Type})
	}
	lit := map[ast.Stmt]bool{}
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(f.Body, func(k ast.Node) bool {
				if s, ok := k.(*ast.ReturnStmt); ok {
					lit[s] = true
				}
				return true
			})
		}
		return true
	})
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		r, ok := s.(*ast.ReturnStmt)
		if !ok || lit[s] {
			return nil
		}
		a := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: r.Results}
		for _, id := range ids {
			a.Lhs = append(a.Lhs, use(id))
		}
		return []ast.Stmt{a, &ast.ReturnStmt{}}
	})
	c.fn.Type.Results = res
}

// T{a: x, b: y}  ->  T{b: y, a: x}
func kvreverse(c *ctx) {
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		l, ok := n.(*ast.CompositeLit)
		if !ok || len(l.Elts) < 2 {
			return true
		}
		if t := c.info().TypeOf(l); t != nil {
			if _, ok := t.Underlying().(*types.Struct); !ok {
				return true
			}
		}
		calls := 0
		for _, e := range l.Elts {
			if _, ok := e.(*ast.KeyValueExpr); !ok {
				return true
			}
			if hasCall(e) {
				calls++
			}
		}
		if calls > 1 {
			return true
		}
		for i, j := 0, len(l.Elts)-1; i < j; i, j = i+1, j-1 {
			l.Elts[i], l.Elts[j] = l.Elts[j], l.Elts[i]
		}
		c.done++
		return true
	})
}

// x := &T{a: y}  ->  x := new(T)-like: v := T{a: y}; x := &v
func litvar(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 || hasCall(a.Lhs[0]) {
			return nil
		}
		u, ok := a.Rhs[0].(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			return nil
		}
		l, ok := u.X.(*ast.CompositeLit)
		if !ok {
			return nil
		}
		v := c.fresh("lit")
		u.X = use(v)
		return []ast.Stmt{define(v, l), s}
	})
}

// f(a.b)  ->  t := a.b; f(t), for statements that start with no call
func selvar(c *ctx) {
	c.eachStmt(func(s ast.Stmt) []ast.Stmt {
		var call *ast.CallExpr
		switch s := s.(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				for _, l := range s.Lhs {
					if hasCall(l) {
						return nil
					}
				}
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				call, _ = s.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil || hasCall(call.Fun) {
			return nil
		}
		field := func(e ast.Expr) bool {
			x, ok := e.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			sel := c.info().Selections[x]
			return sel != nil && sel.Kind() == types.FieldVal
		}
		if f, ok := call.Fun.(*ast.SelectorExpr); ok && field(f.X) {
			sel := c.info().Selections[f]
			if sel != nil && sel.Kind() == types.MethodVal {
				_, rp := sel.Obj().Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
				_, xp := c.info().TypeOf(f.X).Underlying().(*types.Pointer)
				if !rp || xp {
					v := c.fresh("sel")
					e := f.X
					f.X = use(v)
					return []ast.Stmt{define(v, e), s}
				}
			}
		}
		for i, a := range call.Args {
			if hasCall(a) {
				return nil
			}
			if field(a) {
				v := c.fresh("sel")
				call.Args[i] = use(v)
				return []ast.Stmt{define(v, a), s}
			}
		}
		return nil
	})
}

// straight-line code in a loop becomes a function
func loopbody(c *ctx) {
	if c.generic() {
		return
	}
	pin := c.pinned()
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch n := n.(type) {
		case *ast.ForStmt:
			b = n.Body
		case *ast.RangeStmt:
			b = n.Body
		}
		if b == nil || len(b.List) == 0 || branches(b) {
			return true
		}
		c.outline(b, pin)
		return true
	})
}

// the body of an if statement becomes a function
func ifblock(c *ctx) {
	if c.generic() {
		return
	}
	pin := c.pinned()
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		i, ok := n.(*ast.IfStmt)
		if !ok || len(i.Body.List) == 0 || branches(i.Body) {
			return true
		}
		c.outline(i.Body, pin)
		return true
	})
}

// outline moves a block without jumps to a function, if it assigns at most one
// variable declared outside, whose new value is then returned.
func (c *ctx) outline(b *ast.BlockStmt, pin map[types.Object]bool) {
	if c.localTypes(b) {
		return
	}
	vs := c.free(b)
	in := map[*types.Var]bool{}
	for _, v := range vs {
		if pin[v] {
			return
		}
		in[v] = true
	}
	var out []*types.Var
	add := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			if v, ok := c.info().Uses[id].(*types.Var); ok && in[v] {
				for _, o := range out {
					if o == v {
						return
					}
				}
				out = append(out, v)
			}
		}
	}
	bad := false
	root := func(e ast.Expr) {
		add(e)
		switch x := e.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if t := c.info().TypeOf(id); t != nil {
					if _, ok := t.Underlying().(*types.Struct); ok {
						bad = true
					}
				}
			}
		}
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				root(l)
			}
		case *ast.IncDecStmt:
			root(n.X)
		}
		return true
	})
	if bad || len(out) > 1 {
		return
	}
	ps, args, ok := c.params(vs)
	if !ok {
		return
	}
	id := c.fresh("step")
	ft := &ast.FuncType{Params: ps}
	body := &ast.BlockStmt{List: b.List}
	call := &ast.CallExpr{Fun: use(id), Args: args}
	var s ast.Stmt = &ast.ExprStmt{X: call}
	if len(out) == 1 {
		t, ok := c.typeExpr(out[0].Type())
		if !ok {
			return
		}
		ft.Results = &ast.FieldList{List: []*ast.Field{{Type: t}}}
		body.List = append(append([]ast.Stmt{}, body.List...), &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(out[0].Name())}})
		s = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(out[0].Name())}, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
	}
	c.added = append(c.added, &ast.FuncDecl{Name: id, Type: ft, Body: body})
	b.List = []ast.Stmt{s}
	c.done++
}
