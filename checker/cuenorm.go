package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	cast "cuelang.org/go/cue/ast"
	cparser "cuelang.org/go/cue/parser"
	ctoken "cuelang.org/go/cue/token"
)

// The CUE definitions of thema are compared as values: every definition is
// brought to a normal form in which what is only a way of writing is gone
// (aliases, lets, hidden fields that only name an intermediate value, the order
// of fields, conjuncts and branches, how a list is walked, how a condition is
// put), and normal forms are compared.

// ct is a term of the normal form.
type ct struct {
	op    string
	lit   string
	args  []*ct
	n     []int64 // lin: coefficients, the constant last
	in    *cinst  // struct
	bind  *ct     // comp, fix: the variable bound
	id    int     // var
	open  *ct     // list: the type of further elements
	conds []*ct   // case
}

// cinst is a struct: the declarations of one or more literals unified.
type cinst struct {
	parts []cpart
	root  *ct // the name of this value, if it has one
	used  map[string]bool
	cache map[string]*ct
	open  bool
	done  []sfield
}

type cpart struct {
	lit *cast.StructLit
	env *cenv // of the literal's own scope
}

// cenv is a lexical scope.
type cenv struct {
	up     *cenv
	vars   map[string]*ct    // variables of comprehensions, names of values
	lets   map[string]*clet  // lets
	lit    *cast.StructLit   // a struct's own scope
	in     *cinst            // the struct it declares fields of
	guards []cguard          // the conditions it stands under
	decl   map[string]string // name or alias -> label
}

type clet struct {
	x   cast.Expr
	env *cenv
}

type cguard struct {
	node cast.Node
	x    cast.Expr
	env  *cenv
}

// cueNorm is the package as read.
type cueNorm struct {
	fields  map[string][]*cast.Field
	labels  []string
	src     map[string][]byte
	env     *cenv
	linInst *cinst
	nvar    int
	stack   map[string]*ct
	usedFix map[*ct]bool
	lets    map[string]bool
	basis   map[string]bool // the normal forms of the index of the first schema of each major
	std     map[string]bool // the definitions specified
	known   map[string]bool // the hidden fields of definitions
	bad     []string
	ids     map[*cinst]int
	steps   int
}

type cfile struct {
	name string
	src  []byte
}

func repoCue(dir string) ([]cfile, error) {
	ms, err := filepath.Glob(filepath.Join(dir, "*.cue"))
	if err != nil {
		return nil, err
	}
	var out []cfile
	for _, m := range ms {
		if strings.HasSuffix(m, "_tool.cue") || strings.HasSuffix(m, "_test.cue") {
			continue
		}
		b, err := os.ReadFile(m)
		if err != nil {
			return nil, err
		}
		out = append(out, cfile{filepath.Base(m), b})
	}
	return out, nil
}

func readCue(files []cfile) (*cueNorm, error) {
	p := &cueNorm{fields: map[string][]*cast.Field{}, src: map[string][]byte{}, stack: map[string]*ct{}, usedFix: map[*ct]bool{}, lets: map[string]bool{}, ids: map[*cinst]int{}}
	p.env = &cenv{vars: map[string]*ct{}, lets: map[string]*clet{}}
	for _, f := range files {
		af, err := cparser.ParseFile(f.name, f.src, cparser.ParseComments)
		if err != nil {
			return nil, err
		}
		if af.PackageName() != "thema" {
			continue
		}
		p.src[f.name] = f.src
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *cast.Field:
				name, alias, ok := fieldLabel(d)
				if !ok {
					return nil, fmt.Errorf("%s: a field without a plain label", f.name)
				}
				if p.fields[name] == nil {
					p.labels = append(p.labels, name)
				}
				p.fields[name] = append(p.fields[name], d)
				if alias != "" {
					p.env.lets[alias] = &clet{x: cast.NewIdent(name), env: p.env}
				}
			case *cast.LetClause:
				p.env.lets[d.Ident.Name] = &clet{x: d.Expr, env: p.env}
			case *cast.ImportDecl:
				for _, s := range d.Specs {
					path, _ := strconv.Unquote(s.Path.Value)
					n := path[strings.LastIndex(path, "/")+1:]
					if s.Name != nil {
						n = s.Name.Name
					}
					p.env.vars[n] = &ct{op: "ref", lit: "pkg:" + path}
				}
			case *cast.Package, *cast.CommentGroup, *cast.Attribute:
			default:
				return nil, fmt.Errorf("%s: %T at the top of a file", f.name, d)
			}
		}
	}
	sort.Strings(p.labels)
	return p, nil
}

func fieldLabel(f *cast.Field) (name, alias string, ok bool) {
	l := f.Label
	if a, is := l.(*cast.Alias); is {
		alias = a.Ident.Name
		l, ok = a.Expr.(cast.Label)
		if !ok {
			return "", "", false
		}
	}
	switch x := l.(type) {
	case *cast.Ident:
		return x.Name, alias, true
	case *cast.BasicLit:
		if s, err := strconv.Unquote(x.Value); err == nil {
			return s, alias, true
		}
	case *cast.ListLit: // a pattern
		if len(x.Elts) == 1 {
			e := x.Elts[0]
			if a, is := e.(*cast.Alias); is {
				alias = a.Ident.Name
				e = a.Expr
			}
			if id, is := e.(*cast.Ident); is {
				return "[" + id.Name + "]", alias, true
			}
		}
	}
	return "", "", false
}

// hidden labels only name values within a definition: hidden fields, and
// definitions the specification does not know.
func (p *cueNorm) hidden(l string) bool {
	if strings.HasPrefix(l, "#") || strings.HasPrefix(l, "_#") {
		return p.std != nil && !p.std[l]
	}
	return hiddenLabel(l)
}

func hiddenLabel(l string) bool { return strings.HasPrefix(l, "_") && !strings.HasPrefix(l, "_#") }

func clit(s string) *ct           { return &ct{op: "lit", lit: s} }
func cint(n int64) *ct            { return clit(strconv.FormatInt(n, 10)) }
func cref(s string) *ct           { return &ct{op: "ref", lit: s} }
func (p *cueNorm) newVar() *ct    { p.nvar++; return &ct{op: "var", id: p.nvar} }
func (t *ct) isLit(s string) bool { return t.op == "lit" && t.lit == s }

func (t *ct) intVal() (int64, bool) {
	if t.op != "lit" {
		return 0, false
	}
	n, err := strconv.ParseInt(strings.ReplaceAll(t.lit, "_", ""), 0, 64)
	return n, err == nil
}

// lookup resolves a name.
func (p *cueNorm) lookup(name string, env *cenv) *ct {
	for s := env; s != nil; s = s.up {
		if v := s.vars[name]; v != nil {
			return v
		}
		if l := s.lets[name]; l != nil {
			key := fmt.Sprintf("let %p", l)
			if p.lets[key] {
				p.bad = append(p.bad, "a let that refers to itself: "+name)
				return clit("_|_")
			}
			p.lets[key] = true
			v := p.norm(l.x, l.env)
			delete(p.lets, key)
			return v
		}
		if l, ok := s.decl[name]; ok {
			return p.field(s.in, l, s.guards)
		}
	}
	if fs := p.fields[name]; fs != nil {
		if p.hidden(name) {
			key := "pkg " + name
			if p.lets[key] {
				p.bad = append(p.bad, "a value that refers to itself: "+name)
				return clit("_|_")
			}
			p.lets[key] = true
			defer delete(p.lets, key)
			var vs []*ct
			for _, f := range fs {
				vs = append(vs, p.norm(f.Value, p.env))
			}
			return p.and(vs, nil, true)
		}
		return cref(name)
	}
	switch name {
	case "true", "false", "null":
		return clit(name)
	}
	return cref(name)
}

type cdecl struct {
	label  string // "" for an embedding
	x      cast.Expr
	env    *cenv
	guards []cguard
	opt    bool
	f      *cast.Field
}

// decls lists the declarations of a struct, those under conditions included.
func (p *cueNorm) decls(in *cinst) []cdecl {
	var out []cdecl
	var walk func(lit *cast.StructLit, env *cenv)
	walk = func(lit *cast.StructLit, env *cenv) {
		for _, e := range lit.Elts {
			switch e := e.(type) {
			case *cast.Field:
				l, _, ok := fieldLabel(e)
				if !ok {
					l = "?" + p.text(e)
				}
				out = append(out, cdecl{l, e.Value, env, env.guards, e.Optional.IsValid(), e})
			case *cast.EmbedDecl:
				out = append(out, cdecl{"", e.Expr, env, env.guards, false, nil})
			case *cast.Comprehension:
				s, body, ok := p.clauses(e, env, in)
				if !ok {
					out = append(out, cdecl{"?", nil, env, env.guards, false, nil})
					p.bad = append(p.bad, "fields made by a loop")
					continue
				}
				walk(body, s)
			case *cast.Ellipsis:
				in.open = true
			}
		}
	}
	for _, pt := range in.parts {
		walk(pt.lit, pt.env)
	}
	return out
}

// clauses gives the scope of the body of a comprehension that only has
// conditions, and the body.
func (p *cueNorm) clauses(e *cast.Comprehension, env *cenv, in *cinst) (*cenv, *cast.StructLit, bool) {
	body, ok := e.Value.(*cast.StructLit)
	if !ok {
		return nil, nil, false
	}
	s := env
	gs := append([]cguard(nil), env.guards...)
	for _, c := range e.Clauses {
		switch c := c.(type) {
		case *cast.IfClause:
			gs = append(gs, cguard{c, c.Condition, s})
		case *cast.LetClause:
			s = &cenv{up: s, lets: map[string]*clet{c.Ident.Name: {c.Expr, s}}}
		default:
			return nil, nil, false
		}
	}
	b := p.scope(body, s, in)
	b.guards = gs
	return b, body, true
}

// scope makes the scope of a struct literal.
func (p *cueNorm) scope(lit *cast.StructLit, up *cenv, in *cinst) *cenv {
	s := &cenv{up: up, lit: lit, in: in, lets: map[string]*clet{}, decl: map[string]string{}, vars: map[string]*ct{}}
	if up != nil && up.in == in {
		s.guards = up.guards
	}
	for _, e := range lit.Elts {
		switch e := e.(type) {
		case *cast.Field:
			if l, a, ok := fieldLabel(e); ok {
				if strings.HasPrefix(l, "[") {
					if a != "" {
						s.vars[a] = cref("label")
					}
					continue
				}
				s.decl[l] = l
				if a != "" {
					s.decl[a] = l
				}
			}
		case *cast.LetClause:
			s.lets[e.Ident.Name] = &clet{e.Expr, s}
		case *cast.Alias:
			s.lets[e.Ident.Name] = &clet{e.Expr, s}
		}
	}
	return s
}

// cond is the condition of a declaration, those in assume holding anyway.
func (p *cueNorm) guard(gs, assume []cguard) *ct {
	c := clit("true")
	for _, g := range gs {
		known := false
		for _, a := range assume {
			known = known || a.node == g.node
		}
		if !known {
			c = cband(c, p.bool(p.norm(g.x, g.env)))
		}
	}
	return c
}

func guardKey(gs []cguard) string {
	var b strings.Builder
	for _, g := range gs {
		fmt.Fprintf(&b, " %p", g.node)
	}
	return b.String()
}

// field is what a reference to a field of a struct stands for.
func (p *cueNorm) field(in *cinst, label string, assume []cguard) *ct {
	in.used[label] = true
	if in.root != nil && !p.hidden(label) {
		return p.sel(in.root, label)
	}
	v := p.value(in, label, assume, nil, true)
	if v.op == "list" && len(p.basis) > 0 && p.basis[p.str(v)] {
		return cref("basis")
	}
	if in.root != nil && typeish(v) {
		return p.sel(in.root, label)
	}
	return v
}

// value is the value of a field.
func (p *cueNorm) value(in *cinst, label string, assume []cguard, root *ct, inline bool) *ct {
	key := fmt.Sprintf("%p %s %v%s", in, label, inline, guardKey(assume))
	if v := in.cache[key]; v != nil {
		return v
	}
	if v := p.stack[key]; v != nil {
		p.usedFix[v] = true
		return v
	}
	v := p.newVar()
	p.stack[key] = v
	var plain, gv []*ct
	var gc []*ct
	emb := false
	n := 0
	for _, d := range p.decls(in) {
		if d.label != label {
			emb = emb || d.label == ""
			continue
		}
		n++
		t := p.norm(d.x, d.env)
		g := p.guard(d.guards, assume)
		if g.isLit("true") {
			plain = append(plain, t)
		} else {
			gv, gc = append(gv, t), append(gc, g)
		}
	}
	if n == 0 && emb {
		for _, d := range p.decls(in) {
			if d.label == "" {
				t := p.sel(p.norm(d.x, d.env), label)
				g := p.guard(d.guards, assume)
				if g.isLit("true") {
					plain = append(plain, t)
				} else {
					gv, gc = append(gv, t), append(gc, g)
				}
			}
		}
	}
	if len(gv) > 0 {
		plain = append(plain, p.mkCase(gc, gv))
	}
	out := p.and(plain, root, inline)
	p.force(out)
	delete(p.stack, key)
	if p.usedFix[v] {
		out = &ct{op: "fix", bind: v, args: []*ct{out}}
	}
	in.cache[key] = out
	return out
}

// typeish terms only restrict values.
func typeish(t *ct) bool {
	switch t.op {
	case "ref":
		switch t.lit {
		case "_", "string", "int", "uint64", "bool", "number", "#SyntacticVersion":
			return true
		}
	case "list":
		return len(t.args) == 0 && t.open != nil
	case "call":
		return t.args[0].op == "sel" && (t.args[0].lit == "MinItems" || t.args[0].lit == "MaxItems" || t.args[0].lit == "MinFields")
	case "or":
		for _, a := range t.args {
			if a.op != "lit" && !typeish(a) {
				return false
			}
		}
		return true
	case "and":
		for _, a := range t.args {
			if !typeish(a) {
				return false
			}
		}
		return true
	case "struct":
		return t.in != nil && len(t.in.parts) == 1 && len(t.in.parts[0].lit.Elts) <= 1 && onlyOpen(t.in.parts[0].lit)
	case "unary":
		return strings.HasPrefix(t.lit, "<") || strings.HasPrefix(t.lit, ">")
	}
	return false
}

func onlyOpen(l *cast.StructLit) bool {
	for _, e := range l.Elts {
		if x, ok := e.(*cast.Ellipsis); !ok || x.Type != nil {
			return false
		}
	}
	return true
}

// and unifies.
func (p *cueNorm) and(ts []*ct, root *ct, inline bool) *ct {
	var flat []*ct
	for _, t := range ts {
		if t.op == "and" {
			flat = append(flat, t.args...)
		} else {
			flat = append(flat, t)
		}
	}
	// structs are unified into one
	var rest []*ct
	var st *cinst
	merged := false
	for _, t := range flat {
		if t.op == "struct" && t.in != nil {
			if st == nil {
				st = t.in
				continue
			}
			if !merged {
				st = p.reinst(st, nil)
				merged = true
			}
			x := p.reinst(t.in, st)
			st.parts = append(st.parts, x.parts...)
			continue
		}
		rest = append(rest, t)
	}
	if st != nil {
		if root != nil && st.root == nil {
			if !merged {
				st = p.reinst(st, nil)
			}
			st.root = root
		}
		rest = append(rest, &ct{op: "struct", in: st})
	}
	if inline {
		var k []*ct
		for _, t := range rest {
			if !typeish(t) {
				k = append(k, t)
			}
		}
		if len(k) > 0 {
			rest = k
		}
	}
	seen := map[string]bool{}
	var u []*ct
	for _, t := range rest {
		if t.op == "ref" && t.lit == "_" && len(rest) > 1 {
			continue
		}
		if s := p.str(t); !seen[s] {
			seen[s] = true
			u = append(u, t)
		}
	}
	switch len(u) {
	case 0:
		return cref("_")
	case 1:
		return u[0]
	}
	return &ct{op: "and", args: u}
}

// reinst makes a struct of the same literals whose references are to the new
// struct (or to the one given).
func (p *cueNorm) reinst(in, into *cinst) *cinst {
	n := into
	if n == nil {
		n = &cinst{used: map[string]bool{}, cache: map[string]*ct{}, open: in.open, root: in.root}
	}
	parts := make([]cpart, 0, len(in.parts))
	for _, pt := range in.parts {
		s := p.scope(pt.lit, pt.env.up, n)
		for name, v := range pt.env.vars {
			if v.op == "struct" && v.in == in {
				s.vars[name] = &ct{op: "struct", in: n}
			}
		}
		parts = append(parts, cpart{pt.lit, s})
	}
	if into == nil {
		n.parts = parts
		return n
	}
	return &cinst{parts: parts}
}

// structVal is the value of a struct literal.
func (p *cueNorm) structVal(lit *cast.StructLit, up *cenv, alias string) *ct {
	in := &cinst{used: map[string]bool{}, cache: map[string]*ct{}}
	s := p.scope(lit, up, in)
	s.guards = nil
	if alias != "" {
		s.vars[alias] = &ct{op: "struct", in: in}
	}
	in.parts = []cpart{{lit, s}}
	// a struct that only embeds one value is that value
	var embeds []cdecl
	pure := true
	ds := p.decls(in)
	for _, d := range ds {
		switch {
		case d.label == "":
			embeds = append(embeds, d)
		case p.hidden(d.label):
		default:
			pure = false
		}
	}
	if pure && !in.open && len(embeds) > 0 {
		guarded := 0
		for _, d := range embeds {
			if len(d.guards) > 0 {
				guarded++
			}
		}
		switch {
		case len(embeds) == 1 && guarded == 0:
			return p.norm(embeds[0].x, embeds[0].env)
		case guarded == len(embeds):
			var cs, vs []*ct
			for _, d := range embeds {
				cs = append(cs, p.guard(d.guards, nil))
				vs = append(vs, p.norm(d.x, d.env))
			}
			return p.mkCase(cs, vs)
		}
	}
	return &ct{op: "struct", in: in}
}

// mkCase is the value that holds under each condition.
func (p *cueNorm) mkCase(cs, vs []*ct) *ct {
	var oc, ov []*ct
	for i, c := range cs {
		if vs[i].op == "case" {
			for j := range vs[i].conds {
				oc, ov = append(oc, cband(c, vs[i].conds[j])), append(ov, vs[i].args[j])
			}
			continue
		}
		oc, ov = append(oc, c), append(ov, vs[i])
	}
	var k []int
	by := map[string]int{}
	for i := range oc {
		if p.never(oc[i]) {
			continue
		}
		s := p.str(ov[i])
		if j, ok := by[s]; ok {
			oc[j] = cbor(oc[j], oc[i])
			continue
		}
		by[s] = i
		k = append(k, i)
	}
	// two different literals at once are a conflict
	clash := clit("false")
	for x, i := range k {
		for _, j := range k[:x] {
			if ov[i].op == "lit" && ov[j].op == "lit" && ov[i].lit != "_|_" && ov[j].lit != "_|_" {
				if both := cband(oc[i], oc[j]); !p.never(both) {
					clash = cbor(clash, both)
				}
			}
		}
	}
	if !clash.isLit("false") {
		for _, i := range k {
			oc[i] = cband(oc[i], cnot(clash))
		}
		oc, ov = append(oc, clash), append(ov, clit("_|_"))
		k = append(k, len(oc)-1)
	}
	var rc, rv []*ct
	for _, i := range k {
		rc, rv = append(rc, oc[i]), append(rv, ov[i])
	}
	if len(rc) == 1 && p.always(rc[0]) {
		return rv[0]
	}
	return &ct{op: "case", conds: rc, args: rv}
}

func (p *cueNorm) text(n cast.Node) string {
	pos, end := n.Pos(), n.End()
	if src := p.src[pos.Filename()]; src != nil && end.Offset() <= len(src) && pos.Offset() <= end.Offset() {
		return strings.Join(strings.Fields(string(src[pos.Offset():end.Offset()])), " ")
	}
	return fmt.Sprintf("%T", n)
}

// norm is the term of an expression.
func (p *cueNorm) norm(x cast.Expr, env *cenv) *ct {
	p.steps++
	if p.steps > 2_000_000 {
		return clit("_|_ too large")
	}
	switch x := x.(type) {
	case *cast.Ident:
		return p.lookup(x.Name, env)
	case *cast.BasicLit:
		if n, err := strconv.ParseInt(strings.ReplaceAll(x.Value, "_", ""), 0, 64); err == nil && x.Kind == ctoken.INT {
			return cint(n)
		}
		return clit(x.Value)
	case *cast.BottomLit:
		return clit("_|_")
	case *cast.ParenExpr:
		return p.norm(x.X, env)
	case *cast.Alias:
		if s, ok := x.Expr.(*cast.StructLit); ok {
			return p.structVal(s, env, x.Ident.Name)
		}
		return p.norm(x.Expr, env)
	case *cast.StructLit:
		return p.structVal(x, env, "")
	case *cast.SelectorExpr:
		l := ""
		switch s := x.Sel.(type) {
		case *cast.Ident:
			l = s.Name
		case *cast.BasicLit:
			l, _ = strconv.Unquote(s.Value)
		}
		return p.sel(p.norm(x.X, env), l)
	case *cast.IndexExpr:
		i := p.norm(x.Index, env)
		v := p.norm(x.X, env)
		if i.op == "lit" && strings.HasPrefix(i.lit, "\"") {
			if s, err := strconv.Unquote(i.lit); err == nil {
				return p.sel(v, s)
			}
		}
		return p.index(v, i)
	case *cast.SliceExpr:
		v := p.norm(x.X, env)
		lo := cint(0)
		hi := p.length(v)
		if x.Low != nil {
			lo = p.norm(x.Low, env)
		}
		if x.High != nil {
			hi = p.norm(x.High, env)
		}
		return p.slice(v, lo, hi)
	case *cast.CallExpr:
		f := p.norm(x.Fun, env)
		var as []*ct
		for _, a := range x.Args {
			as = append(as, p.norm(a, env))
		}
		return p.call(f, as)
	case *cast.UnaryExpr:
		v := p.norm(x.X, env)
		switch x.Op {
		case ctoken.SUB:
			return p.lin(cint(0), v, -1)
		case ctoken.ADD:
			return v
		case ctoken.NOT:
			return cnot(p.bool(v))
		case ctoken.MUL:
			return &ct{op: "def", args: []*ct{v}}
		}
		return &ct{op: "unary", lit: x.Op.String(), args: []*ct{v}}
	case *cast.BinaryExpr:
		a, b := p.norm(x.X, env), p.norm(x.Y, env)
		switch x.Op {
		case ctoken.AND:
			return p.and([]*ct{a, b}, nil, false)
		case ctoken.OR:
			var as []*ct
			for _, t := range []*ct{a, b} {
				if t.op == "or" {
					as = append(as, t.args...)
				} else {
					as = append(as, t)
				}
			}
			return &ct{op: "or", args: as}
		case ctoken.ADD:
			return p.lin(a, b, 1)
		case ctoken.SUB:
			return p.lin(a, b, -1)
		case ctoken.MUL:
			if n, ok := a.intVal(); ok {
				return p.lin(cint(0), b, n)
			}
			if n, ok := b.intVal(); ok {
				return p.lin(cint(0), a, n)
			}
			return &ct{op: "comm", lit: "*", args: []*ct{a, b}}
		case ctoken.LAND:
			return cband(p.bool(a), p.bool(b))
		case ctoken.LOR:
			return cbor(p.bool(a), p.bool(b))
		case ctoken.EQL:
			return p.eq(a, b)
		case ctoken.NEQ:
			return cnot(p.eq(a, b))
		case ctoken.LSS:
			return p.less(a, b, false)
		case ctoken.LEQ:
			return p.less(a, b, true)
		case ctoken.GTR:
			return p.less(b, a, false)
		case ctoken.GEQ:
			return p.less(b, a, true)
		}
		return &ct{op: "bin", lit: x.Op.String(), args: []*ct{a, b}}
	case *cast.ListLit:
		return p.list(x, env)
	}
	return &ct{op: "opaque", lit: p.text(x)}
}

// list is the value of a list literal.
func (p *cueNorm) list(x *cast.ListLit, env *cenv) *ct {
	l := &ct{op: "list"}
	for _, e := range x.Elts {
		switch e := e.(type) {
		case *cast.Ellipsis:
			l.open = cref("_")
			if e.Type != nil {
				l.open = p.norm(e.Type, env)
			}
		case *cast.Comprehension:
			l.args = append(l.args, p.comp(e, e.Clauses, env))
		default:
			l.args = append(l.args, p.norm(e, env))
		}
	}
	return l
}

// comp is a comprehension in a list: either an element under a condition or a
// loop, in which the source is walked by index.
func (p *cueNorm) comp(e *cast.Comprehension, cs []cast.Clause, env *cenv) *ct {
	g := clit("true")
	for i, c := range cs {
		switch c := c.(type) {
		case *cast.IfClause:
			g = cband(g, p.bool(p.norm(c.Condition, env)))
		case *cast.LetClause:
			env = &cenv{up: env, lets: map[string]*clet{c.Ident.Name: {c.Expr, env}}}
		case *cast.ForClause:
			src := p.norm(c.Source, env)
			k := p.newVar()
			s := &cenv{up: env, vars: map[string]*ct{}}
			if c.Key != nil && c.Key.Name != "_" {
				s.vars[c.Key.Name] = k
			}
			if c.Value != nil && c.Value.Name != "_" {
				s.vars[c.Value.Name] = p.index(src, k)
			}
			body := p.comp(e, cs[i+1:], s)
			t := &ct{op: "comp", bind: k, args: []*ct{p.length(src), body}}
			if !g.isLit("true") {
				return &ct{op: "elem", args: []*ct{g, t}}
			}
			return t
		}
	}
	v := p.norm(e.Value, env)
	if s, ok := e.Value.(*cast.StructLit); ok {
		v = p.structVal(s, env, "")
	}
	return &ct{op: "elem", args: []*ct{g, v}}
}

// sel selects a field.
func (p *cueNorm) sel(x *ct, label string) *ct {
	switch x.op {
	case "struct":
		if x.in != nil {
			return p.field(x.in, label, nil)
		}
	case "case":
		var vs []*ct
		for _, a := range x.args {
			vs = append(vs, p.sel(a, label))
		}
		return p.mkCase(x.conds, vs)
	case "and":
		for _, a := range x.args {
			if a.op == "struct" && a.in != nil && p.declares(a.in, label) {
				if v := p.field(a.in, label, nil); !typeish(v) {
					return v
				}
			}
		}
	case "ref":
		if x.lit == "lin" && p.hidden(label) && p.linInst != nil {
			return p.field(p.linInst, label, nil)
		}
	}
	if label == "lin" {
		return cref("lin")
	}
	return &ct{op: "sel", lit: label, args: []*ct{x}}
}

func (p *cueNorm) declares(in *cinst, label string) bool {
	for _, d := range p.decls(in) {
		if d.label == label {
			return true
		}
	}
	return false
}

// length is the number of elements.
func (p *cueNorm) length(x *ct) *ct {
	switch x.op {
	case "list":
		if x.open == nil {
			n := cint(0)
			for _, a := range x.args {
				switch {
				case a.op == "comp" && a.args[1].op == "elem" && a.args[1].args[0].isLit("true"):
					n = p.lin(n, a.args[0], 1)
				case a.op == "elem" || a.op == "comp":
					return &ct{op: "call", args: []*ct{cref("len"), x}}
				default:
					n = p.lin(n, cint(1), 1)
				}
			}
			return n
		}
	case "slice":
		return p.lin(x.args[2], x.args[1], -1)
	case "range":
		a, b, s := x.args[0], x.args[1], x.args[2]
		if s.isLit("1") {
			return p.lin(b, a, -1)
		}
		if s.isLit("-1") {
			return p.lin(a, b, -1)
		}
	case "reverse":
		return p.length(x.args[0])
	case "fix":
		if b := x.args[0]; b.op == "list" {
			if n := p.length(b); !p.mentions(n, x.bind) {
				return n
			}
		}
	case "case":
		var vs []*ct
		for _, a := range x.args {
			vs = append(vs, p.length(a))
		}
		return p.mkCase(x.conds, vs)
	}
	return &ct{op: "call", args: []*ct{cref("len"), x}}
}

func (p *cueNorm) mentions(t, v *ct) bool {
	return strings.Contains(p.str(t), fmt.Sprintf("#%d", v.id))
}

func (p *cueNorm) slice(x, lo, hi *ct) *ct {
	if lo.isLit("0") && p.str(hi) == p.str(p.length(x)) {
		return x
	}
	if x.op == "slice" {
		return p.slice(x.args[0], p.lin(x.args[1], lo, 1), p.lin(x.args[1], hi, 1))
	}
	return &ct{op: "slice", args: []*ct{x, lo, hi}}
}

func (p *cueNorm) index(x, i *ct) *ct {
	switch x.op {
	case "slice":
		return p.index(x.args[0], p.lin(x.args[1], i, 1))
	case "range":
		s, ok := x.args[2].intVal()
		if ok {
			return p.lin(x.args[0], i, s)
		}
	case "reverse":
		return p.index(x.args[0], p.lin(p.lin(p.length(x.args[0]), i, -1), cint(1), -1))
	case "case":
		var vs []*ct
		for _, a := range x.args {
			vs = append(vs, p.index(a, i))
		}
		return p.mkCase(x.conds, vs)
	case "list":
		n, ok := i.intVal()
		if !ok {
			// walked from the start: a list made by one loop over all
			if len(x.args) == 1 && x.args[0].op == "comp" && x.open == nil && x.args[0].args[1].op == "elem" && x.args[0].args[1].args[0].isLit("true") {
				return p.subst(x.args[0].args[1].args[1], x.args[0].bind, i)
			}
			break
		}
		plain := true
		for j := int64(0); j <= n && j < int64(len(x.args)); j++ {
			plain = plain && x.args[j].op != "elem" && x.args[j].op != "comp"
		}
		if plain && n >= 0 && n < int64(len(x.args)) {
			return x.args[n]
		}
		if n == 0 {
			not := clit("true")
			var cs, vs []*ct
			for _, a := range x.args {
				if a.op == "comp" || (a.op == "elem" && a.args[1].op == "comp") {
					return &ct{op: "idx", args: []*ct{x, i}}
				}
				c, v := clit("true"), a
				if a.op == "elem" {
					c, v = a.args[0], a.args[1]
				}
				cs, vs = append(cs, cband(not, c)), append(vs, v)
				not = cband(not, cnot(c))
			}
			return p.mkCase(cs, vs)
		}
	}
	return &ct{op: "idx", args: []*ct{x, i}}
}

// subst replaces a variable; structs are closures and are not entered.
func (p *cueNorm) subst(t, v, by *ct) *ct {
	if t == v {
		return by
	}
	switch t.op {
	case "lin":
		out := cint(t.n[len(t.n)-1])
		for i, a := range t.args {
			out = p.lin(out, p.subst(a, v, by), t.n[i])
		}
		return out
	case "idx":
		return p.index(p.subst(t.args[0], v, by), p.subst(t.args[1], v, by))
	case "sel":
		return p.sel(p.subst(t.args[0], v, by), t.lit)
	case "lit", "ref", "var":
		return t
	}
	return &ct{op: "let", bind: v, args: []*ct{by, t}}
}

func (p *cueNorm) call(f *ct, as []*ct) *ct {
	name := f.lit
	if f.op == "sel" && f.args[0].op == "ref" {
		name = strings.TrimPrefix(f.args[0].lit, "pkg:") + "." + f.lit
	}
	switch {
	case name == "len" && len(as) == 1:
		return p.length(as[0])
	case name == "list.Slice" && len(as) == 3:
		return p.slice(as[0], as[1], as[2])
	case name == "list.Drop" && len(as) == 2:
		return p.slice(as[0], as[1], p.length(as[0]))
	case name == "list.Take" && len(as) == 2:
		return p.slice(as[0], cint(0), as[1])
	case name == "list.Range" && len(as) == 3:
		return &ct{op: "range", args: as}
	case name == "list.Reverse" && len(as) == 1:
		return &ct{op: "reverse", args: as}
	}
	return &ct{op: "call", args: append([]*ct{f}, as...)}
}

// lin is a + k*b.
func (p *cueNorm) lin(a, b *ct, k int64) *ct {
	type part struct {
		t *ct
		n int64
	}
	m := map[string]*part{}
	var keys []string
	c := int64(0)
	add := func(t *ct, k int64) {
		if t.op == "lin" {
			c += k * t.n[len(t.n)-1]
			for i, x := range t.args {
				s := p.str(x)
				if m[s] == nil {
					m[s] = &part{t: x}
					keys = append(keys, s)
				}
				m[s].n += k * t.n[i]
			}
			return
		}
		if n, ok := t.intVal(); ok {
			c += k * n
			return
		}
		s := p.str(t)
		if m[s] == nil {
			m[s] = &part{t: t}
			keys = append(keys, s)
		}
		m[s].n += k
	}
	add(a, 1)
	add(b, k)
	sort.Strings(keys)
	out := &ct{op: "lin"}
	for _, s := range keys {
		if m[s].n != 0 {
			out.args = append(out.args, m[s].t)
			out.n = append(out.n, m[s].n)
		}
	}
	// the index of a schema of the lineage is where it lies
	if len(p.basis) > 0 {
		for i, x := range out.args {
			for j, y := range out.args {
				if out.n[i] != out.n[j] || i == j {
					continue
				}
				if pos := p.schemaPos(x, y); pos != nil {
					n := out.n[i]
					rest := cint(c)
					for l := range out.args {
						if l != i && l != j {
							rest = p.lin(rest, out.args[l], out.n[l])
						}
					}
					return p.lin(rest, pos, n)
				}
			}
		}
	}
	if len(out.args) == 0 {
		return cint(c)
	}
	if len(out.args) == 1 && out.n[0] == 1 && c == 0 {
		return out.args[0]
	}
	out.n = append(out.n, c)
	return out
}

// schemaPos: basis[v[0]] + v[1], v being the version of schemas[pos], is pos.
func (p *cueNorm) schemaPos(x, y *ct) *ct {
	if x.op != "idx" || y.op != "idx" || !y.args[1].isLit("1") {
		return nil
	}
	v := y.args[0]
	if v.op != "sel" || v.lit != "version" || v.args[0].op != "idx" {
		return nil
	}
	if s := v.args[0].args[0]; s.op != "sel" || s.lit != "schemas" || p.str(s) != "lin.schemas" {
		return nil
	}
	m := x.args[1]
	if m.op != "idx" || !m.args[1].isLit("0") || p.str(m.args[0]) != p.str(v) {
		return nil
	}
	if b := x.args[0]; b.op != "ref" || b.lit != "basis" {
		return nil
	}
	return v.args[0].args[1]
}

// ---- conditions

func (p *cueNorm) bool(t *ct) *ct {
	switch t.op {
	case "cmp", "not", "band", "bor", "atom":
		return t
	case "lit":
		if t.lit == "true" || t.lit == "false" {
			return t
		}
	case "case":
		c := clit("false")
		for i := range t.args {
			c = cbor(c, cband(t.conds[i], p.bool(t.args[i])))
		}
		return c
	}
	return &ct{op: "atom", args: []*ct{t}}
}

func cband(a, b *ct) *ct {
	switch {
	case a.isLit("true"):
		return b
	case b.isLit("true"):
		return a
	case a.isLit("false") || b.isLit("false"):
		return clit("false")
	}
	return &ct{op: "band", args: []*ct{a, b}}
}

func cbor(a, b *ct) *ct {
	switch {
	case a.isLit("false"):
		return b
	case b.isLit("false"):
		return a
	case a.isLit("true") || b.isLit("true"):
		return clit("true")
	}
	return &ct{op: "bor", args: []*ct{a, b}}
}

func cnot(a *ct) *ct {
	switch {
	case a.isLit("true"):
		return clit("false")
	case a.isLit("false"):
		return clit("true")
	case a.op == "not":
		return a.args[0]
	}
	return &ct{op: "not", args: []*ct{a}}
}

// cmp is d < 0 ("<"), d <= 0 ("<=") or d == 0 ("=").
func (p *cueNorm) cmp(d *ct, op string) *ct {
	if n, ok := d.intVal(); ok {
		return clit(strconv.FormatBool(op == "<" && n < 0 || op == "<=" && n <= 0 || op == "=" && n == 0))
	}
	return &ct{op: "cmp", lit: op, args: []*ct{d}}
}

func (p *cueNorm) less(a, b *ct, orEq bool) *ct {
	if a.op == "case" {
		return p.dist(a, func(x *ct) *ct { return p.less(x, b, orEq) })
	}
	if b.op == "case" {
		return p.dist(b, func(x *ct) *ct { return p.less(a, x, orEq) })
	}
	op := "<"
	if orEq {
		op = "<="
	}
	return p.cmp(p.lin(a, b, -1), op)
}

func (p *cueNorm) dist(c *ct, f func(*ct) *ct) *ct {
	out := clit("false")
	for i, a := range c.args {
		if a.isLit("_|_") {
			continue
		}
		out = cbor(out, cband(c.conds[i], f(a)))
	}
	return out
}

func versionish(t *ct) bool {
	return t.op == "sel" && (t.lit == "from" || t.lit == "to" || t.lit == "version" || t.lit == "v")
}

func isBool(t *ct) bool {
	switch t.op {
	case "cmp", "not", "band", "bor", "atom":
		return true
	}
	return t.isLit("true") || t.isLit("false")
}

func (p *cueNorm) eq(a, b *ct) *ct {
	switch {
	case a.isLit("_|_") || b.isLit("_|_"):
		if a.isLit("_|_") {
			a = b
		}
		return cnot(&ct{op: "atom", lit: "exists", args: []*ct{a}})
	case a.op == "case":
		return p.dist(a, func(x *ct) *ct { return p.eq(x, b) })
	case b.op == "case":
		return p.dist(b, func(x *ct) *ct { return p.eq(a, x) })
	case b.isLit("true") || b.isLit("false") || a.isLit("true") || a.isLit("false") || isBool(a) || isBool(b):
		x, y := p.bool(a), p.bool(b)
		return cbor(cband(x, y), cband(cnot(x), cnot(y)))
	case versionish(a) && versionish(b):
		return cband(p.eq(p.index(a, cint(0)), p.index(b, cint(0))), p.eq(p.index(a, cint(1)), p.index(b, cint(1))))
	case a.op == "list" && b.op == "list" && a.open == nil && b.open == nil && len(a.args) == len(b.args), versionish(a) && b.op == "list", versionish(b) && a.op == "list":
		l := a
		if b.op == "list" {
			l = b
		}
		c := clit("true")
		for i := range l.args {
			c = cband(c, p.eq(p.index(a, cint(int64(i))), p.index(b, cint(int64(i)))))
		}
		return c
	case a.op == "lit" && b.op == "lit":
		if a.lit == b.lit {
			return clit("true")
		}
		return clit("false")
	case a.op == "lit" && strings.HasPrefix(a.lit, "\"") || b.op == "lit" && strings.HasPrefix(b.lit, "\""):
		if p.str(a) > p.str(b) {
			a, b = b, a
		}
		return &ct{op: "atom", lit: "eq", args: []*ct{a, b}}
	}
	return p.cmp(p.lin(a, b, -1), "=")
}

// cvar is a quantity of a condition and where its values are told apart.
type cvar struct {
	name  string
	bool  bool
	lo    float64
	hi    float64
	cuts  map[float64]bool
	cells [][2]float64
}

// table decides a condition for all values: the canonical form of when it
// holds.
func (p *cueNorm) table(c *ct, pr *cprint) string {
	vars := map[string]*cvar{}
	type catom struct {
		v    *cvar
		op   string
		k    float64
		sign float64
	}
	atoms := map[*ct]catom{}
	var collect func(t *ct)
	collect = func(t *ct) {
		switch t.op {
		case "cmp":
			d := t.args[0]
			var parts []string
			konst := int64(0)
			sign := int64(1)
			dargs, dn := []*ct{d}, []int64{1}
			if d.op == "lin" {
				dargs, dn = d.args, d.n[:len(d.n)-1]
				konst = d.n[len(d.n)-1]
			}
			type kv struct {
				s string
				n int64
			}
			var ks []kv
			for i, a := range dargs {
				ks = append(ks, kv{pr.s(a), dn[i]})
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
			if ks[0].n < 0 {
				sign = -1
			}
			for _, k := range ks {
				parts = append(parts, fmt.Sprintf("%d*%s", sign*k.n, k.s))
			}
			name := strings.Join(parts, "+")
			v := vars[name]
			if v == nil {
				v = &cvar{name: name, lo: math.Inf(-1), hi: math.Inf(1), cuts: map[float64]bool{}}
				vars[name] = v
				p.domain(v, dargs, dn, sign, pr)
			}
			k := float64(-sign * konst)
			v.cuts[k] = true
			atoms[t] = catom{v, t.lit, k, float64(sign)}
		case "atom":
			name := t.lit
			for _, a := range t.args {
				name += "(" + pr.s(a) + ")"
			}
			v := vars[name]
			if v == nil {
				v = &cvar{name: name, bool: true}
				vars[name] = v
			}
			atoms[t] = catom{v: v}
		default:
			for _, a := range t.args {
				collect(a)
			}
		}
	}
	collect(c)
	var vs []*cvar
	for _, v := range vars {
		vs = append(vs, v)
		if v.bool {
			v.cells = [][2]float64{{0, 0}, {1, 1}}
			continue
		}
		var cs []float64
		for k := range v.cuts {
			cs = append(cs, k)
		}
		sort.Float64s(cs)
		at := math.Inf(-1)
		for _, k := range cs {
			if k-1 >= at {
				v.cells = append(v.cells, [2]float64{at, k - 1})
			}
			v.cells = append(v.cells, [2]float64{k, k})
			at = k + 1
		}
		v.cells = append(v.cells, [2]float64{at, math.Inf(1)})
		var in [][2]float64
		for _, cl := range v.cells {
			l, h := math.Max(cl[0], v.lo), math.Min(cl[1], v.hi)
			if l <= h {
				in = append(in, [2]float64{l, h})
			}
		}
		v.cells = in
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].name < vs[j].name })
	var eval func(t *ct, at map[*cvar][2]float64) bool
	eval = func(t *ct, at map[*cvar][2]float64) bool {
		switch t.op {
		case "lit":
			return t.lit == "true"
		case "not":
			return !eval(t.args[0], at)
		case "band":
			return eval(t.args[0], at) && eval(t.args[1], at)
		case "bor":
			return eval(t.args[0], at) || eval(t.args[1], at)
		case "atom":
			return at[atoms[t].v][0] == 1
		case "cmp":
			a := atoms[t]
			cl := at[a.v]
			switch a.op {
			case "=":
				return cl[0] == a.k && cl[1] == a.k
			case "<":
				if a.sign > 0 {
					return cl[1] < a.k
				}
				return cl[0] > a.k
			case "<=":
				if a.sign > 0 {
					return cl[1] <= a.k
				}
				return cl[0] >= a.k
			}
		}
		return false
	}
	// behaviour of each cell of each variable
	rows := func(v *cvar, cell [2]float64) string {
		var b strings.Builder
		at := map[*cvar][2]float64{v: cell}
		var rec func(i int)
		rec = func(i int) {
			if i == len(vs) {
				if eval(c, at) {
					b.WriteByte('1')
				} else {
					b.WriteByte('0')
				}
				return
			}
			if vs[i] == v {
				rec(i + 1)
				return
			}
			for _, cl := range vs[i].cells {
				at[vs[i]] = cl
				rec(i + 1)
			}
		}
		rec(0)
		return b.String()
	}
	total := 1
	for _, v := range vs {
		total *= len(v.cells)
	}
	if total > 20000 {
		return "cond(" + pr.raw(c) + ")"
	}
	var keep []*cvar
	for _, v := range vs {
		var m [][2]float64
		last := ""
		for _, cl := range v.cells {
			r := rows(v, cl)
			if len(m) > 0 && r == last && !v.bool {
				m[len(m)-1][1] = cl[1]
				continue
			}
			if v.bool && len(m) > 0 && r == last {
				m = m[:1]
				continue
			}
			m = append(m, cl)
			last = r
		}
		if len(m) > 1 {
			keep = append(keep, v)
		}
		// cells merged; any point stands for its cell
		v.cells = m
	}
	// a merged cell is represented by one of its points
	var out []string
	at := map[*cvar][2]float64{}
	point := func(cl [2]float64, v *cvar) [2]float64 {
		if v.bool {
			return cl
		}
		x := cl[0]
		if math.IsInf(x, -1) {
			x = cl[1]
			if math.IsInf(x, 1) {
				x = 0
			}
		}
		return [2]float64{x, x}
	}
	for _, v := range vs {
		at[v] = point(v.cells[0], v)
	}
	var rec func(i int, s string)
	rec = func(i int, s string) {
		if i == len(keep) {
			if eval(c, at) {
				out = append(out, s)
			}
			return
		}
		for _, cl := range keep[i].cells {
			at[keep[i]] = point(cl, keep[i])
			rec(i+1, s+fmt.Sprintf("[%s in %v..%v]", keep[i].name, cl[0], cl[1]))
		}
	}
	rec(0, "")
	switch {
	case len(out) == 0:
		return "false"
	case len(keep) == 0:
		return "true"
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// domain narrows what a quantity can be.
func (p *cueNorm) domain(v *cvar, args []*ct, n []int64, sign int64, pr *cprint) {
	if len(args) == 1 && sign*n[0] == 1 {
		a := args[0]
		if a.op == "call" && a.args[0].op == "ref" && a.args[0].lit == "len" {
			v.lo = 0
			if p.str(a.args[1]) == "lin.schemas" {
				v.lo = 1
			}
		}
	}
	if len(args) == 2 {
		// versions never fall along a lineage
		i, j := -1, -1
		for k, a := range args {
			if a.op != "idx" || !a.args[1].isLit("0") || a.args[0].op != "sel" {
				return
			}
			s := a.args[0]
			if s.lit == "to" && s.args[0].op == "idx" && s.args[0].args[0].op == "var" {
				i = k
			}
			if s.lit == "version" && s.args[0].op == "idx" && p.str(s.args[0].args[0]) == "lin.schemas" {
				j = k
			}
		}
		if i >= 0 && j >= 0 && n[i] == -n[j] && (n[i] == 1 || n[i] == -1) {
			// to[0] - version[0] <= 0
			if sign*n[i] > 0 {
				v.hi = 0
			} else {
				v.lo = 0
			}
		}
	}
}

func (p *cueNorm) never(c *ct) bool  { return p.table(c, &cprint{p: p}) == "false" }
func (p *cueNorm) always(c *ct) bool { return p.table(c, &cprint{p: p}) == "true" }

// ---- printing

// cprint prints terms; bound variables are numbered by depth.
type cprint struct {
	p     *cueNorm
	names map[*ct]string
	depth int
	st    map[*cinst]bool
}

func (p *cueNorm) str(t *ct) string { return (&cprint{p: p}).s(t) }

func (c *cprint) bind(v *ct, f func()) {
	if c.names == nil {
		c.names = map[*ct]string{}
	}
	c.depth++
	c.names[v] = fmt.Sprintf("$%d", c.depth)
	f()
	delete(c.names, v)
	c.depth--
}

func (c *cprint) raw(t *ct) string {
	var ss []string
	for _, a := range t.args {
		ss = append(ss, c.raw(a))
	}
	return t.op + t.lit + "(" + strings.Join(ss, ",") + ")"
}

func (c *cprint) s(t *ct) string {
	switch t.op {
	case "lit", "ref":
		return t.lit
	case "var":
		if n := c.names[t]; n != "" {
			return n
		}
		return fmt.Sprintf("#%d", t.id)
	case "sel":
		return c.s(t.args[0]) + "." + t.lit
	case "idx":
		return c.s(t.args[0]) + "[" + c.s(t.args[1]) + "]"
	case "slice":
		hi := c.s(t.args[2])
		if c.p.str(t.args[2]) == c.p.str(c.p.length(t.args[0])) {
			hi = ""
		}
		return c.s(t.args[0]) + "[" + c.s(t.args[1]) + ":" + hi + "]"
	case "lin":
		var ss []string
		for i, a := range t.args {
			ss = append(ss, fmt.Sprintf("%+d*%s", t.n[i], c.s(a)))
		}
		sort.Strings(ss)
		return "(" + strings.Join(ss, "") + fmt.Sprintf("%+d", t.n[len(t.n)-1]) + ")"
	case "call":
		var ss []string
		for _, a := range t.args[1:] {
			ss = append(ss, c.s(a))
		}
		return c.s(t.args[0]) + "(" + strings.Join(ss, ", ") + ")"
	case "and", "or", "comm":
		var ss []string
		for _, a := range t.args {
			ss = append(ss, c.s(a))
		}
		sort.Strings(ss)
		return t.op + t.lit + "(" + strings.Join(ss, ", ") + ")"
	case "def":
		return "*" + c.s(t.args[0])
	case "cmp", "not", "band", "bor", "atom":
		return "cond{" + c.p.table(t, c) + "}"
	case "case":
		type ent struct {
			c *ct
			s string
		}
		by := map[string]*ct{}
		var keys []string
		for i, a := range t.args {
			s := c.s(a)
			if by[s] == nil {
				by[s] = t.conds[i]
				keys = append(keys, s)
			} else {
				by[s] = cbor(by[s], t.conds[i])
			}
		}
		sort.Strings(keys)
		var ss []string
		for _, k := range keys {
			tb := c.p.table(by[k], c)
			if tb == "false" {
				continue
			}
			if tb == "true" && len(keys) == 1 {
				return k
			}
			ss = append(ss, "if "+tb+" {"+k+"}")
		}
		return "case<" + strings.Join(ss, " ") + ">"
	case "list":
		var ss []string
		for _, a := range t.args {
			ss = append(ss, c.s(a))
		}
		if t.open != nil {
			ss = append(ss, "..."+c.s(t.open))
		}
		return "[" + strings.Join(ss, ", ") + "]"
	case "elem":
		g := c.s(t.args[0])
		if g == "true" || g == "cond{true}" {
			return c.s(t.args[1])
		}
		return "if " + g + " " + c.s(t.args[1])
	case "comp":
		n := c.s(t.args[0])
		var b string
		c.bind(t.bind, func() { b = "for " + c.names[t.bind] + " below " + n + " " + c.s(t.args[1]) })
		return b
	case "fix":
		var b string
		c.bind(t.bind, func() { b = "rec " + c.names[t.bind] + ". " + c.s(t.args[0]) })
		return b
	case "struct":
		return c.structS(t.in)
	}
	var ss []string
	if t.bind != nil {
		ss = append(ss, c.s(t.args[0]))
		var b string
		c.bind(t.bind, func() { b = c.names[t.bind] + "=" + c.s(t.args[1]) })
		return t.op + "(" + ss[0] + ", " + b + ")"
	}
	for _, a := range t.args {
		ss = append(ss, c.s(a))
	}
	return t.op + ":" + t.lit + "(" + strings.Join(ss, ", ") + ")"
}

// structS prints a struct.
func (c *cprint) structS(in *cinst) string {
	if c.st == nil {
		c.st = map[*cinst]bool{}
	}
	if c.st[in] {
		return "{self}"
	}
	c.st[in] = true
	defer delete(c.st, in)
	fs := c.p.structFields(in)
	var ss []string
	for _, f := range fs {
		s := c.s(f.t)
		if f.label == "lacunas" && f.t.op == "case" {
			s = c.s(dropEmpty(f.t))
		}
		if f.label == "" {
			ss = append(ss, s)
		} else {
			ss = append(ss, f.label+": "+s)
		}
	}
	sort.Strings(ss)
	if in.open {
		ss = append(ss, "...")
	}
	return "{" + strings.Join(ss, ", ") + "}"
}

// dropEmpty drops the branches in which a list is empty: a list left out is
// empty.
func dropEmpty(t *ct) *ct {
	out := &ct{op: "case"}
	for i, a := range t.args {
		if a.op == "list" && len(a.args) == 0 && a.open == nil {
			continue
		}
		out.args, out.conds = append(out.args, a), append(out.conds, t.conds[i])
	}
	return out
}

type sfield struct {
	label string
	t     *ct
	pos   ctoken.Pos
}

// structFields are the fields of a struct that count: hidden fields that only
// name a value used elsewhere do not.
func (p *cueNorm) structFields(in *cinst) []sfield {
	if in.done == nil {
		in.done = p.allFields(in)
		for _, f := range in.done {
			p.force(f.t)
		}
	}
	var keep []sfield
	for _, f := range in.done {
		if p.hidden(f.label) && (in.used[f.label] && !typeish(f.t) || f.t.op == "lit" && f.t.lit != "_|_" && !p.known[f.label]) {
			continue
		}
		keep = append(keep, f)
	}
	return keep
}

// force evaluates the structs of a term where it stands: what they refer to
// may be under evaluation.
func (p *cueNorm) force(t *ct) {
	if t.op == "struct" {
		if t.in.done == nil {
			p.structFields(t.in)
		}
		return
	}
	for _, a := range t.args {
		p.force(a)
	}
	if t.open != nil {
		p.force(t.open)
	}
}

func (p *cueNorm) allFields(in *cinst) []sfield {
	ds := p.decls(in)
	var labels []string
	seen := map[string]bool{}
	pos := map[string]ctoken.Pos{}
	opt := map[string]bool{}
	for _, d := range ds {
		if d.label != "" && !seen[d.label] {
			seen[d.label] = true
			labels = append(labels, d.label)
			opt[d.label] = d.opt
			pos[d.label] = d.f.Pos()
		}
		if d.label != "" && !d.opt {
			opt[d.label] = false
		}
	}
	var out []sfield
	for _, l := range labels {
		var root *ct
		if in.root != nil && !p.hidden(l) {
			root = p.sel(in.root, l)
		}
		t := p.value(in, l, nil, root, p.hidden(l))
		n := l
		if opt[l] {
			n += "?"
		}
		out = append(out, sfield{n, t, pos[l]})
	}
	for _, d := range ds {
		if d.label == "" {
			t := p.norm(d.x, d.env)
			g := p.guard(d.guards, nil)
			if !g.isLit("true") {
				t = p.mkCase([]*ct{g}, []*ct{t})
			}
			out = append(out, sfield{"", t, d.x.Pos()})
		}
	}
	return out
}

// def is a definition of the package as a struct or value.
func (p *cueNorm) def(name string, root *ct) *ct {
	var vs []*ct
	for _, f := range p.fields[name] {
		vs = append(vs, p.norm(f.Value, p.env))
	}
	return p.and(vs, root, false)
}
