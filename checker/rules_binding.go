package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const bindPkg = "zz/binding"

// bindGen is the generator of bindings. For every path through it, its template
// is expanded with what the path fills in, unknown values standing for
// themselves, and the Go that results is analysed in turn.
type bindGen struct {
	*genModel
	holes map[string]*Term // placeholder to value
	names map[*Term]string
	files map[string]*parse.Tree
	seen  map[string]bool
	deps  map[string]*types.Package
}

// ruleT26: generated bindings load and bind the lineage they were generated for.
func ruleT26(c *Ctx) {
	m := c.generator("encoding/gocode", "GenerateLineageBinding")
	if m == nil {
		return
	}
	b := &bindGen{genModel: m, holes: map[string]*Term{}, names: map[*Term]string{}, files: map[string]*parse.Tree{}, seen: map[string]bool{}}
	m.outcomes(b.binding)
}

func (b *bindGen) binding(o *Outcome) string {
	e := b.e
	p, why := b.passedOn(o)
	if why != "" {
		return why
	}
	file := p.Args[0]
	if !b.given(o, e.fld(file, "IgnoreDiscoveredImports"), "IgnoreDiscoveredImports") {
		return "whether added imports are ignored is not what the caller asked"
	}
	if !b.given(o, e.fld(file, "Appliers"), "ApplyFuncs") {
		return "the functions applied are not the caller's: " + e.fld(file, "Appliers").String()
	}
	in := e.fld(file, "In")
	var exec *Term
	if in.Op == "conv" && len(in.Args) == 1 {
		in = in.Args[0]
	}
	if in.isCall("(*bytes.Buffer).Bytes", "(*bytes.Buffer).String") && len(in.Args) > 1 {
		in.Args[1].walk(func(t *Term) bool {
			if exec == nil && t.isCall("(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate") {
				exec = t
			}
			return exec == nil
		})
	}
	if exec == nil {
		return "what is post-processed does not come from a template"
	}
	var name string
	vars := exec.Args[len(exec.Args)-1]
	if exec.isCall("(*text/template.Template).ExecuteTemplate") {
		name, _ = exec.Args[2].constStr()
	} else if l := exec.Args[0]; l.isCall("(*text/template.Template).Lookup") {
		name, _ = l.Args[1].constStr()
	}
	if name == "" {
		return "the template is not known: " + exec.Args[0].String()
	}
	tree, err := b.tree(name)
	if err != nil {
		return "the template cannot be read: " + err.Error()
	}
	vars = unbox(vars)
	if vars.Op == "alloc" {
		vars = o.st.load(e, vars, anyType)
	}
	xs, why := b.expand(tree.Root, vars, expansion{facts: o.Facts})
	if why != "" {
		return why
	}
	for _, x := range xs {
		if why := b.file(o, x); why != "" {
			return why
		}
	}
	return ""
}

func (b *bindGen) tree(name string) (*parse.Tree, error) {
	if t, ok := b.files[name]; ok {
		return t, nil
	}
	text, err := os.ReadFile(filepath.Join(b.c.p.dir, "encoding", "gocode", name))
	if err != nil {
		return nil, err
	}
	t := parse.New(name)
	t.Mode = parse.SkipFuncCheck
	t, err = t.Parse(string(text), "", "", map[string]*parse.Tree{})
	if err != nil {
		return nil, err
	}
	b.files[name] = t
	return t, nil
}

// expansion is the text of the template so far, and what is known by then.
type expansion struct {
	text  string
	facts []Fact
	lists []*Term // what was ranged over
}

// with adds facts; nil if they contradict what is known.
func (b *bindGen) with(x expansion, c *Term, v bool) (expansion, bool) {
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	if k, ok := b.e.fact(x.facts, c); ok {
		return x, k == v
	}
	x.facts = append(append([]Fact(nil), x.facts...), Fact{C: c, Val: v})
	return x, true
}

func (b *bindGen) expand(n parse.Node, vars *Term, x expansion) ([]expansion, string) {
	switch n := n.(type) {
	case nil:
		return []expansion{x}, ""
	case *parse.ListNode:
		xs := []expansion{x}
		if n == nil {
			return xs, ""
		}
		for _, k := range n.Nodes {
			var next []expansion
			for _, x := range xs {
				ys, why := b.expand(k, vars, x)
				if why != "" {
					return nil, why
				}
				next = append(next, ys...)
			}
			xs = next
		}
		return xs, ""
	case *parse.TextNode:
		x.text += string(n.Text)
		return []expansion{x}, ""
	case *parse.CommentNode:
		return []expansion{x}, ""
	case *parse.ActionNode:
		t, why := b.pipe(n.Pipe, vars)
		if why != "" {
			return nil, why
		}
		x.text += b.text(x.facts, t)
		return []expansion{x}, ""
	case *parse.IfNode:
		c, why := b.pipe(n.Pipe, vars)
		if why != "" {
			return nil, why
		}
		return b.branch(n, c, vars, vars, n.List, n.ElseList, x)
	case *parse.WithNode:
		c, why := b.pipe(n.Pipe, vars)
		if why != "" {
			return nil, why
		}
		return b.branch(n, c, c, vars, n.List, n.ElseList, x)
	case *parse.RangeNode:
		list, why := b.pipe(n.Pipe, vars)
		if why != "" {
			return nil, why
		}
		return b.ranges(n, list, vars, x)
	}
	return nil, fmt.Sprintf("the template uses something the analysis does not follow: %v", n)
}

// ranges expands a loop over a list nothing is known of, for none, one and two
// elements; its elements stand for themselves.
func (b *bindGen) ranges(n *parse.RangeNode, list, vars *Term, x expansion) ([]expansion, string) {
	out, why := b.expand(n.ElseList, vars, x)
	if why != "" || list.isNil() {
		return out, why
	}
	for i := range out {
		out[i].lists = append(append([]*Term(nil), x.lists...), list)
	}
	x.lists = append(append([]*Term(nil), x.lists...), list)
	xs := []expansion{x}
	for k := int64(0); k < 2; k++ {
		var next []expansion
		for _, y := range xs {
			ys, why := b.expand(n.List, b.e.mk("elem", "", list, b.e.int(k)), y)
			if why != "" {
				return nil, why
			}
			next = append(next, ys...)
		}
		out = append(out, next...)
		xs = next
	}
	return out, ""
}

// branch expands what follows a condition, and what follows its being false.
func (b *bindGen) branch(n parse.Node, c, then, els *Term, list, elseList *parse.ListNode, x expansion) ([]expansion, string) {
	yes, no, why := b.split(c, []expansion{x})
	if why != "" {
		return nil, why
	}
	var out []expansion
	for i, xs := range [][]expansion{yes, no} {
		l, vars := list, then
		if i == 1 {
			l, vars = elseList, els
		}
		for _, y := range xs {
			ys, why := b.expand(l, vars, y)
			if why != "" {
				return nil, why
			}
			out = append(out, ys...)
		}
	}
	return out, ""
}

// split sorts expansions by whether a value counts as true.
func (b *bindGen) split(c *Term, xs []expansion) (yes, no []expansion, why string) {
	if c.Op == "and" || c.Op == "or" {
		rest := xs
		for _, a := range c.Args {
			y, n, why := b.split(a, rest)
			if why != "" {
				return nil, nil, why
			}
			if c.Op == "and" {
				no, rest = append(no, n...), y
			} else {
				yes, rest = append(yes, y...), n
			}
		}
		if c.Op == "and" {
			yes = rest
		} else {
			no = rest
		}
		return yes, no, ""
	}
	if c.Op == "not" && (c.Args[0].Op == "and" || c.Args[0].Op == "or") {
		no, yes, why = b.split(c.Args[0], xs)
		return yes, no, why
	}
	t := b.truth(c)
	for _, x := range xs {
		if y, ok := b.with(x, t, true); ok {
			yes = append(yes, y)
		}
		if y, ok := b.with(x, t, false); ok {
			no = append(no, y)
		}
	}
	return yes, no, ""
}

// truth is the condition a value stands for in a template.
func (b *bindGen) truth(t *Term) *Term {
	e := b.e
	if s, ok := t.constStr(); ok {
		return e.boolT(s != "")
	}
	if t.Op == "cat" {
		for _, a := range t.Args {
			if s, ok := a.constStr(); ok && s != "" {
				return e.boolT(true)
			}
		}
	}
	if t.isCall("fmt.Sprintf") && isStr(t.Args[0], "%q") || t.isCall("strconv.Quote") {
		return e.boolT(true)
	}
	if t.T != nil {
		switch u := t.T.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				return e.mk("not", "", e.eq(t, e.str("")))
			case u.Info()&types.IsNumeric != 0:
				return e.mk("not", "", e.eq(t, e.int(0)))
			}
		case *types.Pointer:
			return e.mk("not", "", e.nilEq(t))
		}
	}
	return t
}

func (b *bindGen) pipe(p *parse.PipeNode, vars *Term) (*Term, string) {
	if len(p.Cmds) != 1 || len(p.Decl) != 0 {
		return nil, "the template uses something the analysis does not follow: " + p.String()
	}
	return b.cmd(p.Cmds[0].Args, vars)
}

func (b *bindGen) cmd(args []parse.Node, vars *Term) (*Term, string) {
	e := b.e
	switch a := args[0].(type) {
	case *parse.DotNode:
		if len(args) == 1 {
			return vars, ""
		}
	case *parse.FieldNode:
		if len(args) == 1 {
			t := vars
			for _, f := range a.Ident {
				t = e.fld(t, f)
			}
			return t, ""
		}
	case *parse.StringNode:
		return e.str(a.Text), ""
	case *parse.NumberNode:
		if a.IsInt {
			return e.int(a.Int64), ""
		}
	case *parse.BoolNode:
		return e.boolT(a.True), ""
	case *parse.PipeNode:
		return b.pipe(a, vars)
	case *parse.IdentifierNode:
		var xs []*Term
		for _, k := range args[1:] {
			t, why := b.cmd([]parse.Node{k}, vars)
			if why != "" {
				return nil, why
			}
			xs = append(xs, t)
		}
		switch {
		case a.Ident == "not" && len(xs) == 1:
			c := b.truth(xs[0])
			if c.Op == "const" {
				return e.boolT(c.Sym != "true"), ""
			}
			if c.Op == "not" {
				return c.Args[0], ""
			}
			return e.mk("not", "", c), ""
		case a.Ident == "and" && len(xs) > 0, a.Ident == "or" && len(xs) > 0:
			return e.mk(a.Ident, "", xs...), ""
		case (a.Ident == "eq" || a.Ident == "ne") && len(xs) == 2:
			c := e.eq(xs[0], xs[1])
			if a.Ident == "ne" {
				c = e.not(c)
			}
			c.T = types.Typ[types.Bool]
			return c, ""
		case a.Ident == "index" && len(xs) == 2:
			t := e.index(xs[0], xs[1])
			if t.T == nil {
				t.T = types.Typ[types.Uint]
			}
			return t, ""
		case a.Ident == "printf" && len(xs) == 2 && isStr(xs[0], "%q"):
			return e.mk("call", "fmt.Sprintf", xs[0], e.mk("list", "", xs[1])), ""
		}
	}
	return nil, fmt.Sprintf("the template uses something the analysis does not follow: %v", args)
}

// text is what a value looks like in the expansion: constants as they are,
// everything else as a name of its own.
func (b *bindGen) text(facts []Fact, t *Term) string {
	e := b.e
	if s, ok := t.constStr(); ok {
		return s
	}
	switch {
	case t.Op == "const":
		return t.Sym
	case t.Op == "cat":
		var s string
		for _, a := range t.Args {
			s += b.text(facts, a)
		}
		return s
	case t.Op == "elem":
		return strconv.Quote(b.hole(t))
	case t.Op == "fmt" && len(t.Args) == 1:
		return b.text(facts, t.Args[0])
	case t.isCall("fmt.Sprintf") && isStr(t.Args[0], "%q") && t.Args[1].Op == "list":
		return strconv.Quote(escaped(b.text(facts, t.Args[1].Args[0])))
	case t.isCall("strconv.Quote"):
		return strconv.Quote(escaped(b.text(facts, t.Args[0])))
	case t.isCall("("+cuePkg+".Path).String") && t.Args[0].Op == "zero":
		return ""
	}
	// an identifier prints as its name, which may start with a star
	if id := b.identOf(t); id != nil {
		star := e.mk("call", "strings.HasPrefix", e.mk("call", "(*"+dstPkg+".Ident).String", id), e.str("*"))
		if v, ok := e.fact(facts, star); ok && v {
			return "*" + b.hole(id)
		}
		return b.hole(id)
	}
	if x, from := e.sliceFrom(t); x != nil && from != nil {
		if n, ok := from.constInt(); ok && n == 1 {
			if s := b.text(facts, x); strings.HasPrefix(s, "*") {
				return s[1:]
			}
		}
	}
	if t.isCall("strings.TrimPrefix") && isStr(t.Args[1], "*") {
		return strings.TrimPrefix(b.text(facts, t.Args[0]), "*")
	}
	if t.T != nil {
		if u, ok := t.T.Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
			return b.number(t)
		}
	}
	if k, _ := e.fact(facts, e.eq(t, e.str(""))); k {
		return ""
	}
	return b.hole(t)
}

func (b *bindGen) identOf(t *Term) *Term {
	if t.isCall("(*" + dstPkg + ".Ident).String") {
		return t.Args[0]
	}
	if t == b.e.fld(b.cfg, "Assignee") {
		return t
	}
	return nil
}

func (b *bindGen) hole(t *Term) string {
	if s, ok := b.names[t]; ok {
		return s
	}
	s := fmt.Sprintf("Zz%02dz", len(b.names))
	b.names[t] = s
	b.holes[s] = t
	return s
}

func (b *bindGen) number(t *Term) string {
	if s, ok := b.names[t]; ok {
		return s
	}
	s := strconv.Itoa(7000 + len(b.names))
	b.names[t] = s
	b.holes[s] = t
	return s
}

// file checks the Go one expansion of the template is.
func (b *bindGen) file(o *Outcome, x expansion) string {
	e := b.e
	xo := &Outcome{Facts: x.facts, st: o.st}
	lin := e.fld(b.sch, "name")
	get := func(f string) (*Term, bool, string) {
		empty, ok := b.empty(xo, f)
		if !ok {
			return nil, false, "whether " + f + " is given is not considered"
		}
		if empty {
			return nil, false, ""
		}
		return e.fld(b.cfg, f), true, ""
	}
	cfgText := func(t *Term) string { return b.text(x.facts, t) }

	// the names
	pkg := b.text(x.facts, e.mk("call", "strings.ToLower", lin))
	if t, given, why := get("PackageName"); why != "" {
		return why
	} else if given {
		pkg = cfgText(t)
	}
	suffix, ok := b.flag(xo, "FactoryNameSuffix")
	if !ok {
		return "whether the factory is named after the lineage is not considered"
	}
	name := "Lineage"
	if suffix {
		t, given, why := get("TitleName")
		switch {
		case why != "":
			return why
		case given:
			name += cfgText(t)
		default:
			name += b.text(x.facts, e.mk("call", "strings.Title", lin))
		}
	}
	convergent := false
	if !b.noConfig(xo) {
		switch e.nilness(xo, e.fld(b.cfg, "Assignee")) {
		case mayNil:
			return "whether there is a Go type is not considered"
		case notNil:
			convergent = true
		}
	}
	private, ok := b.flag(xo, "PrivateFactory")
	if !ok {
		return "whether the factory is private is not considered"
	}
	if private {
		name = "do" + name
	}
	var loadDir, embed, mod string
	var hasLoad, hasEmbed, hasMod bool
	for _, f := range []struct {
		name string
		s    *string
		b    *bool
	}{{"LoadDir", &loadDir, &hasLoad}, {"EmbedPath", &embed, &hasEmbed}, {"CueModName", &mod, &hasMod}} {
		t, given, _ := get(f.name)
		if given {
			*f.s, *f.b = cfgText(t), true
		}
	}
	assignee := ""
	if convergent {
		assignee = cfgText(e.fld(b.cfg, "Assignee"))
	}
	key := x.text + "\x00" + strings.Join([]string{pkg, name, assignee, fmt.Sprint(convergent, hasLoad, hasEmbed, hasMod)}, "\x00")
	if b.seen[key] {
		return ""
	}
	b.seen[key] = true

	f, tpkg, info, fset, why := b.check(x, assignee, hasLoad, hasEmbed && hasMod)
	if why != "" {
		return why
	}
	if f.Name.Name != pkg {
		return "the package is named " + b.unhole(f.Name.Name) + ", not " + b.unhole(pkg)
	}
	// the embedded files
	evar, why := embedded(f)
	if why != "" {
		return why
	}
	switch {
	case hasEmbed && (evar.name == "" || evar.path != embed):
		return "the files given are not embedded: " + b.unhole(evar.path)
	case !hasEmbed && evar.name != "":
		return "files are embedded although none are given"
	}
	sp := b.c.p.prog.CreatePackage(tpkg, []*ast.File{f, b.stubs(fset)}, info, false)
	sp.Build()
	fn := sp.Func(name)
	if fn == nil {
		return "no function " + b.unhole(name) + " is generated"
	}
	b.c.ok("expansions of the template analysed", "encoding/gocode", 1)
	return b.factory(fn, convergent, assignee, x, hasLoad, hasEmbed && hasMod, loadDir, mod, evar.name)
}

// unhole puts the values back for placeholders.
// escaped marks the names in a text as standing for their escaped form.
func escaped(s string) string {
	return holeName.ReplaceAllString(s, "${1}q")
}

var holeName = regexp.MustCompile(`(Zz[0-9]+)z`)

func (b *bindGen) unhole(s string) string {
	for h, t := range b.holes {
		s = strings.ReplaceAll(s, h, "<"+t.String()+">")
		s = strings.ReplaceAll(s, escaped(h), "<"+t.String()+">")
	}
	return s
}

type embedVar struct{ name, path string }

// embedded finds the variable with an embed directive.
func embedded(f *ast.File) (embedVar, string) {
	var v embedVar
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR || gd.Doc == nil {
			continue
		}
		for _, c := range gd.Doc.List {
			if rest, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
				vs := gd.Specs[0].(*ast.ValueSpec)
				if v.name != "" || len(gd.Specs) != 1 || len(vs.Names) != 1 || len(vs.Values) != 0 {
					return v, "the embed directive does not belong to one variable"
				}
				v = embedVar{vs.Names[0].Name, strings.TrimSpace(rest)}
			}
		}
	}
	// a directive that belongs to nothing
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed ") && v.name == "" {
				return v, "the embed directive does not belong to a variable"
			}
		}
	}
	return v, ""
}

// stubs is the file the caller writes: the functions that are not generated and
// the Go type.
var stubFile *ast.File

func (b *bindGen) stubs(fset *token.FileSet) *ast.File { return stubFile }

func (b *bindGen) check(x expansion, assignee string, hasLoad, hasFS bool) (*ast.File, *types.Package, *types.Info, *token.FileSet, string) {
	fset := b.c.p.fset
	f, err := parser.ParseFile(fset, "binding.go", x.text, parser.ParseComments)
	if err != nil {
		return nil, nil, nil, nil, "the generated code does not parse: " + b.unhole(err.Error())
	}
	n := b.text(x.facts, b.e.fld(b.sch, "name"))
	stub := "package " + f.Name.Name + "\nimport (\n\"io/fs\"\n\"cuelang.org/go/cue/build\"\n)\nvar _ fs.FS\nvar _ *build.Instance\n"
	if !hasLoad {
		stub += "func loadInstanceFor" + n + "() (*build.Instance, error)\n"
	} else if !hasFS {
		stub += "func getThemaFSFor" + n + "() fs.FS\n"
	}
	if a := strings.TrimPrefix(assignee, "*"); a != "" {
		stub += "type " + a + " struct{}\n"
	}
	sf, err := parser.ParseFile(fset, "stub.go", stub, 0)
	if err != nil {
		return nil, nil, nil, nil, "the names generated are not identifiers: " + b.unhole(err.Error())
	}
	stubFile = sf
	if b.deps == nil {
		b.deps = map[string]*types.Package{}
		packages.Visit(b.c.p.pkgs, nil, func(p *packages.Package) { b.deps[p.PkgPath] = p.Types })
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Instances: map[*ast.Ident]types.Instance{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{}, FileVersions: map[*ast.File]string{},
	}
	var first string
	conf := types.Config{Importer: importerFunc(func(p string) (*types.Package, error) {
		if t := b.deps[p]; t != nil {
			return t, nil
		}
		return nil, fmt.Errorf("package %s is not known", p)
	}), Error: func(err error) {
		te, ok := err.(types.Error)
		// goimports removes imports that are not used; the stubs have no bodies
		if ok && (strings.Contains(te.Msg, "imported and not used") || strings.Contains(te.Msg, "missing function body")) {
			return
		}
		if first == "" {
			first = err.Error()
		}
	}}
	pkg, _ := conf.Check(modPath+"/"+bindPkg, fset, []*ast.File{f, sf}, info)
	if first != "" {
		return nil, nil, nil, nil, "the generated code does not compile: " + b.unhole(first)
	}
	return f, pkg, info, fset, ""
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// factory: the function loads, builds, looks up and binds.
func (b *bindGen) factory(fn *ssa.Function, convergent bool, assignee string, x expansion, hasLoad, hasFS bool, loadDir, mod, evar string) string {
	c := b.c
	e := newEngine(c.p, Options{Opaque: func(f *ssa.Function) bool { return !strings.HasSuffix(fnPkgPath(f), bindPkg) }})
	outs := e.Run(fn)
	c.account(e, fn, outs)
	ps := e.paramTerms(fn)
	if len(ps) != 2 {
		return "the factory does not take a runtime and options"
	}
	rt, opts := ps[0], ps[1]
	good := 0
	for _, o := range outs {
		if o.Kind != outReturn {
			return "the factory may panic"
		}
		if len(o.Vals) != 2 {
			return "the factory does not return a lineage and an error"
		}
		if e.nilness(o, o.Vals[1]) == notNil {
			if !o.Vals[0].isNil() || !c.failedStep(e, o) {
				return "the factory fails without a reason, or returns a lineage with an error"
			}
			continue
		}
		good++
		lin := o.Vals[0]
		if convergent {
			if e.nilness(o, o.Vals[1]) != isNil {
				return "the factory's error is not decided"
			}
			if t := c.undecidedErr(e, o); t != nil {
				return "the factory returns a lineage although a step may have failed: " + t.String()
			}
			typed := lin
			if lin.Op != "call" || !strings.HasSuffix(lin.Sym, ".ConvergentLineage") {
				return "the factory does not return the lineage of the bound schema: " + lin.String()
			}
			typed = lin.Args[0]
			bind, i := typed.call()
			if bind == nil || i != 0 || !bind.isCall("thema.BindType") {
				return "the Go type is not bound to a schema"
			}
			sch, ini := bind.Args[0], unbox(bind.Args[1])
			if !b.initOf(e, o, ini, assignee) {
				return "what is bound is not a fresh value of the Go type: " + ini.String()
			}
			if !sch.isCall("thema.SchemaP") || !b.version(e, sch.Args[1], x) {
				return "the schema bound is not the one of the target version: " + sch.String()
			}
			lin = sch.Args[0]
		} else if p, i := o.Vals[1].call(); o.Vals[1].isNil() && e.nilness(o, e.mk("ext", "1", unext(lin))) == isNil {
		} else if p == nil || i != 1 || p != unext(lin) {
			return "the factory's error is not that of binding"
		}
		if why := b.bound(e, o, lin, rt, opts, x, hasLoad, hasFS, loadDir, mod, evar); why != "" {
			return why
		}
	}
	if good == 0 {
		return "the factory never succeeds"
	}
	return ""
}

func unext(t *Term) *Term {
	p, _ := t.call()
	return p
}

func (b *bindGen) initOf(e *Engine, o *Outcome, t *Term, assignee string) bool {
	if strings.HasPrefix(assignee, "*") {
		return t.Op == "alloc" && strings.HasSuffix(t.T.String(), "."+assignee[1:])
	}
	return t.Op == "zero" && strings.HasSuffix(t.Sym, "."+assignee)
}

// version: the version is that of the configuration.
func (b *bindGen) version(e *Engine, t *Term, x expansion) bool {
	target := b.e.fld(b.cfg, "TargetSchemaVersion")
	for i := int64(0); i < 2; i++ {
		want := b.names[b.e.index(target, b.e.int(i))]
		var got *Term
		if t.isCall("thema.SV") {
			got = t.Args[i]
		} else {
			got = e.index(t, e.int(i))
		}
		if want == "" || got.Op != "const" || got.Sym != want {
			return false
		}
	}
	return true
}

// bound: the lineage is bound from the value at the path configured, of the
// instance that was loaded.
func (b *bindGen) bound(e *Engine, o *Outcome, lin, rt, opts *Term, x expansion, hasLoad, hasFS bool, loadDir, mod, evar string) string {
	bind, i := lin.call()
	if bind == nil || i != 0 || !bind.isCall("thema.BindLineage") {
		return "the lineage is not bound: " + lin.String()
	}
	if bind.Args[1] != rt || bind.Args[2] != opts {
		return "the lineage is not bound with the runtime and the options given"
	}
	v := bind.Args[0]
	path := b.text(x.facts, b.e.mk("call", "("+cuePkg+".Path).String", b.e.fld(b.cfg, "CuePath")))
	if b.noConfig(&Outcome{Facts: x.facts}) {
		path = ""
	}
	if v.isCall(cv("LookupPath")) {
		if got := v.Args[1]; got != e.mk("path", escaped(path)) && !(path == "" && b.emptyPath(e, got)) {
			return "the lineage is not looked up at the path configured: " + b.unhole(got.String())
		}
		v = v.Args[0]
	} else if path != "" {
		return "the path configured is not looked up"
	}
	if !v.isCall("(*"+cuePkg+".Context).BuildInstance") || !v.Args[0].contains(rt) {
		return "the instance is not built in the context of the runtime"
	}
	load, i := v.Args[1].call()
	if load == nil || i != 0 || e.nilness(o, e.mk("ext", "1", load)) != isNil {
		return "the instance built is not one that was loaded"
	}
	n := b.text(x.facts, b.e.fld(b.sch, "name"))
	if !hasLoad {
		if !strings.HasSuffix(load.Sym, ".loadInstanceFor"+n) {
			return "the instance is not loaded by the function the caller is to write: " + b.unhole(load.Sym)
		}
		return ""
	}
	if !load.isCall("load.InstanceWithThema") || !isStr(load.Args[1], loadDir) {
		return "the instance is not loaded from the directory given: " + b.unhole(load.String())
	}
	fsys := unbox(load.Args[0])
	if !hasFS {
		if fsys.Op != "call" || !strings.HasSuffix(fsys.Sym, ".getThemaFSFor"+n) {
			return "the instance is not loaded from the files the caller is to provide"
		}
		return ""
	}
	if !fsys.isCall("load.AsModFS") || !isStr(fsys.Args[1], mod) {
		return "the files are not those of the module named: " + b.unhole(fsys.String())
	}
	if g := unbox(fsys.Args[0]); g.Op != "gval" || !strings.HasSuffix(g.Sym, "."+evar) {
		return "the files are not the embedded ones: " + b.unhole(g.String())
	}
	return ""
}

func (b *bindGen) emptyPath(e *Engine, t *Term) bool {
	return t.Op == "zero" || t == e.mk("path", "") || t.isCall(cuePkg+".ParsePath") && isStr(t.Args[0], "")
}
