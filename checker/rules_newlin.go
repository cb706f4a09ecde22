package main

import (
	"fmt"
	"strconv"
	"strings"
	"text/template/parse"

	cast "cuelang.org/go/cue/ast"
	cparser "cuelang.org/go/cue/parser"
	"golang.org/x/tools/go/ssa"
)

const (
	cueFormat = "cuelang.org/go/cue/format."
	themaPath = "github.com/grafana/thema"
)

// newLin is the function that writes the file of a new lineage.
type newLin struct {
	*bindGen
	name, pkgname *Term
	formatted     *Term // the schema given, as syntax
	seenParts     map[string]bool
}

// ruleT38: the file of a new lineage declares what it was asked to.
func ruleT38(c *Ctx) {
	fn := c.need("encoding/cue", "NewLineage")
	if fn == nil {
		return
	}
	e, outs := c.runOpts(fn, Options{Opaque: genOpaque(fn)})
	ps := e.paramTerms(fn)
	if len(ps) != 3 {
		c.fail("anchor", fnPos(fn), fn, nil, nil, "the function does not take a schema, a name and the name of a package")
		return
	}
	m := &genModel{c: c, e: e, fn: fn, outs: outs, sch: ps[0], cfg: ps[0]}
	b := &bindGen{genModel: m, holes: map[string]*Term{}, names: map[*Term]string{}, files: map[string]*parse.Tree{}, seen: map[string]bool{}}
	l := &newLin{bindGen: b, name: ps[1], pkgname: ps[2], seenParts: map[string]bool{}}
	l.formatted = e.mk("call", "internal/astutil.Format", ps[0])
	m.outcomes(l.result)
	for _, want := range []string{"package", "no package", "imports", "no imports"} {
		if !l.seenParts[want] {
			c.fail("result", fnPos(fn), fn, nil, nil, "no file was analysed with %s", want)
		}
	}
	c.syntaxOf()
	c.exprOf()
	c.printed()
}

func (l *newLin) result(o *Outcome) string {
	e := l.e
	if e.nilness(o, o.Vals[1]) != isNil {
		return "the error is not decided: " + o.Vals[1].String()
	}
	if t := l.c.undecidedErr(e, o); t != nil {
		return "a file is made although a step may have failed: " + t.String()
	}
	p, i := o.Vals[0].call()
	if p == nil || i != 0 || !p.isCall("cuelang.org/go/cue/parser.ParseFile") {
		return "what is returned is not the file written: " + o.Vals[0].String()
	}
	comments := false
	if p.Args[2].Op == "list" {
		for _, a := range p.Args[2].Args {
			comments = comments || strings.HasSuffix(a.String(), "parser.ParseComments")
		}
	}
	if !comments {
		return "comments are lost: the file is parsed without them"
	}
	in := unbox(p.Args[1])
	if in.Op == "conv" && len(in.Args) == 1 {
		in = in.Args[0]
	}
	var exec *Term
	if in.isCall("(*bytes.Buffer).Bytes", "(*bytes.Buffer).String") && len(in.Args) > 1 {
		in.Args[1].walk(func(t *Term) bool {
			if exec == nil && t.isCall("(*text/template.Template).Execute") {
				exec = t
			}
			return exec == nil
		})
	}
	if exec == nil {
		return "the file does not come from a template"
	}
	text, ok := l.templateText(exec.Args[0])
	if !ok {
		return "the template is not known: " + exec.Args[0].String()
	}
	t := parse.New("newlin")
	t.Mode = parse.SkipFuncCheck
	t, err := t.Parse(text, "", "", map[string]*parse.Tree{})
	if err != nil {
		return "the template cannot be read: " + err.Error()
	}
	vars := unbox(exec.Args[len(exec.Args)-1])
	if vars.Op == "alloc" {
		vars = o.st.load(e, vars, anyType)
	}
	xs, why := l.expand(t.Root, vars, expansion{facts: o.Facts})
	if why != "" {
		return why
	}
	for _, x := range xs {
		if why := l.declares(o, x); why != "" {
			return why
		}
	}
	return ""
}

// templateText is the source of a template: of one made on the spot, or of a
// package variable that is only set where it is declared.
func (l *newLin) templateText(t *Term) (string, bool) {
	var out string
	n := 0
	if t.Op == "gval" || t.Op == "global" {
		for _, fn := range l.c.p.allFuncs() {
			for _, blk := range fn.Blocks {
				for _, in := range blk.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path()+"."+g.Name() != t.Sym {
						continue
					}
					n++
					out, ok = parsedText(st.Val, 0)
					if !ok || fn.Name() != "init" {
						return "", false
					}
				}
			}
		}
		return out, n == 1
	}
	t.walk(func(k *Term) bool {
		if k.isCall("(*text/template.Template).Parse") && len(k.Args) > 1 {
			if s, ok := k.Args[1].constStr(); ok {
				out = s
				n++
			}
		}
		return true
	})
	return out, n == 1
}

func parsedText(v ssa.Value, d int) (string, bool) {
	if d > 6 {
		return "", false
	}
	switch v := v.(type) {
	case *ssa.Extract:
		return parsedText(v.Tuple, d+1)
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return "", false
		}
		switch g.String() {
		case "text/template.Must":
			return parsedText(v.Call.Args[0], d+1)
		case "(*text/template.Template).Parse":
			if k, ok := v.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
				s, err := strconv.Unquote(k.Value.ExactString())
				return s, err == nil
			}
		}
	}
	return "", false
}

// declares: one expansion of the template is a lineage file with everything given.
func (l *newLin) declares(o *Outcome, x expansion) string {
	e := l.e
	f, err := cparser.ParseFile("new.cue", x.text, cparser.ParseComments)
	if err != nil {
		return "what the template gives is not CUE: " + err.Error() + "\n" + x.text
	}
	noPkg, known := e.fact(x.facts, e.eq(l.pkgname, e.str("")))
	if !known {
		noPkg, known = e.fact(x.facts, e.eq(e.length(l.pkgname), e.int(0)))
	}
	switch {
	case !known:
		return "whether there is a package name is not considered"
	case noPkg:
		l.seenParts["no package"] = true
		if f.PackageName() != "" {
			return "there is a package clause although none was asked for: " + f.PackageName()
		}
	default:
		l.seenParts["package"] = true
		if l.holes[f.PackageName()] != l.pkgname {
			return "the package is not the one asked for: package " + f.PackageName()
		}
	}
	themaName := ""
	var imported []string
	var rest []cast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *cast.Package, *cast.CommentGroup:
		case *cast.ImportDecl:
			for _, s := range d.Specs {
				p, err := strconv.Unquote(s.Path.Value)
				if err != nil {
					return "an import cannot be read: " + s.Path.Value
				}
				if p == themaPath {
					if themaName != "" {
						return "thema is imported twice"
					}
					themaName = "thema"
					if s.Name != nil {
						themaName = s.Name.Name
					}
					continue
				}
				if s.Name != nil {
					return "an import is renamed: " + s.Name.Name
				}
				imported = append(imported, p)
			}
		default:
			rest = append(rest, d)
		}
	}
	if themaName != "thema" {
		return "thema is not imported under its own name"
	}
	if why := l.imports(o, x, imported); why != "" {
		return why
	}
	embeds, fields, why := cueParts(rest)
	if why != "" {
		return why
	}
	if len(embeds) != 1 || !isSelector(embeds[0], themaName, "#Lineage") {
		return "the file does not declare a lineage"
	}
	for label, v := range fields {
		switch label {
		case "name":
			lit, ok := v.(*cast.BasicLit)
			if !ok {
				return "the name is not a string"
			}
			s, err := strconv.Unquote(lit.Value)
			if err != nil || l.holes[s] != l.name {
				return "the name is not the one given: " + lit.Value
			}
		case "schemas":
			if why := l.schemas(o, x, v); why != "" {
				return why
			}
		case "lenses":
			if k, ok := v.(*cast.ListLit); !ok || len(k.Elts) != 0 {
				return "a new lineage has lenses"
			}
		default:
			return "the lineage has a field nobody asked for: " + label
		}
	}
	if fields["name"] == nil || fields["schemas"] == nil {
		return "the lineage has no name or no schemas"
	}
	return ""
}

// schemas: one schema, of version 0.0, which is the one given.
func (l *newLin) schemas(o *Outcome, x expansion, v cast.Expr) string {
	e := l.e
	list, ok := v.(*cast.ListLit)
	if !ok || len(list.Elts) != 1 {
		return "the lineage does not have exactly one schema"
	}
	s, ok := list.Elts[0].(*cast.StructLit)
	if !ok {
		return "the schema is not declared as one"
	}
	embeds, fields, why := cueParts(s.Elts)
	if why != "" || len(embeds) != 0 || len(fields) != 2 || fields["version"] == nil || fields["schema"] == nil {
		return "the schema does not have exactly a version and a schema " + why
	}
	vl, ok := fields["version"].(*cast.ListLit)
	if !ok || len(vl.Elts) != 2 {
		return "the version is not a pair"
	}
	for _, n := range vl.Elts {
		if k, ok := n.(*cast.BasicLit); !ok || k.Value != "0" {
			return "the schema is not version 0.0"
		}
	}
	sch := fields["schema"]
	for d := 0; d < 5; d++ {
		if st, ok := sch.(*cast.StructLit); ok && len(st.Elts) == 1 {
			if em, ok := st.Elts[0].(*cast.EmbedDecl); ok {
				sch = em.Expr
				continue
			}
		}
		break
	}
	id, ok := sch.(*cast.Ident)
	if !ok {
		return "the schema is not the one given"
	}
	t := l.holes[id.Name]
	if t == nil || t.Op != "conv" && !t.isCall("string") {
		return fmt.Sprintf("the schema is not the one given: %v", t)
	}
	p, i := t.Args[0].call()
	if p == nil || i != 0 || !p.isCall("internal/astutil.FmtNode") {
		return "the schema is not printed: " + t.String()
	}
	src := unbox(p.Args[0])
	if src.isCall("internal/astutil.ToExpr") {
		src = unbox(src.Args[0])
	} else if v, known := e.fact(o.Facts, e.mk("istype", "*"+cueAst+".File", l.formatted)); !known || v {
		return "a whole file is put where the schema goes: " + src.String()
	}
	if src != l.formatted {
		return "the schema is not the one given: " + src.String()
	}
	return ""
}

// imports: the file has every import of the schema, each once.
func (l *newLin) imports(o *Outcome, x expansion, got []string) string {
	e := l.e
	isFile, known := e.fact(o.Facts, e.mk("istype", "*"+cueAst+".File", l.formatted))
	if known && !isFile {
		if len(got) != 0 {
			return "something is imported that nothing needs"
		}
		return ""
	}
	if len(got) == 0 {
		l.seenParts["no imports"] = true
	}
	// every expansion names the list whose elements it imports, or says that it
	// has none
	if len(x.lists) != 1 {
		return "the imports of the schema are lost"
	}
	list := x.lists[0]
	for _, g := range got {
		t := l.holes[g]
		if t == nil || t.Op != "elem" || t.Args[0] != list {
			return "an import is not one of the schema: " + g
		}
	}
	if len(got) > 0 {
		l.seenParts["imports"] = true
	}
	return l.allImports(o, list)
}

// allImports: the list has the text of every import spec of the formatted
// schema, but for that of thema.
func (l *newLin) allImports(o *Outcome, list *Term) string {
	e := l.e
	decls := e.fld(l.formatted, "Decls")
	outer := listLoop(list)
	if outer == "" || !e.implied(o.Facts, e.lt(e.iter(outer), e.length(decls)), false) {
		return "not all declarations of the schema are searched for imports: " + list.String()
	}
	if in := e.listInit(l.outs, outer, list); in == nil || !in.isNil() && in.Op != "zero" && !isEmptyMake(in) {
		return "the list of imports does not start empty"
	}
	n := 0
	for _, it := range iterations(l.outs, outer) {
		if !e.samePath(it, o, outer) {
			continue
		}
		n++
		d := e.index(decls, e.iter(outer))
		is, known := e.fact(it.Facts, e.mk("istype", "*"+cueAst+".ImportDecl", d))
		if !known {
			return "whether a declaration is an import is not considered"
		}
		next := carriedTo(e, it, list)
		if !is {
			if next != list {
				return "something that is not an import is imported"
			}
			continue
		}
		inner := listLoop(next)
		specs := e.fld(d, "Specs")
		if inner == "" || inner == outer || !e.implied(it.Facts, e.lt(e.iter(inner), e.length(specs)), false) {
			return "not all imports of a declaration are kept"
		}
		if e.listInit(l.outs, inner, next) != list {
			return "imports found before are lost"
		}
		k := 0
		for _, jt := range iterations(l.outs, inner) {
			if !e.samePath(jt, it, inner) {
				continue
			}
			k++
			s := e.index(specs, e.iter(inner))
			path := e.fld(e.fld(s, "Path"), "Value")
			text := path
			switch e.nilness(jt, e.fld(s, "Name")) {
			case notNil:
				text = e.mk("cat", "", e.fld(e.fld(s, "Name"), "Name"), e.str(" "), path)
			case mayNil:
				return "the name of an import is not considered"
			}
			added, ok := flat(carriedTo(e, jt, next), next)
			switch {
			case !ok || len(added) > 1:
				return "the list of imports is not extended by one import"
			case len(added) == 1:
				if added[0] != text {
					return "an import is not written as it is in the schema: " + added[0].String()
				}
				if text == path && !e.implied(jt.Facts, e.eq(text, e.str(strconv.Quote(themaPath))), false) {
					return "thema may be imported twice"
				}
			default:
				if v, known := e.fact(jt.Facts, e.eq(text, e.str(strconv.Quote(themaPath)))); !known || !v {
					return "an import of the schema is left out"
				}
			}
		}
		if k == 0 {
			return "no import was analysed"
		}
	}
	if n == 0 {
		return "no declaration was analysed"
	}
	return ""
}

func isEmptyMake(t *Term) bool {
	return t.Op == "list" && len(t.Args) == 0 || t.Op == "makeslice" && len(t.Args) > 0 && t.Args[0].Sym == "0"
}

// carriedTo is the value a loop variable has after an iteration.
func carriedTo(e *Engine, it *Outcome, v *Term) *Term {
	for _, c := range e.carriers(it) {
		if c.old == v {
			return c.new
		}
	}
	return v
}

// cueParts splits a struct into what it embeds and its regular fields.
func cueParts(ds []cast.Decl) (embeds []cast.Expr, fields map[string]cast.Expr, why string) {
	fields = map[string]cast.Expr{}
	for _, d := range ds {
		switch d := d.(type) {
		case *cast.CommentGroup:
		case *cast.EmbedDecl:
			embeds = append(embeds, d.Expr)
		case *cast.Field:
			label, _, err := cast.LabelName(d.Label)
			if err != nil || d.Optional.IsValid() {
				return nil, nil, "a field is not regular"
			}
			if fields[label] != nil {
				return nil, nil, "a field is declared twice: " + label
			}
			fields[label] = d.Value
		default:
			return nil, nil, fmt.Sprintf("a declaration nobody asked for: %T", d)
		}
	}
	return embeds, fields, ""
}

func isSelector(x cast.Expr, pkg, name string) bool {
	s, ok := x.(*cast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*cast.Ident)
	if !ok || id.Name != pkg {
		return false
	}
	l, _, err := cast.LabelName(s.Sel)
	return err == nil && l == name
}

// syntaxOf: a value is turned into syntax with everything it has.
func (c *Ctx) syntaxOf() {
	fn := c.need("internal/astutil", "Format")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	v := e.paramTerms(fn)[0]
	n := 0
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		n++
		t := unbox(o.Vals[0])
		if !t.isCall(cv("Syntax")) || t.Args[0] != v || t.Args[1].Op != "list" {
			c.fail("syntax", o.Pos, fn, e, o, "what is returned is not the syntax of the value: %v", t)
			continue
		}
		all, docs := false, false
		for _, a := range t.Args[1].Args {
			on := len(a.Args) == 0 || a.Args[0].Op == "const" && a.Args[0].Sym == "true"
			switch {
			case a.isCall(cuePkg + ".All"):
				all = true
			case a.isCall(cuePkg+".Docs") && on:
				docs = true
			case a.isCall(cuePkg+".Definitions", cuePkg+".Optional", cuePkg+".Hidden", cuePkg+".Attributes") && on:
			default:
				c.fail("syntax", o.Pos, fn, e, o, "the syntax is not that of the value as it is: %v", a)
			}
		}
		if !all || !docs {
			c.fail("syntax", o.Pos, fn, e, o, "the syntax does not have all fields, attributes and comments")
		}
		c.ok("syntax has everything the value has", fname(fn), 1)
	}
	if n == 0 {
		c.fail("syntax", fnPos(fn), fn, nil, nil, "nothing was analysed")
	}
}

// exprOf: a file becomes the expression of all its declarations but the package
// clause and imports.
func (c *Ctx) exprOf() {
	fn := c.need("internal/astutil", "ToExpr")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	p := e.paramTerms(fn)[0]
	decls := e.fld(p, "Decls")
	is := func(o *Outcome, t *Term, typ string) (bool, bool) {
		return e.fact(o.Facts, e.mk("istype", "*"+cueAst+"."+typ, t))
	}
	header := func(o *Outcome, d *Term) (v, known bool) {
		a, ka := is(o, d, "Package")
		b, kb := is(o, d, "ImportDecl")
		if ka && a || kb && b {
			return true, true
		}
		return false, ka && kb
	}
	// body: the list has all declarations that are not part of the header
	body := func(o *Outcome, t *Term) bool {
		if x, from := e.sliceFrom(t); x == decls && from != nil {
			loop := listLoop(from)
			if loop == "" {
				return false
			}
			in := e.listInit(outs, loop, from)
			if in == nil || in != e.int(0) {
				return false
			}
			i := e.iter(loop)
			n := 0
			for _, it := range iterations(outs, loop) {
				if !e.samePath(it, o, loop) {
					continue
				}
				n++
				h, known := header(it, e.index(decls, i))
				next := carriedTo(e, it, from)
				if !known || h != (next == e.add(i, e.int(1))) || !h && next != from {
					return false
				}
			}
			if e.implied(o.Facts, e.lt(i, e.length(decls)), false) {
				return n > 0
			}
			h, known := header(o, e.index(decls, i))
			return n > 0 && known && !h
		}
		loop := listLoop(t)
		if loop == "" || !e.implied(o.Facts, e.lt(e.iter(loop), e.length(decls)), false) {
			return false
		}
		if in := e.listInit(outs, loop, t); in == nil || !in.isNil() && in.Op != "zero" && !isEmptyMake(in) {
			return false
		}
		n := 0
		for _, it := range iterations(outs, loop) {
			if !e.samePath(it, o, loop) {
				continue
			}
			n++
			d := e.index(decls, e.iter(loop))
			h, known := header(it, d)
			added, ok := flat(carriedTo(e, it, t), t)
			if !known || !ok || h && len(added) != 0 || !h && (len(added) != 1 || added[0] != d) {
				return false
			}
		}
		return n > 0
	}
	files := 0
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		t := unbox(o.Vals[0])
		if v, known := is(o, p, "File"); !known || !v {
			if t != p && !(t.isNil() && e.nilness(o, p) == isNil) {
				c.fail("expression", o.Pos, fn, e, o, "an expression does not stay what it is: %v", t)
			}
			c.ok("expressions stay", fname(fn), 1)
			continue
		}
		files++
		ok := false
		if t.Op == "fld" && t.Sym == "Expr" && t.Args[0].Op == "index" {
			list := t.Args[0].Args[0]
			one, known := e.fact(o.Facts, e.eq(e.length(list), e.int(1)))
			em, k2 := is(o, t.Args[0], "EmbedDecl")
			ok = known && one && k2 && em && t.Args[0] == e.index(list, e.int(0)) && body(o, list)
		} else if t.Op == "alloc" {
			ok = body(o, o.field(e, t, "Elts"))
		}
		if !ok {
			c.fail("expression", o.Pos, fn, e, o, "the expression does not have all declarations of the file: %v", t)
			continue
		}
		c.ok("all declarations are in the expression", fname(fn), 1)
	}
	if files == 0 {
		c.fail("expression", fnPos(fn), fn, nil, nil, "no file was analysed")
	}
}

// printed: a node is printed as it is, or an error is returned.
func (c *Ctx) printed() {
	fn := c.need("internal/astutil", "FmtNode")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	p := e.paramTerms(fn)[0]
	good := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			c.fail("printing", o.Pos, fn, e, o, "printing may panic")
		case outReturn:
			if e.nilness(o, o.Vals[1]) == notNil {
				if !c.failedStep(e, o) {
					c.fail("printing", o.Pos, fn, e, o, "a node is refused for no reason")
				}
				continue
			}
			good++
			if t := c.undecidedErr(e, o); t != nil || e.nilness(o, o.Vals[1]) != isNil {
				c.fail("printing", o.Pos, fn, e, o, "text is returned although a step may have failed")
				continue
			}
			t := o.Vals[0]
			for {
				k, i := t.call()
				if k == nil || i != 0 || !k.isCall(cueFormat+"Source") {
					break
				}
				t = k.Args[0]
			}
			k, i := t.call()
			if k == nil || i != 0 || !k.isCall(cueFormat+"Node") || unbox(k.Args[0]) != p {
				c.fail("printing", o.Pos, fn, e, o, "what is returned is not the text of the node: %v", o.Vals[0])
				continue
			}
			c.ok("the text is that of the node", fname(fn), 1)
		}
	}
	if good == 0 {
		c.fail("printing", fnPos(fn), fn, nil, nil, "nothing was analysed")
	}
}
