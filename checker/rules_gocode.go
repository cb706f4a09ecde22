package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	dstPkg    = "github.com/dave/dst"
	dstApply  = dstPkg + "/dstutil.Apply"
	dstNode   = "(*" + dstPkg + "/dstutil.Cursor).Node"
	dstDelete = "(*" + dstPkg + "/dstutil.Cursor).Delete"
	oapiGen   = "internal/deepmap/oapi-codegen/pkg/codegen.Generate"
)

// ruleT24: Go types are generated from the OpenAPI of the schema given, as
// configured, and post-processed.
func ruleT24(c *Ctx) {
	m := c.generator("encoding/gocode", "GenerateTypesOpenAPI")
	if m == nil {
		return
	}
	g := &goModel{genModel: m, done: map[string]string{}}
	g.walkers()
	m.outcomes(g.goFile)
	if !g.sawPlain || !g.sawAll {
		c.fail("pointers", fnPos(m.fn), m.fn, nil, nil, "optional fields are not treated both with and without pointers")
	}
	p := c.generator1("encoding/gocode", "PostprocessGoFile")
	if p != nil {
		p.refuses = p.importsAdded
		p.outcomes(p.postprocessed)
	}
}

// generator1 is a generator with a single parameter.
func (c *Ctx) generator1(pkg, name string) *genModel {
	fn := c.need(pkg, name)
	if fn == nil {
		return nil
	}
	e, outs := c.runOpts(fn, Options{Opaque: genOpaque(fn)})
	ps := e.paramTerms(fn)
	if len(ps) != 1 {
		c.fail("anchor", fnPos(fn), fn, nil, nil, "the function does not take one parameter")
		return nil
	}
	return &genModel{c: c, e: e, fn: fn, outs: outs, sch: ps[0], cfg: ps[0]}
}

type goModel struct {
	*genModel
	family, lost     map[*ssa.Function]*walker
	done             map[string]string
	sawPlain, sawAll bool
}

// given: the term is the caller's value of an option, or the zero value when
// there is no configuration.
func (m *genModel) given(o *Outcome, t *Term, f string) bool {
	if m.noConfig(o) {
		return m.e.isZero(t)
	}
	if t == m.e.fld(m.cfg, f) {
		return true
	}
	// a boolean the trace knows
	if v, ok := m.flag(o, f); ok && t.Op == "const" {
		return t.Sym == "true" && v || t.Sym == "false" && !v
	}
	return false
}

// passedOn: what is returned is what the post-processor returned.
func (m *genModel) passedOn(o *Outcome) (*Term, string) {
	e := m.e
	p, i := o.Vals[0].call()
	if p == nil || i != 0 || !p.isCall("encoding/gocode.PostprocessGoFile") {
		return nil, "what is returned is not the post-processed file: " + o.Vals[0].String()
	}
	err := e.mk("ext", "1", p)
	if o.Vals[1] != err && !(o.Vals[1].isNil() && e.nilness(o, err) == isNil) {
		return nil, "the error of the post-processing is lost"
	}
	for _, ev := range o.Events {
		if ev.Kind != evCall || ev.Instr == nil || ev.Term == p {
			continue
		}
		if t := m.c.errOf(e, ev); t != nil && e.nilness(o, t) != isNil {
			return nil, "code is generated although a step may have failed: " + t.String()
		}
	}
	return p, ""
}

func convArg(t *Term) *Term {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func (g *goModel) goFile(o *Outcome) string {
	e := g.e
	p, why := g.passedOn(o)
	if why != "" {
		return why
	}
	file := p.Args[0]
	if !g.given(o, e.fld(file, "IgnoreDiscoveredImports"), "IgnoreDiscoveredImports") {
		return "whether added imports are ignored is not what the caller asked"
	}
	gen, i := convArg(e.fld(file, "In")).call()
	if gen == nil || i != 0 || !gen.isCall(oapiGen) {
		return "what is post-processed is not what was generated"
	}
	if why := g.source(o, gen.Args[0]); why != "" {
		return why
	}
	if why := g.options(o, gen.Args[1]); why != "" {
		return why
	}
	return g.appliers(o, e.fld(file, "Appliers"))
}

// source: the OpenAPI types come from is that of the schema given.
func (g *goModel) source(o *Outcome, t *Term) string {
	e := g.e
	load, i := t.call()
	if load == nil || i != 0 || !load.isCall("(*github.com/getkin/kin-openapi/openapi3.Loader).LoadFromData") {
		return "types are not generated from a loaded document"
	}
	text, i := convArg(load.Args[1]).call()
	if text == nil || i != 0 || len(text.Args) == 0 || !text.isCall("cuelang.org/go/pkg/encoding/yaml.Marshal", "cuelang.org/go/pkg/encoding/json.Marshal") {
		return "the document loaded is not the one generated"
	}
	build := text.Args[0]
	if !build.isCall("(*"+cuePkg+".Context).BuildFile") || !build.Args[0].contains(e.fld(e.fld(g.sch, "lin"), "rt")) {
		return "the document is not built in the context of the schema"
	}
	doc, i := build.Args[1].call()
	if doc == nil || i != 0 || !doc.isCall("encoding/openapi.GenerateSchema") {
		return "types are not generated from OpenAPI"
	}
	if doc.Args[0] != g.sch {
		return "types are not generated from the OpenAPI of the schema given: " + doc.Args[0].String()
	}
	if !g.given(o, doc.Args[1], "Config") {
		return "the configuration of the OpenAPI generator is not the caller's: " + doc.Args[1].String()
	}
	return ""
}

// options of the code generator.
func (g *goModel) options(o *Outcome, t *Term) string {
	e := g.e
	is := func(s, f string) bool {
		x := e.fld(e.fld(t, s), f)
		return x.Op == "const" && x.Sym == "true"
	}
	switch {
	case !is("Generate", "Models"):
		return "models are not generated"
	case !is("OutputOptions", "SkipPrune"):
		return "types nothing refers to are dropped"
	case !is("Compatibility", "AlwaysPrefixEnumValues"):
		return "constants of different types may share a name"
	}
	pkg := e.fld(t, "PackageName")
	return g.packageName(o, pkg, e.fld(e.fld(g.sch, "lin"), "name"))
}

func (m *genModel) packageName(o *Outcome, pkg, lin *Term) string {
	e := m.e
	empty, ok := m.empty(o, "PackageName")
	if !ok {
		return "the package name given is not considered"
	}
	want := e.mk("call", "strings.ToLower", lin)
	if !empty {
		want = e.fld(m.cfg, "PackageName")
	}
	if pkg != want {
		return "the package is not named as it should be: " + pkg.String()
	}
	return ""
}

// appliers: the generator's own come first, the caller's last and all of them.
func (g *goModel) appliers(o *Outcome, list *Term) string {
	e := g.e
	parts := listParts(list)
	if !g.noConfig(o) {
		n := len(parts)
		if n == 0 || !parts[n-1].spread || parts[n-1].t != e.fld(g.cfg, "ApplyFuncs") {
			return "the caller's functions are not applied last"
		}
		parts = parts[:n-1]
	}
	var cls []*Term
	for _, p := range parts {
		cl := closureOf(p.t)
		if p.spread || cl == nil {
			return "a function is applied that is not one of the generator's: " + p.t.String()
		}
		cls = append(cls, cl)
	}
	// the choice may be made by the function itself
	all := choice{}
	all.v, all.known = g.flag(o, "NoOptionalPointers")
	roles := map[string]bool{}
	for _, cl := range cls {
		key := cl.String()
		for _, a := range cl.Args {
			key += " " + o.st.load(e, a, anyType).String()
		}
		key += fmt.Sprint(" ", all)
		role, ok := g.done[key]
		if !ok {
			role = g.applier(o, cl, all)
			g.done[key] = role
		}
		for _, r := range strings.Fields(role) {
			roles[r] = true
		}
	}
	for _, r := range []string{"pointers", "unions", "names"} {
		if !roles[r] {
			g.blame()
			return "nothing of what is applied takes care of " + r
		}
	}
	g.sawAll = g.sawAll || all.v || !all.known
	g.sawPlain = g.sawPlain || !all.v
	plain, ok := g.flag(o, "UseGoDeclInComments")
	if !ok {
		return "whether comments start with Go names is not considered"
	}
	if plain == roles["comments"] {
		return "comments are not written as the caller asked"
	}
	return ""
}

func (g *goModel) isType(o *Outcome, t *Term, name string) (bool, bool) {
	return g.e.fact(o.Facts, g.e.mk("istype", "*"+dstPkg+"."+name, t))
}

func (g *goModel) is(o *Outcome, t *Term, name string) bool {
	v, ok := g.isType(o, t, name)
	return v && ok
}

func (g *goModel) isNot(o *Outcome, t *Term, name string) bool {
	v, ok := g.isType(o, t, name)
	return !v && ok
}

// applier analyses one function applied to every node of the file and returns
// what it takes care of.
func (g *goModel) applier(o *Outcome, cl *Term, all choice) string {
	e, c := g.e, g.c
	outs := c.runClosure(e, o, cl)
	ps := e.paramTerms(cl.Fn)
	if len(ps) != 1 {
		return ""
	}
	node := e.mk("call", dstNode, ps[0])
	fails := len(c.viol)
	pointers, names, unions := true, true, true
	sawPtr, sawName, sawUnion, comments := false, false, false, false
	for _, io := range outs {
		if io.Kind == outPanic {
			c.fail("total", io.Pos, cl.Fn, e, io, "what is applied to the file may panic")
			continue
		}
		// what is written
		stored := map[*Term]*Term{}
		for _, ev := range io.Events {
			switch {
			case ev.Kind == evStore:
				a := ev.Args[0]
				root := rootAddr(a)
				if root.Op == "alloc" {
					continue
				}
				switch {
				case a.Op == "faddr" && a.Sym == "Type" && a.Args[0] == node && g.is(io, node, "Field"):
					old := e.fld(node, "Type")
					x := e.fld(old, "X")
					if !g.is(io, old, "StarExpr") || ev.Args[1] != x {
						c.fail("pointers", ev.Pos, cl.Fn, e, io, "a field's type is replaced by something other than what it points to")
					} else if !g.depoint(io, x, all) {
						c.fail("pointers", ev.Pos, cl.Fn, e, io, "a field loses its pointer although it is neither a list nor a map, nor was it asked for")
					}
					stored[a] = ev.Args[1]
				case a.Op == "faddr" && a.Sym == "Name":
					stored[a] = ev.Args[1]
				case a.Op == "saddr" && g.isComment(a):
					if v := g.commentField(io, node, a); v {
						comments = true
					}
				default:
					c.fail("effects", ev.Pos, cl.Fn, e, io, "something else of the file is changed: %v", a)
				}
			case ev.Kind == evCall && ev.Term.Op == "call" && strings.HasPrefix(ev.Term.Sym, "(*"+dstPkg+"/dstutil.Cursor).") && !ev.Term.isCall(dstNode):
				switch strings.TrimPrefix(ev.Term.Sym, "(*"+dstPkg+"/dstutil.Cursor).") {
				case "Name", "Index", "Parent":
				default:
					c.fail("effects", ev.Pos, cl.Fn, e, io, "a node is removed or replaced: %v", ev.Term)
				}
			case ev.Kind == evCall && ev.Term.isCall(dstApply):
				sawUnion = true
				if !g.unions(io, outs, node, ev.Term) {
					unions = false
				}
			}
		}
		if io.Kind != outReturn {
			continue
		}
		// pointers
		typ := e.fld(node, "Type")
		if g.is(io, node, "Field") && g.is(io, typ, "StarExpr") {
			_, done := stored[e.mk("faddr", "Type", node)]
			if done {
				sawPtr = true
			} else if !g.keepsPointer(io, e.fld(typ, "X"), all) {
				pointers = false
			}
		} else if !g.isNot(io, node, "Field") && !g.isNot(io, typ, "StarExpr") {
			pointers = false
		}
		// names
		if g.is(io, node, "GenDecl") {
			specs := e.fld(node, "Specs")
			if why := g.named(io, outs, node, specs); why != "" {
				names = false
			} else {
				sawName = true
			}
		} else if !g.isNot(io, node, "GenDecl") {
			names = false
		}
		if !(io.Vals[0].Op == "const" && io.Vals[0].Sym == "true") {
			pointers, names, comments = false, false, false
		}
		if !g.is(io, node, "File") {
			continue
		}
	}
	if len(c.viol) > fails {
		return "pointers unions names comments"
	}
	var roles []string
	if sawPtr && pointers {
		roles = append(roles, "pointers")
	}
	if sawName && names {
		roles = append(roles, "names")
	}
	if sawUnion && unions {
		roles = append(roles, "unions")
	}
	if comments {
		roles = append(roles, "comments")
	}
	c.ok("functions applied to generated Go: "+strings.Join(roles, ", "), fname(cl.Fn), 1)
	return strings.Join(roles, " ")
}

// choice is the value of an option, if it is known.
type choice struct{ v, known bool }

// allTypes: whether every pointer is to go, as far as the trace knows.
func (g *goModel) allTypes(io *Outcome, all choice) choice {
	if all.known {
		return all
	}
	v, ok := g.e.fact(io.Facts, g.e.fld(g.cfg, "NoOptionalPointers"))
	return choice{v, ok}
}

func (g *goModel) depoint(io *Outcome, x *Term, all choice) bool {
	a := g.allTypes(io, all)
	return a.v && a.known || g.is(io, x, "ArrayType") || g.is(io, x, "MapType")
}

func (g *goModel) keepsPointer(io *Outcome, x *Term, all choice) bool {
	a := g.allTypes(io, all)
	return !a.v && a.known && g.isNot(io, x, "ArrayType") && g.isNot(io, x, "MapType")
}

func (g *goModel) isComment(a *Term) bool {
	ok := false
	a.walk(func(t *Term) bool {
		if t.isCall("(*"+dstPkg+".Decorations).All") || (t.Op == "fld" || t.Op == "faddr") && (t.Sym == "Decs" || t.Sym == "Start") {
			ok = true
		}
		return !ok
	})
	return ok
}

// commentField: the comment written is that of a field.
func (g *goModel) commentField(io *Outcome, node, a *Term) bool {
	return g.is(io, node, "Field") && a.contains(node)
}

// visited: the rename at hand has been done to an identifier.
type visitor struct {
	fn     *Term // the function handed on, when it is a parameter
	rename func(o *Outcome, id *Term) bool
	handed func(o *Outcome, fn *Term) bool
}

func (g *goModel) visited(o *Outcome, p *Term, v visitor) bool {
	for _, ev := range o.Events {
		if v.fn != nil && ev.Kind == evCall && ev.Term.isCall("dynamic") && len(ev.Term.Args) == 2 && ev.Term.Args[0] == v.fn && unbox(ev.Term.Args[1]) == p {
			return true
		}
	}
	return v.rename != nil && v.rename(o, p)
}

func (g *goModel) walked(o *Outcome, p *Term, v visitor) bool {
	for _, ev := range o.Events {
		if ev.Kind != evCall || ev.Term.Op != "call" || len(ev.Term.Args) != 2 {
			continue
		}
		fn := g.c.p.byCanon(ev.Term.Sym)
		if fn == nil || g.family[fn] == nil || unbox(ev.Term.Args[g.family[fn].node]) != p {
			continue
		}
		f := ev.Term.Args[1-g.family[fn].node]
		if v.fn != nil && f == v.fn || v.handed != nil && v.handed(o, f) {
			return true
		}
	}
	return false
}

// covers: every identifier of the type at p is visited.
func (g *goModel) covers(o *Outcome, outs []*Outcome, p *Term, v visitor, star bool, depth int) bool {
	if depth > 6 {
		return false
	}
	e := g.e
	switch {
	case g.is(o, p, "Ident"):
		return g.visited(o, p, v)
	case g.walked(o, p, v):
		return true
	case g.is(o, p, "ArrayType"):
		return g.covers(o, outs, e.fld(p, "Elt"), v, false, depth+1)
	case g.is(o, p, "MapType"):
		return g.covers(o, outs, e.fld(p, "Value"), v, false, depth+1)
	case g.is(o, p, "StructType"):
		return g.fields(o, outs, p, v)
	case g.is(o, p, "StarExpr"):
		return g.covers(o, outs, e.fld(p, "X"), v, false, depth+1)
	}
	if star && !g.isNot(o, p, "StarExpr") {
		return false
	}
	return g.isNot(o, p, "Ident") && g.isNot(o, p, "ArrayType") && g.isNot(o, p, "MapType") && g.isNot(o, p, "StructType")
}

// fields: every identifier of the fields of the struct type at p is visited.
func (g *goModel) fields(o *Outcome, outs []*Outcome, p *Term, v visitor) bool {
	e := g.e
	if g.walked(o, e.fld(p, "Fields"), v) {
		return true
	}
	return g.list(o, outs, e.fld(e.fld(p, "Fields"), "List"), v)
}

func (g *goModel) list(o *Outcome, outs []*Outcome, list *Term, v visitor) bool {
	e := g.e
	return g.walked(o, list, v) || g.each(o, outs, list, func(it *Outcome, el *Term) bool {
		return g.walked(it, el, v) || g.covers(it, outs, e.fld(el, "Type"), v, true, 0)
	})
}

// each: the trace went through all of a list, and every round passes the test.
func (g *goModel) each(o *Outcome, outs []*Outcome, list *Term, ok func(*Outcome, *Term) bool) bool {
	e := g.e
	for loop := range o.passed() {
		if !e.implied(o.Facts, e.lt(e.iter(loop), e.length(list)), false) {
			continue
		}
		good, n := true, 0
		for _, it := range iterations(outs, loop) {
			if !e.samePath(it, o, loop) {
				continue
			}
			n++
			if !ok(it, e.index(list, e.iter(loop))) {
				good = false
			}
		}
		if good && n > 0 {
			return true
		}
	}
	return false
}

// walker is a function that visits every identifier of what it is given.
type walker struct {
	kind string
	node int // which parameter is the node; the other one is the visitor
	// how it was found wanting
	o    *Outcome
	e    *Engine
	runs []*Outcome
}

// walkers finds and decides the functions that visit every identifier of a type:
// the largest set of them that do if those they call do.
func (g *goModel) walkers() {
	g.family = map[*ssa.Function]*walker{}
	c := g.c
	var fns []*ssa.Function
	for _, f := range c.p.allFuncs() {
		sig := f.Signature
		if !strings.HasSuffix(fnPkgPath(f), "/encoding/gocode") || f.Blocks == nil || sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 0 {
			continue
		}
		for i := 0; i < 2; i++ {
			cb, ok := sig.Params().At(1 - i).Type().Underlying().(*types.Signature)
			if !ok || cb.Params().Len() != 1 || cb.Params().At(0).Type().String() != "*"+dstPkg+".Ident" {
				continue
			}
			switch t := strings.TrimPrefix(strings.TrimPrefix(sig.Params().At(i).Type().String(), "[]"), "*"); t {
			case dstPkg + ".StructType", dstPkg + ".MapType", dstPkg + ".ArrayType", dstPkg + ".Expr", dstPkg + ".Node", dstPkg + ".Field", dstPkg + ".FieldList":
				k := strings.TrimPrefix(t, dstPkg+".")
				if strings.HasPrefix(sig.Params().At(i).Type().String(), "[]") {
					k = "list of " + k
				}
				g.family[f] = &walker{kind: k, node: i}
				fns = append(fns, f)
			}
		}
	}
	lost := map[*ssa.Function]*walker{}
	for again := true; again; {
		again = false
		for _, f := range fns {
			w := g.family[f]
			if w == nil {
				continue
			}
			if w.e == nil {
				w.e, w.runs = c.runOpts(f, Options{})
			}
			if !g.walks(f, w) {
				delete(g.family, f)
				lost[f] = w
				again = true
			}
		}
	}
	for _, f := range fns {
		if g.family[f] != nil {
			c.ok("every identifier of a type is visited", fname(f), len(g.family[f].runs))
		}
	}
	g.lost = lost
}

func (g *goModel) walks(f *ssa.Function, w *walker) bool {
	sub := *g
	e, outs := w.e, w.runs
	gm := *g.genModel
	gm.e, gm.outs, gm.fn = e, outs, f
	sub.genModel = &gm
	ps := e.paramTerms(f)
	node := ps[w.node]
	v := visitor{fn: ps[1-w.node]}
	n := 0
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		n++
		good := sub.walked(o, node, v)
		if !good {
			switch w.kind {
			case "StructType":
				good = sub.fields(o, outs, node, v)
			case "MapType":
				good = sub.covers(o, outs, e.fld(node, "Value"), v, false, 0)
			case "ArrayType":
				good = sub.covers(o, outs, e.fld(node, "Elt"), v, false, 0)
			case "Field":
				good = sub.covers(o, outs, e.fld(node, "Type"), v, true, 0)
			case "FieldList":
				good = sub.list(o, outs, e.fld(node, "List"), v)
			case "list of Field":
				good = sub.list(o, outs, node, v)
			case "Expr", "Node":
				good = sub.covers(o, outs, node, v, false, 0)
			}
		}
		if !good {
			w.o = o
			return false
		}
	}
	return n > 0
}

// blame reports the walkers that miss something, when something is missed.
func (g *goModel) blame() {
	for f, w := range g.lost {
		pos := fnPos(f)
		if w.o != nil {
			pos = w.o.Pos
		}
		g.c.fail("every type", pos, f, w.e, w.o, "a type inside the %s is not visited", w.kind)
	}
}

// renames: on the trace, the identifier is renamed exactly when cond holds.
func (g *goModel) nameOf(t, id *Term) bool {
	if t == g.e.fld(id, "Name") {
		return true
	}
	return t.Op == "loopmem" && len(t.Args) == 1 && t.Args[0].Op == "faddr" && t.Args[0].Sym == "Name" && t.Args[0].Args[0] == id
}

func (g *goModel) storedName(o *Outcome, id *Term) *Term {
	var v *Term
	for _, ev := range o.Events {
		if ev.Kind == evStore && ev.Args[0].Op == "faddr" && ev.Args[0].Sym == "Name" && ev.Args[0].Args[0] == id {
			v = ev.Args[1]
		}
	}
	return v
}

// noUnderscore: the identifier loses its underscores.
func (g *goModel) noUnderscore(o *Outcome, id *Term) bool {
	v := g.storedName(o, id)
	if v != nil {
		return v.isCall("strings.ReplaceAll") && g.nameOf(v.Args[0], id) && isStr(v.Args[1], "_") && isStr(v.Args[2], "")
	}
	for _, f := range o.Facts {
		if !f.Val && f.C.isCall("strings.Contains") && g.nameOf(f.C.Args[0], id) && isStr(f.C.Args[1], "_") {
			return true
		}
	}
	return false
}

func isStr(t *Term, s string) bool {
	x, ok := t.constStr()
	return ok && x == s
}

// handed: the function handed to a walker renames every identifier it is given.
func (g *goModel) handed(o *Outcome, f *Term, rename func(*Outcome, *Term) bool) bool {
	cl := closureOf(f)
	if cl == nil {
		return false
	}
	e := g.e
	outs := g.c.runClosure(e, o, cl)
	ps := e.paramTerms(cl.Fn)
	if len(ps) != 1 {
		return false
	}
	for _, io := range outs {
		if io.Kind != outReturn || !rename(io, ps[0]) {
			return false
		}
	}
	return len(outs) > 0
}

// named: on a declaration of a type, underscores leave its name and the names
// of the types it refers to.
func (g *goModel) named(o *Outcome, outs []*Outcome, node, specs *Term) string {
	e := g.e
	v := visitor{rename: g.noUnderscore}
	v.handed = func(o *Outcome, f *Term) bool { return g.handed(o, f, g.noUnderscore) }
	one := func(o *Outcome, s *Term) bool {
		if g.isNot(o, s, "TypeSpec") {
			return true
		}
		if !g.is(o, s, "TypeSpec") || !g.noUnderscore(o, e.fld(s, "Name")) {
			return false
		}
		t := e.fld(s, "Type")
		// an alias names a definition of the document, which has no underscore
		if g.covers(o, outs, t, v, false, 0) || g.is(o, t, "Ident") {
			return true
		}
		return g.isNot(o, t, "ArrayType") && g.isNot(o, t, "MapType") && g.isNot(o, t, "StructType")
	}
	if one(o, e.index(specs, e.int(0))) || g.each(o, outs, specs, one) {
		return ""
	}
	return "underscores stay"
}

// unions: types that stand for a union are removed with all functions, and
// replaced wherever they are referred to.
func (g *goModel) unions(o *Outcome, outs []*Outcome, node, apply *Term) bool {
	e, c := g.e, g.c
	cl := closureOf(apply.Args[1])
	if unbox(apply.Args[0]) != node || !g.is(o, node, "File") || cl == nil {
		return false
	}
	inner := c.runClosure(e, o, cl)
	ps := e.paramTerms(cl.Fn)
	n := e.mk("call", dstNode, ps[0])
	good := true
	bad := func(io *Outcome, format string, a ...any) {
		good = false
		c.fail("unions", io.Pos, cl.Fn, e, io, format, a...)
	}
	var removed *Term
	for _, io := range inner {
		deleted := false
		for _, ev := range io.Events {
			if ev.Kind == evCall && ev.Term.isCall(dstDelete) {
				deleted = true
			}
			if ev.Kind == evMap || ev.Kind == evDel {
				bad(io, "what is to be removed changes while it is removed")
			}
		}
		switch io.Kind {
		case outPanic:
			bad(io, "what is applied to the file may panic")
		case outReturn:
			if g.is(io, n, "FuncDecl") {
				if !deleted {
					bad(io, "a function stays in the generated file")
				}
				continue
			}
			if !g.isNot(io, n, "FuncDecl") {
				bad(io, "functions are not removed")
				continue
			}
			if deleted && !g.is(io, n, "GenDecl") {
				bad(io, "something other than a declaration is removed")
			}
			if !(io.Vals[0].Op == "const" && io.Vals[0].Sym == "true") {
				bad(io, "what lies below a node is not visited")
			}
			if !g.is(io, n, "GenDecl") {
				if !g.isNot(io, n, "GenDecl") {
					bad(io, "declarations are not looked at")
				}
				continue
			}
			ok := g.each(io, inner, e.fld(n, "Specs"), func(it *Outcome, s *Term) bool {
				if g.isNot(it, s, "TypeSpec") {
					return true
				}
				if !g.is(it, s, "TypeSpec") {
					return false
				}
				var known *bool
				for _, f := range it.Facts {
					if f.C.Op == "lookup" && g.nameOf(f.C.Args[1], e.fld(s, "Name")) {
						b := f.Val
						known = &b
						removed = f.C.Args[0]
					}
				}
				if known == nil {
					return false
				}
				gone := false
				for _, ev := range it.Events {
					if ev.Kind == evCall && ev.Term.isCall(dstDelete) {
						gone = true
					}
				}
				if *known {
					return gone
				}
				toAny := func(o *Outcome, id *Term) bool { return g.toAny(o, id, removed) }
				v := visitor{rename: toAny}
				v.handed = func(o *Outcome, f *Term) bool { return g.handed(o, f, toAny) }
				return g.covers(it, inner, e.fld(s, "Type"), v, false, 0)
			})
			if !ok {
				bad(io, "a type that stood for a union may still be referred to")
			}
		}
	}
	if removed == nil {
		bad(o, "types that stand for a union are not removed")
		return false
	}
	return good && g.rawTypes(o, outs, node, removed)
}

// toAny: a removed type's name becomes any, every other one stays.
func (g *goModel) toAny(o *Outcome, id, removed *Term) bool {
	v := g.storedName(o, id)
	for _, f := range o.Facts {
		if f.C.Op == "lookup" && g.nameOf(f.C.Args[1], id) && sameMap(f.C.Args[0], removed) {
			if f.Val {
				return v != nil && isStr(v, "any")
			}
			return v == nil
		}
	}
	return false
}

// sameMap compares two states of what may be one map, ignoring when it was read.
func sameMap(a, b *Term) bool { return mapRoot(a) == mapRoot(b) }

func mapRoot(t *Term) *Term {
	r := t
	t.walk(func(x *Term) bool {
		if r == t && x.Op == "mkmap" {
			r = x
		}
		return r == t
	})
	return r
}

// rawTypes: the types removed are structs of a single json.RawMessage that have
// methods.
func (g *goModel) rawTypes(o *Outcome, outs []*Outcome, node, removed *Term) bool {
	e, c := g.e, g.c
	n := 0
	for _, it := range outs {
		if it.Kind != outBack {
			continue
		}
		put := map[*Term]bool{}
		for _, ev := range it.Events {
			if ev.Kind == evMap {
				put[ev.Args[1]] = true
			}
		}
		for _, f := range it.Facts {
			var key *Term
			switch {
			case f.Val && f.C.Op == "istype" && f.C.Sym == "*"+dstPkg+".TypeSpec":
				key = e.fld(e.fld(f.C.Args[0], "Name"), "Name")
				if !g.isRaw(it, key) {
					continue
				}
			case f.Val && f.C.Op == "lookup" && g.hasMethod(it, f.C.Args[1]):
				key = f.C.Args[1]
			default:
				continue
			}
			if !put[key] {
				c.fail("unions", f.Pos, g.fn, e, it, "a type that stands for a union is passed over")
				return false
			}
		}
		for _, ev := range it.Events {
			if ev.Kind != evMap {
				continue
			}
			n++
			key := ev.Args[1]
			if key.Op != "fld" || key.Sym != "Name" {
				c.fail("unions", ev.Pos, g.fn, e, it, "types are not removed by their name")
				return false
			}
			if !g.isRaw(it, key) && !g.hasMethod(it, key) {
				c.fail("unions", ev.Pos, g.fn, e, it, "a type may be removed that does not stand for a union")
				return false
			}
		}
	}
	return n > 0
}

// isRaw: the name is that of a struct with a single field, a json.RawMessage.
func (g *goModel) isRaw(it *Outcome, key *Term) bool {
	e := g.e
	id := key.Args[0]
	if id.Op != "fld" || id.Sym != "Name" {
		return false
	}
	s := id.Args[0]
	t := e.fld(s, "Type")
	list := e.fld(e.fld(t, "Fields"), "List")
	ft := e.fld(e.index(list, e.int(0)), "Type")
	if !g.is(it, s, "TypeSpec") || !g.is(it, t, "StructType") || !g.is(it, ft, "SelectorExpr") || !e.holds(it.Facts, e.eq(e.length(list), e.int(1))) {
		return false
	}
	for _, f := range it.Facts {
		if f.Val && f.C.Op == "eq" && (isStr(f.C.Args[0], "json.RawMessage") && f.C.Args[1].contains(ft) || isStr(f.C.Args[1], "json.RawMessage") && f.C.Args[0].contains(ft)) {
			return true
		}
	}
	return g.rawNames(it, ft)
}

// rawNames: package and name are compared one by one.
func (g *goModel) rawNames(it *Outcome, ft *Term) bool {
	pkg, name := false, false
	for _, f := range it.Facts {
		if !f.Val || f.C.Op != "eq" {
			continue
		}
		for i, a := range f.C.Args {
			b := f.C.Args[1-i]
			pkg = pkg || isStr(a, "json") && b.contains(ft)
			name = name || isStr(a, "RawMessage") && b.contains(ft)
		}
	}
	return pkg && name
}

// hasMethod: the name is that of the receiver of a function, and is among
// those found before.
func (g *goModel) hasMethod(it *Outcome, key *Term) bool {
	recv := false
	key.walk(func(t *Term) bool {
		recv = recv || t.Op == "fld" && t.Sym == "Recv"
		return !recv
	})
	if !recv {
		return false
	}
	for _, f := range it.Facts {
		if f.Val && f.C.Op == "lookup" && f.C.Args[1] == key {
			return true
		}
	}
	return false
}

// postprocessed: the file is parsed, everything is applied to it in order, and
// what goimports makes of the result is returned, unless imports were added.
func (m *genModel) postprocessed(o *Outcome) string {
	e := m.e
	if e.nilness(o, o.Vals[1]) != isNil {
		return "the error is not decided: " + o.Vals[1].String()
	}
	proc, i := o.Vals[0].call()
	if proc == nil || i != 0 || !proc.isCall("golang.org/x/tools/imports.Process") {
		return "what is returned did not go through goimports"
	}
	buf := proc.Args[1]
	if !buf.isCall("(*bytes.Buffer).Bytes") || len(buf.Args) < 2 {
		return "goimports is not given what was printed"
	}
	var print *Term
	buf.Args[1].walk(func(t *Term) bool {
		if t.isCall(dstPkg + "/decorator.Fprint") {
			print = t
		}
		return print == nil
	})
	if print == nil {
		return "goimports is not given what was printed"
	}
	file, i := print.Args[1].call()
	if file == nil || i != 0 || !file.isCall(dstPkg+"/decorator.ParseFile") || convArg(file.Args[2]) != e.fld(m.cfg, "In") {
		return "what is printed is not the file given"
	}
	if mode, ok := file.Args[3].constInt(); !ok || mode&4 == 0 {
		return "comments are lost"
	}
	for _, t := range []*Term{e.mk("ext", "1", file), print, e.mk("ext", "1", proc)} {
		if e.nilness(o, t) != isNil {
			return "a file is returned although a step may have failed: " + t.String()
		}
	}
	if !m.applied(o, print.Args[1]) {
		return "not everything is applied to the file, in order"
	}
	ignore, ok := m.flag(o, "IgnoreDiscoveredImports")
	if !ok {
		return "whether added imports are ignored is not considered"
	}
	if !ignore && !m.noneAdded(o, print.Args[1], o.Vals[0]) {
		return "imports may have been added without an error"
	}
	return ""
}

// applied: a loop over the appliers was completed before printing, and each
// round applies one of them.
func (m *genModel) applied(o *Outcome, file *Term) bool {
	e := m.e
	list := e.fld(m.cfg, "Appliers")
	var done bool
	for _, ev := range o.Events {
		if ev.Kind == evExit && ev.AtHdr && e.implied(o.Facts, e.lt(e.iter(ev.Loop), e.length(list)), false) {
			its := iterations(m.outs, ev.Loop)
			good := len(its) > 0
			for _, it := range its {
				n := 0
				for _, x := range it.Events {
					if x.Kind == evCall && x.Term.isCall(dstApply) && insideLoopEvent(it, ev.Loop, x) {
						n++
						if unbox(x.Term.Args[0]) != unbox(file) || x.Term.Args[1] != e.index(list, e.iter(ev.Loop)) {
							good = false
						}
					}
				}
				if n != 1 {
					good = false
				}
			}
			done = done || good
		}
		if ev.Kind == evCall && ev.Term.isCall(dstPkg+"/decorator.Fprint") {
			return done
		}
	}
	return false
}

// importsAdded: the refusal is because the list of imports added is not empty.
func (m *genModel) importsAdded(o *Outcome) bool {
	if v, ok := m.flag(o, "IgnoreDiscoveredImports"); v || !ok {
		return false
	}
	e := m.e
	for loop := range o.passed() {
		for _, it := range iterations(m.outs, loop) {
			for _, ca := range e.carriers(it) {
				if ca.new.Op == "append" && ca.new.Args[0] == ca.old && e.implied(o.Facts, e.eq(e.length(ca.old), e.int(0)), false) {
					return true
				}
			}
		}
	}
	return false
}

// noneAdded: a loop over the imports of the result found all of them among
// those of the file.
func (m *genModel) noneAdded(o *Outcome, file, res *Term) bool {
	e := m.e
	for loop := range o.passed() {
		var src *Term
		for _, f := range o.Facts {
			if f.C.Op == "lt" && !f.Val && f.C.Args[0] == e.iter(loop) && f.C.Args[1].Op == "len" {
				src = f.C.Args[1].Args[0]
			}
		}
		if src == nil || src.Op != "fld" || src.Sym != "Imports" {
			continue
		}
		p, _ := src.Args[0].call()
		if p == nil || !p.isCall("go/parser.ParseFile") || !p.Args[2].contains(res) {
			continue
		}
		// rounds that find an import the file lacks make a list grow or leave
		good, n := true, 0
		for _, it := range iterations(m.outs, loop) {
			n++
			known, had := false, false
			for _, f := range it.Facts {
				if (f.C.Op == "lookup" || f.C.Op == "has") && f.C.Args[1].contains(e.index(src, e.iter(loop))) {
					known, had = true, f.Val
				}
			}
			if !known {
				good = false
			}
			if known && !had {
				grew := false
				for _, ca := range e.carriers(it) {
					if ca.new.Op == "append" && ca.new.Args[0] == ca.old && e.holds(o.Facts, e.eq(e.length(ca.old), e.int(0))) {
						grew = true
					}
				}
				if !grew {
					good = false
				}
			}
		}
		if good && n > 0 {
			return true
		}
	}
	return false
}
