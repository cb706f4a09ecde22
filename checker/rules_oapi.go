package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	hidSchema = "_#schema@github.com/grafana/thema"
	hidJoin   = "_join@github.com/grafana/thema"
	cueOapi   = "cuelang.org/go/encoding/openapi"
	cueAST    = cuePkg + "/ast"
)

// oapiModel is the OpenAPI generator, analysed once.
type oapiModel struct {
	c        *Ctx
	e        *Engine
	fn       *ssa.Function
	outs     []*Outcome
	sch, cfg *Term
	done     map[*Term]bool
}

func ruleT21(c *Ctx) {
	fn := c.need("encoding/openapi", "GenerateSchema")
	if fn == nil {
		return
	}
	e, outs := c.runOpts(fn, Options{Opaque: genOpaque(fn)})
	ps := e.paramTerms(fn)
	m := &oapiModel{c: c, e: e, fn: fn, outs: outs, sch: ps[0], cfg: ps[1], done: map[*Term]bool{}}
	c.nilIsZero(e, fn, outs, m.cfg, "configuration")
	c.nilIsZero(e, fn, outs, e.fld(m.cfg, "Config"), "configuration of CUE's generator")
	good := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			if !m.lookupFailed(o) {
				c.fail("total", o.Pos, fn, e, o, "generating OpenAPI may panic")
			}
		case outReturn:
			switch e.nilness(o, o.Vals[1]) {
			case isNil:
				good++
				if why := m.document(o); why != "" {
					c.fail("document", o.Pos, fn, e, o, "%s", why)
				} else {
					c.ok("the document describes the schema asked for", fname(fn), 1)
				}
			case notNil:
				if !o.Vals[0].isNil() {
					c.fail("errors", o.Pos, fn, e, o, "a document is returned along with an error")
				} else if !c.failedStep(e, o) && !m.notAllowed(o) {
					c.fail("errors", o.Pos, fn, e, o, "generation is refused for no reason: %v", o.Vals[1])
				} else {
					c.ok("refusals follow from a failed step or an absent subpath", fname(fn), 1)
				}
			default:
				c.fail("errors", o.Pos, fn, e, o, "the error is not decided: %v", o.Vals[1])
			}
		case outBack:
			c.ok("iterations explored", fname(fn), 1)
		}
	}
	if good == 0 {
		c.fail("document", fnPos(fn), fn, nil, nil, "no path returns a document")
	}
}

// lookupFailed: CUE's own document lacks its components, which it never does.
func (m *oapiModel) lookupFailed(o *Outcome) bool {
	for _, f := range o.Facts {
		if t := nilOf(f); t != nil && !f.Val && t.Op == "ext" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Sym, "astutil.GetFieldByLabel") {
			return true
		}
	}
	return false
}

// notAllowed: the trace knows that a selector of the subpath is not allowed
// where the selectors before it lead.
func (m *oapiModel) notAllowed(o *Outcome) bool {
	sels := m.subpath()
	for _, f := range o.Facts {
		if f.Val || !f.C.isCall(cv("Allows")) {
			continue
		}
		sel := f.C.Args[1]
		if sel.Op != "index" || sel.Args[0] != sels {
			continue
		}
		for _, v := range m.values(true, true) {
			if m.descends(f.C.Args[0], sel, v) {
				return true
			}
		}
	}
	return false
}

func (m *oapiModel) opt(f string) *Term { return m.e.fld(m.cfg, f) }

func (m *oapiModel) subpath() *Term {
	return m.e.mk("call", "("+cuePkg+".Path).Selectors", m.opt("Subpath"))
}

func (m *oapiModel) at(p string) *Term { return m.e.lookupPath(m.e.fld(m.sch, "ref"), p) }

// values are the parts of the schema generation may start from.
func (m *oapiModel) values(split, both bool) []*Term {
	var out []*Term
	if !split || both {
		out = append(out, m.at(hidSchema))
	}
	if split || both {
		out = append(out, m.at("schema"), m.at(hidJoin))
	}
	return out
}

// descends: t is v for the first selector, and otherwise what the selectors
// before sel lead to.
func (m *oapiModel) descends(t, sel, v *Term) bool {
	if t.Op != "loopvar" && t.Op != "loopmem" {
		return false
	}
	loop := listLoop(t)
	its := iterations(m.outs, loop)
	for _, it := range its {
		ok := false
		for _, ca := range m.e.carriers(it) {
			if ca.old == t && ca.init == v && m.isStep(ca.new, t, sel) {
				ok = true
			}
		}
		if !ok {
			// the same loop entered from elsewhere
			return false
		}
	}
	return len(its) > 0
}

func (m *oapiModel) isStep(new, old, sel *Term) bool {
	return new.isCall(cv("LookupPath")) && new.Args[0] == old && m.isPathOf(new.Args[1], sel)
}

func (m *oapiModel) isPathOf(p, sel *Term) bool {
	return p.isCall(cuePkg+".MakePath") && p.Args[0].Op == "list" && len(p.Args[0].Args) == 1 && p.Args[0].Args[0] == sel
}

func (m *oapiModel) flag(o *Outcome, f string) (bool, bool) {
	if m.e.nilness(o, m.cfg) == isNil {
		return false, true
	}
	return m.e.fact(o.Facts, m.opt(f))
}

// document decides the document a path returns.
func (m *oapiModel) document(o *Outcome) string {
	e, c := m.e, m.c
	if t := c.undecidedErr(e, o); t != nil {
		return "a document is returned although a step may have failed: " + t.String()
	}
	decls := e.expand1(o.st, o.field(e, o.Vals[0], "Decls"))
	if decls.Op != "list" || len(decls.Args) != 1 {
		return "the file is not one struct: " + decls.String()
	}
	top := c.astFields(e, o, decls.Args[0])
	info := c.astFields(e, o, top["info"])
	comp := c.astFields(e, o, top["components"])
	if s, ok := c.astString(top["openapi"]); !ok || s.Sym != `"3.0.0"` {
		return "the document does not declare itself OpenAPI 3.0.0"
	}
	if top["paths"] == nil {
		return "the document has no paths"
	}
	if v, ok := c.astString(info["version"]); !ok || v != m.version() {
		return "the document's version is not the schema's"
	}
	title, ok := c.astString(info["title"])
	if !ok {
		return "the document has no title"
	}
	if comp["schemas"] == nil {
		return "the document has no schemas"
	}
	elts := o.field(e, comp["schemas"], "Elts")
	group, ok := m.flag(o, "Group")
	if !ok {
		return "it is not decided whether the schema is a group"
	}
	if group {
		if title != m.lineageName() {
			return "a group is not titled with the lineage's name: " + title.String()
		}
		return m.group(o, elts)
	}
	split, ok := m.flag(o, "SplitSchema")
	if !ok {
		return "it is not decided whether to split the schema"
	}
	name, sub, why := m.name(o)
	if why != "" {
		return why
	}
	if title != name {
		return "the title is " + title.String() + ", not " + name.String()
	}
	parts, ok := m.parts(o, elts)
	if !ok {
		return "the schemas are not those generated: " + elts.String()
	}
	want := m.values(split, false)
	if len(parts) != len(want) {
		return "not all of the schema, or more than it, is generated"
	}
	for i, p := range parts {
		val := want[i]
		if sub {
			if why := m.allowed(o, val); why != "" {
				return why
			}
			val = e.mk("call", cv("LookupPath"), val, m.opt("Subpath"))
		}
		if why := m.generated(o, p, name, val); why != "" {
			return why
		}
	}
	return ""
}

func (m *oapiModel) version() *Term {
	v := m.e.fld(m.sch, "v")
	return m.e.cat([]*Term{m.e.mk("dec", "", m.e.index(v, m.e.int(0))), m.e.str("."), m.e.mk("dec", "", m.e.index(v, m.e.int(1)))})
}

func (m *oapiModel) lineageName() *Term {
	return m.e.mk("call", "internal/util.SanitizeLabelString", m.e.fld(m.e.fld(m.sch, "lin"), "name"))
}

// name is the name the root must get on this trace.
func (m *oapiModel) name(o *Outcome) (name *Term, sub bool, why string) {
	e := m.e
	if e.nilness(o, m.cfg) == isNil {
		return m.lineageName(), false, ""
	}
	n := e.length(m.subpath())
	switch {
	case e.implied(o.Facts, e.lt(e.int(0), n), true):
		sub = true
	case e.implied(o.Facts, e.lt(e.int(0), n), false):
	default:
		return nil, false, "it is not decided whether there is a subpath"
	}
	root, ok := e.fact(o.Facts, e.eq(m.opt("RootName"), e.str("")))
	switch {
	case !ok:
		return nil, false, "it is not decided whether there is a name for the root"
	case !root:
		return m.opt("RootName"), sub, ""
	case sub:
		last := e.index(m.subpath(), e.add(n, e.int(-1)))
		return e.mk("call", "("+cuePkg+".Selector).String", last), sub, ""
	}
	return m.lineageName(), sub, ""
}

// allowed: every selector of the subpath was allowed, step by step from val.
func (m *oapiModel) allowed(o *Outcome, val *Term) string {
	e := m.e
	for loop, hdr := range o.passed() {
		if !hdr {
			continue
		}
		its := iterations(m.outs, loop)
		good := len(its) > 0
		for _, it := range its {
			sel := e.index(m.subpath(), e.iter(loop))
			ok := false
			for _, f := range it.Facts {
				if f.Val && f.C.isCall(cv("Allows")) && f.C.Args[1] == sel && m.descends(f.C.Args[0], sel, val) {
					ok = true
				}
			}
			if !ok || !e.implied(o.Facts, e.lt(e.iter(loop), e.length(m.subpath())), false) {
				good = false
			}
		}
		if good {
			return ""
		}
	}
	return "a subpath is generated without its being found in the schema"
}

// parts: the slices that make up a list of declarations, in order.
func (m *oapiModel) parts(o *Outcome, t *Term) ([]*Term, bool) {
	if m.e.emptyList(t) {
		return nil, true
	}
	if t.Op == "append" {
		ps, ok := m.parts(o, t.Args[0])
		return append(ps, t.Args[1]), ok
	}
	if g, _ := m.schemasOf(t); g != nil {
		return []*Term{t}, true
	}
	return nil, false
}

// schemasOf: t is components.schemas of a document CUE generated.
func (m *oapiModel) schemasOf(t *Term) (gen *Term, ok bool) {
	up := func(t *Term, f string) *Term {
		if t == nil {
			return nil
		}
		t = unbox(t)
		for t.Op == "assert" || t.Op == "ext" && t.Args[0].Op == "assert" {
			t = unbox(t.Args[0])
		}
		if t.Op == "fld" && t.Sym == f {
			return unbox(t.Args[0])
		}
		return nil
	}
	get := func(t *Term, label string) *Term {
		for t != nil && (t.Op == "assert" || t.Op == "box") {
			t = t.Args[0]
		}
		if t == nil || t.Op != "ext" || t.Sym != "0" || t.Args[0].Op != "call" || !strings.HasSuffix(t.Args[0].Sym, "astutil.GetFieldByLabel") {
			return nil
		}
		if s, ok := t.Args[0].Args[1].constStr(); !ok || s != label {
			return nil
		}
		return unbox(t.Args[0].Args[0])
	}
	x := up(t, "Elts")
	x = get(up(x, "Value"), "schemas")
	x = get(up(x, "Value"), "components")
	if x != nil && x.Op == "ext" && x.Sym == "0" && x.Args[0].isCall(cueOapi+".Generate") {
		return x.Args[0], true
	}
	return nil, false
}

// generated: t holds what CUE generates for val under the definition name,
// with the caller's options.
func (m *oapiModel) generated(o *Outcome, t, name, val *Term) string {
	g, ok := m.schemasOf(t)
	if !ok {
		return "the schemas are not what CUE generated: " + t.String()
	}
	in := unbox(g.Args[0])
	for in.isCall(cv("Eval")) {
		in = in.Args[0]
	}
	if !in.isCall(cv("FillPath")) {
		return "what is generated is not the schema under a name: " + in.String()
	}
	p := unbox(in.Args[1])
	if !p.isCall(cuePkg+".MakePath") || p.Args[0].Op != "list" || len(p.Args[0].Args) != 1 || !p.Args[0].Args[0].isCall(cuePkg+".Def") || p.Args[0].Args[0].Args[0] != name {
		return "the schema is not generated under its name " + name.String()
	}
	if unbox(in.Args[2]) != val {
		return "what is generated is " + in.Args[2].String() + ", not " + val.String()
	}
	if b := in.Args[0]; !b.isCall("(*"+cuePkg+".Context).CompileString") || !b.Args[0].isCall(cv("Context")) || !m.emptyDef(b.Args[1], name) {
		return "the schema is generated along with something else: " + b.String()
	}
	if why := m.options(o, g); why != "" {
		return why
	}
	return m.nameFunc(o, g, p, name)
}

func (m *oapiModel) emptyDef(t, name *Term) bool {
	e := m.e
	if s, ok := t.constStr(); ok && strings.Trim(s, "{} \n\t_") == "" {
		return true
	}
	return t == e.cat([]*Term{e.str("#"), name, e.str(": _")}) || t == e.cat([]*Term{e.str("#"), name, e.str(":_")})
}

// options: every option of the caller's, other than the two generation sets,
// reaches CUE.
func (m *oapiModel) options(o *Outcome, g *Term) string {
	e := m.e
	st := optStruct(m.fn)
	if st == nil {
		return "the options of CUE's generator are not there"
	}
	none := e.nilness(o, m.cfg) == isNil || e.nilness(o, m.opt("Config")) == isNil
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "NameFunc" || f.Name() == "Info" || !f.Exported() {
			continue
		}
		got := o.field(e, g.Args[1], f.Name())
		if none {
			if got.Op != "zero" && !e.isZero(got) {
				return "option " + f.Name() + " is set though none was given: " + got.String()
			}
			continue
		}
		if want := e.fld(m.opt("Config"), f.Name()); got != want {
			return "option " + f.Name() + " does not reach the generator: " + got.String()
		}
	}
	return ""
}

func (e *Engine) isZero(t *Term) bool {
	return t.isNil() || t.Op == "zero" || t.Op == "const" && (t.Sym == `""` || t.Sym == "0" || t.Sym == "false")
}

func optStruct(fn *ssa.Function) *types.Struct {
	p, ok := fn.Params[1].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
				s, _ := p.Elem().Underlying().(*types.Struct)
				return s
			}
		}
	}
	return nil
}

// group: every field of the schema, definitions and optional ones included, is
// generated under its own name.
func (m *oapiModel) group(o *Outcome, elts *Term) string {
	e := m.e
	loop := listLoop(elts)
	if loop == "" || !o.passed()[loop] {
		return "the schemas of a group are not those of all its fields: " + elts.String()
	}
	if in := e.listInit(m.outs, loop, elts); in == nil || !e.emptyList(in) {
		return "the schemas of a group do not start out empty"
	}
	its := iterations(m.outs, loop)
	for _, it := range its {
		if !e.samePath(it, o, loop) {
			continue
		}
		var seg *Term
		for _, ca := range e.carriers(it) {
			if ca.old == elts && ca.new.Op == "append" && ca.new.Args[0] == elts {
				seg = ca.new.Args[1]
			}
		}
		if seg == nil {
			return "a field of a group may be left out"
		}
		g, ok := m.schemasOf(seg)
		if !ok {
			return "the schemas of a field are not what CUE generated"
		}
		if t := m.c.undecidedErr(e, it); t != nil {
			return "a field of a group is accepted although a step may have failed: " + t.String()
		}
		var itv *Term
		g.walk(func(t *Term) bool {
			if t.Op == "call" && t.Sym == "Iterator.Value" {
				itv = t
			}
			return true
		})
		if itv == nil || !m.fieldsIter(itv.Args[0]) {
			return "a group is not generated from all fields of its schema"
		}
		sel := e.mk("call", "Iterator.Selector", itv.Args...)
		name := e.mk("call", "strings.Trim", e.mk("call", "("+cuePkg+".Selector).String", sel), e.str("?#"))
		if why := m.generated(it, seg, m.groupName(g, name), itv); why != "" {
			return why
		}
	}
	return ""
}

// groupName is the name used, if it is the field's own without markers.
func (m *oapiModel) groupName(g, want *Term) *Term {
	var got *Term
	g.walk(func(t *Term) bool {
		if t.isCall(cuePkg + ".Def") {
			got = t.Args[0]
		}
		return true
	})
	if got != nil && got.Op == "call" && strings.HasSuffix(got.Sym, "strings.Trim") && got.Args[0] == want.Args[0] {
		if s, ok := got.Args[1].constStr(); ok && sameChars(s, "?#") {
			return got
		}
	}
	return want
}

func sameChars(a, b string) bool {
	return len(a) == len(b) && strings.Trim(a, b) == "" && strings.Trim(b, a) == ""
}

func (m *oapiModel) fieldsIter(t *Term) bool {
	if t.Op != "ext" || t.Sym != "0" || !t.Args[0].isCall(cv("Fields")) || t.Args[0].Args[0] != m.at(hidSchema) {
		return false
	}
	def, opt := false, false
	for _, a := range t.Args[0].Args[1].Args {
		on := len(a.Args) == 1 && a.Args[0] == m.e.boolT(true)
		switch {
		case a.isCall(cuePkg + ".Definitions"):
			def = on
		case a.isCall(cuePkg + ".Optional"):
			opt = on
		case a.isCall(cuePkg + ".All"):
			def, opt = true, true
		}
	}
	return def && opt
}

// nameFunc: how the generator names what it finds.
func (m *oapiModel) nameFunc(o *Outcome, g, defpath, name *Term) string {
	e, c := m.e, m.c
	nf := o.fieldBefore(e, g.Args[1], "NameFunc", g)
	if nf.Op != "closure" || nf.Fn == nil {
		return "names are not decided by a function of the generator: " + nf.String()
	}
	// keyed by the whole setting, as the function sees its variables
	orig := m.orig(o)
	if orig == nil {
		orig = e.nilT()
	}
	key := e.mk("nf", "", nf, name, defpath, orig)
	if m.done[key] {
		return ""
	}
	m.done[key] = true
	cp := e.paramTerms(nf.Fn)
	if len(cp) != 2 {
		return "the naming function takes other arguments"
	}
	val, path := cp[0], cp[1]
	outs := c.runClosure(e, o, nf)
	str := func(p *Term) *Term { return e.mk("call", "("+cuePkg+".Path).String", p) }
	n := 0
	for _, io := range outs {
		switch io.Kind {
		case outPanic:
			return "naming may panic"
		case outReturn:
			n++
			r := io.Vals[0]
			root := e.holds(io.Facts, e.eq(str(path), e.str("")))
			hidden, def := false, false
			not := map[string]bool{}
			for _, f := range io.Facts {
				if f.C.Op != "eq" {
					continue
				}
				for i, a := range f.C.Args {
					b := f.C.Args[1-i]
					if !f.Val {
						switch {
						case a == val && b == m.at(hidSchema):
							not["def"] = true
						case a == val && b == m.at("schema"):
							not["raw"] = true
						case a == val && b == m.at(hidJoin):
							not["join"] = true
						case a == str(path) && b == e.str(""):
							not["empty"] = true
						case a == str(defpath) && b.Op == "call" && strings.HasSuffix(b.Sym, ".Path).String") && m.trimmed(io, b.Args[0], path, defpath):
							not["root"] = true
						}
						continue
					}
					if a == val && b == m.at(hidSchema) {
						def = true
					}
					if a == val && (b == m.at("schema") || b == m.at(hidJoin)) {
						hidden = true
					}
					if a == str(defpath) && b.Op == "call" && strings.HasSuffix(b.Sym, ".Path).String") && m.trimmed(io, b.Args[0], path, defpath) {
						root = true
					}
				}
			}
			switch {
			case root || def:
				if r != name {
					return "the root is not given its name: " + r.String()
				}
			case hidden:
				if s, ok := r.constStr(); !ok || s != "" {
					return "a part of the schema that is not generated on its own gets a name: " + r.String()
				}
			case len(not) != 5:
				return "something is named without its being known not to be the root or one of its parts: " + r.String()
			default:
				own := e.nilness(io, orig) != isNil
				switch {
				case own && (len(r.Args) < 3 || r.Args[0] != orig || r.Args[1] != val || !m.trimmed(io, r.Args[2], path, defpath)):
					return "the caller's naming function is not asked: " + r.String()
				case !own && !m.trimName(io, r, path, defpath):
					return "a name is not the path below the root: " + r.String()
				}
			}
		}
	}
	if n == 0 {
		return "naming never ends"
	}
	c.ok("names: the root, its parts, the caller's function, the path", fname(nf.Fn), n)
	return ""
}

// orig is the caller's naming function on this trace, or nil.
func (m *oapiModel) orig(o *Outcome) *Term {
	e := m.e
	if e.nilness(o, m.cfg) == isNil || e.nilness(o, m.opt("Config")) == isNil {
		return nil
	}
	return e.fld(m.opt("Config"), "NameFunc")
}

// trimmed: t is the path below the schema and below the definition it is
// generated under.
func (m *oapiModel) trimmed(io *Outcome, t, path, defpath *Term) bool {
	e := m.e
	if t.Op != "call" || !strings.HasSuffix(t.Sym, "cuetil.TrimPathPrefix") || t.Args[1] != defpath {
		return false
	}
	in := t.Args[0]
	base := e.mk("call", cv("Path"), e.fld(m.sch, "ref"))
	has, ok := false, false
	for _, f := range io.Facts {
		if f.C.Op == "call" && strings.HasSuffix(f.C.Sym, "cuetil.PathHasPrefix") && f.C.Args[0] == path && f.C.Args[1] == base {
			has, ok = f.Val, true
		}
	}
	if !ok {
		return false
	}
	if !has {
		return in == path
	}
	sels := func(p *Term) *Term { return e.mk("call", "("+cuePkg+".Path).Selectors", p) }
	below := e.length(sels(base))
	if in.Op == "zero" || in == e.path("") {
		// what is below a path of its own length or less is nothing
		n := e.sub(e.length(sels(path)), below)
		return e.implied(io.Facts, e.eq(n, e.int(0)), true) || e.implied(io.Facts, e.lt(n, e.int(1)), true)
	}
	if !in.isCall(cuePkg + ".MakePath") {
		return false
	}
	src, off := e.sliceFrom(in.Args[0])
	if src != sels(path) {
		return false
	}
	inside, outside := false, map[string]bool{}
	for _, f := range io.Facts {
		if f.C.Op != "eq" {
			continue
		}
		for i, a := range f.C.Args {
			s, ok := f.C.Args[1-i].constStr()
			if !ok || !a.isCall("("+cuePkg+".Selector).String") || a.Args[0].Op != "index" {
				continue
			}
			x, o := e.sliceFrom(a.Args[0].Args[0])
			if x != sels(path) || e.add(o, a.Args[0].Args[1]) != below {
				continue
			}
			if f.Val {
				inside = s == "schema" || s == "_#schema" || s == "_join" || s == "joinSchema"
			} else {
				outside[s] = true
			}
		}
	}
	if inside {
		return off == e.add(below, e.int(1))
	}
	return off == below && outside["schema"] && outside["_#schema"] && outside["_join"]
}

// sliceFrom unfolds x[a:][b:] into x and a+b.
func (e *Engine) sliceFrom(t *Term) (*Term, *Term) {
	off := e.int(0)
	for t.Op == "slice" && len(t.Args) > 2 && t.Args[2].isNil() {
		if !t.Args[1].isNil() {
			off = e.add(off, t.Args[1])
		}
		t = t.Args[0]
	}
	return t, off
}

func (m *oapiModel) trimName(io *Outcome, r, path, defpath *Term) bool {
	if r.Op != "call" || !strings.HasSuffix(r.Sym, "strings.Trim") {
		return false
	}
	if s, ok := r.Args[1].constStr(); !ok || !sameChars(s, "?#") {
		return false
	}
	p := r.Args[0]
	return p.Op == "call" && strings.HasSuffix(p.Sym, ".Path).String") && m.trimmed(io, p.Args[0], path, defpath)
}

// astFields reads a struct literal of CUE's syntax: label to value.
func (c *Ctx) astFields(e *Engine, o *Outcome, t *Term) map[string]*Term {
	out := map[string]*Term{}
	if t == nil {
		return out
	}
	t = unbox(t)
	switch {
	case t.isCall(cueAST + ".NewStruct"):
		l := e.expand1(o.st, t.Args[0])
		if l.Op != "list" {
			return out
		}
		for i := 0; i+1 < len(l.Args); i += 2 {
			k := unbox(l.Args[i])
			if s, ok := k.constStr(); ok {
				out[s] = unbox(l.Args[i+1])
			} else if s, ok := c.astString(k); ok {
				if s, ok := s.constStr(); ok {
					out[s] = unbox(l.Args[i+1])
				}
			}
		}
	case t.Op == "alloc":
		l := e.expand1(o.st, o.field(e, t, "Elts"))
		if l.Op != "list" {
			return out
		}
		for _, x := range l.Args {
			x = unbox(x)
			if x.Op != "alloc" {
				continue
			}
			if s, ok := c.astString(o.field(e, x, "Label")); ok {
				if s, ok := s.constStr(); ok {
					out[s] = unbox(o.field(e, x, "Value"))
				}
			}
		}
	}
	return out
}

// astString is the text of a string literal of CUE's syntax.
func (c *Ctx) astString(t *Term) (*Term, bool) {
	if t == nil {
		return nil, false
	}
	t = unbox(t)
	if t.isCall(cueAST + ".NewString") {
		return t.Args[0], true
	}
	return nil, false
}
