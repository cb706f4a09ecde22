package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jsModel is the rewriting of OpenAPI to JSON Schema: a function handed to
// ast.Walk, which starts further walks below the nodes it rewrites.
type jsModel struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	root bool
	n    *Term // the node visited
	cell *Term // where the walk leaves its error
	was  *Term // what it held before this node
	outs []*Outcome
	done map[string]bool // walks analysed

	fieldFns, labelFns map[*ssa.Function]bool
}

var (
	jsLogic   = []string{"oneOf", "allOf", "anyOf", "not"}
	jsTypes   = []string{"object", "array", "string", "number", "integer", "boolean"}
	jsDropped = []string{"deprecated", "discriminator", "example", "externalDocs", "nullable", "readOnly", "writeOnly", "xml"}
)

// ruleT22: the JSON Schema of a schema is its OpenAPI with every schema node
// rewritten.
func ruleT22(c *Ctx) {
	fn := c.need("encoding/jsonschema", "GenerateSchema")
	if fn == nil {
		return
	}
	gen := genOpaque(fn)
	m := &jsModel{c: c, fn: fn, root: true, done: map[string]bool{}, fieldFns: map[*ssa.Function]bool{}, labelFns: map[*ssa.Function]bool{}}
	for _, f := range c.p.allFuncs() {
		switch {
		case fieldSig(f) && m.fieldFn(f):
			m.fieldFns[f] = true
			c.ok("functions that find a field by its label", fname(f), 1)
		case labelSig(f) && m.labelFn(f):
			m.labelFns[f] = true
			c.ok("functions that tell whether a node is a field with a label", fname(f), 1)
		}
	}
	e, outs := c.runOpts(fn, Options{InlineRec: true, Opaque: func(f *ssa.Function) bool {
		return gen(f) || m.fieldFns[f] || m.labelFns[f]
	}})
	m.e = e
	sch := e.paramTerms(fn)[0]
	walked := false
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			c.fail("total", o.Pos, fn, e, o, "generating JSON Schema may panic")
		case outReturn:
			var gen, doc *Term
			var walk *Event
			for i, ev := range o.Events {
				if ev.Kind == evCall && ev.Term.isCall("encoding/openapi.GenerateSchema") {
					gen = ev.Term
				}
				if isWalk(ev) {
					walk = &o.Events[i]
				}
			}
			if gen == nil || len(gen.Args) != 2 || gen.Args[0] != sch || !gen.Args[1].isNil() {
				c.fail("source", o.Pos, fn, e, o, "JSON Schema is not made from the OpenAPI of the schema given")
				continue
			}
			doc = e.mk("ext", "0", gen)
			if e.nilness(o, o.Vals[1]) == notNil {
				if !o.Vals[0].isNil() {
					c.fail("errors", o.Pos, fn, e, o, "a document is returned along with an error")
				}
				if v, ok := e.fact(o.Facts, e.nilEq(e.mk("ext", "1", gen))); ok && v && walk == nil {
					c.fail("errors", o.Pos, fn, e, o, "generation is refused for no reason")
				}
				c.ok("refusals follow from a failed step", fname(fn), 1)
				continue
			}
			switch {
			case unbox(o.Vals[0]) != doc:
				c.fail("source", o.Pos, fn, e, o, "what is returned is not the rewritten document: %v", o.Vals[0])
			case e.nilness(o, e.mk("ext", "1", gen)) != isNil:
				c.fail("errors", o.Pos, fn, e, o, "the error of the OpenAPI generator is not looked at")
			case walk == nil || unbox(walk.Term.Args[0]) != doc:
				c.fail("rewrite", o.Pos, fn, e, o, "the document is returned without being rewritten")
			default:
				if !m.walkOK(o, *walk) {
					c.fail("errors", o.Pos, fn, e, o, "a document is returned although rewriting it may have failed")
				}
				walked = true
				m.visit(o, walk.Term)
			}
		}
	}
	if !walked {
		c.fail("rewrite", fnPos(fn), fn, nil, nil, "no path rewrites the document")
	}
}

func isWalk(ev Event) bool {
	return ev.Kind == evCall && ev.Term.isCall(cueAST+".Walk") && len(ev.Term.Args) == 3
}

// walkOK: what the walk left in its error cell is known to be nil.
func (m *jsModel) walkOK(o *Outcome, ev Event) bool {
	for _, f := range o.Facts {
		t := nilOf(f)
		if t != nil && f.Val && t.Op == "out" && t.Args[0] == ev.Term {
			return true
		}
	}
	return false
}

// visit analyses the function a walk calls for each node.
func (m *jsModel) visit(o *Outcome, walk *Term) {
	cl := unbox(walk.Args[1])
	if cl.Op != "closure" || cl.Fn == nil {
		m.c.fail("rewrite", o.Pos, m.fn, m.e, o, "the walk does not use a function of the package")
		return
	}
	key := cl.Fn.String()
	if m.root {
		key += "/root"
	}
	if m.done[key] {
		return
	}
	m.done[key] = true
	e, c := m.e, m.c
	var cell *Term
	for _, a := range cl.Args {
		if a.Op == "alloc" && a.T != nil && a.T.String() == "*error" {
			cell = a
		}
	}
	if cell == nil {
		c.fail("errors", o.Pos, m.fn, e, o, "the walk has no place for its error")
		return
	}
	before := o.st.load(e, cell, anyType)
	in := *m
	in.fn, in.cell, in.was = cl.Fn, cell, before
	in.n = e.paramTerms(cl.Fn)[0]
	in.outs = c.runClosure(e, o, cl)
	good := 0
	nested := map[*Term]*Outcome{}
	for _, io := range in.outs {
		for _, ev := range io.Events {
			if isWalk(ev) {
				if _, ok := nested[ev.Term]; !ok {
					nested[ev.Term] = io
				}
			}
		}
		switch io.Kind {
		case outPanic:
			c.fail("total", io.Pos, in.fn, e, io, "rewriting may panic")
		case outReturn:
			if in.infeasible(io) {
				continue
			}
			if why := in.node(io); why != "" {
				c.fail("node", io.Pos, in.fn, e, io, "%s", why)
			} else {
				good++
			}
		}
	}
	if good == 0 {
		c.fail("node", fnPos(in.fn), in.fn, nil, nil, "no node is rewritten")
	}
	c.ok("ways through the rewriting of one node", fname(in.fn), good)
	below := in
	below.root = false
	for w, io := range nested {
		below.visit(io, w)
	}
}

// infeasible: a flag that no round of its loop sets or clears does not have the
// value it started with, or a literal has no text.
func (m *jsModel) infeasible(o *Outcome) bool {
	for _, f := range o.Facts {
		if init, up, down := m.flag(o, f.C); init != nil && init.Op == "const" {
			if init.Sym == "true" && !f.Val && !down || init.Sym == "false" && f.Val && !up {
				return true
			}
		}
		if f.Val && f.C.Op == "eq" {
			for i, a := range f.C.Args {
				if f.C.Args[1-i] == m.e.str("") && a.Op == "fld" && a.Sym == "Value" {
					return true
				}
			}
		}
	}
	return false
}

// flag: t is a truth value carried around a loop; what it starts as on this
// trace, and whether a round may set or clear it.
func (m *jsModel) flag(o *Outcome, t *Term) (init *Term, up, down bool) {
	e := m.e
	loop := listLoop(t)
	if loop == "" {
		return nil, false, false
	}
	for _, ev := range o.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			if t.Op == "loopmem" {
				init = ev.MInit[t.Args[0]]
			} else {
				for ph, v := range ev.Init {
					if strings.HasPrefix(t.Sym, ph.Comment+"@") {
						init = v
					}
				}
			}
		}
	}
	if init == nil {
		return nil, false, false
	}
	for _, it := range iterations(m.outs, loop) {
		if !e.samePath(it, o, loop) {
			continue
		}
		for _, ca := range e.carriers(it) {
			if ca.old != t {
				continue
			}
			if ca.new == t {
				continue
			}
			old, known := e.fact(it.Facts, t)
			v, ok := e.fact(it.Facts, ca.new)
			if (!ok || v) && !(known && old) {
				up = true
			}
			if (!ok || !v) && !(known && !old) {
				down = true
			}
		}
	}
	return init, up, down
}

// labelArgs are the node and the label of a call that asks about them.
func labelArgs(t *Term) (*Term, string, bool) {
	if t.Op != "call" || len(t.Args) != 2 {
		return nil, "", false
	}
	for i, a := range t.Args {
		if s, ok := a.constStr(); ok {
			return unbox(t.Args[1-i]), s, true
		}
	}
	return nil, "", false
}

// labelParams are the parameters of such a function.
func labelParams(fn *ssa.Function, ps []*Term) (node, label *Term) {
	if tstr(fn.Signature.Params().At(0).Type()) == "string" {
		return ps[1], ps[0]
	}
	return ps[0], ps[1]
}

// lookup is the field of the node with a label, as the package finds it.
func (m *jsModel) isField(t *Term, label string) bool {
	node, s, ok := labelArgs(t)
	if !ok || node != m.n {
		return false
	}
	fn := m.c.p.byCanon(t.Sym)
	return s == label && fn != nil && m.fieldFns[fn]
}

// has tells whether the node is known to have a field, and gives it.
func (m *jsModel) has(o *Outcome, label string) (f *Term, has, known bool) {
	for _, x := range o.Facts {
		if t := nilOf(x); t != nil && m.isField(t, label) {
			return t, !x.Val, true
		}
	}
	return nil, false, false
}

// literal: the value of a field is known to be a literal, or known not to be.
func (m *jsModel) literal(o *Outcome, f *Term) (v *Term, is, known bool) {
	v = m.e.fld(f, "Value")
	is, known = m.e.fact(o.Facts, m.e.mk("istype", "*"+cueAST+".BasicLit", v))
	return v, is, known
}

// typ is the type of the node: "" without one, "?" for one that is not
// decided, "!" for one that is none of the types there are.
func (m *jsModel) typ(o *Outcome) string {
	f, has, known := m.has(o, "type")
	if !known {
		return "?"
	}
	if !has {
		return ""
	}
	v, is, known := m.literal(o, f)
	switch {
	case !known:
		return "?"
	case !is:
		return ""
	}
	not := map[string]bool{}
	for _, x := range o.Facts {
		s, ok := m.text(o.Facts, x, m.e.fld(v, "Value"))
		if !ok || s == "" {
			continue
		}
		if x.Val {
			return s
		}
		not[s] = true
	}
	for _, s := range jsTypes {
		if !not[s] {
			return "?"
		}
	}
	return "!"
}

// text: the fact compares a literal to a constant. That the quoted literal is
// not some text says nothing about what it stands for, unless it is not quoted.
func (m *jsModel) text(fs []Fact, x Fact, lit *Term) (string, bool) {
	if x.C.Op != "eq" {
		return "", false
	}
	unq := m.e.mk("ext", "0", m.e.mk("call", "strconv.Unquote", lit))
	for i, a := range x.C.Args {
		s, ok := x.C.Args[1-i].constStr()
		switch {
		case !ok:
		case a == unq:
			return s, true
		case a == lit:
			if u, err := strconv.Unquote(s); err == nil {
				return u, true
			}
			if x.Val {
				return s, true
			}
			if plain, known := m.e.fact(fs, m.e.eq(unq, m.e.str(""))); known && plain {
				return s, true
			}
			// that unquoting failed
			err := m.e.mk("ext", "1", m.e.mk("call", "strconv.Unquote", lit))
			if no, known := m.e.fact(fs, m.e.nilEq(err)); known && !no {
				return s, true
			}
		}
	}
	return "", false
}

// nullable: the node says that null is allowed.
func (m *jsModel) nullable(o *Outcome) (bool, bool) {
	f, has, known := m.has(o, "nullable")
	if !known || !has {
		return false, known
	}
	v, is, known := m.literal(o, f)
	if !known || !is {
		return false, known
	}
	return m.e.fact(o.Facts, m.e.eq(m.e.fld(v, "Kind"), m.e.int(m.tok("TRUE"))))
}

func (m *jsModel) tok(name string) int64 {
	pkg := m.c.p.prog.ImportedPackage(cuePkg + "/token")
	if pkg == nil {
		return -1
	}
	k, ok := pkg.Members[name].(*ssa.NamedConst)
	if !ok {
		return -1
	}
	return k.Value.Int64()
}

// node decides what one way through the function does with the node.
func (m *jsModel) node(o *Outcome) string {
	e := m.e
	descend, ok := e.fact(o.Facts, o.Vals[0])
	if !ok {
		return "it is not decided whether to look further below the node"
	}
	final := o.st.load(e, m.cell, anyType)
	failed := e.nilness(o, final)
	changed := m.changes(o)
	if e.nilness(o, m.was) == notNil {
		if failed != notNil {
			return "an earlier error is forgotten"
		}
		return ""
	}
	if e.nilness(o, m.was) != isNil {
		return "it is not decided whether an earlier node failed"
	}
	st, known := e.fact(o.Facts, e.mk("istype", "*"+cueAST+".StructLit", m.n))
	if !known {
		return "it is not decided whether the node is a struct"
	}
	null, nk := m.nullable(o)
	typ := m.typ(o)
	plain := !st || st && typ == "" && nk && !null
	if plain {
		switch {
		case failed != isNil:
			return "a node that is no schema is refused"
		case changed != "":
			return "a node that is no schema is changed: " + changed
		case !descend:
			return "schemas below a node that is none are not looked at"
		}
		return ""
	}
	if descend {
		return "what is below a rewritten schema is visited again"
	}
	switch failed {
	case notNil:
		if typ == "!" || m.nestedFailure(o, final) {
			return ""
		}
		return "a schema is refused for no reason: " + final.String()
	case isNil:
	default:
		// the error of the last step is handed on
		if !m.nestedFailure(o, final) {
			return "it is not decided whether rewriting succeeded: " + final.String()
		}
		c := *o
		c.Facts = append(append([]Fact{}, o.Facts...), Fact{C: e.nilEq(final), Val: true})
		o = &c
	}
	switch {
	case typ == "!" || typ != "" && typ != "?" && !contains1(jsTypes, typ):
		return "an unknown type is accepted"
	case typ == "?":
		return "a schema is rewritten without looking at its type"
	case !nk:
		return "it is not decided whether the schema is nullable"
	}
	return m.rewritten(o, typ, null)
}

// nestedFailure: the error is what a nested walk left.
func (m *jsModel) nestedFailure(o *Outcome, t *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x.Op == "out" && x.Args[0].isCall(cueAST+".Walk") {
			found = true
		}
		return !found
	})
	return found
}

// changes names something the trace does to the tree.
func (m *jsModel) changes(o *Outcome) string {
	for _, ev := range o.Events {
		switch {
		case isWalk(ev), ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "astutil.Apply"):
			return ev.Term.String()
		case ev.Kind == evStore && rootAddr(ev.Args[0]).Op != "alloc":
			return ev.Args[0].String()
		}
	}
	return ""
}

func contains1(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// rewritten decides the effect on a schema node.
func (m *jsModel) rewritten(o *Outcome, typ string, null bool) string {
	e := m.e
	// everything below that may hold schemas
	apply, store := -1, -1
	walked := map[*Term]bool{}
	for i, ev := range o.Events {
		switch {
		case isWalk(ev):
			if !m.walkOK(o, ev) {
				return "an error in a nested schema is ignored: " + ev.Term.Args[0].String()
			}
			walked[unbox(ev.Term.Args[0])] = true
		case ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "astutil.Apply"):
			if unbox(ev.Term.Args[0]) != m.n {
				return "something else than the node is rewritten"
			}
			if apply >= 0 {
				return "a node is rewritten twice"
			}
			apply = i
		case ev.Kind == evStore && ev.Args[0] == e.mk("faddr", "Elts", m.n):
			if store < 0 {
				store = i
			}
		case ev.Kind == evStore && rootAddr(ev.Args[0]).Op != "alloc":
			return "something else than the node is changed: " + ev.Args[0].String()
		case ev.Kind == evCall && len(ev.Term.Args) == 2 && (ev.Term.Args[0] == m.n || ev.Term.Args[1] == m.n) && apply >= 0:
			if fn := m.c.p.byCanon(ev.Term.Sym); fn != nil && m.fieldFns[fn] {
				return "the node is looked at after it was rewritten"
			}
		}
	}
	for _, want := range []struct {
		typ   []string
		label string
	}{{[]string{"", "object"}, "properties"}, {[]string{"", "object"}, "additionalProperties"}, {[]string{"array"}, "items"}} {
		if !contains1(want.typ, typ) {
			continue
		}
		f, has, known := m.has(o, want.label)
		if !known || has && !walked[f] {
			return "schemas in " + want.label + " are not rewritten"
		}
	}
	if !m.logicWalked(o) {
		return "schemas below oneOf, allOf, anyOf or not may be left out"
	}
	if apply < 0 || store >= 0 && store < apply {
		return "the node itself is not rewritten"
	}
	// null
	wrap, wk := false, true
	if null {
		wrap, wk = m.excludesNull(o, typ)
	}
	elts := e.expand1(o.st, o.st.load(e, e.mk("faddr", "Elts", m.n), anyType))
	old := e.fld(m.n, "Elts")
	var rest []*Term
	wrapped := false
	switch {
	case elts == old:
	case elts.Op == "append" && elts.Args[0] == old && elts.Args[1].Op == "list":
		rest = elts.Args[1].Args
	case elts.Op == "list" && len(elts.Args) > 0:
		wrapped = true
		if why := m.anyOf(o, elts.Args[0], old); why != "" {
			return why
		}
		rest = elts.Args[1:]
	default:
		return "the node ends up with other fields: " + elts.String()
	}
	if !wk {
		return "null is added without looking at what else excludes it"
	}
	if wrap != wrapped {
		if wrapped {
			return "null is allowed as an alternative where the schema does not allow it or its type could say so"
		}
		return "null is not allowed by a schema that allows it and whose type cannot say so"
	}
	switch {
	case !m.root && len(rest) > 0:
		return "a nested schema gets further fields"
	case m.root && (len(rest) != 1 || !m.schemaField(o, rest[0])):
		return "the root schema does not get exactly the draft 4 $schema field"
	}
	return m.applied(o, o.Events[apply].Term, null && !wrap)
}

func (m *jsModel) schemaField(o *Outcome, t *Term) bool {
	t = unbox(t)
	l, ok1 := m.c.astString(o.field(m.e, t, "Label"))
	v, ok2 := m.c.astString(o.field(m.e, t, "Value"))
	if !ok1 || !ok2 {
		return false
	}
	ls, _ := l.constStr()
	vs, _ := v.constStr()
	return ls == "$schema" && vs == "http://json-schema.org/draft-04/schema#"
}

// anyOf: the field says that the old content or null is allowed.
func (m *jsModel) anyOf(o *Outcome, f, old *Term) string {
	e := m.e
	f = unbox(f)
	l, ok := m.c.astString(o.field(e, f, "Label"))
	if !ok || l.Sym != `"anyOf"` {
		return "a nullable schema is replaced by something else than anyOf"
	}
	v := unbox(o.field(e, f, "Value"))
	var alts []*Term
	if v.isCall(cueAST + ".NewList") {
		alts = e.expand1(o.st, v.Args[0]).Args
	} else if v.Op == "alloc" {
		alts = e.expand1(o.st, o.field(e, v, "Elts")).Args
	}
	if len(alts) != 2 {
		return "a nullable schema does not have two alternatives"
	}
	oldOK, nullOK := false, false
	for _, a := range alts {
		a = unbox(a)
		if a.Op == "alloc" && e.expand1(o.st, o.field(e, a, "Elts")) == old {
			oldOK = true
		} else if fs := m.c.astFields(e, o, a); len(fs) == 1 {
			if s, ok := m.c.astString(fs["type"]); ok && s.Sym == `"null"` {
				nullOK = true
			}
		}
	}
	if !oldOK || !nullOK {
		return "the alternatives of a nullable schema are not itself and null"
	}
	return ""
}

// isLogic: the four answers on whether an element is a logical operator.
func (m *jsModel) isLogic(fs []Fact, el *Term) (yes, no bool) {
	n := 0
	for _, f := range fs {
		node, s, ok := labelArgs(f.C)
		if !ok || node != el {
			continue
		}
		fn := m.c.p.byCanon(f.C.Sym)
		if !ok || fn == nil || !m.labelFns[fn] || !contains1(jsLogic, s) {
			continue
		}
		if f.Val {
			yes = true
		}
		n++
	}
	return yes, !yes && n == len(jsLogic)
}

// overElts: a loop the trace completed went through all elements of the node.
func (m *jsModel) overElts(o *Outcome, loop string) bool {
	return o.passed()[loop] && m.e.implied(o.Facts, m.e.lt(m.e.iter(loop), m.e.length(m.e.fld(m.n, "Elts"))), false)
}

// logicWalked: every element that is a logical operator is walked.
func (m *jsModel) logicWalked(o *Outcome) bool {
	e := m.e
	for loop := range o.passed() {
		if !m.overElts(o, loop) {
			continue
		}
		good, n := true, 0
		for _, it := range iterations(m.outs, loop) {
			if !e.samePath(it, o, loop) {
				continue
			}
			n++
			el := e.index(e.fld(m.n, "Elts"), e.iter(loop))
			walked := false
			for _, ev := range it.Events {
				if isWalk(ev) && unbox(ev.Term.Args[0]) == el && m.walkOK(it, ev) {
					walked = true
				}
			}
			if _, no := m.isLogic(it.Facts, el); !walked && !no {
				good = false
			}
		}
		if good && n > 0 {
			return true
		}
	}
	return false
}

// excludesNull: the schema has no type that could say null, or something else
// that excludes it: an enum or a logical operator.
func (m *jsModel) excludesNull(o *Outcome, typ string) (val, known bool) {
	e := m.e
	elts := e.fld(m.n, "Elts")
	_, enum, ek := m.has(o, "enum")
	if typ == "" || ek && enum {
		return true, true
	}
	// found, and the search left
	for _, f := range o.Facts {
		if el, _, ok := labelArgs(f.C); ok && f.Val {
			if el.Op == "index" && el.Args[0] == elts {
				if yes, _ := m.isLogic(o.Facts, el); yes {
					return true, true
				}
			}
		}
	}
	noLogic := false
	for loop := range o.passed() {
		if !m.overElts(o, loop) {
			continue
		}
		el := e.index(elts, e.iter(loop))
		var its []*Outcome
		none := true
		for _, it := range iterations(m.outs, loop) {
			if e.samePath(it, o, loop) {
				its = append(its, it)
				if _, no := m.isLogic(it.Facts, el); !no {
					none = false
				}
			}
		}
		if none && len(its) > 0 {
			noLogic = true
		}
		// a flag that says so
		for _, f := range o.Facts {
			if listLoop(f.C) != loop {
				continue
			}
			init, _, down := m.flag(o, f.C)
			if init == nil || down {
				continue
			}
			// what it starts as: nothing, or whether there is an enum
			started := init.Op == "const" && init.Sym == "false"
			if init.Op == "not" {
				if t := nilOf(Fact{C: init.Args[0], Val: true}); t != nil && m.isField(t, "enum") {
					started = true
					ek = ek || !f.Val
				}
			}
			if !started {
				continue
			}
			good := true
			for _, it := range its {
				if old, ok := e.fact(it.Facts, f.C); ok && old {
					continue
				}
				for _, ca := range e.carriers(it) {
					if ca.old != f.C {
						continue
					}
					if ca.new == f.C {
						if _, no := m.isLogic(it.Facts, el); !no {
							good = false
						}
						continue
					}
					for _, set := range []bool{true, false} {
						fs := it.Facts
						if v, ok := e.fact(fs, ca.new); ok && v != set {
							continue
						} else if !ok {
							fs = append(append([]Fact{}, fs...), Fact{C: ca.new, Val: set})
						}
						if yes, no := m.isLogic(fs, el); set && !yes || !set && !no {
							good = false
						}
					}
				}
			}
			if good && f.Val {
				return true, true
			}
			if good {
				noLogic = true
			}
		}
	}
	return false, ek && noLogic
}

// applied decides what happens to each field of the node.
func (m *jsModel) applied(o *Outcome, apply *Term, addNull bool) string {
	e, c := m.e, m.c
	cl := unbox(apply.Args[1])
	if cl.Op != "closure" || cl.Fn == nil || len(apply.Args) > 2 && !apply.Args[2].isNil() {
		return "the node is rewritten in another way"
	}
	cur := e.paramTerms(cl.Fn)[0]
	outs := c.runClosure(e, o, cl)
	del := func(io *Outcome) int {
		n := 0
		for _, ev := range io.Events {
			if ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "Cursor.Delete") && ev.Term.Args[0] == cur {
				n++
			}
		}
		return n
	}
	fields := 0
	for _, io := range outs {
		if io.Kind == outPanic {
			return "rewriting a field may panic"
		}
		if io.Kind != outReturn {
			continue
		}
		compatible := true
		for _, f := range io.Facts {
			if v, known := e.fact(o.Facts, f.C); known && v != f.Val {
				compatible = false
			}
		}
		if !compatible {
			continue
		}
		r, ok := e.fact(io.Facts, io.Vals[0])
		if !ok {
			return "it is not decided whether to look inside a field"
		}
		var node *Term
		for _, ev := range io.Events {
			if ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "Cursor.Node") {
				node = ev.Term
			}
		}
		if node == nil {
			return "a field is rewritten without being looked at"
		}
		var stored *Term
		for _, ev := range io.Events {
			if ev.Kind == evStore && rootAddr(ev.Args[0]).Op != "alloc" {
				if stored != nil || ev.Args[0] != e.mk("faddr", "Value", node) {
					return "a field is changed in another way: " + ev.Args[0].String()
				}
				stored = ev.Args[1]
			}
		}
		is := func(t string) (bool, bool) { return e.fact(io.Facts, e.mk("istype", "*"+cueAST+"."+t, node)) }
		if st, known := is("StructLit"); known && st {
			if del(io) > 0 || stored != nil {
				return "the node itself is deleted or changed"
			}
			if !r {
				return "the fields of the node are not looked at"
			}
			continue
		}
		f, known := is("Field")
		if !known {
			return "it is not decided whether something is a field"
		}
		if !f {
			if del(io) > 0 || stored != nil {
				return "something that is no field is deleted or changed"
			}
			continue
		}
		if r {
			return "fields below the node's own fields are rewritten as if they were keywords"
		}
		fields++
		label := e.fld(node, "Label")
		lit, known := e.fact(io.Facts, e.mk("istype", "*"+cueAST+".BasicLit", label))
		if !known {
			return "it is not decided whether a label is a literal"
		}
		name, not := "", map[string]bool{}
		all := append(append([]Fact{}, io.Facts...), o.Facts...)
		for _, x := range all {
			if s, ok := m.text(all, x, e.fld(label, "Value")); ok && s != "" {
				if x.Val {
					name = s
				} else {
					not[s] = true
				}
			}
		}
		switch {
		case !lit:
			if del(io) > 0 || stored != nil {
				return "a field without a literal label is deleted or changed"
			}
		case contains1(jsDropped, name):
			if del(io) != 1 || stored != nil {
				return "keyword " + name + " is not removed"
			}
		case name == "type":
			if del(io) > 0 {
				return "the type is removed"
			}
			already := false
			for _, x := range io.Facts {
				if s, ok := m.text(all, x, e.fld(e.fld(node, "Value"), "Value")); ok && x.Val && s == "null" {
					already = true
				}
			}
			switch {
			case already:
				if stored != nil {
					return "null is added twice"
				}
			case addNull && stored == nil:
				return "null is not added to the type of a nullable schema"
			case !addNull && stored != nil:
				return "the type of a schema is changed although null need not be added to it"
			case stored != nil && !m.typeList(io, stored, e.fld(node, "Value")):
				return "the type of a nullable schema is not its type or null: " + stored.String()
			}
		case name != "":
			if del(io) > 0 || stored != nil {
				return "keyword " + name + " is removed or changed"
			}
		default:
			if del(io) > 0 || stored != nil {
				return "a field is removed or changed without its name being known"
			}
			for _, s := range append([]string{"type"}, jsDropped...) {
				if !not[s] {
					return "keyword " + s + " may be left as it is"
				}
			}
		}
	}
	if fields == 0 {
		return "no field is rewritten"
	}
	c.ok("treatments of a field by its label", fname(cl.Fn), fields)
	return ""
}

func (m *jsModel) typeList(o *Outcome, t, typ *Term) bool {
	t = unbox(t)
	var l []*Term
	if t.isCall(cueAST + ".NewList") {
		l = m.e.expand1(o.st, t.Args[0]).Args
	} else if t.Op == "alloc" {
		l = m.e.expand1(o.st, o.field(m.e, t, "Elts")).Args
	}
	if len(l) != 2 {
		return false
	}
	old, null := false, false
	for _, x := range l {
		x = unbox(x)
		if x == typ {
			old = true
		} else if s, ok := m.c.astString(x); ok && s.Sym == `"null"` {
			null = true
		}
	}
	return old && null
}

// match: the trace knows whether a node is a field with a literal label equal
// to the text wanted.
func (m *jsModel) match(fs []Fact, node, label *Term) (yes, no bool) {
	e := m.e
	l := e.fld(node, "Label")
	if f, known := e.fact(fs, e.mk("istype", "*"+cueAST+".Field", node)); !known || !f {
		return false, known
	}
	if b, known := e.fact(fs, e.mk("istype", "*"+cueAST+".BasicLit", l)); !known || !b {
		return false, known
	}
	str, known := e.fact(fs, e.eq(e.fld(l, "Kind"), e.int(m.tok("STRING"))))
	if known && !str {
		return false, true
	}
	raw := e.fld(l, "Value")
	unq := e.mk("ext", "0", e.mk("call", "strconv.Unquote", raw))
	a, ka := e.fact(fs, e.eq(unq, label))
	b, kb := e.fact(fs, e.eq(raw, label))
	if str && (ka && a || kb && b) {
		return true, false
	}
	return false, ka && kb && !a && !b
}

// labelFn: the function tells exactly whether a node is a field with a label.
func (m *jsModel) labelFn(fn *ssa.Function) bool {
	e, outs := m.c.run(fn)
	k := *m
	k.e = e
	node, label := labelParams(fn, e.paramTerms(fn))
	n := 0
	for _, o := range outs {
		if o.Kind != outReturn {
			return false
		}
		n++
		if r, ok := e.fact(o.Facts, o.Vals[0]); ok {
			if yes, no := k.match(o.Facts, node, label); r && !yes || !r && !no {
				return false
			}
			continue
		}
		// what is returned is the last comparison itself
		for _, v := range []bool{true, false} {
			x := append(append([]Fact{}, o.Facts...), Fact{C: o.Vals[0], Val: v})
			if yes, no := k.match(x, node, label); v && !yes || !v && !no {
				return false
			}
		}
	}
	return n > 0
}

// fieldFn: the function finds a field with the label, if the struct has one.
func (m *jsModel) fieldFn(fn *ssa.Function) bool {
	e, outs := m.c.run(fn)
	k := *m
	k.e = e
	node, label := labelParams(fn, e.paramTerms(fn))
	elts := e.fld(node, "Elts")
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			return false
		case outReturn:
			n++
			r := unbox(o.Vals[0])
			ok := false
			if !r.isNil() {
				yes, _ := k.match(o.Facts, r, label)
				ok = yes && r.Op == "index" && r.Args[0] == elts
			} else {
				for loop := range o.passed() {
					if !e.implied(o.Facts, e.lt(e.iter(loop), e.length(elts)), false) {
						continue
					}
					ok = true
					for _, it := range iterations(outs, loop) {
						if _, no := k.match(it.Facts, e.index(elts, e.iter(loop)), label); !no {
							ok = false
						}
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return n > 0
}

func jsPkg(f *ssa.Function) bool {
	return strings.HasSuffix(fnPkgPath(f), "/encoding/jsonschema") && f.Parent() == nil
}

// fieldSig: finds a field of a struct by its label.
func fieldSig(f *ssa.Function) bool {
	s := f.Signature
	return jsPkg(f) && s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 && takes(s, "*"+cueAST+".StructLit", "string") &&
		tstr(s.Results().At(0).Type()) == "*"+cueAST+".Field"
}

// labelSig: tells whether a node is a field with a label.
func labelSig(f *ssa.Function) bool {
	s := f.Signature
	return jsPkg(f) && s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 && takes(s, cueAST+".Node", "string") &&
		tstr(s.Results().At(0).Type()) == "bool"
}

// takes: the two parameters have these types, in either order.
func takes(s *types.Signature, a, b string) bool {
	x, y := tstr(s.Params().At(0).Type()), tstr(s.Params().At(1).Type())
	return x == a && y == b || x == b && y == a
}

func tstr(t types.Type) string { return types.TypeString(t, nil) }
