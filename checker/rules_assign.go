package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// assignModel is one level of the recursive comparison of a Go type (g) with a
// schema (s) at a path (p): the recursive calls are the induction hypothesis.
type assignModel struct {
	c          *Ctx
	e          *Engine
	fn         *ssa.Function
	outs       []*Outcome
	head       string // the recursive function
	gi, si, pi int    // positions of its arguments
	g, s       *Term
	errs       *Term // the map that collects errors
	kind       map[string]int64
}

func (p *Program) cueConst(name string) (int64, bool) {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() != cuePkg {
			continue
		}
		if k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return constant.Int64Val(constant.ToInt(k.Val()))
		}
	}
	return 0, false
}

func ruleT16(c *Ctx) {
	fn := c.need("", "AssignableTo")
	if fn == nil {
		return
	}
	e, outs := c.runOpts(fn, Options{InlineRec: true})
	m := &assignModel{c: c, e: e, fn: fn, outs: outs, kind: map[string]int64{}}
	for _, k := range []string{"NullKind", "BoolKind", "IntKind", "FloatKind", "StringKind", "BytesKind", "StructKind", "ListKind", "NumberKind", "TopKind", "OrOp"} {
		v, ok := c.p.cueConst(k)
		if !ok {
			c.failAt("anchor", "cue."+k, "the constant is not there")
			return
		}
		m.kind[k] = v
	}
	if !m.resolve() {
		return
	}
	rets := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			m.panics(o)
		case outReturn:
			rets++
			m.returns(o)
		}
	}
	if rets < 10 {
		c.fail("walk", fnPos(fn), fn, nil, nil, "only %d paths return", rets)
	}
	c.bindType()
}

// resolve finds the recursive comparison and what it is started with.
func (m *assignModel) resolve() bool {
	e, c := m.e, m.c
	opaque := map[string]bool{}
	for _, o := range m.outs {
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.Op == "call" {
				opaque[ev.Term.Sym] = true
			}
		}
	}
	for _, o := range m.outs {
		for _, ev := range o.Events {
			if ev.Kind != "inline" || !opaque[ev.Term.Sym] {
				continue
			}
			var vals []int
			pi := -1
			for i, a := range ev.Term.Args {
				t := a.T
				if t == nil {
					t = m.argType(ev, i)
				}
				switch {
				case t != nil && t.String() == cuePkg+".Value":
					vals = append(vals, i)
				case t != nil && t.String() == cuePkg+".Path":
					pi = i
				}
			}
			if len(vals) != 2 || pi < 0 {
				continue
			}
			if m.head == "" {
				m.head, m.pi = ev.Term.Sym, pi
				for _, i := range vals {
					a := ev.Term.Args[i]
					if a.isCall("(*" + cuePkg + ".Context).EncodeType") {
						m.gi = i
					} else {
						m.si = i
					}
				}
				m.s = ev.Term.Args[m.si]
			}
		}
	}
	if m.head == "" || m.gi == m.si {
		c.fail("anchor", fnPos(m.fn), m.fn, nil, nil, "the recursive comparison of the Go type with the schema was not found")
		return false
	}
	sch := e.paramTerms(m.fn)[0]
	if e.canonDef(m.s) != e.defOf(sch) && m.s != e.mk("call", cv("LookupPath"), e.fld(sch, "ref"), e.path("_#schema@"+modPath)) {
		c.fail("start", fnPos(m.fn), m.fn, nil, nil, "the comparison does not start from the definition of the schema given: %v", m.s)
		return false
	}
	c.ok("the comparison starts from the closed definition of the schema", fname(m.fn), 1)
	for _, o := range m.outs {
		if o.Kind == outReturn && unbox(o.Vals[0]).Op == "mkmap" {
			m.errs = unbox(o.Vals[0])
		}
	}
	if m.errs == nil {
		c.fail("anchor", fnPos(m.fn), m.fn, nil, nil, "the collection of errors that is returned was not found")
		return false
	}
	return true
}

func (m *assignModel) argType(ev Event, i int) types.Type {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	if c.IsInvoke() {
		i--
	}
	if i < 0 || i >= len(c.Args) {
		return nil
	}
	return c.Args[i].Type()
}

// entry returns the call that starts the comparison on this path.
func (m *assignModel) entry(o *Outcome) *Event {
	for i, ev := range o.Events {
		if ev.Kind == "inline" && ev.Term.Sym == m.head {
			return &o.Events[i]
		}
	}
	return nil
}

// its returns the iterations of a loop that belong to the same path up to the loop.
func (m *assignModel) its(o *Outcome, loop string) []*Outcome {
	var out []*Outcome
	for _, it := range iterations(m.outs, loop) {
		en := m.entry(it)
		if en == nil || en.Term.Args[m.gi] != m.g {
			continue
		}
		if m.e.samePath(it, o, loop) {
			out = append(out, it)
		}
	}
	return out
}

func (m *assignModel) kindOf(v *Term) *Term { return m.e.mk("call", cv("IncompleteKind"), v) }

// noNull is the kind of v without null.
func (m *assignModel) noNull(v *Term) []*Term {
	k := m.kindOf(v)
	return []*Term{m.e.mk("op", "&^", k, m.e.int(m.kind["NullKind"])), k}
}

// eqFact looks for the answer to "a equals b" in the facts.
func (m *assignModel) eqFact(fs []Fact, as []*Term, bs ...*Term) (val, ok bool) {
	for _, f := range fs {
		if f.C.Op != "eq" {
			continue
		}
		for _, a := range as {
			for _, b := range bs {
				if f.C == m.e.eq(a, b) {
					return f.Val, true
				}
			}
		}
	}
	return false, false
}

func (m *assignModel) isKind(fs []Fact, v *Term, name string) (val, ok bool) {
	return m.eqFact(fs, m.noNull(v), m.e.int(m.kind[name]))
}

// any: the Go type is interface{}.
func (m *assignModel) any(fs []Fact) (val, ok bool) {
	return m.eqFact(fs, m.noNull(m.g), m.e.int(m.kind["TopKind"]&^m.kind["NullKind"]), m.e.int(m.kind["TopKind"]))
}

func (m *assignModel) sameKind(fs []Fact) (val, ok bool) {
	return m.eqFact(fs, m.noNull(m.s), m.noNull(m.g)...)
}

// goSide: the term stands for the Go type, possibly without its leading null.
func (m *assignModel) goSide(fs []Fact, t *Term) (stripped, ok bool) {
	if t == m.g {
		return false, true
	}
	if t.Op == "index" && t.Args[0] == m.e.mk("ext", "1", m.e.mk("call", cv("Expr"), m.g)) {
		if v, ok := m.e.fact(fs, m.e.nilEq(m.e.mk("call", cv("Null"), t))); ok && !v {
			return true, true
		}
	}
	return false, false
}

// schSide: the term stands for the schema, or for its list type where it has a default.
func (m *assignModel) schSide(fs []Fact, t *Term) bool {
	if t == m.s {
		return true
	}
	ex := m.e.mk("ext", "1", m.e.mk("call", cv("Expr"), m.s))
	return t == m.e.index(ex, m.e.int(0)) && m.e.holds(fs, m.e.mk("ext", "1", m.e.mk("call", cv("Default"), m.s)))
}

func (m *assignModel) subsumes(f Fact) (a, b *Term, ok bool) {
	t := nilOf(f)
	if t == nil || !t.isCall(cv("Subsume")) || len(t.Args) != 3 {
		return nil, nil, false
	}
	return t.Args[0], t.Args[1], true
}

func (m *assignModel) schemaOpt(f Fact) bool { return optionSet(nilOf(f).Args[2], "Schema") }

func (m *assignModel) puts(o *Outcome) []Event {
	var out []Event
	for _, ev := range o.Events {
		if ev.Kind == evMap && ev.Args[0] == m.errs {
			out = append(out, ev)
		}
	}
	return out
}

func (m *assignModel) recCalls(o *Outcome) []Event {
	var out []Event
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term.Op == "call" && ev.Term.Sym == m.head {
			out = append(out, ev)
		}
	}
	return out
}

func (m *assignModel) panics(o *Outcome) {
	en := m.entry(o)
	if en == nil {
		m.c.fail("total", o.Pos, o.Fn, m.e, o, "AssignableTo may panic")
		return
	}
	m.g = en.Term.Args[m.gi]
	// fields of a struct can be listed; a kind that is neither struct, list nor basic is that of no Go type
	for _, f := range o.Facts {
		if t := nilOf(f); t != nil && !f.Val && t.Op == "ext" && t.Args[0].isCall(cv("Fields")) {
			if v, ok := m.isKind(o.Facts, m.s, "StructKind"); ok && v {
				m.c.ok("panics only where CUE cannot list the fields of a struct", fname(o.Fn), 1)
				return
			}
		}
	}
	if same, ok := m.sameKind(o.Facts); ok && same {
		none := true
		for _, k := range []string{"StructKind", "ListKind", "StringKind", "IntKind", "FloatKind", "BoolKind", "BytesKind", "NumberKind"} {
			if v, ok := m.isKind(o.Facts, m.s, k); !ok || v {
				none = false
			}
		}
		if none {
			m.c.ok("panics only for a kind no Go type has", fname(o.Fn), 1)
			return
		}
	}
	m.c.fail("total", o.Pos, o.Fn, m.e, o, "AssignableTo may panic")
}

func (m *assignModel) returns(o *Outcome) {
	c, e := m.c, m.e
	res := o.Vals[0]
	en := m.entry(o)
	if en == nil {
		m.refused(o)
		return
	}
	m.g = en.Term.Args[m.gi]
	if p := en.Term.Args[m.pi]; p != e.path("") {
		c.fail("start", o.Pos, m.fn, e, o, "the comparison does not start at the root path")
		return
	}
	if en.Term.Args[m.si] != m.s || !m.goRoot(o) {
		c.fail("start", o.Pos, m.fn, e, o, "the comparison does not start from the Go type and the schema given")
		return
	}
	if !m.goStruct(o) {
		c.fail("start", o.Pos, m.fn, e, o, "a Go type that is not a struct may be compared with the schema")
		return
	}
	// the result says whether errors were collected
	st := e.mapState(o.st, m.errs)
	n := e.length(st)
	switch {
	case res.isNil():
		if z, _ := n.constInt(); !(n.isConst() && z == 0) && !m.hasFact(o, e.lt(e.int(0), n), false) && !m.hasFact(o, e.eq(e.int(0), n), true) {
			c.fail("result", o.Pos, m.fn, e, o, "nil is returned although errors may have been found")
			return
		}
	case unbox(res) == m.errs:
		if st.Op != "mapput" && !m.hasFact(o, e.lt(e.int(0), n), true) && !m.hasFact(o, e.eq(e.int(0), n), false) {
			c.fail("result", o.Pos, m.fn, e, o, "an error is returned although none may have been found")
			return
		}
	default:
		c.fail("result", o.Pos, m.fn, e, o, "the result is neither nil nor the errors found: %v", res)
		return
	}
	c.ok("the result is nil exactly if no error was found", fname(m.fn), 1)
	ps := m.puts(o)
	if len(ps) > 0 {
		for _, ev := range ps {
			if !m.located(ev, en.Term.Args[m.pi]) {
				c.fail("located", ev.Pos, ev.Fn, e, o, "an error is not recorded under the path it is about")
				return
			}
			if e.nilness(o, ev.Args[2]) != notNil {
				c.fail("reject", ev.Pos, ev.Fn, e, o, "what is recorded may be no error")
				return
			}
			if why := m.rejected(o.Facts[:min(ev.NFact, len(o.Facts))]); why != "" {
				c.fail("reject", ev.Pos, ev.Fn, e, o, "a schema that the Go type can hold may be refused: %s", why)
				return
			}
		}
		c.ok("errors are only recorded where the rules of assignability are broken", fname(m.fn), len(ps))
		return
	}
	if why := m.accepted(o); why != "" {
		c.fail("accept", o.Pos, m.fn, e, o, "a Go type that cannot hold every instance of the schema may be accepted: %s", why)
		return
	}
	c.ok("acceptance follows from the rules of assignability", fname(m.fn), 1)
}

func (m *assignModel) hasFact(o *Outcome, c *Term, val bool) bool {
	v, ok := m.e.fact(o.Facts, c)
	return ok && v == val
}

// goRoot: the Go side is the encoded type of T, or of what T points to.
func (m *assignModel) goRoot(o *Outcome) bool {
	if !m.g.isCall("(*"+cuePkg+".Context).EncodeType") || len(m.g.Args) < 2 {
		return false
	}
	return m.g.Args[1].contains(m.e.paramTerms(m.fn)[1])
}

// goStruct: the Go value whose type is encoded is known to be a struct.
func (m *assignModel) goStruct(o *Outcome) bool {
	for _, f := range o.Facts {
		if f.C.Op != "eq" || !f.Val {
			continue
		}
		for j, a := range f.C.Args {
			if n, ok := f.C.Args[1-j].constInt(); !ok || n != 25 || len(a.Args) == 0 {
				continue
			}
			if a.isCall("(reflect.Value).Kind") || a.isCall("Type.Kind") || a.isCall("reflect.Type.Kind") {
				v := a.Args[0]
				for v.isCall("(reflect.Value).Type") {
					v = v.Args[0]
				}
				if m.g.contains(v) || v.contains(m.e.paramTerms(m.fn)[1]) {
					return true
				}
			}
		}
	}
	return false
}

// refused: the Go value is not a struct, or a pointer to a pointer.
func (m *assignModel) refused(o *Outcome) {
	c, e := m.c, m.e
	if e.nilness(o, o.Vals[0]) != notNil {
		c.fail("accept", o.Pos, m.fn, e, o, "nil is returned without a comparison of the Go type with the schema")
		return
	}
	const ptr, strct = 22, 25
	kinds, notStruct, deep := 0, false, false
	for _, f := range o.Facts {
		if f.C.Op != "eq" {
			continue
		}
		for j, a := range f.C.Args {
			if !a.isCall("(reflect.Value).Kind") && !a.isCall("Type.Kind") && !a.isCall("reflect.Type.Kind") {
				continue
			}
			n, ok := f.C.Args[1-j].constInt()
			if !ok {
				continue
			}
			kinds++
			if n == strct && !f.Val {
				notStruct = true
			}
			if n == ptr && f.Val && a.String() != "" && strings.Contains(a.String(), ".Elem(") {
				deep = true
			}
		}
	}
	if !notStruct && !deep {
		c.fail("reject", o.Pos, m.fn, e, o, "a struct type may be refused without a comparison")
		return
	}
	if deep && !notStruct && !e.marks(o.Vals[0])["ErrPointerDepth"] && !strings.Contains(o.Vals[0].String(), "ErrPointerDepth") {
		c.fail("reject", o.Pos, m.fn, e, o, "a pointer to a pointer is not refused with ErrPointerDepth")
		return
	}
	c.ok("what is not a struct is refused", fname(m.fn), 1)
}

// located: the error is recorded under the path at hand.
func (m *assignModel) located(ev Event, p *Term) bool { return ev.Args[1].contains(p) }

// rejected explains why the facts do not justify an error, "" if they do.
func (m *assignModel) rejected(fs []Fact) string {
	if a, ok := m.any(fs); ok && a {
		return "the Go type is any"
	}
	if same, ok := m.sameKind(fs); ok && !same {
		if a, ok := m.any(fs); ok && !a {
			return ""
		}
		return "the kinds differ, but the Go type may be any"
	}
	for _, f := range fs {
		if a, b, ok := m.subsumes(f); ok && !f.Val {
			if str, isG := m.goSide(fs, a); isG && b == m.s && m.schemaOpt(f) {
				// scalar not subsumed; a schema with null needs the Go type with its null
				if !str && a == m.g {
					return ""
				}
				if nn, ok := m.eqFact(fs, []*Term{m.e.mk("op", "&", m.e.int(m.kind["NullKind"]), m.kindOf(m.s)), m.e.mk("op", "&", m.kindOf(m.s), m.e.int(m.kind["NullKind"]))}, m.e.int(0)); ok && nn {
					return ""
				}
				return "null, which the Go type accepts, is not taken into account"
			}
			if la, lb := lenArg(a), lenArg(b); la != nil && lb != nil && m.isList(fs) {
				if _, ok := m.goSide(fs, la); ok && m.schSide(fs, lb) {
					return ""
				}
			}
			if m.isList(fs) && !a.contains(m.g) && !b.contains(m.g) && a != b && !a.isZero() && !b.isZero() && m.schemaOpt(f) {
				return "" // elements of the schema's list that differ
			}
		}
		if f.C.Op == "eq" && !f.Val && m.isList(fs) && m.openness(fs, f.C) {
			return ""
		}
	}
	if m.isList(fs) {
		ex := m.e.mk("ext", "1", m.e.mk("call", cv("Expr"), m.s))
		if m.e.holds(fs, m.e.mk("ext", "1", m.e.mk("call", cv("Default"), m.s))) {
			if v, ok := m.e.fact(fs, m.e.lt(m.e.int(2), m.e.length(ex))); ok && v {
				return ""
			}
		}
	}
	if st, ok := m.isKind(fs, m.s, "StructKind"); ok && st {
		if or, ok := m.eqFact(fs, []*Term{m.e.mk("ext", "0", m.e.mk("call", cv("Expr"), m.s))}, m.e.int(m.kind["OrOp"])); ok && or {
			return ""
		}
	}
	if nk, ok := m.isKind(fs, m.s, "NullKind"); ok && nk {
		return ""
	}
	if m.severalKinds(fs) {
		return ""
	}
	return "no rule is shown to be broken"
}

func lenArg(t *Term) *Term {
	if t.isCall(cv("Len")) {
		return t.Args[0]
	}
	return nil
}

func (m *assignModel) isList(fs []Fact) bool {
	v, ok := m.isKind(fs, m.s, "ListKind")
	return ok && v
}

// openness: the condition asks whether both lists are open or both closed.
func (m *assignModel) openness(fs []Fact, c *Term) bool {
	var g, s bool
	for _, a := range c.Args {
		if !a.isCall(cv("IsConcrete")) {
			return false
		}
		l := lenArg(a.Args[0])
		if l == nil {
			return false
		}
		if _, ok := m.goSide(fs, l); ok {
			g = true
		} else if m.schSide(fs, l) {
			s = true
		}
	}
	return g && s
}

// severalKinds: the schema allows more than one basic kind.
func (m *assignModel) severalKinds(fs []Fact) bool {
	for _, k := range []string{"StructKind", "ListKind", "StringKind", "IntKind", "FloatKind", "BoolKind", "BytesKind"} {
		if v, ok := m.isKind(fs, m.s, k); !ok || v {
			return false
		}
	}
	return true
}

// accepted explains why the path does not justify acceptance of this level.
func (m *assignModel) accepted(o *Outcome) string {
	fs := o.Facts
	if a, ok := m.any(fs); ok && a {
		return ""
	}
	if same, ok := m.sameKind(fs); !ok || !same {
		return "the kinds may differ"
	}
	if l, ok := m.isKind(fs, m.s, "ListKind"); ok && l {
		return m.acceptedList(o)
	}
	if st, ok := m.isKind(fs, m.s, "StructKind"); ok && st {
		return m.acceptedStruct(o)
	}
	basic := false
	for _, k := range []string{"StringKind", "IntKind", "FloatKind", "BoolKind", "BytesKind", "NumberKind"} {
		if v, ok := m.isKind(fs, m.s, k); ok && v {
			basic = true
		}
	}
	if !basic {
		return "a schema that allows several kinds, or null only, is accepted"
	}
	for _, f := range fs {
		if a, b, ok := m.subsumes(f); ok && f.Val && b == m.s && m.schemaOpt(f) {
			if _, ok := m.goSide(fs, a); ok {
				return ""
			}
		}
	}
	return "the Go type is not shown to subsume the schema"
}

func (m *assignModel) acceptedList(o *Outcome) string {
	fs := o.Facts
	var g, s *Term
	aligned, lengths := false, false
	for _, f := range fs {
		if f.C.Op == "eq" && f.Val && m.openness(fs, f.C) {
			aligned = true
		}
		if a, b, ok := m.subsumes(f); ok && f.Val {
			la, lb := lenArg(a), lenArg(b)
			if la != nil && lb != nil && m.schSide(fs, lb) {
				if _, ok := m.goSide(fs, la); ok {
					g, s, lengths = la, lb, true
				}
			}
		}
	}
	if !aligned {
		// both answers known and equal
		var gv, sv, gk, sk bool
		for _, f := range fs {
			if f.C.isCall(cv("IsConcrete")) {
				if l := lenArg(f.C.Args[0]); l != nil {
					if _, ok := m.goSide(fs, l); ok {
						gv, gk = f.Val, true
					} else if m.schSide(fs, l) {
						sv, sk = f.Val, true
					}
				}
			}
		}
		aligned = gk && sk && gv == sv
	}
	if !aligned {
		return "an open list may be accepted for an array, or a closed one for a slice"
	}
	if !lengths {
		return "the lengths of the lists may differ"
	}
	def := m.e.mk("ext", "1", m.e.mk("call", cv("Default"), m.s))
	if m.e.holds(fs, def) {
		ex := m.e.mk("ext", "1", m.e.mk("call", cv("Expr"), m.s))
		if v, ok := m.e.fact(fs, m.e.lt(m.e.int(2), m.e.length(ex))); !ok || v {
			return "a disjunction of several list types may be accepted"
		}
		if s == m.s {
			return "a list with a default is not resolved to its list type"
		}
	} else if s != m.s {
		return "the list compared is not that of the schema"
	}
	// all elements given in the schema are of one type
	uniform := false
	for loop := range o.passed() {
		its := m.its(o, loop)
		ok := len(its) > 0
		for _, it := range its {
			if !m.mutual(it, s) {
				ok = false
			}
		}
		if ok {
			uniform = true
		}
	}
	if !uniform {
		// the list has no element, or one
		if !m.noElement(o, s) {
			return "elements of different types in the schema's list may be accepted"
		}
	}
	// the element types are compared, or both lists are empty
	recs := m.recCalls(o)
	if len(recs) == 0 {
		if m.noElement(o, g) {
			return ""
		}
		return "the element types are not compared"
	}
	if len(recs) != 1 {
		return "the element types are compared several times"
	}
	t := recs[0].Term
	ge, se := t.Args[m.gi], t.Args[m.si]
	if p := t.Args[m.pi]; !p.contains(m.e.path("")) || !strings.Contains(p.String(), "AnyIndex") {
		return "the element types are compared at another path"
	}
	if !m.elementOf(o, ge, g) {
		return "what is compared is not the element of the Go list"
	}
	closed := false
	for _, f := range fs {
		if f.C.isCall(cv("IsConcrete")) && f.Val {
			if l := lenArg(f.C.Args[0]); l == g || l == s {
				closed = true
			}
		}
	}
	if !closed && !isAnyIndex(se, s) {
		return "the element type of the schema's open list is not compared"
	}
	if closed && !m.elementOf(o, se, s) && !m.elementLoop(o, se, s) && !se.isZero() {
		return "what is compared is not the element of the schema's list"
	}
	if !closed && !m.noElement(o, s) && !m.tailMutual(o, s) {
		return "elements of an open list that differ from its element type may be accepted"
	}
	return ""
}

func (t *Term) isZero() bool { return t.Op == "zero" }

func isAnyIndex(t, list *Term) bool {
	return t.isCall(cv("LookupPath")) && t.Args[0] == list && strings.Contains(t.Args[1].String(), "AnyIndex")
}

// iterOver: the iterator was made from the list.
func (m *assignModel) iterOver(o *Outcome, it, list *Term) bool {
	src := m.e.mk("ext", "0", m.e.mk("call", cv("List"), list))
	if it == src {
		return true
	}
	for _, ev := range o.Events {
		if ev.Kind == evStore && len(ev.Args) == 2 && ev.Args[0] == it && ev.Args[1] == src {
			return true
		}
	}
	return false
}

func (m *assignModel) elementOf(o *Outcome, t, list *Term) bool {
	if isAnyIndex(t, list) {
		return true
	}
	return t.isCall("Iterator.Value") && m.iterOver(o, t.Args[0], list)
}

// elementLoop: the term is what a loop over the list's elements leaves behind.
func (m *assignModel) elementLoop(o *Outcome, t, list *Term) bool {
	loop := listLoop(t)
	if loop == "" || !o.passed()[loop] {
		return false
	}
	for _, it := range m.its(o, loop) {
		for _, k := range m.e.carriers(it) {
			if k.old == t && k.new != t && !m.elementOf(it, k.new, list) {
				return false
			}
		}
		for _, ev := range o.Events {
			if ev.Kind != evEnter || ev.Loop != loop {
				continue
			}
			for ph, init := range ev.Init {
				if it.PhiOld[ph] == t && !m.elementOf(o, init, list) {
					return false
				}
			}
		}
	}
	return true
}

func (m *assignModel) noElement(o *Outcome, list *Term) bool {
	for _, f := range o.Facts {
		if !f.Val && f.C.isCall("Iterator.Next") && m.iterOver(o, f.C.Args[0], list) {
			if n, ok := f.C.Args[1].constInt(); ok && n == 0 || list != m.s {
				return true
			}
		}
	}
	return false
}

// mutual: the iteration established that an element and the one before subsume each other.
func (m *assignModel) mutual(it *Outcome, list *Term) bool {
	var ab [][2]*Term
	for _, f := range it.Facts {
		if a, b, ok := m.subsumes(f); ok && f.Val && m.schemaOpt(f) && !a.contains(m.g) && !b.contains(m.g) {
			ab = append(ab, [2]*Term{a, b})
		}
	}
	for _, x := range ab {
		for _, y := range ab {
			if x[0] != y[1] || x[1] != y[0] {
				continue
			}
			for i := range x {
				if m.currentElement(it, x[i], list) && m.otherElement(it, x[1-i], list) {
					return true
				}
			}
		}
	}
	return false
}

// currentElement: the term is the element the iteration is about.
func (m *assignModel) currentElement(it *Outcome, t, list *Term) bool {
	if !t.isCall("Iterator.Value") || !m.iterOver(it, t.Args[0], list) || len(t.Args) < 2 {
		return false
	}
	cur := false
	t.Args[1].walk(func(y *Term) bool {
		cur = cur || y.Op == "loopmem" && y.Sym == it.Loop
		return !cur
	})
	return cur
}

// otherElement: the term is an element of the list that was seen before.
func (m *assignModel) otherElement(it *Outcome, t, list *Term) bool {
	if m.elementOf(it, t, list) {
		return !m.currentElement(it, t, list)
	}
	for _, k := range m.e.carriers(it) {
		if k.old == t {
			return k.init != nil && m.elementOf(it, k.init, list) && (k.new == t || m.elementOf(it, k.new, list))
		}
	}
	return false
}

// tailMutual: the last element and the element type subsume each other.
func (m *assignModel) tailMutual(o *Outcome, list *Term) bool {
	var fwd, bwd bool
	for _, f := range o.Facts {
		if a, b, ok := m.subsumes(f); ok && f.Val && m.schemaOpt(f) {
			if isAnyIndex(a, list) && !isAnyIndex(b, list) && !b.contains(m.g) {
				fwd = true
			}
			if isAnyIndex(b, list) && !isAnyIndex(a, list) && !a.contains(m.g) {
				bwd = true
			}
		}
	}
	return fwd && bwd
}

func (m *assignModel) acceptedStruct(o *Outcome) string {
	fs := o.Facts
	if or, ok := m.eqFact(fs, []*Term{m.e.mk("ext", "0", m.e.mk("call", cv("Expr"), m.s))}, m.e.int(m.kind["OrOp"])); !ok || or {
		return "a disjunction of structs may be accepted"
	}
	// a loop over the schema's fields
	var gm *Term
	why := "the fields of the schema are not all compared"
	for loop := range o.passed() {
		if x, w := m.fieldLoop(o, loop); x != nil {
			if w == "" {
				gm = x
				break
			}
			why = w
		}
	}
	if gm == nil {
		return why
	}
	if w := m.goFields(o, gm); w != "" {
		return w
	}
	for loop := range o.passed() {
		if m.leftoverLoop(o, loop, gm) {
			return ""
		}
	}
	return "fields of the Go type that the schema does not have may be accepted"
}

// fieldLoop decides whether a loop compares every field of the schema with the
// Go field of the same name; it returns the map of Go fields.
func (m *assignModel) fieldLoop(o *Outcome, loop string) (*Term, string) {
	its := m.its(o, loop)
	var gm *Term
	found, absent := 0, 0
	for _, it := range its {
		var ask *Fact
		for i, f := range it.Facts {
			if f.C.Op == "has" && insideLoop(it, loop, f) {
				ask = &it.Facts[i]
			}
		}
		recs, ps := m.loopEvents(it, loop)
		if ask == nil {
			if len(recs) > 0 {
				return m.errs, "a field is compared without looking whether the Go type has it"
			}
			return nil, ""
		}
		mp := mapOf(ask.C.Args[0])
		if mp == nil || mp == m.errs {
			return nil, ""
		}
		gm = mp
		key := ask.C.Args[1]
		el, src := m.fieldOf(it, key)
		if el == nil {
			return gm, "what is looked up is not the name of a field of the schema"
		}
		if w := m.coversFields(o, it, loop, el, src); w != "" {
			return gm, w
		}
		if !ask.Val {
			absent++
			if len(ps) == 0 {
				return gm, "a field that is missing in the Go type may be accepted"
			}
			if len(recs) > 0 {
				return gm, "a field missing in the Go type is compared"
			}
			for _, p := range ps {
				if !p.Args[1].contains(m.e.path("")) || !m.mentions(p.Args[1], el) {
					return gm, "the error about a missing field is not recorded under its path"
				}
			}
			continue
		}
		found++
		if len(ps) > 0 {
			return gm, "an error may be recorded for a field that is there on both sides"
		}
		if len(recs) != 1 {
			return gm, "a field that is there on both sides is not compared"
		}
		t := recs[0].Term
		if t.Args[m.si] != m.fieldValue(el) {
			return gm, "what is compared is not the schema's field"
		}
		ticked := false
		for _, ev := range it.Events {
			if ev.Kind == evDel && ev.Args[0] == gm && ev.Args[1] == key || ev.Kind == evMap && ev.Args[0] != gm && ev.Args[0] != m.errs && ev.Args[1] == key {
				ticked = true
			}
		}
		if !ticked {
			return gm, "a field that is there on both sides is reported as absent from the schema"
		}
		lk := m.e.mk("lookup", "", ask.C.Args[0], key)
		if g := t.Args[m.gi]; g != lk && !(g.Op == "fld" && g.Args[0] == lk) {
			return gm, "what is compared is not the Go type's field of that name"
		}
		if !t.Args[m.pi].contains(m.e.path("")) || !m.mentions(t.Args[m.pi], el) {
			return gm, "the field is compared at another path than its own"
		}
	}
	if found == 0 || absent == 0 {
		return nil, ""
	}
	return gm, ""
}

func (m *assignModel) loopEvents(it *Outcome, loop string) (recs, puts []Event) {
	in := false
	for _, ev := range it.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			in = true
		}
		if !in {
			continue
		}
		if ev.Kind == evMap && ev.Args[0] == m.errs {
			puts = append(puts, ev)
		}
		if ev.Kind == evCall && ev.Term.Op == "call" && ev.Term.Sym == m.head {
			recs = append(recs, ev)
		}
	}
	return
}

// fieldOf reads a map key as the name of a field: of the current element of a
// list of fields (src is the list), or of an iterator (src is the iterator).
func (m *assignModel) fieldOf(it *Outcome, key *Term) (el, src *Term) {
	t := key
	for {
		switch {
		case t.isCall("("+cuePkg+".Path).String", "("+cuePkg+".Selector).String"):
			t = t.Args[0]
			continue
		case t.isCall(cuePkg+".MakePath") && len(t.Args) == 1 && t.Args[0].Op == "list" && len(t.Args[0].Args) == 1:
			t = t.Args[0].Args[0]
			continue
		case t.Op == "fld" && t.Args[0].Op == "index":
			return t.Args[0], t.Args[0].Args[0]
		case t.isCall("Iterator.Selector", "Iterator.Label"):
			return t, t.Args[0]
		}
		return nil, nil
	}
}

func (m *assignModel) fieldValue(el *Term) *Term {
	if el.Op == "index" {
		return m.e.fld(el, "Value")
	}
	return m.e.mk("call", "Iterator.Value", el.Args...)
}

func (m *assignModel) mentions(t, el *Term) bool { return t.contains(el) }

func (m *assignModel) fieldsOf(v *Term, t *Term) bool {
	if t.Op != "ext" || t.Sym != "0" {
		return false
	}
	c := t.Args[0]
	if !c.isCall(cv("Fields")) || c.Args[0] != v || len(c.Args) != 2 || c.Args[1].Op != "list" {
		return false
	}
	for _, a := range c.Args[1].Args {
		if a.isCall(cuePkg+".Optional") && a.Args[0] == m.e.boolT(true) {
			return true
		}
	}
	return false
}

// coversFields: the loop goes through all fields of the schema, optional ones included.
func (m *assignModel) coversFields(o, it *Outcome, loop string, el, src *Term) string {
	e := m.e
	if el.Op != "index" {
		if !m.fieldsOf(m.s, src) {
			return "the fields gone through are not all those of the schema"
		}
		for _, f := range o.Facts {
			if !f.Val && f.C.isCall("Iterator.Next") && f.C.Args[0] == src {
				return ""
			}
		}
		return "the fields of the schema are not gone through to the end"
	}
	if el.Args[1] != e.iter(loop) {
		return "fields of the schema may be left out"
	}
	q := newSeq(m.c, e, m.outs)
	if !q.proves(o, lef(e, e.length(src), e.iter(loop))) {
		return "the fields of the schema are not gone through to the end"
	}
	build := listLoop(src)
	if build == "" || !o.passed()[build] || !e.emptyList(e.listInit(m.outs, build, src)) {
		return "the list of the schema's fields is not complete"
	}
	bits := m.its(o, build)
	for _, b := range bits {
		if v, ok := m.iterGuard(b, build, m.s); !ok || !v {
			return "the list of fields is not made from the schema's fields, optional ones included"
		}
		els, ok := e.appended(b, src)
		if !ok || len(els) != 1 {
			return "a field of the schema may be left out"
		}
		if !m.isField(els[0]) {
			return "the list does not hold the schema's fields under their names"
		}
	}
	if len(bits) == 0 {
		return "the list of the schema's fields is not complete"
	}
	return ""
}

// iterGuard: the iteration runs because an iterator over v's fields has a next one.
func (m *assignModel) iterGuard(it *Outcome, loop string, v *Term) (bool, bool) {
	for _, f := range it.Facts {
		if f.C.isCall("Iterator.Next") && m.fieldsOf(v, f.C.Args[0]) && insideLoop(it, loop, f) {
			return f.Val, true
		}
	}
	return false, false
}

// isField: a struct of the iterator's current value and its selector.
func (m *assignModel) isField(t *Term) bool {
	v := m.e.fld(t, "Value")
	if !v.isCall("Iterator.Value") {
		return false
	}
	ok := false
	for _, f := range structFields(m.e, t) {
		if x := m.e.fld(t, f); x != v {
			x.walk(func(y *Term) bool {
				if y.isCall("Iterator.Selector", "Iterator.Label") && y.Args[0] == v.Args[0] && y.Args[1] == v.Args[1] {
					ok = true
				}
				return true
			})
		}
	}
	return ok
}

// goFields: the map holds every field of the Go type under its name.
func (m *assignModel) goFields(o *Outcome, gm *Term) string {
	for loop := range o.passed() {
		its := m.its(o, loop)
		n := 0
		for _, it := range its {
			var g *Term
			for _, f := range it.Facts {
				if f.C.isCall("Iterator.Next") && f.Val && insideLoop(it, loop, f) && f.C.Args[0].Op == "ext" && f.C.Args[0].Args[0].isCall(cv("Fields")) {
					v := f.C.Args[0].Args[0].Args[0]
					if _, ok := m.goSide(it.Facts, v); ok && m.fieldsOf(v, f.C.Args[0]) {
						g = f.C.Args[0]
					}
				}
			}
			if g == nil {
				break
			}
			put := false
			for _, ev := range it.Events {
				if ev.Kind == evMap && ev.Args[0] == gm {
					el, src := m.fieldOf(it, ev.Args[1])
					if el != nil && src == g && (m.isField(ev.Args[2]) || ev.Args[2].isCall("Iterator.Value")) {
						put = true
					}
				}
			}
			if !put {
				return "a field of the Go type may be left out"
			}
			n++
		}
		if n > 0 && n == len(its) {
			return ""
		}
	}
	return "the fields of the Go type are not collected"
}

// leftoverLoop: every Go field that was not matched is recorded as an error.
func (m *assignModel) leftoverLoop(o *Outcome, loop string, gm *Term) bool {
	its := m.its(o, loop)
	n := 0
	for _, it := range its {
		over := false
		for _, f := range it.Facts {
			if f.Val && insideLoop(it, loop, f) && f.C.contains(gm) && (f.C.Op == "ext" || f.C.Op == "next" || f.C.containsOp("next")) {
				over = true
			}
		}
		if !over {
			return false
		}
		_, ps := m.loopEvents(it, loop)
		seen := false // fields that were matched may be kept in a set of their own
		for _, f := range it.Facts {
			if f.C.Op == "has" && insideLoop(it, loop, f) {
				if mp := mapOf(f.C.Args[0]); mp != gm && mp != m.errs {
					seen = f.Val
				}
			}
		}
		if (len(ps) == 0) != seen {
			return false
		}
		n++
	}
	return n > 0
}

// bindType: a typed schema comes only from a type the schema is assignable to.
func (c *Ctx) bindType() {
	fn := c.need("", "BindType")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	sch, t := ps[0], ps[1]
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		var as *Term
		for _, f := range o.Facts {
			if x := nilOf(f); x != nil && x.Op == "call" && strings.HasSuffix(x.Sym, "AssignableTo") && len(x.Args) == 2 && unbox(x.Args[0]) == sch && unbox(x.Args[1]) == t {
				as = x
			}
		}
		res, err := unbox(o.Vals[0]), o.Vals[1]
		switch e.nilness(o, err) {
		case isNil:
			if as == nil || e.nilness(o, as) != isNil {
				c.fail("bindtype", o.Pos, fn, e, o, "a typed schema is returned for a type the schema may not be assignable to")
				continue
			}
			if res.Op != "alloc" || o.field(e, res, "Schema") != sch {
				c.fail("bindtype", o.Pos, fn, e, o, "the typed schema is not that of the schema given")
				continue
			}
			c.ok("typed schemas come from assignable types only", fname(fn), 1)
		case notNil:
			if !res.isNil() {
				c.fail("bindtype", o.Pos, fn, e, o, "a typed schema is returned along with an error")
				continue
			}
			if as == nil {
				c.fail("bindtype", o.Pos, fn, e, o, "a type is refused without a check of assignability")
				continue
			}
			if e.nilness(o, as) == isNil && !mentionsDecode(err, o) {
				c.fail("bindtype", o.Pos, fn, e, o, "an assignable type is refused for no reason")
				continue
			}
			c.ok("refused types are not assignable or cannot be decoded into", fname(fn), 1)
		default:
			if as == nil {
				c.fail("bindtype", o.Pos, fn, e, o, "the error is not decided on this path")
				continue
			}
			if e.nilness(o, as) == isNil && !res.isNil() {
				c.fail("bindtype", o.Pos, fn, e, o, "the error is not decided on this path")
			}
		}
	}
}

func mentionsDecode(err *Term, o *Outcome) bool {
	for _, f := range o.Facts {
		if t := nilOf(f); t != nil && t.isCall(cv("Decode")) && !f.Val {
			return true
		}
	}
	return false
}
