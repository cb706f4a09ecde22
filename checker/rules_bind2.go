package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- T01

func (e *Engine) validates(facts []Fact, v *Term, opt func(*Term) bool) bool {
	for _, f := range facts {
		if f.C.Op != "eq" || !f.Val {
			continue
		}
		for j, a := range f.C.Args {
			if f.C.Args[1-j].isNil() && a.isCall(cv("Validate")) && a.Args[0] == v && opt(a.Args[1]) {
				return true
			}
		}
	}
	return false
}

func optConcrete(want string) func(*Term) bool {
	return func(t *Term) bool {
		return t.Op == "list" && len(t.Args) == 1 && t.Args[0].isCall(cuePkg+".Concrete") && t.Args[0].Args[0].Sym == want
	}
}

func optFinal(t *Term) bool { return optionSet(t, "Final") }

func (m *bindModel) linDef() *Term {
	return m.e.lookupPath(m.e.fld(m.e.mk("param", m.fn.Params[1].Name()), "val"), "#Lineage")
}

// splitHasLineage: the facts say that at least one conjunct of the input is #Lineage.
func (m *bindModel) splitHasLineage(o *Outcome, v *Term) bool {
	e := m.e
	for l := range o.passed() {
		its := iterations(m.outs, l)
		if len(its) == 0 {
			continue
		}
		var src *Term
		// named: the conjunct refers to a definition called #Lineage; home: of thema's package
		named := func(c *Term) bool {
			if c.Op != "eq" {
				return false
			}
			for j, a := range c.Args {
				if s, ok := c.Args[1-j].constStr(); ok && s == "#Lineage" && a.isCall("("+cuePkg+".Path).String") {
					r, n := a.Args[0].call()
					if r != nil && n == 1 && r.isCall(cv("ReferencePath")) && r.Args[0].Op == "index" && r.Args[0].Args[1] == e.iter(l) {
						src = r.Args[0].Args[0]
						return true
					}
				}
			}
			return false
		}
		home := func(c *Term) bool {
			if c.Op != "eq" {
				return false
			}
			for j, a := range c.Args {
				if s, ok := c.Args[1-j].constStr(); ok && s == modPath && a.containsOp("call") {
					root := false
					a.walk(func(t *Term) bool {
						if r, n := t.call(); r != nil && n == 0 && r.isCall(cv("ReferencePath")) && t.Op == "ext" {
							root = true
						}
						return true
					})
					return root
				}
			}
			return false
		}
		isLin := func(it *Outcome) bool {
			a, b := false, false
			for _, f := range it.Facts {
				a = a || named(f.C) && f.Val
				b = b || home(f.C) && f.Val
			}
			return a && b
		}
		decided := false
		for _, it := range its {
			decided = decided || isLin(it)
		}
		if !decided || src == nil || src.Op != "call" || !strings.HasSuffix(src.Sym, "cuetil.AppendSplit") || src.Args[0] != v {
			continue
		}
		// a list of the other conjuncts
		for _, c := range e.carriers(its[0]) {
			exact := true
			for _, it := range its {
				isDef := isLin(it)
				el, ok := e.appended(it, c.old)
				if !ok || isDef != (len(el) == 0) {
					exact = false
				}
			}
			if exact && e.emptyList(c.init) {
				n := e.length(c.old)
				fs := append(append([]Fact{}, o.Facts...), Fact{C: e.lt(e.length(src), n), Val: false})
				if e.implied(fs, e.lt(n, e.length(src)), true) {
					return true
				}
			}
			// a flag that is set for a #Lineage conjunct
			flag := c.init.Op == "const" && c.init.Sym == "false"
			for _, it := range its {
				isDef := isLin(it)
				for _, d := range e.carriers(it) {
					if d.old == c.old && !(isDef && d.new.Sym == "true" || !isDef && d.new == d.old) {
						flag = false
					}
				}
			}
			if flag && e.holds(o.Facts, c.old) {
				return true
			}
		}
	}
	return false
}

var bindSentinels = []string{"ErrValueNotExist", "ErrValueNotALineage", "ErrInvalidLineage", "ErrInvalidSchemasOrder", "ErrInvalidLensesOrder", "ErrMissingLenses", "ErrErroneousLenses"}

func ruleT01(c *Ctx) {
	m := newBindModel(c)
	if m == nil || !m.resolveLists("schemas") {
		return
	}
	e := m.e
	v := e.mk("param", m.fn.Params[0].Name())
	rt := e.mk("param", m.fn.Params[1].Name())
	lindef := m.linDef()
	// values that were not loaded from files have no build instance
	for _, o := range m.outs {
		for i, f := range o.Facts {
			var bi *Term
			f.C.walk(func(t *Term) bool {
				if t.Op == "fld" && t.Args[0].isCall(cv("BuildInstance")) {
					bi = t.Args[0]
				}
				return bi == nil
			})
			if bi == nil {
				continue
			}
			if v, ok := e.fact(o.Facts[:i], e.nilEq(bi)); !ok || v {
				c.fail("total", o.Pos, o.Fn, e, o, "the build instance of a value is used although it may be nil")
			} else {
				c.ok("build instances are not nil where they are used", fname(o.Fn), 1)
			}
		}
	}
	// that there is a schema is what #Lineage says, not the binder
	c.boundsBut("total", m.fn, e, m.outs, func(cond *Term) bool {
		own := false
		cond.walk(func(t *Term) bool {
			if l := listLoop(t); l != "" && (l == m.main || l == listLoop(m.allv)) {
				own = true
			}
			return !own
		})
		return own
	})
	for _, o := range m.succ {
		bad := func(rule, f string, a ...any) { c.fail(rule, o.Pos, m.fn, e, o, f, a...) }
		L := o.Vals[0]
		raw, uni := m.lin(o, "raw"), m.lin(o, "uni")
		switch {
		case uni == e.unify(lindef, v), uni == e.unify(lindef, raw):
		case uni == v:
			if !m.splitHasLineage(o, v) {
				bad("unified", "the input itself is taken for the value unified with #Lineage, although no conjunct of it is known to be #Lineage")
			}
		default:
			bad("unified", "the value kept for the lineage (%v) is not the input unified with #Lineage", uni)
		}
		if !raw.contains(v) && !m.foldOf(raw, v) {
			bad("raw", "the raw value kept for the lineage (%v) does not come from the input", raw)
		}
		need := func(rule string, ok bool, what string) {
			if !ok {
				bad(rule, "a lineage can be bound without establishing that %s", what)
				return
			}
			c.ok("bound lineages: "+what, fname(m.fn), 1)
		}
		either := func(f func(*Term) bool) bool { return f(raw) || f(v) || f(uni) }
		need("exists", either(func(t *Term) bool { return e.holds(o.Facts, e.mk("call", cv("Exists"), t)) }), "the value exists")
		for _, fld := range []string{"name", "schemas"} {
			need("shape", either(func(t *Term) bool {
				return (t != uni || t == v) && e.holds(o.Facts, e.mk("call", cv("Exists"), e.lookupPath(t, fld)))
			}), "it declares "+fld)
			need("shape", either(func(t *Term) bool {
				return e.holds(o.Facts, e.mk("call", cv("IsConcrete"), e.lookupPath(t, fld)))
			}), fld+" is concrete")
		}
		need("final", e.validates(o.Facts, uni, optFinal), "the unification with #Lineage is valid")
		need("valid", e.validates(o.Facts, raw, optConcrete("false")) && e.validates(o.Facts, uni, optConcrete("false")), "the lineage contains no CUE errors")
		nm := m.lin(o, "name")
		call, n := nm.call()
		good := call != nil && n == 0 && call.isCall(cv("String")) &&
			(call.Args[0] == e.lookupPath(v, "name") || call.Args[0] == e.lookupPath(raw, "name") || call.Args[0] == e.lookupPath(uni, "name"))
		if !good {
			bad("name", "the lineage's name is %v, not its name field", nm)
		}
		if m.lin(o, "rt") != rt {
			bad("runtime", "the lineage does not keep the runtime it was bound with")
		}
		if m.lin(o, "validated").Sym != "true" {
			bad("validated", "a lineage is returned that is not marked as validated")
		}
		// the schemas walked are those of the lineage
		src := m.mainSource(o)
		if src == nil {
			bad("schemas", "it cannot be established that the bound schemas are the lineage's schemas")
		} else if src != e.lookupPath(uni, "schemas") {
			bad("schemas", "the bound schemas are those of %v, not of the unified lineage", src)
		} else {
			c.ok("schemas come from the unified lineage", fname(m.fn), 1)
		}
		// every schema refers back to the lineage
		back := false
		for l := range o.passed() {
			its := iterations(m.outs, l)
			all := len(its) > 0
			for _, it := range its {
				one := false
				for _, ev := range it.Events {
					if ev.Kind == evStore && ev.Term.Op == "faddr" && ev.Term.Sym == "lin" && ev.Args[1] == L {
						p := ev.Term.Args[0]
						if p == e.index(m.allsch, e.iter(l)) || l == m.main && p == m.elem[it] {
							one = true
						}
					}
				}
				all = all && one
			}
			if all {
				back = true
			}
		}
		if !back {
			bad("backref", "a lineage is returned although not every one of its schemas refers back to it")
		}
	}
	// no panic on versions that are not concrete
	for _, it := range append(iterations(m.outs, m.main), m.pan...) {
		dec := false
		for _, ev := range it.Events {
			if ev.Kind == evCall && ev.Term.isCall(cv("Decode")) && ev.Term.Args[0].isCall(cv("LookupPath")) && ev.Term.Args[0].Args[1].Sym == "version" {
				dec = true
			}
		}
		if !dec {
			continue
		}
		ok := false
		for l := range it.passed() {
			ins := iterations(m.outs, l)
			all := len(ins) > 0
			for _, in := range ins {
				one := false
				for _, f := range in.Facts {
					if f.C.isCall(cv("IsConcrete")) && f.Val && m.isElem(f.C.Args[0]) {
						one = true
					}
				}
				all = all && one
			}
			ok = ok || all
		}
		if !ok {
			c.fail("concrete-version", it.Pos, it.Fn, e, it, "a schema's version is decoded without checking that its parts are concrete, so that a lineage with an open version is not rejected with an error")
		} else {
			c.ok("version parts are concrete before they are decoded", fname(it.Fn), 1)
		}
	}
	// failures
	for _, o := range m.errs {
		if e.nilness(o, o.Vals[1]) != notNil {
			c.fail("error", o.Pos, m.fn, e, o, "the error returned (%v) can be nil although no lineage was built on this path", o.Vals[1])
			continue
		}
		if !o.Vals[0].isNil() {
			c.fail("error", o.Pos, m.fn, e, o, "a lineage is returned together with an error")
			continue
		}
		c.ok("failed binds return no lineage and an error", fname(m.fn), 1)
		m.classify(o)
	}
	// BindLineage is the only maker of validated lineages
	makers := map[*ssa.Function]bool{}
	for f := range e.analysed {
		makers[f] = true
	}
	makers[m.fn] = true
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || !sameNamed(fa.X.Type(), c.p.roles.lineage) {
						continue
					}
					c.sites++
					if !makers[f] {
						c.fail("only-maker", in.Pos(), f, nil, nil, "a field of a lineage (%s) is written outside BindLineage", fieldAddrName(fa))
					} else {
						c.ok("lineage fields are only written while binding", fname(f), 1)
					}
				case *ssa.Alloc:
					if sameNamed(in.Type(), c.p.roles.lineage) && !makers[f] {
						if deadAlloc(in) {
							continue
						}
						c.fail("only-maker", in.Pos(), f, nil, nil, "a lineage is constructed outside BindLineage, without its checks")
					}
				}
			}
		}
	}
}

// deadAlloc: the allocation only serves a compile-time interface assertion.
func deadAlloc(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, rr := range *mi.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && (g.Name() == "_" || strings.HasPrefix(g.Name(), "_")) {
						continue
					}
				}
				return false
			}
			continue
		}
		return false
	}
	return true
}

func sameNamed(t types.Type, n types.Type) bool {
	if n == nil {
		return false
	}
	a, b := recvNamed(t), recvNamed(n)
	return a != nil && b != nil && a.Origin() == b.Origin()
}

// foldOf: raw is a fold of conjuncts of v.
func (m *bindModel) foldOf(raw, v *Term) bool {
	l := listLoop(raw)
	if l == "" {
		return false
	}
	e := m.e
	its := iterations(m.outs, l)
	if len(its) == 0 {
		return false
	}
	for _, it := range its {
		found := false
		for _, c := range e.carriers(it) {
			if c.old == raw {
				found = c.new.isCall(cv("Unify")) && c.new.contains(raw)
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// mainSource is the value whose list is walked by the main loop.
func (m *bindModel) mainSource(o *Outcome) *Term {
	e := m.e
	for _, it := range iterations(m.outs, m.main) {
		S := m.elem[it]
		if !e.samePath(it, o, m.main) {
			continue
		}
		el := it.field(e, S, "ref")
		if !el.isCall("Iterator.Value") {
			return nil
		}
		// what the iterator was obtained from on this outcome's path
		itv := el.Args[0]
		if s, ok := o.st.mem[itv]; ok {
			if call, n := s.call(); call != nil && n == 0 && call.isCall(cv("List")) {
				return call.Args[0]
			}
		}
		if call, n := itv.call(); call != nil && n == 0 && call.isCall(cv("List")) {
			return call.Args[0]
		}
	}
	return nil
}

// classify: the error class names what was wrong.
func (m *bindModel) classify(o *Outcome) {
	e, c := m.e, m.c
	mk := e.marks(o.Vals[1])
	var last *Fact
	for i := range o.Facts {
		f := o.Facts[i]
		if f.C.isCall(cv("Exists")) && !f.Val {
			last = &o.Facts[i]
			want := "ErrValueNotExist"
			if f.C.Args[0].isCall(cv("LookupPath")) {
				want = "ErrValueNotALineage"
			}
			if !mk[want] {
				c.fail("class", o.Pos, m.fn, e, o, "an input that %s is not reported as %s", map[bool]string{true: "does not exist", false: "is not shaped like a lineage"}[want == "ErrValueNotExist"], want)
			} else {
				c.ok("errors name their class", fname(m.fn), 1)
			}
		}
		if f.C.Op == "eq" && !f.Val {
			for j, a := range f.C.Args {
				if f.C.Args[1-j].isNil() && a.isCall(cv("Validate")) {
					last = &o.Facts[i]
					if !mk["ErrInvalidLineage"] {
						c.fail("class", o.Pos, m.fn, e, o, "a CUE value that is no valid lineage is not reported as ErrInvalidLineage")
					} else {
						c.ok("errors name their class", fname(m.fn), 1)
					}
				}
			}
		}
	}
	_ = last
	if mk["ErrValueNotExist"] || mk["ErrValueNotALineage"] {
		if last == nil {
			c.fail("class", o.Pos, m.fn, e, o, "a value can be reported as missing although it exists")
		}
	}
}

// ---------------------------------------------------------------- T04

// implens is the list of Go lenses passed by the caller.
func (m *bindModel) implens(facts []Fact) (*Term, int) {
	e := m.e
	name := m.c.p.optionField("ImperativeLenses")
	is := func(t *Term) bool {
		return t.Op == "fld" && t.Sym == name && m.configTerm(t.Args[0])
	}
	for _, f := range facts {
		var l *Term
		f.C.walk(func(t *Term) bool {
			if t.Op == "len" && is(t.Args[0]) && l == nil {
				l = t.Args[0]
			}
			return true
		})
		if l == nil || f.C.containsOp("iter") {
			continue
		}
		n := e.length(l)
		if e.implied(facts, e.eq(n, e.int(0)), true) {
			return l, 0
		}
		if e.implied(facts, e.eq(n, e.int(0)), false) {
			return l, 1
		}
	}
	return nil, -1
}

// mapAsk: a fact about membership of a key: the map state, the key, the answer.
func mapAsk(f Fact) (*Term, *Term, bool, bool) {
	c, v := f.C, f.Val
	if c.Op == "eq" && c.Args[0].isNil() && c.Args[1].Op == "lookup" {
		c, v = c.Args[1], !v
	}
	if c.Op == "lookup" || c.Op == "has" {
		return c.Args[0], c.Args[1], v, true
	}
	return nil, nil, false, false
}

// mapOf finds the map object whose state a term describes.
func mapOf(t *Term) *Term {
	for {
		switch t.Op {
		case "mapdel", "mapput":
			t = t.Args[0]
		case "loopmem":
			t = t.Args[0]
		case "mapst":
			return t.Args[0]
		default:
			return t
		}
	}
}

type lensModel struct {
	m        *bindModel
	imp      *Term
	reg      string // registration loop
	all      *Term  // registration map
	from, to string // key fields
}

// register finds the loop that registers every Go lens in a map keyed by version pair.
func (m *bindModel) lensRegistry(o *Outcome, imp *Term) *lensModel {
	e, c := m.e, m.c
	var loops []string
	for l := range o.passed() {
		loops = append(loops, l)
	}
	for _, l := range loops {
		its := iterations(m.outs, l)
		x := &lensModel{m: m, imp: imp, reg: l}
		el := e.index(imp, e.iter(l))
		ok := len(its) > 0
		for _, it := range its {
			put := false
			for _, ev := range it.Events {
				if ev.Kind != evMap || ev.Loop != "" {
					continue
				}
				k := ev.Args[1]
				for _, f := range structFields(e, k) {
					switch e.fld(k, f) {
					case e.fld(el, "From"):
						x.from = f
					case e.fld(el, "To"):
						x.to = f
					}
				}
				if x.from != "" && x.to != "" && x.from != x.to {
					put = true
					x.all = ev.Args[0]
				}
			}
			if !put {
				ok = false
			}
		}
		if !ok || x.all == nil {
			continue
		}
		if mo := m.lin(o, "lensmap"); mo == x.all {
			continue // the result map
		}
		for _, it := range its {
			dup, nilf := false, false
			for _, f := range it.Facts {
				if st, k, v, ask := mapAsk(f); ask && mapOf(st) == x.all && !v && e.fld(k, x.from) == e.fld(el, "From") && e.fld(k, x.to) == e.fld(el, "To") {
					dup = true
				}
			}
			if e.holds(it.Facts, e.not(e.nilEq(e.fld(el, "Mapper")))) {
				nilf = true
			}
			if !dup {
				c.fail("duplicate", it.Pos, it.Fn, e, it, "two Go lenses for the same pair of versions are accepted")
			}
			if !nilf {
				c.fail("nil-mapper", it.Pos, it.Fn, e, it, "a Go lens without a function is accepted")
			}
			if dup && nilf {
				c.ok("each Go lens has a function and a pair of its own", fname(it.Fn), 1)
			}
		}
		return x
	}
	return nil
}

// structFields lists the fields a struct value term was built with.
func structFields(e *Engine, t *Term) []string {
	var out []string
	for t.Op == "upd" {
		out = append(out, t.Sym)
		t = t.Args[0]
	}
	return out
}

func ruleT04(c *Ctx) {
	m := newBindModel(c)
	if m == nil || !m.resolveLists("schemas") {
		return
	}
	e := m.e
	done := map[string]bool{}
	missings := map[*Term]bool{}
	for _, o := range m.succ {
		imp, given := m.implens(o.Facts)
		if given < 0 {
			c.fail("considered", o.Pos, m.fn, e, o, "a lineage can be bound without looking whether Go lenses were given")
			continue
		}
		if given == 0 {
			c.ok("no Go lenses given", fname(m.fn), 1)
			continue
		}
		x := m.lensRegistry(o, imp)
		if x == nil {
			c.fail("registry", o.Pos, m.fn, e, o, "a lineage with Go lenses can be bound without registering each of them by its pair of versions")
			continue
		}
		pair := ""
		for l := range o.passed() {
			if l == x.reg {
				continue
			}
			its := iterations(m.outs, l)
			asks := false
			for _, it := range its {
				for _, f := range it.Facts {
					if st, _, _, ok := mapAsk(f); ok && mapOf(st) == x.all && insideLoop(it, l, f) {
						asks = true
					}
				}
			}
			if asks && (m.view(its[0], l) != nil) {
				pair = l
			}
		}
		if pair == "" {
			c.fail("completeness", o.Pos, m.fn, e, o, "a lineage can be bound with Go lenses although no check walks its adjacent schema versions for missing ones")
			continue
		}
		var missing *Term
		its := iterations(m.outs, pair)
		if !done[pair] {
			done[pair] = true
			for _, it := range its {
				if ms := x.pairCheck(it, pair); ms != nil {
					if missing != nil && missing != ms {
						c.fail("completeness", it.Pos, it.Fn, e, it, "missing lenses are collected in different lists")
					}
					missing = ms
				}
			}
		} else {
			for _, it := range its {
				if ms := x.missingList(it); ms != nil {
					missing = ms
				}
			}
		}
		if missing == nil {
			c.fail("missing", o.Pos, m.fn, e, o, "lenses that are missing are not recorded")
			continue
		}
		missings[missing] = true
		if !e.implied(o.Facts, e.eq(e.length(missing), e.int(0)), true) {
			c.fail("missing", o.Pos, m.fn, e, o, "a lineage can be bound although a required Go lens is missing")
		} else {
			c.ok("no lens is missing", fname(m.fn), 1)
		}
		left := false
		for _, f := range o.Facts {
			f.C.walk(func(t *Term) bool {
				if t.Op == "len" && (t.Args[0].Op == "loopmem" || t.Args[0].Op == "mapdel") && mapOf(t.Args[0]) == x.all {
					if e.implied(o.Facts, e.eq(t, e.int(0)), true) {
						left = true
					}
				}
				return true
			})
		}
		if !left {
			c.fail("erroneous", o.Pos, m.fn, e, o, "a lineage can be bound although a Go lens was given for a pair of versions that has none")
		} else {
			c.ok("no superfluous lens", fname(m.fn), 1)
		}
		x.resultMap(o)
	}
	for _, o := range m.errs {
		mk := e.marks(o.Vals[1])
		_, given := m.implens(o.Facts)
		if given != 1 {
			if mk["ErrMissingLenses"] || mk["ErrErroneousLenses"] {
				c.fail("class", o.Pos, m.fn, e, o, "a lineage without Go lenses can be rejected for its Go lenses")
			}
			continue
		}
		// a trace that fails in the lens checks must be justified by one of the four defects
		just := ""
		var missT, allT bool
		for _, f := range o.Facts {
			if st, _, v, ok := mapAsk(f); ok && v && st.Op == "loopmem" && !mk["ErrErroneousLenses"] {
				just = "dup"
			}
			if f.C.Op == "eq" && f.Val && f.C.containsOp("fld") {
				for j, a := range f.C.Args {
					if f.C.Args[1-j].isNil() && a.Op == "fld" && a.Sym == "Mapper" {
						just = "nil"
					}
				}
			}
			f.C.walk(func(t *Term) bool {
				if t.Op == "len" {
					pos := e.implied(o.Facts, e.eq(t, e.int(0)), false)
					if mapOf(t.Args[0]).Op == "mkmap" && pos {
						allT = true
					} else if listLoop(t.Args[0]) != "" && pos && missings[t.Args[0]] {
						missT = true
					}
				}
				return true
			})
		}
		inLens := false
		for _, f := range o.Facts {
			if f.C.Op == "lt" && f.C.Args[0].Op == "iter" && m.implensLen(f.C.Args[1]) {
				inLens = true
			}
		}
		if !inLens {
			continue
		}
		switch {
		case mk["ErrMissingLenses"]:
			if !missT {
				c.fail("class", o.Pos, m.fn, e, o, "Go lenses can be reported as missing although none is")
			} else {
				c.ok("ErrMissingLenses only when one is missing", fname(m.fn), 1)
			}
		case mk["ErrErroneousLenses"]:
			if !allT {
				c.fail("class", o.Pos, m.fn, e, o, "Go lenses can be reported as superfluous although none is")
			} else {
				c.ok("ErrErroneousLenses only when one is superfluous", fname(m.fn), 1)
			}
		default:
			if missT || allT {
				c.fail("class", o.Pos, m.fn, e, o, "missing or superfluous Go lenses are not reported as ErrMissingLenses or ErrErroneousLenses")
			} else if just == "" {
				c.fail("class", o.Pos, m.fn, e, o, "a complete set of Go lenses can be rejected")
			} else {
				c.ok("duplicate and nil lenses are rejected", fname(m.fn), 1)
			}
		}
	}
}

func (m *bindModel) implensLen(t *Term) bool {
	name := m.c.p.optionField("ImperativeLenses")
	return t.Op == "len" && t.Args[0].Op == "fld" && t.Args[0].Sym == name && m.configTerm(t.Args[0].Args[0])
}

// insideLoop: the fact was learnt in the iteration of the loop, not before it.
func insideLoop(o *Outcome, loop string, f Fact) bool {
	n := -1
	for _, ev := range o.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			n = ev.NFact
		}
	}
	if n < 0 {
		return false
	}
	for i, g := range o.Facts {
		if g.C == f.C && g.Pos == f.Pos {
			return i >= n
		}
	}
	return false
}

func (x *lensModel) missingList(it *Outcome) *Term {
	e := x.m.e
	for _, c := range e.carriers(it) {
		if el, ok := e.appended(it, c.old); ok && len(el) > 0 && e.emptyList(c.init) {
			k := el[0]
			if len(structFields(e, k)) >= 2 {
				return c.old
			}
		}
	}
	return nil
}

// pairCheck: in an iteration over the adjacent pairs exactly the required lenses
// are looked up, and each is either taken out of the registry or recorded as missing.
func (x *lensModel) pairCheck(it *Outcome, loop string) *Term {
	m := x.m
	e, c := m.e, m.c
	v := m.view(it, loop)
	if v == nil {
		c.fail("completeness", it.Pos, it.Fn, e, it, "it cannot be established which version pairs are checked for lenses")
		return nil
	}
	if v.first == 1 {
		return nil
	}
	type pair struct{ a, b *Term }
	pairOf := func(k *Term) pair {
		k = e.rewrite(k, v.sub)
		return pair{e.fld(k, x.from), e.fld(k, x.to)}
	}
	rev, fwd := pair{v.cur, v.prev}, pair{v.prev, v.cur}
	present := map[pair]bool{}
	absent := map[pair]bool{}
	for _, f := range it.Facts {
		st, k, val, ok := mapAsk(f)
		if !ok || mapOf(st) != x.all || !insideLoop(it, loop, f) {
			continue
		}
		if val {
			present[pairOf(k)] = true
		} else {
			absent[pairOf(k)] = true
		}
	}
	deleted := map[pair]bool{}
	started := false
	for _, ev := range it.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			started = true
		}
		if started && ev.Kind == evDel && ev.Args[0] == x.all {
			deleted[pairOf(ev.Args[1])] = true
		}
		if started && ev.Kind == evMap && ev.Args[0] == x.all {
			c.fail("completeness", ev.Pos, it.Fn, e, it, "a lens is registered while the required ones are checked")
		}
	}
	missing := x.missingList(it)
	recorded := map[pair]bool{}
	if missing != nil {
		el, _ := e.appended(it, missing)
		for _, k := range el {
			recorded[pairOf(k)] = true
		}
	}
	maj := e.eq(e.index(v.cur, e.int(0)), e.index(v.prev, e.int(0)))
	same, diff := e.implied(v.facts, maj, true), e.implied(v.facts, maj, false)
	want := map[pair]string{rev: "backward"}
	if diff {
		want[fwd] = "forward"
	} else if !same {
		if present[fwd] || absent[fwd] {
			c.fail("completeness", it.Pos, it.Fn, e, it, "a forward lens is required whether or not the major version changes")
		} else {
			c.fail("completeness", it.Pos, it.Fn, e, it, "two versions of different majors are accepted without requiring a forward lens")
		}
		return missing
	}
	bad := false
	for p, what := range want {
		switch {
		case present[p] && deleted[p] && !recorded[p]:
		case absent[p] && recorded[p] && !deleted[p]:
		default:
			bad = true
			c.fail("completeness", it.Pos, it.Fn, e, it, "for a pair of adjacent versions the %s Go lens is neither found and accounted for, nor recorded as missing", what)
		}
	}
	for p := range deleted {
		if want[p] == "" {
			bad = true
			c.fail("completeness", it.Pos, it.Fn, e, it, "a Go lens between %v and %v is accepted, which is not one that the version step calls for", p.a, p.b)
		}
	}
	for p := range recorded {
		if want[p] == "" {
			bad = true
			c.fail("completeness", it.Pos, it.Fn, e, it, "a Go lens between %v and %v is demanded, which the version step does not call for", p.a, p.b)
		}
	}
	if !bad {
		c.ok("required lens pairs: backward always, forward across majors", fname(it.Fn), 1)
	}
	return missing
}

// resultMap: the lineage's lens map holds every given lens under its own pair.
func (x *lensModel) resultMap(o *Outcome) {
	m := x.m
	e, c := m.e, m.c
	lm := m.lin(o, "lensmap")
	for l := range o.passed() {
		its := iterations(m.outs, l)
		ok := len(its) > 0
		for _, it := range its {
			one := false
			el := e.index(x.imp, e.iter(l))
			for _, ev := range it.Events {
				if ev.Kind == evMap && ev.Args[0] == lm && e.fld(ev.Args[1], x.from) == e.fld(el, "From") && e.fld(ev.Args[1], x.to) == e.fld(el, "To") && ev.Args[2] == el {
					one = true
				}
			}
			ok = ok && one
		}
		if ok {
			c.ok("every lens is kept under its own version pair", fname(m.fn), 1)
			return
		}
	}
	c.fail("lens-map", o.Pos, m.fn, e, o, "the lineage does not keep every Go lens under its own pair of versions")
}

// ---------------------------------------------------------------- T05

func ruleT05(c *Ctx) {
	m := newBindModel(c)
	if m == nil || !m.resolveLists("schemas") {
		return
	}
	e := m.e
	certs := map[string]bool{}
	for _, l := range loopsOf(m.outs) {
		its := iterations(m.outs, l)
		isLens := false
		for _, it := range its {
			if x := m.lensView(it, l, its); x != nil {
				isLens = true
			}
		}
		if !isLens {
			continue
		}
		ok := true
		for _, it := range its {
			x := m.lensView(it, l, its)
			if x == nil || !x.complete() {
				ok = false
				c.fail("lens-order", it.Pos, it.Fn, e, it, "a lens is accepted without decoding the versions it connects")
				continue
			}
			if x.first == 1 {
				c.ok("first lens", fname(it.Fn), 1)
				continue
			}
			if x.mayBe(it, false) {
				ok = false
				c.fail("lens-order", it.Pos, it.Fn, e, it, "a lens can follow one with a greater target version, or with the same target and a greater source version, and be accepted")
			} else {
				c.ok("accepted lenses do not precede their predecessor", fname(it.Fn), 1)
			}
		}
		certs[l] = ok
		for _, o := range m.errs {
			in := false
			for _, a := range activeLoops(o) {
				in = in || a == l
			}
			if !in {
				continue
			}
			mk := e.marks(o.Vals[1])
			x := m.lensView(o, l, its)
			if mk["ErrInvalidLensesOrder"] {
				if x == nil || !x.complete() || x.first == 1 || x.mayBe(o, true) {
					c.fail("no-false-rejection", o.Pos, o.Fn, e, o, "lenses in ascending order can be rejected as out of order")
				} else {
					c.ok("order rejections only for lenses out of order", fname(m.fn), 1)
				}
			} else if x != nil && x.complete() {
				c.fail("class", o.Pos, m.fn, e, o, "lenses out of order are not reported as ErrInvalidLensesOrder")
			} else if !mk["ErrInvalidLineage"] {
				c.fail("class", o.Pos, m.fn, e, o, "a lens whose versions cannot be decoded is not reported as ErrInvalidLineage")
			} else {
				c.ok("undecodable lens versions are rejected", fname(m.fn), 1)
			}
		}
	}
	for _, o := range m.succ {
		_, given := m.implens(o.Facts)
		if given == 1 {
			continue
		}
		uni := m.lin(o, "uni")
		none := false
		list := e.mk("call", cv("List"), e.lookupPath(uni, "lenses"))
		if e.holds(o.Facts, e.not(e.nilEq(e.mk("ext", "1", list)))) || e.holds(o.Facts, e.not(e.mk("call", cv("Exists"), e.lookupPath(uni, "lenses")))) {
			none = true
		}
		walked := false
		for l := range o.passed() {
			walked = walked || certs[l]
		}
		if !none && !walked {
			c.fail("lens-order", o.Pos, m.fn, e, o, "a lineage with CUE lenses can be bound without checking their order")
		} else {
			c.ok("lens order checked, or no lenses", fname(m.fn), 1)
		}
	}
}

type lensView struct {
	m        *bindModel
	first    int
	to, from *Term
	pto      *Term
	pfrom    *Term
	facts    []Fact
}

func (x *lensView) complete() bool { return x.to != nil && x.from != nil }

// lensView: the iteration decodes the versions of a lens.
func (m *bindModel) lensView(o *Outcome, loop string, its []*Outcome) *lensView {
	e := m.e
	x := &lensView{m: m, first: -1}
	find := func(o *Outcome, p string) *Term {
		for i := len(o.Facts) - 1; i >= 0; i-- {
			f := o.Facts[i]
			if f.C.Op != "eq" || !f.Val {
				continue
			}
			for j, a := range f.C.Args {
				if !f.C.Args[1-j].isNil() || !a.isCall(cv("Decode")) {
					continue
				}
				s := a.Args[0]
				if s.isCall(cv("LookupPath")) && s.Args[1].Op == "path" && s.Args[1].Sym == p && s.Args[0].isCall("Iterator.Value") {
					t := e.mk("out", "1", a)
					t.T = m.c.p.roles.version
					return t
				}
			}
		}
		return nil
	}
	x.to, x.from = find(o, "to"), find(o, "from")
	if x.to == nil && x.from == nil {
		return nil
	}
	P := e.mk("prev-lens", "")
	x.pto, x.pfrom = e.fld(P, "to"), e.fld(P, "from")
	x.pto.T, x.pfrom.T = m.c.p.roles.version, m.c.p.roles.version
	sub := map[*Term]*Term{}
	var firsts []*Term
	for n, it := range its {
		cto, cfrom := find(it, "to"), find(it, "from")
		here := map[*Term]*Term{}
		for _, c := range e.carriers(it) {
			switch {
			case c.new == cto:
				here[c.old] = x.pto
			case c.new == cfrom:
				here[c.old] = x.pfrom
			case c.init.isNil() && c.new.Op == "alloc":
				if n == 0 {
					firsts = append(firsts, e.nilEq(c.old))
				}
				// fields of the remembered struct
				if st, ok := it.st.known(e, c.new); ok {
					for _, f := range structFields(e, st) {
						switch e.fld(st, f) {
						case cto:
							here[e.fld(c.old, f)] = x.pto
						case cfrom:
							here[e.fld(c.old, f)] = x.pfrom
						}
					}
				}
			case n == 0 && c.init.Op == "const" && c.init.Sym == "true" && c.new.Sym == "false":
				firsts = append(firsts, c.old)
			case n == 0 && c.init.Op == "const" && c.init.Sym == "false" && c.new.Sym == "true":
				firsts = append(firsts, e.not(c.old))
			default:
				for _, f := range structFields(e, c.new) {
					switch e.fld(c.new, f) {
					case cto:
						here[e.fld(c.old, f)] = x.pto
					case cfrom:
						here[e.fld(c.old, f)] = x.pfrom
					}
				}
			}
		}
		// only what every iteration leaves behind is the previous lens
		if n == 0 {
			sub = here
			continue
		}
		for k, v := range sub {
			if here[k] != v {
				delete(sub, k)
			}
		}
	}
	firsts = append(firsts, e.eq(e.iter(loop), e.int(0)))
	for _, c := range firsts {
		if e.holds(o.Facts, c) {
			x.first = 1
		} else if e.holds(o.Facts, e.not(c)) {
			x.first = 0
		}
	}
	x.facts = e.rewriteFacts(o.Facts, func(t *Term) *Term { return sub[t] })
	return x
}

// mayBe: can the lens be in order (want) or out of order (!want) with its predecessor on this trace.
func (x *lensView) mayBe(o *Outcome, ordered bool) bool {
	e := x.m.e
	at := func(v *Term, i int64) *Term { return e.index(v, e.int(i)) }
	// lexicographic comparison of (to.major, to.minor, from.major, from.minor)
	seq := [][2]*Term{{at(x.to, 0), at(x.pto, 0)}, {at(x.to, 1), at(x.pto, 1)}, {at(x.from, 0), at(x.pfrom, 0)}, {at(x.from, 1), at(x.pfrom, 1)}}
	var eqs []Fact
	for _, p := range seq {
		a, b := p[0], p[1]
		if ordered {
			a, b = b, a
		}
		if e.possible(x.facts, append(append([]Fact{}, eqs...), Fact{C: e.lt(a, b), Val: true})...) {
			return true
		}
		eqs = append(eqs, Fact{C: e.eq(p[0], p[1]), Val: true})
	}
	if ordered {
		return e.possible(x.facts, eqs...)
	}
	return false
}
