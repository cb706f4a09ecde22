package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bindModel is the analysis of BindLineage that the binding rules share.
type bindModel struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	outs []*Outcome
	succ []*Outcome // returns of a lineage without error
	errs []*Outcome
	pan  []*Outcome

	main  string // the loop that builds the schema list
	lists map[*Term]*Term
	// list terms of the lineage, and what stands for the other one
	allsch, allv *Term
	elem         map[*Outcome]*Term // schema appended in an iteration of main
}

func newBindModel(c *Ctx) *bindModel {
	fn := c.need("", "BindLineage")
	if fn == nil {
		return nil
	}
	e, outs := c.run(fn)
	m := &bindModel{c: c, e: e, fn: fn, outs: outs, elem: map[*Outcome]*Term{}}
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			m.pan = append(m.pan, o)
		case outReturn:
			switch e.nilness(o, o.Vals[1]) {
			case isNil:
				m.succ = append(m.succ, o)
			default:
				m.errs = append(m.errs, o)
			}
		}
	}
	if len(m.succ) == 0 {
		c.fail("bind", fnPos(fn), fn, nil, nil, "no path of BindLineage returns a lineage without an error")
		return nil
	}
	return m
}

func (m *bindModel) lin(o *Outcome, f string) *Term { return o.field(m.e, o.Vals[0], f) }

// resolveLists finds the loop that builds the schema list, and checks that the
// version list is the list of versions of the schema list.
func (m *bindModel) resolveLists(rule string) bool {
	e, c := m.e, m.c
	for _, o := range m.succ {
		if o.Vals[0].Op != "alloc" {
			c.fail(rule, o.Pos, m.fn, e, o, "BindLineage returns %v, which is not a lineage built by it", o.Vals[0])
			return false
		}
		s, v := m.lin(o, "allsch"), m.lin(o, "allv")
		if m.allsch != nil && (m.allsch != s || m.allv != v) {
			c.fail(rule, o.Pos, m.fn, e, o, "the lineage's schema and version lists are built differently on different paths")
			return false
		}
		m.allsch, m.allv = s, v
	}
	m.main = listLoop(m.allsch)
	if m.main == "" || !e.emptyList(e.listInit(m.outs, m.main, m.allsch)) {
		c.fail(rule, fnPos(m.fn), m.fn, nil, nil, "the lineage's schema list (%v) is not built from empty by one loop over the schemas of the lineage", m.allsch)
		return false
	}
	its := iterations(m.outs, m.main)
	for _, o := range its {
		el, ok := e.appended(o, m.allsch)
		if !ok || len(el) != 1 {
			c.fail(rule, o.Pos, o.Fn, e, o, "an iteration over the lineage's schemas does not add exactly one schema to the list")
			return false
		}
		m.elem[o] = el[0]
	}
	if len(its) == 0 {
		c.fail(rule, fnPos(m.fn), m.fn, nil, nil, "no iteration over the lineage's schemas was found")
		return false
	}
	for _, o := range m.succ {
		if !o.passed()[m.main] {
			c.fail(rule, o.Pos, m.fn, e, o, "a lineage is returned without walking all of its schemas")
			return false
		}
	}
	// the version list
	vl := listLoop(m.allv)
	switch {
	case vl == m.main:
		if !e.emptyList(e.listInit(m.outs, vl, m.allv)) {
			c.fail(rule, fnPos(m.fn), m.fn, nil, nil, "the version list does not start empty")
			return false
		}
		for _, o := range its {
			el, ok := e.appended(o, m.allv)
			if !ok || len(el) != 1 || el[0] != o.field(e, m.elem[o], "v") {
				c.fail(rule, o.Pos, o.Fn, e, o, "the version list does not receive the version of the schema that is added to the schema list")
				return false
			}
		}
	case vl != "":
		if !e.emptyList(e.listInit(m.outs, vl, m.allv)) {
			c.fail(rule, fnPos(m.fn), m.fn, nil, nil, "the version list does not start empty")
			return false
		}
		for _, o := range iterations(m.outs, vl) {
			el, ok := e.appended(o, m.allv)
			if !ok || len(el) != 1 || el[0] != e.fld(e.index(m.allsch, e.iter(vl)), "v") {
				c.fail(rule, o.Pos, o.Fn, e, o, "the version list is not the list of the schemas' versions, in order")
				return false
			}
		}
		for _, o := range m.succ {
			if !o.passed()[vl] {
				c.fail(rule, o.Pos, m.fn, e, o, "a lineage is returned without collecting its versions")
				return false
			}
		}
	default:
		// filled by index
		good := m.allv.Op == "mkslice" && m.allv.Args[0] == e.length(m.allsch)
		found := false
		for _, o := range m.outs {
			for _, ev := range o.Events {
				if ev.Kind == evStore && ev.Term.Op == "saddr" && ev.Term.Args[0] == m.allv {
					i := ev.Term.Args[1]
					if ev.Args[1] != e.fld(e.index(m.allsch, i), "v") {
						good = false
					}
					found = true
				}
			}
		}
		if !good || !found {
			c.fail(rule, fnPos(m.fn), m.fn, nil, nil, "the version list (%v) is not the list of the schemas' versions, in order", m.allv)
			return false
		}
	}
	c.ok("version list parallels schema list", fname(m.fn), len(its))
	return true
}

// view is one iteration of a loop that walks the schemas in order.
type view struct {
	o         *Outcome
	facts     []Fact
	first     int // 1 first schema, 0 not the first, -1 not known
	cur, prev *Term
	curDef    *Term
	prevDef   *Term
	// sub rewrites terms of the trace into the view's vocabulary
	sub func(*Term) *Term
}

// norm rewrites spellings of the n-th schema's version into the version list.
func (m *bindModel) norm(t *Term) *Term {
	if t.Op == "fld" && t.Sym == "v" && t.Args[0].Op == "index" && t.Args[0].Args[0] == m.allsch {
		return m.e.index(m.allv, t.Args[0].Args[1])
	}
	if t.Op == "len" && t.Args[0] == m.allv && m.allv != m.allsch {
		return m.e.length(m.allsch)
	}
	return nil
}

// views returns, for an end of a trace within an iteration of the loop (or the
// iteration itself), how the walk looks from there.
func (m *bindModel) view(o *Outcome, loop string) *view {
	e := m.e
	v := &view{o: o, first: -1}
	if loop == m.main {
		return m.mainView(o)
	}
	// a loop over the finished list
	it := e.iter(loop)
	k := int64(-1)
	facts := e.rewriteFacts(o.Facts, m.norm)
	ln := e.length(m.allsch)
	for _, f := range facts {
		if f.C.Op != "lt" || !f.Val {
			continue
		}
		ba, na := e.linear(f.C.Args[0])
		bb, nb := e.linear(f.C.Args[1])
		if ba == it && bb == ln {
			k = na - nb
		}
	}
	if k != 0 && k != 1 {
		return nil
	}
	i := e.add(it, e.int(k))
	prevI := e.sub(i, e.int(1))
	v.cur, v.prev = e.index(m.allv, i), e.index(m.allv, prevI)
	v.curDef, v.prevDef = e.fld(e.index(m.allsch, i), "def"), e.fld(e.index(m.allsch, prevI), "def")
	v.cur.T, v.prev.T = m.c.p.roles.version, m.c.p.roles.version
	sub := map[*Term]*Term{}
	var firsts []*Term
	if k == 0 {
		firsts = append(firsts, e.eq(it, e.int(0)))
	} else {
		v.first = 0
	}
	its := iterations(m.outs, loop)
	if len(its) == 0 {
		return nil
	}
	for _, c := range m.stableCarriers(its) {
		n := e.rewrite(c.new, m.norm)
		switch {
		case n == v.cur:
			init := e.rewrite(c.init, m.norm)
			if k == 0 || init == e.index(m.allv, e.int(0)) {
				sub[c.old] = v.prev
			} else if z, ok := e.zeroVersion(init); ok && z {
				// the first version is 0.0, established by T02
				sub[c.old] = v.prev
			}
		case n == e.index(m.allsch, i):
			if c.init.isNil() && k == 0 {
				firsts = append(firsts, e.nilEq(c.old))
				sub[c.old] = e.index(m.allsch, prevI)
			} else if k == 1 && e.rewrite(c.init, m.norm) == e.index(m.allsch, e.int(0)) {
				sub[c.old] = e.index(m.allsch, prevI)
			}
		}
	}
	m.decideFirst(v, facts, firsts)
	v.sub = func(t *Term) *Term {
		if r, ok := sub[t]; ok {
			return r
		}
		return m.norm(t)
	}
	v.facts = e.rewriteFacts(facts, v.sub)
	return v
}

func (e *Engine) zeroVersion(t *Term) (bool, bool) {
	if t.Op == "arr" && len(t.Args) == 2 {
		a, ok1 := t.Args[0].constInt()
		b, ok2 := t.Args[1].constInt()
		return a == 0 && b == 0, ok1 && ok2
	}
	return false, false
}

// stableCarriers lists the carriers that get a value of the same shape in every iteration.
func (m *bindModel) stableCarriers(its []*Outcome) []carrier {
	cs := m.e.carriers(its[0])
	var out []carrier
	for _, c := range cs {
		ok := true
		for _, o := range its[1:] {
			found := false
			for _, d := range m.e.carriers(o) {
				if d.old == c.old {
					found = d.new == c.new || m.elem[its[0]] != nil && c.new == m.elem[its[0]] && d.new == m.elem[o]
				}
			}
			if !found {
				ok = false
			}
		}
		if ok {
			out = append(out, c)
		}
	}
	return out
}

func (m *bindModel) decideFirst(v *view, facts []Fact, firsts []*Term) {
	if v.first >= 0 {
		return
	}
	for _, c := range firsts {
		if m.e.holds(facts, c) {
			v.first = 1
			return
		}
		if m.e.holds(facts, m.e.not(c)) {
			v.first = 0
			return
		}
	}
}

func (m *bindModel) mainView(o *Outcome) *view {
	e := m.e
	v := &view{o: o, first: -1}
	its := iterations(m.outs, m.main)
	// the schema being added: the iteration's own, or that of any iteration (the
	// allocation is the same program point) for a trace that ends early
	S := m.elem[o]
	if S == nil {
		S = m.elem[its[0]]
	}
	if S.Op == "alloc" {
		if _, ok := o.st.mem[S]; !ok {
			return nil
		}
	}
	v.cur, v.curDef = o.field(e, S, "v"), o.field(e, S, "def")
	if v.cur.T == nil {
		v.cur.T = m.c.p.roles.version
	}
	P := e.mk("prev-schema", "")
	v.prev, v.prevDef = e.fld(P, "v"), e.fld(P, "def")
	v.prev.T = m.c.p.roles.version
	sub := map[*Term]*Term{}
	var firsts []*Term
	for _, c := range m.stableCarriers(its) {
		n := c.new
		switch {
		case n == m.elem[its[0]]:
			if c.init.isNil() {
				firsts = append(firsts, e.nilEq(c.old))
				sub[c.old] = P
			}
		case n == its[0].field(e, m.elem[its[0]], "v"):
			sub[c.old] = v.prev
		case n == its[0].field(e, m.elem[its[0]], "def"):
			sub[c.old] = v.prevDef
		}
	}
	for _, l := range []*Term{m.allsch, m.allv} {
		if listLoop(l) == m.main {
			n := e.length(l)
			firsts = append(firsts, e.eq(n, e.int(0)))
			last := e.index(l, e.sub(n, e.int(1)))
			if l == m.allsch {
				sub[last] = P
			} else {
				sub[last] = v.prev
			}
		}
	}
	firsts = append(firsts, e.eq(e.iter(m.main), e.int(0)))
	m.decideFirst(v, o.Facts, firsts)
	v.sub = func(t *Term) *Term { return sub[t] }
	v.facts = e.rewriteFacts(o.Facts, v.sub)
	return v
}

// follows is the list of successor versions of prev.
func (m *bindModel) notFollows(cur, prev *Term) []Fact {
	e := m.e
	p0, p1 := e.index(prev, e.int(0)), e.index(prev, e.int(1))
	return []Fact{
		{C: e.eq(cur, e.mk("arr", "", p0, e.add(p1, e.int(1)))), Val: false},
		{C: e.eq(cur, e.mk("arr", "", e.add(p0, e.int(1)), e.int(0))), Val: false},
	}
}

func (m *bindModel) follows(v *view) bool {
	return !m.e.possible(v.facts, m.notFollows(v.cur, v.prev)...)
}

func (m *bindModel) isZero(v *view) bool {
	return m.e.implied(v.facts, m.e.eq(v.cur, m.zeroV()), true)
}

func (m *bindModel) zeroV() *Term { return m.e.mk("arr", "", m.e.int(0), m.e.int(0)) }

// mayBeContiguous reports whether the trace is also taken by a schema whose
// version is the right one at its position.
func (m *bindModel) mayBeContiguous(v *view) bool {
	e := m.e
	if v.first != 0 && e.possible(v.facts, Fact{C: e.eq(v.cur, m.zeroV()), Val: true}) {
		return true
	}
	if v.first == 1 {
		return false
	}
	for _, f := range m.notFollows(v.cur, v.prev) {
		if e.possible(v.facts, Fact{C: f.C, Val: true}) {
			return true
		}
	}
	return false
}

func loopsOf(outs []*Outcome) []string {
	seen := map[string]bool{}
	var r []string
	for _, o := range outs {
		if o.Kind == outBack && !seen[o.Loop] {
			seen[o.Loop] = true
			r = append(r, o.Loop)
		}
	}
	return r
}

// activeLoop is the innermost loop a trace is in when it ends.
func activeLoops(o *Outcome) []string {
	var st []string
	for _, ev := range o.Events {
		switch ev.Kind {
		case evEnter:
			st = append(st, ev.Loop)
		case evExit:
			for i := len(st) - 1; i >= 0; i-- {
				if st[i] == ev.Loop {
					if ev.AtHdr {
						st = append(st[:i], st[i+1:]...)
					} else {
						// left from the middle: the iteration's facts still apply
						break
					}
					break
				}
			}
		}
	}
	return st
}

func ruleT02(c *Ctx) {
	m := newBindModel(c)
	if m == nil || !m.resolveLists("versions") {
		return
	}
	e := m.e
	loops := loopsOf(m.outs)
	type verdict struct{ first, rest bool }
	cert := map[string]verdict{}
	why := map[string]*view{}
	for _, l := range loops {
		vd := verdict{true, true}
		its := iterations(m.outs, l)
		for _, o := range its {
			v := m.view(o, l)
			if v == nil {
				vd = verdict{}
				break
			}
			c.sites++
			switch v.first {
			case 1:
				if !m.isZero(v) {
					vd.first = false
					why[l] = v
				}
			case 0:
				if !m.follows(v) {
					vd.rest = false
					why[l] = v
				}
			default:
				if !m.isZero(v) {
					vd.first = false
				}
				if !m.follows(v) {
					vd.rest = false
				}
			}
		}
		anyFirst := false
		for _, o := range its {
			if v := m.view(o, l); v != nil && v.first != 0 {
				anyFirst = true
			}
		}
		if !anyFirst {
			vd.first = false
		}
		if len(its) == 0 {
			vd = verdict{}
		}
		cert[l] = vd
	}
	for _, o := range m.succ {
		var first, rest bool
		for l := range o.passed() {
			first = first || cert[l].first
			rest = rest || cert[l].rest
		}
		if !first {
			fs := e.rewriteFacts(o.Facts, m.norm)
			z := e.index(m.allv, e.int(0))
			z.T = c.p.roles.version
			first = e.implied(fs, e.eq(z, m.zeroV()), true)
		}
		if !first {
			c.fail("first-version", o.Pos, m.fn, e, o, "a lineage can be bound although its first schema is not version 0.0: no check on this path establishes it")
		}
		if !rest {
			c.fail("contiguous", o.Pos, m.fn, e, o, "a lineage can be bound although a schema's version does not directly follow that of its predecessor (same major and minor+1, or major+1 and minor 0)")
		}
		if first && rest {
			c.ok("accepted lineages start at 0.0 and are contiguous", fname(m.fn), 1)
		}
	}
	// no correct sequence is rejected
	for _, o := range m.errs {
		if !e.marks(o.Vals[1])["ErrInvalidSchemasOrder"] {
			continue
		}
		good := false
		for _, l := range activeLoops(o) {
			v := m.view(o, l)
			if v != nil && !m.mayBeContiguous(v) {
				good = true
			}
		}
		if !good {
			c.fail("no-false-rejection", o.Pos, m.fn, e, o, "schemas whose versions are in order can be rejected as out of order")
		} else {
			c.ok("order rejections only for wrong versions", fname(m.fn), 1)
		}
	}
	// the version comes from the schema's own version field, decoded
	for _, o := range iterations(m.outs, m.main) {
		v := o.field(e, m.elem[o], "v")
		if !m.decodedVersion(o, v) {
			c.fail("version-source", o.Pos, o.Fn, e, o, "the version recorded for a schema (%v) is not decoded from that schema's version field", v)
		} else {
			c.ok("version decoded from the schema definition", fname(o.Fn), 1)
		}
	}
}

// decodedVersion: out:i(Decode(LookupPath(elem, version), &x)) with the decode known to have succeeded.
func (m *bindModel) decodedVersion(o *Outcome, v *Term) bool {
	e := m.e
	if v.Op != "out" || !v.Args[0].isCall(cv("Decode")) {
		return false
	}
	d := v.Args[0]
	if !e.holds(o.Facts, e.nilEq(d)) {
		return false
	}
	src := d.Args[0]
	if !src.isCall(cv("LookupPath")) || src.Args[1].Op != "path" || src.Args[1].Sym != "version" {
		return false
	}
	return m.isElem(src.Args[0])
}

// isElem: the current element of an iteration over the unified lineage's schemas.
func (m *bindModel) isElem(t *Term) bool {
	return t.isCall("Iterator.Value")
}

func (m *bindModel) iterSource(o *Outcome, it *Term) *Term {
	// what was stored in the iterator variable
	v, ok := o.st.mem[it]
	if !ok {
		return nil
	}
	return v
}

func ruleT03(c *Ctx) {
	m := newBindModel(c)
	if m == nil || !m.resolveLists("compat") {
		return
	}
	e := m.e
	// the schema that is compared is the closed, joined definition of the element
	for _, o := range iterations(m.outs, m.main) {
		S := m.elem[o]
		def, ref := o.field(e, S, "def"), o.field(e, S, "ref")
		want := e.lookupPath(ref, "_#schema@"+modPath)
		if def != want || !m.isElem(ref) {
			c.fail("definition", o.Pos, o.Fn, e, o, "the schema body kept for validation and compatibility checks is %v, not the closed definition of the schema being bound", def)
		} else {
			c.ok("schema body is the closed definition of the element", fname(o.Fn), 1)
		}
	}
	certs := map[string]bool{}
	reason := map[string]*view{}
	for _, l := range loopsOf(m.outs) {
		ok := true
		n := 0
		for _, o := range iterations(m.outs, l) {
			v := m.view(o, l)
			if v == nil {
				ok = false
				break
			}
			if v.first == 1 {
				continue
			}
			if m.skipped(v.facts) {
				continue
			}
			n++
			if !m.compatDecided(v, true) {
				ok = false
				reason[l] = v
			}
		}
		certs[l] = ok && n > 0
	}
	for _, o := range m.succ {
		good := false
		for l := range o.passed() {
			if certs[l] {
				good = true
			}
		}
		if good {
			c.ok("every accepted adjacent pair is classified by the compatibility check", fname(m.fn), 1)
			continue
		}
		v := reason[m.main]
		if v == nil {
			for _, r := range reason {
				if r != nil && v == nil {
					v = r
				}
			}
		}
		if v != nil {
			c.fail("compat-table", v.o.Pos, v.o.Fn, e, v.o, "two adjacent schemas can be accepted although the compatibility of the newer with the older does not match the version step (minor step: backwards compatible; major step: incompatible)")
		} else {
			c.fail("compat-table", o.Pos, m.fn, e, o, "a lineage can be bound without checking the compatibility of each schema with its predecessor")
		}
		break
	}
	// rejections for (in)compatibility are right
	for _, o := range m.errs {
		if m.subsumeFact(o.Facts, nil, nil) == nil || len(activeLoops(o)) == 0 {
			continue
		}
		if !m.skipDecided(o.Facts) {
			c.fail("skip", o.Pos, o.Fn, e, o, "the compatibility of schemas is checked although the caller asked for that to be skipped")
		}
		for _, l := range activeLoops(o) {
			v := m.view(o, l)
			if v == nil {
				continue
			}
			f := m.subsumeFact(v.facts, v.curDef, v.prevDef)
			if f == nil {
				continue
			}
			if m.compatDecided(v, true) {
				c.fail("compat-false-rejection", o.Pos, m.fn, e, o, "an adjacent pair whose version step matches its compatibility can be rejected")
			} else if !m.compatDecided(v, false) && !e.marks(o.Vals[1])["ErrInvalidSchemasOrder"] {
				c.fail("compat-false-rejection", o.Pos, m.fn, e, o, "an adjacent pair can be rejected without its version step contradicting its compatibility")
			} else if !e.marks(o.Vals[1])["ErrInvalidLineage"] && !e.marks(o.Vals[1])["ErrInvalidSchemasOrder"] {
				c.fail("compat-class", o.Pos, m.fn, e, o, "the rejection of an incompatible step is not classified as an invalid lineage")
			} else {
				c.ok("rejected pairs contradict the compatibility rule", fname(m.fn), 1)
			}
		}
	}
	m.skipOption()
}

// subsumeFact finds the decided comparison cur.Subsume(prev, Raw, All) == nil.
func (m *bindModel) subsumeFact(fs []Fact, cur, prev *Term) *Fact {
	for i, f := range fs {
		if f.C.Op != "eq" {
			continue
		}
		for j, a := range f.C.Args {
			if !f.C.Args[1-j].isNil() || !a.isCall(cv("Subsume")) {
				continue
			}
			if cur == nil {
				return &fs[i]
			}
			if a.Args[0] == cur && a.Args[1] == prev && optionSet(a.Args[2], "Raw", "All") {
				return &fs[i]
			}
		}
	}
	return nil
}

// optionSet: the option list has exactly the named, argument-less options.
func optionSet(t *Term, names ...string) bool {
	if len(names) == 0 && t.isNil() {
		return true
	}
	if t.Op != "list" {
		return false
	}
	got := map[string]bool{}
	for _, a := range t.Args {
		if a.Op != "call" || len(a.Args) > 0 || !strings.HasPrefix(a.Sym, cuePkg+".") {
			return false
		}
		got[strings.TrimPrefix(a.Sym, cuePkg+".")] = true
	}
	if len(got) != len(names) {
		return false
	}
	for _, n := range names {
		if !got[n] {
			return false
		}
	}
	return true
}

// compatDecided: the facts establish (want) or contradict (!want) the table
// minor==0 <=> not compatible.
func (m *bindModel) compatDecided(v *view, want bool) bool {
	e := m.e
	f := m.subsumeFact(v.facts, v.curDef, v.prevDef)
	if f == nil {
		return false
	}
	minor0 := e.eq(e.index(v.cur, e.int(1)), e.int(0))
	is0, not0 := e.implied(v.facts, minor0, true), e.implied(v.facts, minor0, false)
	if f.Val == want { // compatible (want) ...
		return not0
	}
	return is0
}

// skipped: the facts say that the caller asked for the buggy checks to be skipped.
func (m *bindModel) skipped(fs []Fact) bool {
	for _, f := range fs {
		if f.C.Op == "fld" && f.Val && m.configTerm(f.C.Args[0]) && f.C.Sym == m.skipField() {
			return true
		}
	}
	return false
}

// skipDecided: the facts say that the caller did not ask for that.
func (m *bindModel) skipDecided(fs []Fact) bool {
	for _, f := range fs {
		if f.C.Op == "fld" && !f.Val && m.configTerm(f.C.Args[0]) && f.C.Sym == m.skipField() {
			return true
		}
	}
	return false
}

// configTerm: the options value after the bind options were applied to it.
func (m *bindModel) configTerm(t *Term) bool {
	return t.Op == "loopmem" || t.Op == "out"
}

// optionFuncs are the functions an option is made of: those its constructor
// refers to, directly or not, and among them those of the option's own type.
func (p *Program) optionFuncs(opt string) (all map[*ssa.Function]bool, opts []*ssa.Function) {
	fn := p.fn("", opt)
	if fn == nil || fn.Signature.Results().Len() != 1 {
		return nil, nil
	}
	sig, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
	if !ok {
		return nil, nil
	}
	all = map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || all[f] || fnPkgPath(f) != fnPkgPath(fn) {
			return
		}
		all[f] = true
		if taken[f] && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), sig) && f.Signature.Recv() == nil {
			opts = append(opts, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						if call, ok := in.(ssa.CallInstruction); !ok || &call.Common().Value != o {
							taken[g] = true
						}
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return all, opts
}

// optionField is the configuration field that a bind option stores to.
func (p *Program) optionField(opt string) string {
	if p.optFields == nil {
		p.optFields = map[string]string{}
	}
	if f, ok := p.optFields[opt]; ok {
		return f
	}
	all, opts := p.optionFuncs(opt)
	var names []string
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && len(opts) > 0 && types.Identical(fa.X.Type(), opts[0].Params[0].Type()) {
						names = append(names, fieldAddrName(fa))
					}
				}
			}
		}
	}
	sort.Strings(names)
	names = append(names, "")
	p.optFields[opt] = names[0]
	return names[0]
}

func (m *bindModel) skipField() string { return m.c.p.optionField("SkipBuggyChecks") }

func (m *bindModel) skipOption() {
	c := m.c
	fn := c.need("", "SkipBuggyChecks")
	if fn == nil {
		return
	}
	all, opts := c.p.optionFuncs("SkipBuggyChecks")
	for _, a := range opts {
		e, outs := c.run(a)
		for _, o := range outs {
			stored := false
			for _, ev := range o.Events {
				if ev.Kind == evStore && ev.Args[1].Op == "const" && ev.Args[1].Sym == "true" {
					stored = true
				}
			}
			force := false
			decided := false
			for _, f := range o.Facts {
				if f.C.Op == "gval" && strings.HasSuffix(f.C.Sym, "envvars.ForceVerify") {
					decided, force = true, f.Val
				}
			}
			if stored && (!decided || force) {
				c.fail("skip-option", o.Pos, a, e, o, "checks can be skipped although verification is forced by the environment")
			} else if !stored && !(decided && force) && !unlessForced(e, o) {
				c.fail("skip-option", o.Pos, a, e, o, "the option to skip buggy checks has no effect although verification is not forced")
			} else {
				c.ok("skip option honours forced verification", fname(a), 1)
			}
		}
	}
	// no other option touches the flag, and the flag is off by default
	name := m.skipField()
	for _, f := range c.p.funcs {
		if fnPkgPath(f) != modPath || all[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && g != fn && all[g] && setsField(g, name) {
						c.fail("skip-option", in.Pos(), f, nil, nil, "compatibility checks are switched off outside the SkipBuggyChecks option")
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok && name != "" && fieldAddrName(fa) == name && basicKindOf(st.Val) {
					if cst, ok := st.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.String() == "false" {
						continue
					}
					c.fail("skip-option", st.Pos(), f, nil, nil, "compatibility checks are switched off outside the SkipBuggyChecks option")
				}
			}
		}
	}
}

// unlessForced: what is stored is whether verification is not forced.
func unlessForced(e *Engine, o *Outcome) bool {
	for _, ev := range o.Events {
		if ev.Kind == evStore {
			if t := ev.Args[1]; t.Op == "not" && t.Args[0].Op == "gval" && strings.HasSuffix(t.Args[0].Sym, "envvars.ForceVerify") {
				return true
			}
		}
	}
	return false
}

func setsField(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldAddrName(fa) == name {
					return true
				}
			}
		}
	}
	return false
}

func basicKindOf(v ssa.Value) bool { return basicKind(v.Type()) == types.Bool }

func fieldAddrName(fa *ssa.FieldAddr) string {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return fieldName(st.Field(fa.Field))
}
