package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hydModel is one level of a recursive walk over a schema and data; the
// recursive calls are the induction hypothesis.
type hydModel struct {
	c      *Ctx
	e      *Engine
	fn     *ssa.Function
	outs   []*Outcome
	recv   *Term
	head   string
	si, di int   // positions of schema and data among the arguments
	s, d   *Term // what the walk is started with
	vi     int   // positions of its results
	bi, ei int
	list   int64
	strct  int64
	orop   int64
}

func ruleT19(c *Ctx) {
	c.hydration("Hydrate", false)
	c.hydration("Dehydrate", true)
}

func (c *Ctx) hydration(name string, de bool) {
	fn := c.needMethod("Instance", name)
	if fn == nil {
		return
	}
	e, outs := c.runOpts(fn, Options{InlineRec: true})
	m := &hydModel{c: c, e: e, fn: fn, outs: outs, recv: e.paramTerms(fn)[0]}
	var ok1, ok2, ok3 bool
	m.list, ok1 = c.p.cueConst("ListKind")
	m.strct, ok2 = c.p.cueConst("StructKind")
	m.orop, ok3 = c.p.cueConst("OrOp")
	if !ok1 || !ok2 || !ok3 {
		c.failAt("anchor", "cue kinds", "the constants are not there")
		return
	}
	if !m.resolve() {
		return
	}
	n, same := 0, 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			if !m.allowedPanic(o) {
				c.fail("total", o.Pos, fn, e, o, "%s may panic", name)
			}
		case outReturn:
			r := m.ret(o)
			if r == nil {
				c.fail("walk", o.Pos, fn, e, o, "%s returns without having walked the data", name)
				continue
			}
			for _, v := range m.cases(o, r, de) {
				res := o.Vals[0]
				if v.err {
					same++
					if !m.failed(o, v.facts) {
						c.fail("onerror", o.Pos, fn, e, o, "%s gives up although no step of the walk has failed", name)
					} else if res != m.recv {
						c.fail("onerror", o.Pos, fn, e, o, "%s does not return the instance itself after an error", name)
					} else {
						c.ok("after an error the instance itself is returned", fname(fn), 1)
					}
					continue
				}
				n++
				if why := m.result(o, res, v.val); why != "" {
					c.fail("result", o.Pos, fn, e, o, "%s: %s", name, why)
					continue
				}
				why := ""
				if de {
					why = m.dehydrated(o, v)
				} else {
					why = m.hydrated(o, v)
				}
				if why != "" {
					c.fail(strings.ToLower(name), r.Pos, fn, e, o, "%s: %s", name, why)
					continue
				}
				c.ok(name+" of one level follows its rule", fname(fn), 1)
			}
		}
	}
	if n < 4 || same == 0 {
		c.fail("walk", fnPos(fn), fn, nil, nil, "only %d paths of %s return a result and %d an error", n, name, same)
	}
}

// hydCase is one decided way in which the walk returns.
type hydCase struct {
	facts []Fact
	val   *Term
	equal bool
	err   bool
}

func (m *hydModel) resolve() bool {
	c, e := m.c, m.e
	opaque := map[string]bool{}
	for _, o := range m.outs {
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.Op == "call" {
				opaque[ev.Term.Sym] = true
			}
		}
	}
	raw := e.fld(m.recv, "raw")
	var fn *ssa.Function
	for _, o := range m.outs {
		for _, ev := range o.Events {
			if ev.Kind != "inline" || !opaque[ev.Term.Sym] || m.head != "" {
				continue
			}
			d, s := -1, -1
			for i, a := range ev.Term.Args {
				if a == raw {
					d = i
				} else if a.contains(e.fld(m.recv, "sch")) && !a.contains(raw) {
					s = i
				}
			}
			if d < 0 || s < 0 {
				continue
			}
			m.head, m.di, m.si, m.s, m.d = ev.Term.Sym, d, s, ev.Term.Args[s], raw
			if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
				fn = ci.Common().StaticCallee()
			}
		}
	}
	if m.head == "" {
		c.fail("anchor", fnPos(m.fn), m.fn, nil, nil, "the recursive walk over the instance's own data and its schema was not found")
		return false
	}
	sch := e.fld(m.recv, "sch")
	if !m.isDef(m.s, sch) {
		c.fail("start", fnPos(m.fn), m.fn, nil, nil, "the walk does not start from the definition of the instance's schema: %v", m.s)
		return false
	}
	m.vi, m.bi, m.ei = -1, -1, -1
	if fn != nil {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			switch fn.Signature.Results().At(i).Type().String() {
			case cuePkg + ".Value":
				m.vi = i
			case "bool":
				m.bi = i
			case "error":
				m.ei = i
			}
		}
	}
	if m.vi < 0 {
		c.fail("anchor", fnPos(m.fn), m.fn, nil, nil, "the walk returns no value")
		return false
	}
	c.ok("the walk starts from the definition of the instance's schema and its data", fname(m.fn), 1)
	return true
}

// isDef: the term is the definition of the schema held in an interface value.
func (m *hydModel) isDef(t, sch *Term) bool {
	if !t.isCall(cv("LookupPath")) || len(t.Args) != 2 {
		return false
	}
	p, ok := parsedPath(t.Args[1])
	if !ok {
		return false
	}
	if !strings.HasPrefix(p, "_#schema") {
		return false
	}
	u := t.Args[0]
	if u.isCall("Schema.Underlying") {
		return u.Args[0] == sch
	}
	return u.Op == "fld" && u.Sym == "ref" && unbox(u.Args[0]) == unbox(sch)
}

func (m *hydModel) ret(o *Outcome) *Event {
	for i := len(o.Events) - 1; i >= 0; i-- {
		ev := &o.Events[i]
		if ev.Kind == "ret" && ev.Term.Sym == m.head && ev.Term.Args[m.si] == m.s && ev.Term.Args[m.di] == m.d {
			return ev
		}
	}
	return nil
}

// cases splits a return by whatever of its error and its answer is undecided.
func (m *hydModel) cases(o *Outcome, r *Event, de bool) []hydCase {
	base := hydCase{facts: o.Facts, val: r.Args[m.vi]}
	cs := []hydCase{base}
	split := func(cond *Term, set func(*hydCase, bool)) {
		var out []hydCase
		for _, k := range cs {
			if v, ok := m.e.fact(k.facts, cond); ok {
				set(&k, v)
				out = append(out, k)
				continue
			}
			for _, v := range []bool{true, false} {
				n := k
				n.facts = append(append([]Fact{}, k.facts...), splitFact(cond, v))
				set(&n, v)
				out = append(out, n)
			}
		}
		cs = out
	}
	if m.ei >= 0 {
		err := r.Args[m.ei]
		switch m.e.nilness(o, err) {
		case notNil:
			base.err = true
			return []hydCase{base}
		case mayNil:
			split(m.e.nilEq(err), func(k *hydCase, v bool) { k.err = !v })
		}
	}
	if m.bi >= 0 && de {
		split(r.Args[m.bi], func(k *hydCase, v bool) { k.equal = v })
	}
	return cs
}

func splitFact(c *Term, v bool) Fact {
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	return Fact{C: c, Val: v}
}

func (m *hydModel) result(o *Outcome, res, val *Term) string {
	if res.Op != "alloc" {
		return "the result is not a new instance: " + res.String()
	}
	want := map[string]*Term{"raw": val, "sch": m.e.fld(m.recv, "sch"), "name": m.e.fld(m.recv, "name"), "valid": m.e.boolT(true)}
	for f, w := range want {
		got := o.field(m.e, res, f)
		if f == "valid" && m.e.holds(o.Facts, got) {
			continue
		}
		if got != w {
			return "field " + f + " of the new instance is " + got.String()
		}
	}
	return ""
}

func (m *hydModel) kindIs(fs []Fact, v *Term, k int64) (bool, bool) {
	return m.e.fact(fs, m.e.eq(m.e.mk("call", cv("IncompleteKind"), v), m.e.int(k)))
}

// elem: the element type of the list v, and whether it is known to be there.
func (m *hydModel) elem(fs []Fact, v *Term) (el *Term, exists, known bool) {
	for _, f := range fs {
		if f.C.isCall(cv("Exists")) && isAnyIndex(f.C.Args[0], v) {
			return f.C.Args[0], f.Val, true
		}
	}
	return nil, false, false
}

func (m *hydModel) allowedPanic(o *Outcome) bool {
	if m.e.holds(o.Facts, m.e.not(m.e.fld(m.recv, "valid"))) {
		return true
	}
	return m.badList(o.Facts)
}

// badList: the schema's element type is no type at all, or the data is no list
// although the schema wants one. Neither happens to data the schema accepts.
func (m *hydModel) badList(fs []Fact) bool {
	for _, s := range []*Term{m.s, m.d} {
		if v, ok := m.kindIs(fs, s, m.list); !ok || !v {
			continue
		}
		if el, ex, ok := m.elem(fs, s); ok && ex {
			if v, ok := m.kindIs(fs, el, 0); ok && v {
				return true
			}
		}
		for _, f := range fs {
			t := nilOf(f)
			if t != nil && !f.Val && t.Op == "ext" && t.Sym == "1" && t.Args[0].isCall(cv("List")) && (t.Args[0].Args[0] == m.d || t.Args[0].Args[0] == m.s) {
				return true
			}
		}
	}
	return false
}

// rec recognises result i of a recursive call.
func (m *hydModel) rec(t *Term, i int) (a, b *Term) {
	if t.Op == "ext" && len(t.Args) == 1 && t.Sym == strconv.Itoa(i) {
		t = t.Args[0]
	} else if i != 0 || m.bi >= 0 || m.ei >= 0 {
		return nil, nil
	}
	if !t.isCall(m.head) {
		return nil, nil
	}
	return t.Args[m.si], t.Args[m.di]
}

// recDecided: what the iteration knows of the recursive call on the two values.
func (m *hydModel) recDecided(fs []Fact, match func(a, b *Term) bool) (called, failed, equal bool) {
	for _, f := range fs {
		if t := nilOf(f); t != nil && m.ei >= 0 {
			if a, b := m.rec(t, m.ei); a != nil && match(a, b) {
				called = true
				failed = failed || !f.Val
			}
		}
		if m.bi >= 0 {
			if a, b := m.rec(f.C, m.bi); a != nil && match(a, b) {
				called = true
				equal = equal || f.Val
			}
		}
	}
	return
}

func (m *hydModel) defaultOf(fs []Fact, s *Term) (d *Term, exists, known bool) {
	call := m.e.mk("call", cv("Default"), s)
	ex := m.e.mk("ext", "1", call)
	v, ok := m.e.fact(fs, ex)
	return m.e.mk("ext", "0", call), v, ok
}

// isDefault: the facts say that the data and the schema's default are (not) equal.
func (m *hydModel) isDefault(o *Outcome, fs []Fact) (val, known bool) {
	d, ex, ok := m.defaultOf(fs, m.s)
	if !ok {
		return false, false
	}
	if !ex {
		return false, true
	}
	// the empty list CUE takes for an open list is no default
	given, ok := m.spelled(o, fs, d)
	if !ok {
		return false, false
	}
	if !given {
		return false, true
	}
	var ab, ba bool
	for _, f := range fs {
		if f.C.isCall(cv("Equals")) && (f.C.Args[0] == d && f.C.Args[1] == m.d || f.C.Args[1] == d && f.C.Args[0] == m.d) {
			return f.Val, true
		}
		t := nilOf(f)
		if t == nil || !t.isCall(cv("Subsume")) {
			continue
		}
		if t.Args[0] == d && t.Args[1] == m.d {
			if !f.Val {
				return false, true
			}
			ab = true
		}
		if t.Args[0] == m.d && t.Args[1] == d {
			if !f.Val {
				return false, true
			}
			ba = true
		}
	}
	if ab && ba {
		return true, true
	}
	return false, false
}

// spelled: the default is one the schema gives, not the empty list that CUE
// takes for the default of an open list.
func (m *hydModel) spelled(o *Outcome, fs []Fact, d *Term) (given, known bool) {
	e := m.e
	is, empty, ok := m.emptyListIs(fs, d)
	if ok && !is {
		return true, true // no list
	}
	ln := e.mk("call", cv("Int64"), e.mk("call", cv("Len"), d))
	if v, ok := e.fact(fs, e.eq(e.mk("ext", "1", ln), e.nilT())); ok && !v {
		return false, true // does not happen
	}
	if !ok {
		return false, false
	}
	if !empty {
		return true, true
	}
	x := e.mk("call", cv("Expr"), m.s)
	or, ok := e.fact(fs, e.eq(e.mk("ext", "0", x), e.int(m.orop)))
	if !ok || !or {
		return false, ok
	}
	vals := e.mk("ext", "1", x)
	// is the empty list one of the alternatives?
	alt := func(fs []Fact) (is, known bool) {
		for _, f := range fs {
			var v *Term
			f.C.walk(func(y *Term) bool {
				if v == nil && (y.Op == "index" || y.Op == "elem") && y.Args[0] == vals {
					v = y
				}
				return v == nil
			})
			if v == nil {
				continue
			}
			if is, empty, ok := m.emptyListIs(fs, v); ok {
				return is && empty, true
			}
		}
		return false, false
	}
	// every iteration that goes on has found out what is said of it
	loop := func(key string, flag *Term) bool {
		its := m.its(o, key)
		for _, io := range its {
			is, known := alt(io.Facts)
			if !known {
				return false
			}
			if flag == nil {
				if is {
					return false
				}
				continue
			}
			next, init := m.carried(io, flag)
			if init == nil || !init.isFalse() || next != flag && !next.isTrue() {
				return false
			}
			if was, ok := e.fact(io.Facts, flag); ok && was {
				continue
			}
			if is != next.isTrue() {
				return false
			}
		}
		return len(its) > 0
	}
	for _, f := range fs {
		c := f.C
		if c.Op == "loopvar" {
			if _, key, ok := strings.Cut(c.Sym, "@"); ok && loop(key, c) {
				return f.Val, true
			}
		}
	}
	for _, f := range fs {
		c := f.C
		if c.Op == "lt" && !f.Val && c.Args[0].Op == "iter" && c.Args[1] == e.mk("len", "", vals) && loop(c.Args[0].Sym, nil) {
			return false, true
		}
	}
	if is, known := alt(fs); known && is {
		return true, true
	}
	return false, false
}

// emptyListIs: whether the value is a list, and whether it is an empty one.
func (m *hydModel) emptyListIs(fs []Fact, v *Term) (is, empty, known bool) {
	e := m.e
	for _, k := range []string{"Kind", "IncompleteKind"} {
		if l, ok := e.fact(fs, e.eq(e.mk("call", cv(k), v), e.int(m.list))); ok {
			if !l {
				return false, false, true
			}
			is = true
		}
	}
	if !is {
		return false, false, false
	}
	n := e.mk("ext", "0", e.mk("call", cv("Int64"), e.mk("call", cv("Len"), v)))
	if e.implied(fs, e.lt(n, e.int(1)), true) {
		return true, true, true
	}
	if e.implied(fs, e.lt(e.int(0), n), true) || e.implied(fs, e.eq(n, e.int(0)), false) {
		return true, false, true
	}
	return true, false, false
}

func (m *hydModel) dehydrated(o *Outcome, k hydCase) string {
	isS, okS := m.kindIs(k.facts, m.s, m.strct)
	isL, okL := m.kindIs(k.facts, m.s, m.list)
	if k.equal {
		if v, ok := m.isDefault(o, k.facts); ok && v && !(okS && isS) {
			return ""
		}
		if m.badList(k.facts) {
			return ""
		}
		return "data may be left out although it is not known to equal the schema's default"
	}
	switch {
	case okS && isS:
		return m.dehydratedStruct(o, k)
	case okL && isL:
		if v, ok := m.isDefault(o, k.facts); !ok || v {
			return "a list equal to its default may be kept"
		}
		el, ex, ok := m.elem(k.facts, m.s)
		if ok && !ex {
			if k.val != m.d {
				return "a list without element type is not kept as it is"
			}
			return ""
		}
		if !ok {
			return "no element type was looked up for a list"
		}
		return m.listWalk(o, k, el, m.d, true)
	case okS && okL:
		if v, ok := m.isDefault(o, k.facts); !ok || v {
			return "data equal to its default may be kept"
		}
		if k.val != m.d {
			return "data that does not equal its default is not kept as it is: " + k.val.String()
		}
		return ""
	}
	return "the kind of the schema is not decided"
}

// iterSrc resolves an iterator to the call it came from.
func (m *hydModel) iterSrc(o *Outcome, it *Term) *Term {
	if it.Op == "ext" && it.Sym == "0" {
		return it.Args[0]
	}
	for _, ev := range o.Events {
		if ev.Kind == evStore && len(ev.Args) == 2 && ev.Args[0] == it && ev.Args[1].Op == "ext" {
			return ev.Args[1].Args[0]
		}
	}
	return it
}

// loopOver: the iterations go through what call yields, one by one; el is the current one.
func (m *hydModel) loopOver(io *Outcome, loop string) (src, it *Term) {
	for _, f := range io.Facts {
		if f.Val && f.C.isCall("Iterator.Next") && insideLoop(io, loop, f) {
			if it != nil {
				return nil, nil
			}
			it = f.C.Args[0]
		}
	}
	if it == nil {
		return nil, nil
	}
	return m.iterSrc(io, it), it
}

func (m *hydModel) its(o *Outcome, loop string) []*Outcome {
	var r []*Outcome
	for _, io := range iterations(m.outs, loop) {
		if m.e.samePath(io, o, loop) {
			r = append(r, io)
		}
	}
	return r
}

// carried finds what an iteration makes of a loop variable.
func (m *hydModel) carried(io *Outcome, v *Term) (next, init *Term) {
	for _, k := range m.e.carriers(io) {
		if k.old == v {
			return k.new, k.init
		}
	}
	return nil, nil
}

func optionalFields(e *Engine, c *Term) bool {
	if !c.isCall(cv("Fields")) || len(c.Args) != 2 || c.Args[1].Op != "list" {
		return false
	}
	ok := false
	for _, a := range c.Args[1].Args {
		switch {
		case a.isCall(cuePkg + ".Optional"):
			ok = a.Args[0] == e.boolT(true)
		case a.isCall(cuePkg + ".All"):
			ok = true
		}
	}
	return ok
}

// current: the path or key names the field the iterator is at, and nothing else.
func (m *hydModel) current(p, it *Term) bool {
	ok, bad := false, false
	p.walk(func(t *Term) bool {
		if t.isCall("Iterator.Value", "Iterator.Label", "Iterator.Selector") {
			if n, c := t.Args[1].constInt(); t.Args[0] == it && c && n == 1 {
				ok = true
			} else {
				bad = true
			}
			return false
		}
		if t.Op == "bin" || t.Op == "concat" || t.Op == "add" {
			bad = true
		}
		return true
	})
	return ok && !bad
}

func (m *hydModel) emptyValue(t *Term) bool {
	if t.isCall("(*" + cuePkg + ".Context).CompileString") {
		if s, ok := t.Args[1].constStr(); ok {
			switch strings.TrimSpace(s) {
			case "", "{}", "_":
				return true
			}
		}
	}
	return false
}

func (m *hydModel) dehydratedStruct(o *Outcome, k hydCase) string {
	v := k.val
	var fromSchema, fromData string
	for listLoop(v) != "" {
		loop := listLoop(v)
		if !o.passed()[loop] {
			return "the fields of the result come from a loop that may end early"
		}
		its := m.its(o, loop)
		if len(its) == 0 {
			return "the fields of the result come from a loop without iterations"
		}
		var init *Term
		for _, io := range its {
			next, in := m.carried(io, v)
			if next == nil {
				return "what an iteration makes of the result is unknown"
			}
			init = in
			src, it := m.loopOver(io, loop)
			if src == nil {
				return "the fields of the result come from a loop that is not over fields"
			}
			switch {
			case src.isCall(cv("Fields")) && src.Args[0] == m.s:
				if !optionalFields(m.e, src) {
					return "optional fields of the schema are not visited"
				}
				fromSchema = loop
				if why := m.dehydrateField(io, loop, v, next, it); why != "" {
					return why
				}
			case src.isCall(cv("Fields")) && src.Args[0] == m.d:
				fromData = loop
				if why := m.keepField(o, io, loop, v, next, it); why != "" {
					return why
				}
			default:
				return "the fields of the result come from a loop over " + src.String()
			}
		}
		v = init
	}
	if !m.emptyValue(v) {
		return "the result is not built from nothing: " + v.String()
	}
	if fromSchema == "" {
		return "the fields of the schema are not visited"
	}
	if fromData == "" {
		return "fields of the data that the schema does not name are not visited"
	}
	return ""
}

// fill recognises FillPath(old, path, x).
func (m *hydModel) fill(next, old *Term) (path, x *Term) {
	if next.isCall(cv("FillPath")) && len(next.Args) == 3 && next.Args[0] == old {
		return next.Args[1], unbox(next.Args[2])
	}
	return nil, nil
}

func (m *hydModel) dehydrateField(io *Outcome, loop string, old, next, it *Term) string {
	f := m.e.mk("call", "Iterator.Value", it, m.e.int(1))
	var lv *Term
	exists := false
	for _, fc := range io.Facts {
		if t := fc.C; t.isCall(cv("Exists")) && insideLoop(io, loop, fc) {
			l := t.Args[0]
			if l.isCall(cv("LookupPath")) && l.Args[0] == m.d && m.current(l.Args[1], it) {
				lv, exists = l, fc.Val
			}
		}
	}
	if lv == nil {
		return "a field of the schema is not looked up in the data"
	}
	path, x := m.fill(next, old)
	if path == nil && next != old {
		return "the result is altered in an unexpected way: " + next.String()
	}
	if !exists {
		if next != old {
			return "a field that the data does not have is put into the result"
		}
		return ""
	}
	match := func(a, b *Term) bool { return a == f && b == lv }
	called, failed, equal := m.recDecided(io.Facts, match)
	if !called {
		return "a field of the data is not dehydrated"
	}
	if next == old {
		if !failed && !equal {
			return "a field that differs from its default may be left out"
		}
		return ""
	}
	a, b := m.rec(x, m.vi)
	if a == nil || !match(a, b) || !m.current(path, it) {
		return "a field is filled with something else than its own dehydrated data: " + next.String()
	}
	if failed || equal {
		return "a field equal to its default may be kept"
	}
	return ""
}

// keepField: fields of the data are skipped only if the schema names them.
func (m *hydModel) keepField(o, io *Outcome, loop string, old, next, it *Term) string {
	path, x := m.fill(next, old)
	if path != nil {
		if !m.current(path, it) || x != m.e.mk("call", "Iterator.Value", it, m.e.int(1)) {
			return "a field the schema does not name is not kept as it is: " + next.String()
		}
		if named, ok := m.named(io, loop, it); !ok || named {
			return "a field that the schema names, and that was left out as it equals its default, may be put back"
		}
		return ""
	}
	if next != old {
		return "the result is altered in an unexpected way: " + next.String()
	}
	if named, ok := m.named(io, loop, it); ok && named {
		return ""
	}
	return "a field of the data may be left out although the schema does not name it"
}

// named: the iteration knows whether the schema names the current field.
func (m *hydModel) named(io *Outcome, loop string, it *Term) (named, known bool) {
	for _, f := range io.Facts {
		if !insideLoop(io, loop, f) {
			continue
		}
		t, value := f.C, true
		if t.Op == "ext" && t.Sym == "1" {
			t, value = t.Args[0], false
		}
		if t.Op == "has" {
			value = false
		}
		if (t.Op == "lookup" || t.Op == "has") && m.current(t.Args[1], it) && m.schemaNames(t.Args[0], value) {
			return f.Val, true
		}
	}
	return false, false
}

// schemaNames: the keys of the map are the names of the schema's fields; value:
// every one of them is mapped to true.
func (m *hydModel) schemaNames(mp *Term, value bool) bool {
	var root *Term
	mp.walk(func(t *Term) bool {
		if t.Op == "mkmap" {
			root = t
		}
		return true
	})
	if root == nil {
		return false
	}
	n := 0
	for _, o := range m.outs {
		if o.Kind != outBack {
			continue
		}
		src, it := m.loopOver(o, o.Loop)
		put := 0
		for _, ev := range o.Events {
			if ev.Kind == evMap && ev.Args[0].contains(root) && insideLoopEvent(o, o.Loop, ev) {
				if src == nil || !src.isCall(cv("Fields")) || src.Args[0] != m.s || !m.current(ev.Args[1], it) {
					return false
				}
				if value && (len(ev.Args) < 3 || ev.Args[2] != m.e.boolT(true)) {
					return false
				}
				put++
			}
		}
		if src != nil && src.isCall(cv("Fields")) && src.Args[0] == m.s && put == 0 {
			return false
		}
		n += put
	}
	return n > 0
}

func insideLoopEvent(o *Outcome, loop string, ev Event) bool {
	in := false
	for i := range o.Events {
		x := &o.Events[i]
		if x.Kind == evEnter && x.Loop == loop {
			in = true
		}
		if x.Kind == ev.Kind && x.Instr == ev.Instr && x.Term == ev.Term {
			return in
		}
	}
	return false
}

// listWalk: the result is the list of all elements of data, in order, each
// walked (or, when dehydrating, kept as it is where that is not possible).
func (m *hydModel) listWalk(o *Outcome, k hydCase, ele, data *Term, de bool) string {
	v := k.val
	if !v.isCall("(*" + cuePkg + ".Context).NewList") {
		return "the result of walking a list is not a list of its elements: " + v.String()
	}
	l := v.Args[1]
	loop := listLoop(l)
	if loop == "" || !o.passed()[loop] {
		return "the elements of the result do not come from a loop over all elements"
	}
	its := m.its(o, loop)
	if len(its) == 0 {
		return "the elements of the result come from a loop without iterations"
	}
	for _, io := range its {
		next, init := m.carried(io, l)
		if next == nil || !emptyList(init) {
			return "the list of results does not start empty"
		}
		src, it := m.loopOver(io, loop)
		if src == nil || !src.isCall(cv("List")) || src.Args[0] != data {
			return "the loop is not over the elements of the data"
		}
		el := m.e.mk("call", "Iterator.Value", it, m.e.int(1))
		branch := false
		isRef := func(t *Term) bool {
			if t == ele {
				// the whole element type is used only if it is not a disjunction
				v, ok := m.e.fact(io.Facts, m.e.eq(m.e.mk("ext", "0", m.e.mk("call", cv("Expr"), ele)), m.e.int(m.orop)))
				return ok && !v
			}
			if t.Op != "index" || t.Args[0] != m.e.mk("ext", "1", m.e.mk("call", cv("Expr"), ele)) {
				return false
			}
			for _, f := range io.Facts {
				n := nilOf(f)
				if n == nil || !f.Val || !n.isCall(cv("Validate")) {
					continue
				}
				u := n.Args[0]
				if u.isCall(cv("Unify")) && (u.Args[0] == t && u.Args[1] == el || u.Args[1] == t && u.Args[0] == el) && isConcreteTrue(n.Args[1]) {
					branch = true
					return true
				}
			}
			return false
		}
		match := func(a, b *Term) bool {
			if isRef(a) && b == el {
				return true
			}
			return !de && isRef(b) && a == el
		}
		_ = branch
		called, failed, equal := m.recDecided(io.Facts, match)
		if next == l {
			if de || !failed {
				return "an element of a list may be left out"
			}
			continue
		}
		if next.Op != "append" || next.Args[0] != l || next.Args[1].Op != "list" || len(next.Args[1].Args) != 1 {
			return "an iteration does not add exactly one element: " + next.String()
		}
		x := next.Args[1].Args[0]
		if x == el && de {
			if called && !failed && !equal {
				return "an element is kept as it is although it could be dehydrated"
			}
			if !called {
				v, ok := m.e.fact(io.Facts, m.e.eq(m.e.mk("ext", "0", m.e.mk("call", cv("Expr"), ele)), m.e.int(m.orop)))
				if !ok || !v {
					return "an element is not dehydrated"
				}
				if !m.noBranch(io, ele, el) {
					return "an element that matches a branch of its type may be kept as it is"
				}
			}
			continue
		}
		a, b := m.rec(x, m.vi)
		if a == nil || !match(a, b) {
			return "an element is replaced by something else than itself, walked with the matching type: " + x.String()
		}
		if failed || equal {
			return "an element equal to its default is replaced by the remainder of its removal"
		}
	}
	return ""
}

// noBranch: a loop over the branches of the element type has found that the
// element matches none of them.
func (m *hydModel) noBranch(io *Outcome, ele, el *Term) bool {
	branches := m.e.mk("ext", "1", m.e.mk("call", cv("Expr"), ele))
	for loop := range io.passed() {
		its := m.its(io, loop)
		all := len(its) > 0
		for _, b := range its {
			tried := false
			for _, f := range b.Facts {
				n := nilOf(f)
				if n == nil || f.Val || !n.isCall(cv("Validate")) || !n.Args[0].isCall(cv("Unify")) || !insideLoop(b, loop, f) {
					continue
				}
				x, y := n.Args[0].Args[0], n.Args[0].Args[1]
				if x == el {
					x, y = y, x
				}
				if y == el && x.Op == "index" && x.Args[0] == branches && x.Args[1] == m.e.iter(loop) {
					tried = m.e.rangesOver(b, loop, func(l *Term) bool { return l == branches })
				}
			}
			all = all && tried
		}
		if all {
			return true
		}
	}
	return false
}

// failed: a step of the walk has failed, or an element matches no branch.
func (m *hydModel) failed(o *Outcome, fs []Fact) bool {
	for _, f := range fs {
		if t := nilOf(f); t != nil && !f.Val && !t.isCall(cv("Validate")) {
			return true
		}
	}
	for _, s := range []*Term{m.s, m.d} {
		if el, ex, ok := m.elem(fs, s); ok && ex {
			for _, f := range fs {
				if f.Val && f.C.isCall("Iterator.Next") && m.noBranch(o, el, m.e.mk("call", "Iterator.Value", f.C.Args[0], m.e.int(1))) {
					return true
				}
			}
		}
	}
	return false
}

func isConcreteTrue(t *Term) bool {
	if t.Op != "list" {
		return false
	}
	for _, a := range t.Args {
		if a.isCall(cuePkg+".Concrete") && len(a.Args) == 1 && a.Args[0].Op == "const" && a.Args[0].Sym == "true" {
			return true
		}
	}
	return false
}

func emptyList(t *Term) bool {
	return t != nil && (t.isNil() || t.isZero() || t.Op == "list" && len(t.Args) == 0 || t.Op == "mkslice")
}

func (m *hydModel) hydrated(o *Outcome, k hydCase) string {
	// which of the two is walked over; the other is what gets filled
	a, b := m.s, m.d
	if _, ok := m.kindIs(k.facts, m.d, m.list); ok {
		a, b = m.d, m.s
	} else if _, ok := m.kindIs(k.facts, m.d, m.strct); ok {
		a, b = m.d, m.s
	}
	isS, okS := m.kindIs(k.facts, a, m.strct)
	isL, okL := m.kindIs(k.facts, a, m.list)
	unified := m.e.mk("call", cv("Unify"), a, b)
	unified2 := m.e.mk("call", cv("Unify"), b, a)
	isUnified := k.val == unified || k.val == unified2
	switch {
	case okS && isS:
		return m.hydratedStruct(o, k, a, b)
	case okL && isL:
		el, ex, ok := m.elem(k.facts, a)
		if ok && ex {
			return m.listWalk(o, k, el, b, false)
		}
		if isUnified && ok {
			return ""
		}
		return "a list without element type is not unified with its schema"
	case okS && okL:
		if isUnified {
			return ""
		}
		return "data that is neither struct nor list is not unified with its schema: " + k.val.String()
	}
	return "the kind of the schema is not decided"
}

func (m *hydModel) hydratedStruct(o *Outcome, k hydCase, a, b *Term) string {
	v := k.val
	loop := listLoop(v)
	if loop == "" || !o.passed()[loop] {
		return "the fields of the result do not come from a loop over all fields"
	}
	its := m.its(o, loop)
	if len(its) == 0 {
		return "the fields of the result come from a loop without iterations"
	}
	filled := false
	for _, io := range its {
		next, init := m.carried(io, v)
		if next == nil || init != b {
			return "the result does not start from the data"
		}
		src, it := m.loopOver(io, loop)
		if src == nil || !src.isCall(cv("Fields")) || src.Args[0] != a {
			return "the loop is not over the fields of the schema"
		}
		if !optionalFields(m.e, src) {
			return "optional fields of the schema are not visited"
		}
		f := m.e.mk("call", "Iterator.Value", it, m.e.int(1))
		var lv *Term
		exists := false
		for _, fc := range io.Facts {
			if t := fc.C; t.isCall(cv("Exists")) && insideLoop(io, loop, fc) {
				l := t.Args[0]
				if l.isCall(cv("LookupPath")) && (l.Args[0] == v || l.Args[0] == b) && m.current(l.Args[1], it) {
					lv, exists = l, fc.Val
				}
			}
		}
		if lv == nil {
			return "a field of the schema is not looked up in the data"
		}
		path, x := m.fill(next, v)
		if path == nil && next != v {
			return "the result is altered in an unexpected way: " + next.String()
		}
		if exists {
			match := func(p, q *Term) bool { return p == f && q == lv || q == f && p == lv }
			called, failed, _ := m.recDecided(io.Facts, match)
			if next == v {
				if !called || !failed {
					return "a field that is there is not hydrated"
				}
				continue
			}
			p, q := m.rec(x, m.vi)
			if p == nil || !match(p, q) || !m.current(path, it) {
				return "a field is filled with something else than its own hydrated data: " + next.String()
			}
			continue
		}
		opt, ok := m.e.fact(io.Facts, m.e.mk("call", "Iterator.IsOptional", it, m.e.int(1)))
		if !ok {
			return "a field that is missing is treated the same whether it is optional or not"
		}
		if opt {
			if next != v {
				return "an optional field that is missing is filled in"
			}
			continue
		}
		if next == v {
			return "a field that is missing is not filled in"
		}
		if x.isCall(cv("Eval")) {
			x = x.Args[0]
		}
		if !m.current(path, it) || x != f {
			return "a missing field is filled with something else than the schema's own value: " + next.String()
		}
		filled = true
	}
	if !filled {
		return "missing fields are never filled in"
	}
	return ""
}
