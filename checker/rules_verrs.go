package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// verrs decides what the error of a failed validation reports.
type verrs struct {
	c       *Ctx
	fn      *ssa.Function
	e       *Engine
	outs    []*Outcome
	recv    *Term
	loop    string
	ee      *Term // the CUE error an iteration is about
	texts   map[types.Type][]rendered
	tables  map[*Term]bool
	found   *Term // the list of entries
	rest    *Term // the list of what has no known form
	entries map[string]int
}

// printed is a piece of a text: a literal, a value, or one line per element.
type printedItem struct {
	lit  string
	term *Term
	each *Term
}

// rendered is the text of an entry on one path through its Error method.
type rendered struct {
	o                    *Outcome
	self                 *Term
	items                []printedItem
	coords               string // fields by what they are printed as
	schPos, datPos       string
	schVal, datVal       string
	missing, excess, bad bool
	why                  string
}

// ruleT39: validation errors say what is wrong, and where.
func ruleT39(c *Ctx) {
	fn := c.needMethod(c.schemaName(), "Validate")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	v := &verrs{c: c, fn: fn, e: e, outs: outs, recv: e.paramTerms(fn)[0], texts: map[types.Type][]rendered{}, tables: map[*Term]bool{}, entries: map[string]int{}}
	var errs *Term
	for _, o := range outs {
		if o.Kind != outBack {
			continue
		}
		for _, f := range o.Facts {
			if f.Val && f.C.Op == "lt" && f.C.Args[0] == e.iter(o.Loop) && f.C.Args[1].Op == "len" && f.C.Args[1].Args[0].isCall(cueErr+"Errors") {
				if v.loop != "" && v.loop != o.Loop {
					c.fail("entries", o.Pos, fn, e, o, "the errors are gone through more than once, which the analysis does not follow")
					return
				}
				v.loop, errs = o.Loop, f.C.Args[1].Args[0]
			}
		}
	}
	if v.loop == "" {
		c.fail("anchor", fnPos(fn), fn, nil, nil, "the errors of a failed validation are not gone through one by one")
		return
	}
	if a := errs.Args[0]; !unbox(a).isCall("(cuelang.org/go/cue.Value).Validate") {
		c.fail("entries", fnPos(fn), fn, nil, nil, "the errors gone through are not those of the validation: %v", a)
		return
	}
	v.ee = e.index(errs, e.iter(v.loop))
	for _, it := range iterations(outs, v.loop) {
		if why := v.iteration(it); why != "" {
			c.fail("entries", it.Pos, fn, e, it, "%s", why)
			continue
		}
		c.ok("each error gives the entry it should", fname(fn), 1)
	}
	for _, k := range []string{"missing", "excess", "two", "other"} {
		if v.entries[k] == 0 {
			c.fail("entries", fnPos(fn), fn, nil, nil, "no error gives an entry of this kind: %s", k)
		}
	}
	for _, o := range outs {
		if o.Kind != outReturn || len(o.Vals) != 2 || o.Vals[1].isNil() {
			continue
		}
		if !o.entered(v.loop) {
			// only what is no error of CUE's is passed on
			if got := unbox(o.Vals[1]); got == errs.Args[0] || e.implied(o.Facts, e.nilEq(errs.Args[0]), false) {
				other := false
				for _, f := range o.Facts {
					if f.C.Op == "istype" && strings.HasSuffix(f.C.Sym, cueErr+"Error") && f.C.Args[0] == errs.Args[0] && !f.Val {
						other = true
					}
					f.C.walk(func(t *Term) bool {
						if !f.Val && t.isCall("errors.As", cueErr+"As") && t.Args[0] == errs.Args[0] {
							other = true
						}
						return true
					})
				}
				if !other {
					c.fail("result", o.Pos, fn, e, o, "an error of CUE's is reported without going through what it has: %v", got)
				}
			}
			continue
		}
		if why := v.returned(o, errs); why != "" {
			c.fail("result", o.Pos, fn, e, o, "%s", why)
			continue
		}
		c.ok("all entries are reported", fname(fn), 1)
	}
	for g := range v.tables {
		v.table(g)
	}
	if len(v.tables) == 0 {
		c.fail("names", fnPos(fn), fn, nil, nil, "number types are not named")
	}
}

func (v *verrs) known(it *Outcome, t *Term) (bool, bool) { return v.e.fact(it.Facts, t) }

// form is what kind of entry an error calls for.
func (v *verrs) form(it *Outcome) (kind string, vals *Term, why string) {
	e := v.e
	msg := e.mk("call", "invoke "+cueErr+"Error.Msg", v.ee)
	for _, ev := range it.Events {
		if ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "errors.Error.Msg") && ev.Term.Args[0] == v.ee {
			msg = ev.Term
		}
	}
	text := e.mk("ext", "0", msg)
	vals = e.mk("ext", "1", msg)
	n := -1
	no := map[int]bool{}
	for _, k := range []int{1, 2, 4} {
		is, known := v.known(it, e.eq(e.length(vals), e.int(int64(k))))
		switch {
		case known && is:
			n = k
		case known, e.implied(it.Facts, e.eq(e.length(vals), e.int(int64(k))), false):
			no[k] = true
		}
	}
	if n < 0 {
		if len(no) == 3 {
			return "other", vals, ""
		}
		return "", nil, "how many values an error has is not considered"
	}
	is := func(i int, typ string) (bool, bool) {
		return v.known(it, e.mk("istype", typ, e.index(vals, e.int(int64(i)))))
	}
	want := map[int][]string{1: {"string"}, 2: {"string", "string"}, 4: {"string", "string", "cuelang.org/go/cue.Kind", "cuelang.org/go/cue.Kind"}}[n]
	all := true
	for i, typ := range want {
		y, known := is(i, typ)
		if known && !y {
			return "other", vals, ""
		}
		all = all && known
	}
	if !all {
		return "", nil, "the kinds of an error's values are not considered"
	}
	if n > 1 {
		return "two", vals, ""
	}
	has := func(s string) (bool, bool) {
		return v.known(it, e.mk("call", "strings.Contains", text, e.str(s)))
	}
	inc, k1 := has("incomplete")
	not, k2 := has("not allowed")
	switch {
	case k1 && inc:
		return "missing", vals, ""
	case k1 && k2 && not:
		return "excess", vals, ""
	case k1 && k2:
		return "other", vals, ""
	}
	return "", nil, "what the message says is not considered"
}

func (v *verrs) iteration(it *Outcome) string {
	e := v.e
	kind, vals, why := v.form(it)
	if why != "" {
		return why
	}
	var list, el *Term
	for _, cr := range e.carriers(it) {
		if cr.new == cr.old || cr.new.Op != "append" {
			continue
		}
		added, ok := flat(cr.new, cr.old)
		if !ok {
			return "what was found before is lost"
		}
		for _, a := range added {
			if el != nil {
				return "an error is reported more than once"
			}
			list, el = cr.old, unbox(a)
		}
	}
	if el == nil {
		return "an error is not reported"
	}
	v.entries[kind]++
	if kind == "other" {
		if v.rest != nil && v.rest != list || v.found == list {
			return "an error without a known form takes the place of one with a known form"
		}
		v.rest = list
		if !el.isCall("fmt.Errorf") || len(el.Args) < 2 || el.Args[1].Op != "list" {
			return "an error is reported without what it says: " + el.String()
		}
		about, is := false, false
		for _, a := range el.Args[1].Args {
			a = unbox(a)
			is = is || a == v.ee
			about = about || v.coords(it, a) == ""
		}
		if !is || !about {
			return "an error is reported without what it says, or where: " + el.String()
		}
		return ""
	}
	if v.found != nil && v.found != list || v.rest == list {
		return "errors of known forms end up in different lists"
	}
	v.found = list
	if el.Op != "alloc" {
		return "the entry is not known: " + el.String()
	}
	r, why := v.rendering(it, el)
	if why != "" {
		return why
	}
	if why := v.coords(it, it.field(e, el, r.coords)); why != "" {
		return why
	}
	if !v.positions(it, it.field(e, el, r.schPos), true) {
		return "what is printed as the schema's positions is not those in CUE files: " + it.field(e, el, r.schPos).String()
	}
	if !v.positions(it, it.field(e, el, r.datPos), false) {
		return "what is printed as the data's positions is not those outside CUE files: " + it.field(e, el, r.datPos).String()
	}
	at := func(i int64) *Term { return e.index(vals, e.int(i)) }
	switch kind {
	case "missing":
		if !r.missing {
			return "a missing field is reported as something else"
		}
		if r.schVal == "" || r.datVal != "" || !v.readable(it, it.field(e, el, r.schVal), at(0)) {
			return "the type of a missing field is not the one in the error"
		}
	case "excess":
		if !r.excess {
			return "an excess field is reported as something else"
		}
		if r.datVal == "" || r.schVal != "" || it.field(e, el, r.datVal) != at(0) && !v.readable(it, it.field(e, el, r.datVal), at(0)) {
			return "the value of an excess field is not the one in the error"
		}
	case "two":
		if r.missing || r.excess {
			return "a conflict is reported as a missing or excess field"
		}
		first, known := v.dataFirst(it)
		if !known {
			return "which of the values is the data's is not considered"
		}
		s, d := at(0), at(1)
		if first {
			s, d = d, s
		}
		if r.schVal == "" || r.datVal == "" {
			return "a conflict is reported without one of its sides"
		}
		if !v.readable(it, it.field(e, el, r.schVal), s) {
			return "what is printed as the schema's value is not: " + it.field(e, el, r.schVal).String()
		}
		if g := it.field(e, el, r.datVal); g != d && !v.readable(it, g, d) {
			return "what is printed as the data's value is not: " + g.String()
		}
	}
	return ""
}

// dataFirst: the first position is that of data.
func (v *verrs) dataFirst(it *Outcome) (bool, bool) {
	e := v.e
	ip := v.inputPositions(it)
	if ip == nil {
		return false, false
	}
	n := e.length(ip)
	if e.implied(it.Facts, e.lt(e.int(1), n), false) {
		return false, true
	}
	cueFile, known := v.inCue(it, e.index(ip, e.int(0)))
	if known && cueFile {
		return false, true
	}
	if known && e.implied(it.Facts, e.lt(e.int(1), n), true) {
		return true, true
	}
	return false, false
}

func (v *verrs) inCue(it *Outcome, pos *Term) (bool, bool) {
	e := v.e
	return v.known(it, e.mk("call", "strings.HasSuffix", e.mk("call", "(cuelang.org/go/cue/token.Pos).Filename", pos), e.str(".cue")))
}

func (v *verrs) called(it *Outcome, method string) *Term {
	for _, ev := range it.Events {
		if ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "errors.Error."+method) && ev.Term.Args[0] == v.ee {
			return ev.Term
		}
	}
	return nil
}

func (v *verrs) inputPositions(it *Outcome) *Term { return v.called(it, "InputPositions") }

// positions: the list has exactly the positions in (or outside) CUE files, in order.
func (v *verrs) positions(it *Outcome, list *Term, inCue bool) bool {
	e := v.e
	ip := v.inputPositions(it)
	if ip == nil {
		return false
	}
	if list.isNil() || list.Op == "zero" {
		return e.implied(it.Facts, e.eq(e.length(ip), e.int(0)), true)
	}
	loop := listLoop(list)
	if loop == "" || loop == v.loop || !e.implied(it.Facts, e.lt(e.iter(loop), e.length(ip)), false) {
		return false
	}
	if in := e.listInit(v.outs, loop, list); in == nil || !in.isNil() && in.Op != "zero" && !isEmptyMake(in) {
		return false
	}
	n := 0
	for _, jt := range iterations(v.outs, loop) {
		if !e.samePath(jt, it, loop) {
			continue
		}
		n++
		pos := e.index(ip, e.iter(loop))
		is, known := v.inCue(jt, pos)
		added, ok := flat(carriedTo(e, jt, list), list)
		if !ok || !known {
			return false
		}
		if is == inCue && (len(added) != 1 || added[0] != pos) || is != inCue && len(added) != 0 {
			return false
		}
	}
	return n > 0
}

// coords: the schema is the one asked, and the path that of the error below it.
func (v *verrs) coords(it *Outcome, t *Term) string {
	e := v.e
	t = unbox(t)
	if t.Op == "alloc" {
		t = it.st.load(e, t, anyType)
	}
	sch, path := v.coordFields(t)
	if sch == "" || path == "" {
		return "where the error is is not known: " + t.String()
	}
	if e.fld(t, sch) != v.recv && unbox(e.fld(t, sch)) != v.recv {
		return "another schema is named than the one asked"
	}
	p := v.called(it, "Path")
	if p == nil {
		return "the path of the error is not used"
	}
	got := e.fld(t, path)
	if got == p || got.isNil() || got.Op == "zero" {
		if e.implied(it.Facts, e.eq(e.length(p), e.int(0)), true) {
			return ""
		}
		return "the path has thema's own part in front"
	}
	x, from := e.sliceFrom(got)
	if x != p || from == nil {
		return "the path is not that of the error: " + got.String()
	}
	// the first element named schemas that is followed by an index and a definition
	for _, f := range it.Facts {
		if !f.Val || f.C.Op != "eq" {
			continue
		}
		for i := range f.C.Args {
			if k := f.C.Args[1-i]; isStr(f.C.Args[i], "schemas") && k.Op == "index" && k.Args[0] == p {
				at := k.Args[1]
				if from == e.add(at, e.int(3)) && e.implied(it.Facts, e.lt(e.length(p), e.add(at, e.int(3))), false) && v.firstSchemas(it, p, at) {
					return ""
				}
			}
		}
	}
	if n, ok := from.constInt(); ok && n == 1 {
		for loop := range it.passed() {
			if loop == v.loop || !e.implied(it.Facts, e.lt(e.iter(loop), e.length(p)), false) && !e.implied(it.Facts, e.lt(e.length(p), e.add(e.iter(loop), e.int(3))), true) {
				continue
			}
			if v.noSchemas(it, p, loop) {
				return ""
			}
		}
		return "the path is cut although it may have thema's own part in front"
	}
	return "the path is not cut where the schema starts: " + got.String()
}

// noSchemas: every round of the loop that goes on is about an element that is
// not the start of a schema.
func (v *verrs) noSchemas(it *Outcome, p *Term, loop string) bool {
	e := v.e
	i := e.iter(loop)
	n := 0
	for _, jt := range iterations(v.outs, loop) {
		if !e.samePath(jt, it, loop) {
			continue
		}
		n++
		is, known := v.known(jt, e.eq(e.index(p, i), e.str("schemas")))
		if known && !is || e.implied(jt.Facts, e.lt(e.length(p), e.add(i, e.int(3))), true) {
			continue
		}
		return false
	}
	return n > 0
}

func (v *verrs) firstSchemas(it *Outcome, p, at *Term) bool {
	for loop := range it.passed() {
		if at == v.e.iter(loop) {
			return v.noSchemas(it, p, loop)
		}
	}
	// still in the loop, which was left by a jump
	for _, ev := range it.Events {
		if ev.Kind == evEnter && at == v.e.iter(ev.Loop) {
			return v.noSchemas(it, p, ev.Loop)
		}
	}
	return false
}

// coordFields: the fields that hold the schema and the path, by how the value prints.
func (v *verrs) coordFields(t *Term) (sch, path string) {
	typ := t.T
	if typ == nil {
		k := t
		for k.Op == "upd" {
			k = k.Args[0]
		}
		if k.Op == "zero" {
			typ = v.c.p.namedType(k.Sym)
		}
	}
	if typ == nil {
		return "", ""
	}
	m := v.c.methodFor(typ, "String")
	if m == nil {
		return "", ""
	}
	e, outs := v.c.run(m)
	self := e.paramTerms(m)[0]
	for _, o := range outs {
		if o.Kind != outReturn {
			return "", ""
		}
		var s, p string
		name, ver := false, false
		o.Vals[0].walk(func(t *Term) bool {
			if t.Op == "fld" && t.Sym == "name" && t.Args[0].Op == "fld" && t.Args[0].Args[0].Op == "fld" && t.Args[0].Args[0].Args[0] == self {
				name, s = true, t.Args[0].Args[0].Sym
			}
			if t.Op == "fld" && t.Sym == "v" && t.Args[0].Op == "fld" && t.Args[0].Args[0] == self {
				ver = true
			}
			if t.isCall("strings.Join") && isStr(t.Args[1], ".") && t.Args[0].Op == "fld" && t.Args[0].Args[0] == self {
				p = t.Args[0].Sym
			}
			return true
		})
		if !name || !ver || p == "" {
			v.c.fail("text", o.Pos, m, e, o, "the lineage, the version or the path is not printed: %v", o.Vals[0])
			return "", ""
		}
		sch, path = s, p
	}
	return sch, path
}

// readable: the text with every alternative that has a shorter name replaced by it.
func (v *verrs) readable(it *Outcome, t, s *Term) bool {
	e := v.e
	if !t.isCall("strings.Join") || !isStr(t.Args[1], " | ") {
		return false
	}
	parts := e.mk("call", "strings.Split", s, e.str(" | "))
	for loop := range it.passed() {
		if loop == v.loop || !e.implied(it.Facts, e.lt(e.iter(loop), e.length(parts)), false) {
			continue
		}
		i := e.iter(loop)
		part := e.index(parts, i)
		ok, n := true, 0
		for _, jt := range iterations(v.outs, loop) {
			if !e.samePath(jt, it, loop) {
				continue
			}
			n++
			got := v.stored(jt, loop, t.Args[0], i)
			if got == nil && t.Args[0] == parts && !storesInto(jt, loop, parts) {
				got = part
			}
			if got == nil {
				ok = false
				break
			}
			if got == part {
				// only if it has no name
				none := false
				for _, f := range jt.Facts {
					if f.C.Op == "has" && f.C.Args[1] == part && !f.Val {
						none = true
						v.tables[f.C.Args[0]] = true
					}
				}
				ok = ok && none
				continue
			}
			if got.Op != "lookup" || got.Args[1] != part {
				ok = false
				break
			}
			if has, known := v.known(jt, e.mk("has", "", got.Args[0], part)); !known || !has {
				ok = false
				break
			}
			v.tables[got.Args[0]] = true
		}
		if ok && n > 0 {
			return true
		}
	}
	return false
}

func storesInto(jt *Outcome, loop string, list *Term) bool {
	entered := false
	for _, ev := range jt.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			entered = true
		}
		if entered && ev.Kind == evStore && ev.Args[0].Op == "saddr" && ev.Args[0].Args[0] == list {
			return true
		}
	}
	return false
}

// stored is what an iteration puts into the list: at its own index, or at the end.
func (v *verrs) stored(jt *Outcome, loop string, list, i *Term) *Term {
	e := v.e
	if lv := listLoop(list); lv == loop {
		added, ok := flat(carriedTo(e, jt, list), list)
		if ok && len(added) == 1 {
			return added[0]
		}
		return nil
	}
	var got *Term
	entered := false
	for _, ev := range jt.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			entered = true
		}
		if !entered || ev.Kind != evStore || ev.Args[0].Op != "saddr" || ev.Args[0].Args[0] != list {
			continue
		}
		if got != nil || ev.Args[0].Args[1] != i {
			return nil
		}
		got = ev.Args[1]
	}
	return got
}

// returned: the error is the list of entries, or what else there is if that is empty.
func (v *verrs) returned(o *Outcome, errs *Term) string {
	e := v.e
	if !e.implied(o.Facts, e.lt(e.iter(v.loop), e.length(errs)), false) {
		return "not all errors are looked at"
	}
	got := unbox(o.Vals[1])
	switch {
	case v.found != nil && got == v.found:
		if !e.implied(o.Facts, e.eq(e.length(v.found), e.int(0)), false) && v.rest != nil {
			return "the entries are returned although there may be none"
		}
	case v.rest != nil && got == v.rest:
		if !e.implied(o.Facts, e.eq(e.length(v.found), e.int(0)), true) {
			return "entries are lost: other errors are returned instead"
		}
	default:
		return "what is returned is not what was found: " + got.String()
	}
	// its text is that of all entries
	typ := v.c.boxedType(o.Vals[1])
	if typ == nil {
		return "the type of the error is not known"
	}
	m := v.c.methodFor(typ, "Error")
	if m == nil {
		return "the error has no text"
	}
	me, mo := v.c.run(m)
	self := me.paramTerms(m)[0]
	for _, x := range mo {
		if x.Kind != outReturn {
			continue
		}
		items := v.c.printedText(me, mo, x)
		ok := false
		for _, it := range items {
			if it.each == self {
				ok = true
			}
		}
		if !ok {
			return "the text of the error does not have the text of every entry"
		}
	}
	return ""
}

// table: names stand for exactly the numbers of the Go type.
func (v *verrs) table(t *Term) {
	c := v.c
	n := 0
	name := ""
	have := map[string]bool{}
	t.walk(func(k *Term) bool {
		if k.Op == "gval" || k.Op == "global" {
			name = k.Sym
		}
		return true
	})
	if name == "" {
		name = t.Sym
	}
	for _, fn := range c.p.allFuncs() {
		if fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg == nil || g.Pkg.Pkg.Path()+"."+g.Name() != name {
					continue
				}
				for _, r := range *st.Val.Referrers() {
					mu, ok := r.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					k, ok1 := mu.Key.(*ssa.Const)
					x, ok2 := mu.Value.(*ssa.Const)
					if !ok1 || !ok2 {
						c.fail("names", mu.Pos(), fn, nil, nil, "an entry of the table of names is not constant")
						continue
					}
					ks, _ := strconv.Unquote(k.Value.ExactString())
					xs, _ := strconv.Unquote(x.Value.ExactString())
					if !sameNumbers(ks, xs) {
						c.fail("names", mu.Pos(), fn, nil, nil, "%q is not %s", ks, xs)
						continue
					}
					n++
					switch {
					case strings.HasPrefix(ks, "int & "):
						have["int & "+xs] = true
					case strings.HasSuffix(ks, " & int"):
						have[xs+" & int"] = true
					default:
						have[xs] = true
					}
				}
			}
		}
	}
	if n == 0 {
		c.fail("names", fnPos(v.fn), v.fn, nil, nil, "the table of names is not known: %v", t)
		return
	}
	for _, typ := range []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"} {
		forms := []string{"int & " + typ, typ + " & int"}
		if typ[0] == 'f' {
			forms = []string{typ}
		}
		for _, f := range forms {
			if !have[f] {
				c.fail("names", fnPos(v.fn), v.fn, nil, nil, "bounds of %s (as %s) are not named", typ, f)
			}
		}
	}
	c.ok("names of types stand for what they replace", name, n)
}

// sameNumbers: the constraint is that of the Go number type.
func sameNumbers(constraint, typ string) bool {
	var lo, hi *big.Rat
	isInt := false
	for _, p := range strings.Split(constraint, " & ") {
		switch {
		case p == "int":
			isInt = true
		case strings.HasPrefix(p, ">="):
			lo, _ = new(big.Rat).SetString(p[2:])
		case strings.HasPrefix(p, "<="):
			hi, _ = new(big.Rat).SetString(p[2:])
		default:
			return false
		}
	}
	if lo == nil || hi == nil {
		return false
	}
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	switch {
	case strings.HasPrefix(typ, "uint"), strings.HasPrefix(typ, "int"):
		bits, err := strconv.Atoi(typ[strings.Index(typ, "int")+3:])
		if err != nil || !isInt {
			return false
		}
		l, h := new(big.Int), new(big.Int)
		if typ[0] == 'u' {
			h.Sub(pow(uint(bits)), big.NewInt(1))
		} else {
			l.Neg(pow(uint(bits - 1)))
			h.Sub(pow(uint(bits-1)), big.NewInt(1))
		}
		return lo.Cmp(new(big.Rat).SetInt(l)) == 0 && hi.Cmp(new(big.Rat).SetInt(h)) == 0
	case typ == "float32", typ == "float64":
		if isInt || new(big.Rat).Neg(lo).Cmp(hi) != 0 {
			return false
		}
		f, _ := hi.Float64()
		if typ == "float32" {
			return f == 3.40282346638528859811704183484516925440e+38
		}
		return f == 1.79769313486231570814527423731704356798070e+308
	}
	return false
}

// rendering is the text of an entry, for the values its fields have.
func (v *verrs) rendering(it *Outcome, el *Term) (rendered, string) {
	e := v.e
	ptr, ok := types.Unalias(el.T).(*types.Pointer)
	if !ok {
		return rendered{}, "the type of the entry is not known"
	}
	m := v.c.methodFor(ptr, "Error")
	if m == nil {
		return rendered{}, "the entry has no text"
	}
	rs, ok := v.texts[ptr.Elem()]
	if !ok {
		me, mo := v.c.run(m)
		for _, o := range mo {
			if o.Kind == outReturn {
				rs = append(rs, v.render(me, mo, o, me.paramTerms(m)[0]))
			}
		}
		v.texts[ptr.Elem()] = rs
	}
	var out *rendered
	for i, r := range rs {
		possible := true
		for _, f := range r.o.Facts {
			if f.C.Op != "eq" {
				continue
			}
			for k := range f.C.Args {
				x, c := f.C.Args[k], f.C.Args[1-k]
				if x.Op != "fld" || x.Args[0] != r.self || c.Op != "const" {
					continue
				}
				have := it.field(e, el, x.Sym)
				if have.Op == "zero" {
					have = e.int(0)
				}
				if have.Op != "const" {
					return rendered{}, "what kind of entry it is is not known: " + have.String()
				}
				if (have.Sym == c.Sym) != f.Val {
					possible = false
				}
			}
		}
		if !possible {
			continue
		}
		if out != nil {
			return rendered{}, "an entry has more than one text"
		}
		out = &rs[i]
	}
	if out == nil {
		return rendered{}, "an entry has no text"
	}
	return *out, out.why
}

// render reads off which field is printed as what.
func (v *verrs) render(e *Engine, outs []*Outcome, o *Outcome, self *Term) rendered {
	r := rendered{o: o, self: self, items: v.c.printedText(e, outs, o)}
	fieldOf := func(t *Term) string {
		f := ""
		t.walk(func(k *Term) bool {
			if k.Op == "fld" && k.Args[0] == self && f == "" {
				f = k.Sym
			}
			return true
		})
		return f
	}
	var text, since string
	seen := 0 // lists so far
	for _, it := range r.items {
		switch {
		case it.each != nil:
			f := fieldOf(it.each)
			if it.each != e.fld(self, f) {
				r.why = "not all positions are printed: " + it.each.String()
			}
			if seen == 0 {
				r.schPos = f
			} else if seen == 1 {
				r.datPos = f
			}
			if side := []string{"schema", "data"}; seen < 2 && !strings.Contains(since, side[seen]) {
				r.why = "the text does not tell which side is the " + side[seen] + "'s"
			}
			since = ""
			seen++
		case it.term != nil:
			f := fieldOf(it.term)
			switch {
			case r.coords == "":
				r.coords = f
			case seen == 0:
				r.schVal = f
			case seen == 1:
				r.datVal = f
			}
		default:
			text += it.lit
			since += it.lit
		}
	}
	r.missing = strings.Contains(text, "absent from data")
	r.excess = strings.Contains(text, "exists in data")
	if r.why == "" && (seen != 2 || r.coords == "" || r.schPos == "" || r.datPos == "") {
		r.why = "the text of an entry does not have its place and the positions of both sides"
	}
	return r
}

// printedText is the text a method returns, in pieces.
func (c *Ctx) printedText(e *Engine, outs []*Outcome, o *Outcome) []printedItem {
	return (&printer{c: c, e: e, outs: outs}).items(o, o.Vals[0])
}

type printer struct {
	c    *Ctx
	e    *Engine
	outs []*Outcome
}

// isAbout: what is printed is the element itself.
func isAbout(t, el *Term) bool {
	return t != nil && (t == el || t.Op == "call" && len(t.Args) > 0 && t.Args[0] == el && (strings.HasSuffix(t.Sym, ".String") || strings.HasSuffix(t.Sym, ".Error")))
}

// over is the list a loop was gone through with to its end.
func (p *printer) over(o *Outcome, loop string) *Term {
	for _, f := range o.Facts {
		if !f.Val && f.C.Op == "lt" && f.C.Args[0] == p.e.iter(loop) && f.C.Args[1].Op == "len" {
			return f.C.Args[1].Args[0]
		}
	}
	return nil
}

// eachOf: every round of the loop prints its element once.
func (p *printer) eachOf(o *Outcome, loop string, text func(*Outcome) []printedItem) []printedItem {
	list := p.over(o, loop)
	if list == nil {
		return nil
	}
	el := p.e.index(list, p.e.iter(loop))
	n := 0
	for _, it := range iterations(p.outs, loop) {
		if !p.e.samePath(it, o, loop) {
			continue
		}
		n++
		has := 0
		for _, x := range text(it) {
			if isAbout(x.term, el) {
				has++
			}
		}
		if has != 1 {
			return nil
		}
	}
	if n == 0 {
		return nil
	}
	return []printedItem{{each: list}}
}

func (p *printer) items(o *Outcome, t *Term) []printedItem {
	t = unbox(t)
	if s, ok := t.constStr(); ok {
		return []printedItem{{lit: s}}
	}
	var out []printedItem
	switch {
	case t.Op == "cat":
		for _, a := range t.Args {
			out = append(out, p.items(o, a)...)
		}
		return out
	case t.Op == "fmt" && len(t.Args) == 1:
		return []printedItem{{term: unbox(t.Args[0])}}
	case t.isCall("fmt.Sprintf") && len(t.Args) > 1:
		f, ok := t.Args[0].constStr()
		if ok && t.Args[1].Op == "list" {
			return p.format(o, f, t.Args[1].Args)
		}
	case t.isCall("(*bytes.Buffer).String", "(*strings.Builder).String"):
		return p.written(o, t.Args[0], "")
	}
	if loop := listLoop(t); loop != "" {
		if in := p.e.listInit(p.outs, loop, t); in != nil {
			out = append(out, p.items(o, in)...)
		}
		return append(out, p.eachOf(o, loop, func(it *Outcome) []printedItem {
			next := carriedTo(p.e, it, t)
			if next == nil || next.Op != "cat" || next.Args[0] != t {
				return nil
			}
			var add []printedItem
			for _, a := range next.Args[1:] {
				add = append(add, p.items(it, a)...)
			}
			return add
		})...)
	}
	return []printedItem{{term: t}}
}

// written is what a path writes to a buffer, from the start of a loop's round on.
func (p *printer) written(o *Outcome, buf *Term, after string) []printedItem {
	var items []printedItem
	on := after == ""
	for _, ev := range o.Events {
		if ev.Kind == evEnter && ev.Loop == after {
			on = true
			continue
		}
		if !on {
			continue
		}
		switch ev.Kind {
		case evEnter:
			items = append(items, p.eachOf(o, ev.Loop, func(it *Outcome) []printedItem { return p.written(it, buf, ev.Loop) })...)
		case evCall:
			a := ev.Term.Args
			if len(a) < 2 || rootAddr(unbox(a[0])) != rootAddr(buf) {
				continue
			}
			var args []*Term
			if l := a[len(a)-1]; l.Op == "list" {
				args = l.Args
			}
			switch {
			case ev.Term.isCall("fmt.Fprintf") && len(a) > 2:
				f, _ := a[len(a)-2].constStr()
				items = append(items, p.format(o, f, args)...)
			case ev.Term.isCall("fmt.Fprint", "fmt.Fprintln"):
				for _, x := range args {
					items = append(items, p.items(o, x)...)
				}
			case strings.HasSuffix(ev.Term.Sym, ".WriteString"):
				items = append(items, p.items(o, a[len(a)-1])...)
			}
		}
	}
	return items
}

func (p *printer) format(o *Outcome, f string, args []*Term) []printedItem {
	var out []printedItem
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 >= len(f) {
			out = append(out, printedItem{lit: f})
			break
		}
		if i > 0 {
			out = append(out, printedItem{lit: f[:i]})
		}
		if f[i+1] == '%' {
			out = append(out, printedItem{lit: "%"})
		} else if len(args) > 0 {
			out = append(out, p.items(o, args[0])...)
			args = args[1:]
		}
		f = f[i+2:]
	}
	return out
}

// methodFor finds a method of a type or of pointers to it, of this module.
func (c *Ctx) methodFor(t types.Type, name string) *ssa.Function {
	return c.p.methodOf(t, name)
}

// boxedType is the concrete type behind an interface value.
func (c *Ctx) boxedType(t *Term) types.Type {
	if t.Op == "box" {
		return c.p.namedType(t.Sym)
	}
	return nil
}

// namedType finds a type of the module by its full name.
func (p *Program) namedType(s string) types.Type {
	s = strings.TrimPrefix(s, "*")
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil
	}
	for _, pkg := range p.prog.AllPackages() {
		if pkg.Pkg.Path() == s[:i] {
			if o := pkg.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
