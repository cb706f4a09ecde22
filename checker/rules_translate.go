package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// filled describes a CUE value as a base with values filled in at paths.
type filled struct {
	base *Term
	args map[string]*Term
}

func (x *filled) put(k string, v *Term) {
	x.args[k] = v
}

// unbox drops interface boxing.
func unbox(t *Term) *Term {
	for t.Op == "box" {
		t = t.Args[0]
	}
	return t
}

// parsedPath returns the text of a path made of a constant.
func parsedPath(t *Term) (string, bool) {
	if t.Op == "path" {
		return t.Sym, true
	}
	if t.isCall(cuePkg + ".ParsePath") {
		return t.Args[0].constStr()
	}
	return "", false
}

// resolveFill recognises a value as base + fills: chains of FillPath, and loops
// that fill in every entry of a map of known content.
func (e *Engine) resolveFill(o *Outcome, outs []*Outcome, v *Term) *filled {
	if v.isCall(cv("FillPath")) {
		x := e.resolveFill(o, outs, v.Args[0])
		k, ok := parsedPath(v.Args[1])
		if x == nil || !ok {
			return nil
		}
		x.put(k, unbox(v.Args[2]))
		return x
	}
	list, acc := v, false
	if v.Op == "index" {
		n, c := e.linear(v.Args[1])
		if n != nil && n.Op == "len" && n.Args[0] == v.Args[0] && c == -1 {
			list, acc = v.Args[0], true
		}
	}
	if acc && list.Op == "append" && list.Args[1].Op == "list" && len(list.Args[1].Args) == 1 {
		return e.resolveFill(o, outs, list.Args[1].Args[0])
	}
	loop := listLoop(list)
	if loop == "" {
		if acc {
			return nil
		}
		return &filled{v, map[string]*Term{}}
	}
	if !o.passed()[loop] {
		return nil
	}
	its := iterations(outs, loop)
	if len(its) == 0 {
		return nil
	}
	init := e.listInit(outs, loop, list)
	if init == nil {
		return nil
	}
	if acc {
		init = e.expand1(o.st, init)
		if init.Op != "list" || len(init.Args) == 0 {
			return nil
		}
		init = init.Args[len(init.Args)-1]
	}
	x := e.resolveFill(o, outs, init)
	if x == nil {
		return nil
	}
	var src *Term
	for _, it := range its {
		var step *Term
		for _, c := range e.carriers(it) {
			if c.old != list {
				continue
			}
			if acc {
				if c.new.Op == "append" && c.new.Args[0] == list && c.new.Args[1].Op == "list" && len(c.new.Args[1].Args) == 1 {
					step = c.new.Args[1].Args[0]
				}
			} else {
				step = c.new
			}
		}
		if step == nil || !step.isCall(cv("FillPath")) || step.Args[0] != v {
			return nil
		}
		p := step.Args[1]
		if !p.isCall(cuePkg + ".ParsePath") {
			return nil
		}
		nk, i := p.Args[0].call2("next")
		nv, j := unbox(step.Args[2]).call2("next")
		if nk == nil || nk != nv || i != 1 || j != 2 || !strings.HasPrefix(nk.Args[0].Op, "range") {
			return nil
		}
		if src != nil && src != nk.Args[0].Args[1] {
			return nil
		}
		src = nk.Args[0].Args[1]
	}
	for src.Op == "mapput" {
		k, ok := src.Args[1].constStr()
		if !ok {
			return nil
		}
		if _, dup := x.args[k]; !dup {
			x.put(k, unbox(src.Args[2]))
		}
		src = src.Args[0]
	}
	if src.Op != "emptymap" {
		return nil
	}
	return x
}

// call2 is the tuple-producing term of operator op a projection is taken from.
func (t *Term) call2(op string) (*Term, int) {
	if t.Op == "ext" && t.Args[0].Op == op {
		n := 0
		fmt.Sscan(t.Sym, &n)
		return t.Args[0], n
	}
	return nil, -1
}

// ---------------------------------------------------------------- T09

// nilOf returns the subject of a nil comparison.
func nilOf(f Fact) *Term {
	if f.C.Op != "eq" {
		return nil
	}
	for j, a := range f.C.Args {
		if f.C.Args[1-j].isNil() {
			return a
		}
	}
	return nil
}

func ruleT09(c *Ctx) {
	fn := c.needMethod(c.p.roles.instance.Obj().Name(), "Translate")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	i, to := ps[0], ps[1]
	sch := e.mk("fld", "sch", i)
	lin := e.mk("fld", "lin", sch)
	target := e.mk("call", "Lineage.Schema", lin, to)
	tsch, terr := e.mk("ext", "0", target), e.mk("ext", "1", target)
	goLens := e.lt(e.int(0), e.length(e.mk("fld", "lensmap", lin)))
	want := map[string]*Term{"inst": e.mk("fld", "raw", i), "to": to, "from": e.mk("fld", "v", sch), "lin": e.mk("fld", "uni", lin)}
	base := e.lookupPath(e.mk("fld", "val", e.mk("fld", "rt", lin)), "#Translate")
	// applied: v is what #Translate gives at path p for exactly these arguments
	applied := func(o *Outcome, v *Term, p string) string {
		if !v.isCall(cv("LookupPath")) || v.Args[1].Op != "path" || v.Args[1].Sym != p {
			return fmt.Sprintf("the value is not read from %q: %v", p, v)
		}
		x := e.resolveFill(o, outs, v.Args[0])
		if x == nil {
			return "the arguments given to #Translate cannot be told"
		}
		if x.base != base {
			return fmt.Sprintf("the translation is not done by the runtime's #Translate: %v", x.base)
		}
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if x.args[k] != want[k] {
				return fmt.Sprintf("#Translate is given %v as %q", x.args[k], k)
			}
		}
		if len(x.args) != len(want) {
			return "#Translate is given further arguments"
		}
		return ""
	}
	strip := func(v *Term) *Term {
		if cl, n := v.call(); cl != nil && cl.isCall(cv("Default")) && n == 0 {
			return cl.Args[0]
		}
		if v.isCall(cv("Eval")) {
			return v.Args[0]
		}
		return v
	}
	n := map[string]int{}
	for _, o := range outs {
		if o.Kind == outBack {
			continue
		}
		if v, ok := e.fact(o.Facts, goLens); ok && v && e.nilness(o, terr) == isNil {
			n["go"]++ // decided by the rule about Go lenses
			continue
		}
		if o.Kind == outPanic {
			if !c.allowedPanic(e, o, i, terr) {
				c.fail("panic", o.Pos, fn, e, o, "Translate may panic for a version of the lineage")
			}
			continue
		}
		if o.Kind != outReturn {
			c.fail("translate", o.Pos, fn, e, o, "Translate may not return")
			continue
		}
		if e.nilness(o, terr) != isNil {
			if !o.Vals[0].isNil() || e.nilness(o, o.Vals[2]) != notNil {
				c.fail("target", o.Pos, fn, e, o, "Translate goes on without having found the schema of the target version in the instance's lineage")
			}
			continue
		}
		if v, ok := e.fact(o.Facts, goLens); ok && v {
			n["go"]++ // decided by the rule about Go lenses
			continue
		} else if !ok {
			c.fail("go lenses", o.Pos, fn, e, o, "Translate does not ask whether the lineage has Go lenses")
			continue
		}
		err := o.Vals[2]
		switch e.nilness(o, err) {
		case isNil:
			cl, k := o.Vals[0].call()
			if cl == nil || k != 0 || !cl.isCall("Schema.Validate") || cl.Args[0] != tsch || e.nilness(o, e.mk("ext", "1", cl)) != isNil {
				c.fail("result", o.Pos, fn, e, o, "Translate does not return what the target schema accepted as an instance: %v", o.Vals[0])
				continue
			}
			raw := cl.Args[1]
			if w := applied(o, strip(raw), "out.result.result"); w != "" {
				c.fail("result", o.Pos, fn, e, o, "the translated data is not the result of #Translate: %s", w)
				continue
			}
			outv := e.lookupPath(strip(raw).Args[0], "out")
			if e.nilness(o, e.mk("call", cv("Err"), outv)) != isNil {
				c.fail("result", o.Pos, fn, e, o, "Translate goes on although #Translate failed")
				continue
			}
			concrete := false
			for _, f := range o.Facts {
				if s := nilOf(f); s != nil && f.Val {
					if m, k := s.call(); m != nil && k == 1 && strings.HasSuffix(m.Sym, "json.Marshal") && m.Args[0] == raw {
						concrete = true
					}
					if m, k := s.call(); m != nil && k == 1 && m.isCall(cv("MarshalJSON")) && m.Args[0] == raw {
						concrete = true
					}
					if s.isCall(cv("Validate")) && s.Args[0] == raw && optConcrete("true")(s.Args[1]) {
						concrete = true
					}
				}
			}
			if !concrete {
				c.fail("concrete", o.Pos, fn, e, o, "a result that is not concrete is not told from a complete one")
				continue
			}
			if w := c.lacunas(e, o, o.Vals[1], applied); w != "" {
				c.fail("lacunas", o.Pos, fn, e, o, "the lacunas returned are not those of this translation: %s", w)
				continue
			}
			n["ok"]++
		case notNil:
			if !o.Vals[0].isNil() {
				c.fail("errors", o.Pos, fn, e, o, "Translate returns an instance together with an error")
				continue
			}
			ms := e.marks(err)
			if !ms["ErrInvalidLens"] {
				c.fail("errors", o.Pos, fn, e, o, "an error of Translate is not an ErrInvalidLens")
				continue
			}
			bad := false
			for _, f := range o.Facts {
				s := nilOf(f)
				if s == nil || f.Val {
					continue
				}
				m, k := s.call()
				if m == nil || k != 1 {
					continue
				}
				if m.isCall("Schema.Validate") && m.Args[0] == tsch && !ms["ErrLensResultIsInvalidData"] {
					c.fail("errors", o.Pos, fn, e, o, "a result the target schema rejects is not reported as ErrLensResultIsInvalidData")
					bad = true
				}
				if (strings.HasSuffix(m.Sym, "json.Marshal") || m.isCall(cv("MarshalJSON"))) && !ms["ErrLensIncomplete"] {
					c.fail("errors", o.Pos, fn, e, o, "a result that is not concrete is not reported as ErrLensIncomplete")
					bad = true
				}
			}
			if !bad {
				n["err"]++
			}
		default:
			c.fail("errors", o.Pos, fn, e, o, "cannot tell whether Translate fails on this path")
		}
	}
	for _, k := range []string{"ok", "err", "go"} {
		if n[k] == 0 {
			c.fail("translate", fnPos(fn), fn, nil, nil, "Translate has no path of kind %q left", k)
		}
	}
	c.ok("success paths return the validated result of #Translate for this instance, versions and lineage", fname(fn), n["ok"])
	c.ok("failing paths return no instance and a classified error", fname(fn), n["err"])
	c.ok("lineages with Go lenses are translated by them", fname(fn), n["go"])
	c.neighbours()
	c.lacunaList()
}

// lacunas: the value was decoded, without error, from out.lacunas.
func (c *Ctx) lacunas(e *Engine, o *Outcome, v *Term, applied func(*Outcome, *Term, string) string) string {
	v = unbox(v)
	if v.Op != "out" || !v.Args[0].isCall(cv("Decode")) {
		return fmt.Sprintf("%v", v)
	}
	if e.nilness(o, v.Args[0]) != isNil {
		return "decoding them may have failed"
	}
	return applied(o, v.Args[0].Args[0], "out.lacunas")
}

// allowedPanic: Translate only panics for invalid receivers, versions that do
// not exist, and if the CUE side lost #Translate or an argument of it.
func (c *Ctx) allowedPanic(e *Engine, o *Outcome, i, terr *Term) bool {
	if invalidReceiver(e, o, i) || e.nilness(o, terr) == notNil {
		return true
	}
	for _, f := range o.Facts {
		if f.C.isCall(cv("Allows"), cv("Exists")) && !f.Val {
			return true
		}
		if f.C.Op == "istype" && !f.Val && f.C.Args[0] == e.mk("fld", "lin", e.mk("fld", "sch", i)) {
			return true // not one of the module's lineages
		}
		if s := nilOf(f); s != nil && !f.Val && s.isCall(cv("Err")) && s.Args[0].isCall(cv("LookupPath")) {
			if p := s.Args[0].Args[1]; p.Op != "path" || p.Sym == "#Translate" {
				return true
			}
		}
	}
	return false
}

// neighbours decides AsSuccessor and AsPredecessor.
func (c *Ctx) neighbours() {
	for _, x := range []struct{ m, nav string }{{"AsSuccessor", "Schema.Successor"}, {"AsPredecessor", "Schema.Predecessor"}} {
		fn := c.needMethod(c.p.roles.instance.Obj().Name(), x.m)
		if fn == nil {
			continue
		}
		e, outs := c.run(fn)
		i := e.paramTerms(fn)[0]
		sch := e.mk("fld", "sch", i)
		nb := e.mk("call", x.nav, sch)
		tr := e.mk("call", "Instance.Translate", i, e.mk("fld", "v", nb))
		k := 0
		for _, o := range outs {
			switch o.Kind {
			case outPanic:
				if !invalidReceiver(e, o, i) {
					c.fail("neighbour", o.Pos, fn, e, o, "%s may panic on a valid instance", x.m)
				}
			case outReturn:
				switch e.nilness(o, nb) {
				case isNil:
					if !o.Vals[0].isNil() || e.nilness(o, o.Vals[2]) != notNil || !e.marks(o.Vals[2])["ErrVersionNotExist"] {
						c.fail("neighbour", o.Pos, fn, e, o, "%s at the end of the lineage is not reported as ErrVersionNotExist", x.m)
						continue
					}
				case notNil:
					c0, k0 := o.Vals[0].call()
					c1, k1 := o.Vals[1].call()
					c2, k2 := o.Vals[2].call()
					byTranslate := c0 == tr && c1 == tr && c2 == tr && k0 == 0 && k1 == 1 && k2 == 2
					minor := x.m == "AsSuccessor" && o.Vals[0].Op == "alloc" && o.field(e, o.Vals[0], "sch") == nb && o.field(e, o.Vals[0], "raw") == e.mk("fld", "raw", i) &&
						o.Vals[1].isNil() && e.nilness(o, o.Vals[2]) == isNil &&
						e.holds(o.Facts, e.eq(e.index(e.mk("fld", "v", nb), e.int(0)), e.index(e.mk("fld", "v", sch), e.int(0))))
					if !byTranslate && !minor {
						c.fail("neighbour", o.Pos, fn, e, o, "%s is not the translation to the neighbouring version", x.m)
						continue
					}
				default:
					c.fail("neighbour", o.Pos, fn, e, o, "%s does not look whether there is a neighbouring schema", x.m)
					continue
				}
				k++
			}
		}
		c.ok("the neighbouring version is translated to, the ends are errors", fname(fn), k)
	}
}

// lacunaList: AsList gives all lacunas, in order.
func (c *Ctx) lacunaList() {
	var fn *ssa.Function
	iface := c.p.rootType("TranslationLacunas")
	if iface == nil {
		return
	}
	it, _ := iface.Underlying().(*types.Interface)
	for _, f := range c.p.allFuncs() {
		if f.Name() == "AsList" && f.Blocks != nil && fnPkgPath(f) == modPath && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), it) {
			if _, ok := f.Signature.Recv().Type().Underlying().(*types.Slice); ok {
				fn = f
			}
		}
	}
	if fn == nil {
		c.failAt("anchor", "AsList", "the list of lacunas is not there, so nothing can be decided")
		return
	}
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	for _, o := range outs {
		if o.Kind == outPanic {
			c.fail("lacunas", o.Pos, fn, e, o, "listing lacunas may panic")
		}
		if o.Kind != outReturn {
			continue
		}
		v := o.Vals[0]
		segs, ok := e.segments(o, outs, v, e.nilT())
		if !ok {
			segs, ok = e.segments(o, outs, v, e.listInit(outs, listLoop(v), v))
		}
		if ok && len(segs) == 1 && segs[0].Op == "flatten" {
			g := segs[0].Args[0]
			ok = g.Op == "fld" && g.Args[0] == e.index(recv, e.iter(segs[0].Sym))
		} else if e.implied(o.Facts, e.lt(e.int(0), e.length(recv)), false) {
			ok = e.emptyList(v)
		} else {
			ok = false
		}
		if !ok {
			c.fail("lacunas", o.Pos, fn, e, o, "AsList loses or reorders lacunas")
			continue
		}
		c.ok("AsList gives the lacunas of every step in order", fname(fn), 1)
	}
}

// ---------------------------------------------------------------- T10

func ruleT10(c *Ctx) {
	fn := c.needMethod(c.p.roles.instance.Obj().Name(), "Translate")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	i, to := ps[0], ps[1]
	sch := e.mk("fld", "sch", i)
	lin := e.mk("fld", "lin", sch)
	lensmap := e.mk("fld", "lensmap", lin)
	target := e.mk("call", "Lineage.Schema", lin, to)
	terr := e.mk("ext", "1", target)
	goLens := e.lt(e.int(0), e.length(lensmap))
	from := e.mk("fld", "v", sch)
	q := newSeq(c, e, outs)
	ver := func(s *Term) *Term { return e.fld(s, "v") }
	// lens recognises the application of a lens
	lens := func(t *Term) (key, inst, to *Term) {
		if !t.isCall("dynamic") || len(t.Args) < 3 {
			return
		}
		f := t.Args[0]
		if f.Op != "fld" || f.Sym != "Mapper" {
			return
		}
		l := f.Args[0]
		if l.Op != "lookup" || l.Args[0] != e.mk("map0", "", lensmap) {
			return
		}
		return l.Args[1], t.Args[1], t.Args[2]
	}
	backward := func(o *Outcome, s *Term, want bool) bool {
		for _, v := range []*Term{from, ver(s)} {
			other := q.less(to, v)
			if want {
				other = append(append(disj{}, q.less(v, to)...), []Fact{eqf(e, v, to)})
			}
			if !e.satisfiable(o.Facts, []disj{other}) {
				return true
			}
		}
		return false
	}
	steps, lensSteps, minorSteps, good, bad := 0, 0, 0, 0, 0
	loops := map[string]*goLoop{}
	for _, o := range outs {
		if v, ok := e.fact(o.Facts, goLens); !ok || !v || o.Kind != outBack {
			continue
		}
		g := loops[o.Loop]
		if g == nil {
			g = &goLoop{}
			loops[o.Loop] = g
		}
		w := c.goStep(e, o, g, i, lens, backward, to)
		if w == "-" {
			continue
		}
		if w != "" {
			c.fail("step", o.Pos, fn, e, o, "%s", w)
			continue
		}
		steps++
		if g.byLens {
			lensSteps++
		} else {
			minorSteps++
		}
	}
	for l, g := range loops {
		its := iterations(outs, l)
		// what the walk starts from
		for _, it := range its {
			for _, cr := range e.carriers(it) {
				if cr.old == g.schema && cr.init != sch {
					c.fail("step", it.Pos, fn, e, it, "the walk does not start from the instance's own schema")
				}
				if cr.old == g.cur && g.cur.Op == "loopvar" && cr.init != i {
					c.fail("step", it.Pos, fn, e, it, "the walk does not start from the instance itself")
				}
			}
		}
		if g.cur != nil && g.cur.Op == "alloc" {
			if init := e.memStart(outs, l, g.cur); init == nil || init.Op != "deref" || init.Args[0] != i {
				c.fail("step", fnPos(fn), fn, nil, nil, "the walk does not start from a copy of the instance itself")
			}
		}
	}
	for _, o := range outs {
		if v, ok := e.fact(o.Facts, goLens); !ok || !v {
			continue
		}
		switch o.Kind {
		case outPanic:
			okp := invalidReceiver(e, o, i) || e.nilness(o, terr) == notNil
			for _, f := range o.Facts {
				if s := nilOf(f); s != nil && !f.Val && s.Op == "ext" && s.Sym == "2" && s.Args[0].isCall("Instance.AsSuccessor") {
					okp = true // a minor upgrade does not fail (T09)
				}
			}
			if !okp {
				c.fail("panic", o.Pos, fn, e, o, "translation by Go lenses may panic")
			}
		case outReturn:
			if e.nilness(o, terr) != isNil {
				continue
			}
			err := o.Vals[2]
			switch e.nilness(o, err) {
			case isNil:
				if !unbox(o.Vals[1]).isNil() {
					c.fail("lacunas", o.Pos, fn, e, o, "lacunas are made up for a translation by Go lenses: %v", o.Vals[1])
					continue
				}
				if o.Vals[0] == i && e.holds(o.Facts, e.eq(to, from)) {
					good++
					continue
				}
				ok := false
				for l, g := range loops {
					if !o.entered(l) || g.cur == nil {
						continue
					}
					at := g.schema
					if at == nil {
						at = e.fld(e.mk("loopmem", l, g.cur), "sch")
						if g.cur.Op == "loopvar" {
							at = e.fld(g.cur, "sch")
						}
					}
					if o.Vals[0] == g.cur && e.holds(o.Facts, e.eq(to, ver(at))) {
						ok = true
						if g.cur.Op == "alloc" {
							lm := e.mk("loopmem", l, g.cur)
							ok = o.field(e, g.cur, "raw") == e.fld(lm, "raw") && o.field(e, g.cur, "sch") == e.fld(lm, "sch")
						}
					}
				}
				if !ok {
					c.fail("result", o.Pos, fn, e, o, "what is returned is not the instance the walk arrived at when it reached the target version: %v", o.Vals[0])
					continue
				}
				good++
			case notNil:
				if !o.Vals[0].isNil() {
					c.fail("errors", o.Pos, fn, e, o, "an instance is returned together with an error")
					continue
				}
				if !e.marks(err)["ErrInvalidLens"] {
					c.fail("errors", o.Pos, fn, e, o, "a failure of a Go lens is not reported as ErrInvalidLens")
					continue
				}
				cause := false
				for _, f := range o.Facts {
					if s := nilOf(f); s != nil && s.Op == "ext" {
						if _, _, n := lens(s.Args[0]); n != nil && (s.Sym == "1" && !f.Val || s.Sym == "0" && f.Val) {
							cause = true
						}
						if s.Args[0].isCall("Instance.AsSuccessor") && s.Sym == "2" && !f.Val {
							cause = true
						}
					}
					if f.C.Op == "eq" && !f.Val {
						f.C.walk(func(t *Term) bool {
							if t.Op == "ext" && t.Sym == "0" {
								if _, _, n := lens(t.Args[0]); n != nil {
									cause = true
								}
							}
							return true
						})
					}
				}
				if !cause {
					c.fail("errors", o.Pos, fn, e, o, "translation by Go lenses may fail although no lens did")
					continue
				}
				bad++
			default:
				c.fail("errors", o.Pos, fn, e, o, "cannot tell whether the translation failed")
			}
		}
	}
	if steps == 0 || lensSteps == 0 || good == 0 || bad == 0 {
		c.fail("step", fnPos(fn), fn, nil, nil, "the walk along the Go lenses was not found")
		return
	}
	c.ok("a step applies the registered lens for exactly this pair of neighbouring versions and checks its result", fname(fn), lensSteps)
	c.ok("a minor step upwards is an implicit lens", fname(fn), minorSteps)
	c.ok("success means that the walk reached the target version", fname(fn), good)
	c.ok("failures carry ErrInvalidLens and no instance, and have a lens as their cause", fname(fn), bad)
	c.ok("the walk starts from the instance and its schema", fname(fn), len(loops))
}

type goLoop struct {
	cur    *Term // the current instance: an object rewritten in place, or a variable
	schema *Term // the current schema, if it is a variable of its own
	byLens bool
}

// goStep decides one round of the walk along the Go lenses.
func (c *Ctx) goStep(e *Engine, o *Outcome, g *goLoop, i *Term, lens func(*Term) (*Term, *Term, *Term), backward func(*Outcome, *Term, bool) bool, to *Term) string {
	var res, cur, next, key *Term
	byLens := false
	var base *Event
	for k := range o.Events {
		ev := &o.Events[k]
		if ev.Kind != evCall {
			continue
		}
		if kk, in, n := lens(ev.Term); n != nil {
			if res != nil {
				return "a step applies more than one lens"
			}
			res, key, cur, next, byLens = ev.Term, kk, in, n, true
			base = ev
		}
		if ev.Term.isCall("Instance.AsSuccessor") {
			if res != nil {
				return "a step applies more than one lens"
			}
			res, cur = ev.Term, ev.Term.Args[0]
			base = ev
		}
	}
	_ = base
	if res == nil {
		return "a step applies no lens registered with the lineage"
	}
	g.byLens = byLens
	if g.cur != nil && g.cur != cur {
		return "the walk does not carry one current instance"
	}
	g.cur = cur
	// the schema the walk is at
	var s *Term
	isStep := func(n *Term) *Term {
		if n.isCall("Schema.Successor", "Schema.Predecessor") {
			return n.Args[0]
		}
		return nil
	}
	curSch := e.fld(cur, "sch")
	if cur.Op == "alloc" {
		curSch = e.fld(e.mk("loopmem", o.Loop, cur), "sch")
	}
	if byLens {
		s = isStep(next)
		if s == nil {
			return "the schema given to the lens is not a neighbour of the current one"
		}
	} else {
		for _, ev := range o.Events {
			if ev.Kind == evCall && isStep(ev.Term) != nil {
				s, next = isStep(ev.Term), ev.Term
			}
		}
		if s == nil {
			return "a minor step is taken without knowing the successor"
		}
	}
	if s != curSch {
		if s.Op != "loopvar" {
			return "the step does not start at the current schema"
		}
		g.schema = s
		moved := false
		for _, cr := range e.carriers(o) {
			if cr.old == s {
				moved = cr.new == next || cr.new == e.fld(e.mk("ext", "0", res), "sch")
			}
		}
		if !moved {
			return "the walk does not move to the neighbouring schema"
		}
	}
	back := next.isCall("Schema.Predecessor")
	// the walk started at the instance's version and moves towards the target,
	// so the schema it is at lies between the two
	between := func() bool {
		q := newSeq(c, e, []*Outcome{o})
		from, at := e.fld(e.mk("fld", "sch", i), "v"), e.fld(s, "v")
		var d disj
		for _, x := range q.less(to, from) {
			for _, y := range q.less(to, at) {
				d = append(d, append(append([]Fact{}, x...), y...))
			}
		}
		for _, x := range q.less(from, to) {
			for _, y := range q.less(at, to) {
				d = append(d, append(append([]Fact{}, x...), y...))
			}
		}
		return e.satisfiable(o.Facts, []disj{d})
	}
	if !between() {
		return "-"
	}
	if !backward(o, s, back) {
		return "the walk may go in the wrong direction"
	}
	m := func(x *Term) *Term { return e.index(e.fld(x, "v"), e.int(0)) }
	sameMajor := e.eq(m(s), m(next))
	r := e.mk("ext", "0", res)
	if byLens {
		if e.fld(key, "From") != e.fld(s, "v") || e.fld(key, "To") != e.fld(next, "v") {
			return "the lens applied is not the one registered from the current to the neighbouring version"
		}
		if v, ok := e.fact(o.Facts, sameMajor); !back && !(ok && !v) && !e.implied(o.Facts, sameMajor, false) {
			return "an explicit lens may be applied for a minor upgrade, for which there is none"
		}
		if e.nilness(o, e.mk("ext", "1", res)) != isNil {
			return "the walk goes on although the lens failed"
		}
		if e.nilness(o, r) != notNil {
			return "the walk goes on although the lens returned no instance"
		}
		if !e.holds(o.Facts, e.eq(e.fld(e.fld(r, "sch"), "v"), e.fld(next, "v"))) {
			return "the walk goes on although the lens may have returned an instance of another version"
		}
	} else {
		if back {
			return "a backward step does not apply the explicit lens"
		}
		if !e.holds(o.Facts, sameMajor) {
			return "a step into the next major version may be taken without an explicit lens"
		}
		if e.nilness(o, e.mk("ext", "2", res)) != isNil {
			return "the walk goes on although the minor upgrade failed"
		}
	}
	// the current instance becomes the result
	if cur.Op == "alloc" {
		if o.field(e, cur, "raw") != e.fld(r, "raw") || o.field(e, cur, "sch") != e.fld(r, "sch") || o.field(e, cur, "valid") != e.fld(r, "valid") {
			return "the result of the lens is not what the walk goes on with"
		}
		return ""
	}
	for _, cr := range e.carriers(o) {
		if cr.old == cur {
			if cr.new == r {
				return ""
			}
		}
	}
	return "the result of the lens is not what the walk goes on with"
}
