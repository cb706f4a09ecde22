package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The schemas of a bound lineage form a sequence: version k of the version list
// is the version of schema k, versions increase strictly, start at 0.0 and leave
// no gaps (properties T01 and T02 establish exactly this for every lineage the
// binder returns). seq closes the path condition of a trace under these facts,
// for the positions the trace mentions, so that "which schema is this" becomes a
// question about positions in the zone domain.
type seq struct {
	c    *Ctx
	e    *Engine
	outs []*Outcome
	lin  *Term   // the lineage
	allv *Term   // its version list
	alls *Term   // its schema list
	base []*Term // positions always of interest
	bind map[*Term]*Term
	ats  map[*Term]*Term // position term -> version, from version lookups
	down map[*Term]bool  // positions whose absence is modelled as -1
	inv  []Fact          // ranges of the positions of walking loop variables
}

func newSeq(c *Ctx, e *Engine, outs []*Outcome) *seq {
	q := &seq{c: c, e: e, outs: outs, bind: map[*Term]*Term{}, ats: map[*Term]*Term{}, down: map[*Term]bool{}}
	q.lin = e.mk("L", "")
	q.allv = e.mk("fld", "allv", q.lin)
	q.alls = e.mk("fld", "allsch", q.lin)
	q.base = []*Term{e.int(0), e.add(e.length(q.allv), e.int(-1))}
	return q
}

// pos declares that a term is the schema at an (unknown) position.
func (q *seq) pos(schema *Term, name string) *Term {
	p := q.e.mk("pos", name)
	q.bind[schema] = q.sch(p)
	q.base = append(q.base, p)
	return p
}

func (q *seq) sch(k *Term) *Term { return q.e.index(q.alls, k) }
func (q *seq) ver(k *Term) *Term {
	t := q.e.index(q.allv, k)
	if t.T == nil && q.c.p.roles.version != nil {
		t.T = q.c.p.roles.version
	}
	return t
}
func (q *seq) len() *Term  { return q.e.length(q.allv) }
func (q *seq) last() *Term { return q.e.add(q.len(), q.e.int(-1)) }

// at is the position of a schema term, or nil.
func (q *seq) at(t *Term) *Term {
	if t.Op == "index" && t.Args[0] == q.alls {
		return t.Args[1]
	}
	return nil
}

// walk finds loop variables that hold the schema k0, k0+1, ... (or k0, k0-1, ...)
// on successive iterations, and replaces them by the schema at that position. A
// variable that runs off the sequence is nil, which is modelled as the position
// after the last (before the first) schema.
func (q *seq) walk() {
	e := q.e
	for again := true; again; {
		again = false
		for _, loop := range loopsOf(q.outs) {
			its := iterations(q.outs, loop)
			if len(its) == 0 {
				continue
			}
			for _, ph := range phisOf(its[0]) {
				lv := its[0].PhiOld[ph]
				if lv.Op != "loopvar" || q.bind[lv] != nil || !q.schemaType(ph.Type()) {
					continue
				}
				if q.walks(loop, ph, lv, its) {
					again = true
				}
			}
		}
	}
	_ = e
}

func (q *seq) walks(loop string, ph *ssa.Phi, lv *Term, its []*Outcome) bool {
	e := q.e
	it := e.iter(loop)
	// starting positions, over all ways into the loop
	var k0 *Term
	for _, o := range q.outs {
		for _, ev := range o.Events {
			if ev.Kind == evEnter && ev.Loop == loop {
				if k := q.at(q.norm(ev.Init[ph])); k != nil && k0 == nil {
					k0 = k
				}
			}
		}
	}
	if k0 == nil {
		return false
	}
	// prefer a simpler name for the same position
	if k0.containsOp("search") {
	cands:
		for _, b := range q.base {
			for _, d := range []int64{0, 1, -1} {
				cand, n := e.add(b, e.int(d)), 0
				all := true
				for _, o := range q.outs {
					for _, ev := range o.Events {
						if ev.Kind == evEnter && ev.Loop == loop && all {
							if k := q.at(q.norm(ev.Init[ph])); k != nil {
								n++
								all = q.proves(&Outcome{Facts: o.Facts[:ev.NFact]}, eqf(e, k, cand))
							}
						}
					}
				}
				if all && n > 0 {
					k0 = cand
					break cands
				}
			}
		}
	}
	for _, step := range []int64{1, -1} {
		end, k := q.len(), e.add(k0, it)
		if step < 0 {
			end, k = e.int(-1), e.sub(k0, it)
			q.down[k] = true
		}
		next := e.add(k, e.int(step))
		if step < 0 {
			q.down[next] = true
		}
		q.bind[lv] = q.sch(k)
		ninv := len(q.inv)
		q.inv = append(q.inv, lef(e, e.int(-1), k), lef(e, k, q.len()), lef(e, e.int(0), it))
		if step > 0 {
			q.inv = append(q.inv, lef(e, e.int(0), k))
		} else {
			q.inv = append(q.inv, ltf(e, k, q.len()))
		}
		ok := true
		for _, o := range q.outs {
			for _, ev := range o.Events {
				if ev.Kind != evEnter || ev.Loop != loop || !ok {
					continue
				}
				in := q.norm(ev.Init[ph])
				pre := &Outcome{Facts: o.Facts[:ev.NFact]}
				switch {
				case in == q.sch(k0):
				case in.isNil():
					ok = q.excludes(pre, []Fact{nef(e, k0, end)})
				case q.at(in) != nil:
					ok = q.proves(pre, eqf(e, q.at(in), k0))
				default:
					ok = false
				}
			}
		}
		for _, o := range its {
			if !ok {
				break
			}
			nv := q.norm(o.PhiNew[ph])
			switch {
			case nv == q.sch(next):
			case nv.isNil():
				ok = q.proves(o, eqf(e, next, end))
			case q.at(nv) != nil:
				ok = q.proves(o, eqf(e, q.at(nv), next))
			default:
				ok = false
			}
		}
		if ok {
			return true
		}
		delete(q.bind, lv)
		q.inv = q.inv[:ninv]
		delete(q.down, k)
		delete(q.down, next)
	}
	return false
}

func phisOf(o *Outcome) []*ssa.Phi {
	var out []*ssa.Phi
	for ph := range o.PhiOld {
		out = append(out, ph)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (q *seq) schemaType(t types.Type) bool {
	return ptrTo(t, q.c.p.roles.schema) || namedIs(t, q.c.p.rootType("Schema"))
}

// norm rewrites a term into positions.
func (q *seq) norm(t *Term) *Term {
	e := q.e
	return e.rewrite(t, func(t *Term) *Term {
		if b, ok := q.bind[t]; ok {
			return b
		}
		switch t.Op {
		case "fld":
			x := t.Args[0]
			if x.Op == "index" && x.Args[0] == q.alls {
				switch t.Sym {
				case "v":
					return q.ver(x.Args[1])
				case "lin":
					return q.lin
				}
			}
		case "len":
			if a := t.Args[0]; a == q.alls || a.isCall("Lineage.All") && a.Args[0] == q.lin {
				return q.len()
			}
		case "index":
			if t.Args[0] == q.allv {
				return q.ver(t.Args[1])
			}
			// a list obtained from the accessor
			if t.Args[0].isCall("Lineage.All") && t.Args[0].Args[0] == q.lin {
				return q.sch(t.Args[1])
			}
		case "call":
			switch t.Sym {
			case "Lineage.Latest":
				if t.Args[0] == q.lin {
					return q.sch(q.last())
				}
			case "Lineage.First":
				if t.Args[0] == q.lin {
					return q.sch(e.int(0))
				}
			case "Schema.Successor":
				if k := q.at(t.Args[0]); k != nil {
					return q.sch(e.add(k, e.int(1)))
				}
			case "Schema.Predecessor":
				if k := q.at(t.Args[0]); k != nil {
					k = e.add(k, e.int(-1))
					q.down[k] = true
					return q.sch(k)
				}
			case "Lineage.allVersions":
				if t.Args[0] == q.lin {
					return q.allv
				}
			case "strings.Compare":
			}
		case "ext":
			if c := t.Args[0]; c.isCall("Lineage.Schema") && c.Args[0] == q.lin && t.Sym == "0" {
				if v := c.Args[1]; v.Op == "index" && v.Args[0] == q.allv {
					return q.sch(v.Args[1]) // the schema of a schema's version
				}
				k := e.mk("pos", "of", c.Args[1])
				q.ats[k] = c.Args[1]
				return q.sch(k)
			}
		case "eq":
			a, b := t.Args[0], t.Args[1]
			for _, x := range [][2]*Term{{a, b}, {b, a}} {
				if x[0].isNil() && x[1].Op == "index" && x[1].Args[0] == q.alls {
					// a schema that is not there is modelled as one past the end
					if q.down[x[1].Args[1]] {
						return e.eq(x[1].Args[1], e.int(-1))
					}
					return e.eq(x[1].Args[1], q.len())
				}
				if x[0].isNil() && x[1] == q.lin {
					return e.boolT(false)
				}
			}
			if a.Op == "index" && b.Op == "index" && a.Args[0] == q.alls && b.Args[0] == q.alls {
				return e.eq(a.Args[1], b.Args[1])
			}
		}
		return nil
	})
}

func (q *seq) normFacts(fs []Fact) []Fact {
	var out []Fact
	for _, f := range fs {
		c, v := q.norm(f.C), f.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		out = append(out, Fact{C: c, Val: v, Pos: f.Pos})
	}
	return out
}

// a disj is a disjunction of conjunctions of facts.
type disj [][]Fact

// positions collects the indices into the version list a set of terms mentions.
func (q *seq) positions(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(k *Term) {
		if !seen[k] && !freeBound(k) {
			seen[k] = true
			out = append(out, k)
		}
	}
	for _, b := range q.base {
		add(b)
	}
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if x.Op == "index" && (x.Args[0] == q.allv || x.Args[0] == q.alls) {
				add(x.Args[1])
			}
			return true
		})
	}
	return out
}

func (q *seq) searches(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if x.Op == "search" && !seen[x] && !freeBound(x) {
				seen[x] = true
				out = append(out, x)
			}
			return true
		})
	}
	return out
}

// freeBound reports whether a term mentions the index of an enclosing search.
func freeBound(t *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x.Op == "bound" {
			found = true
		}
		return !found && x.Op != "pred"
	})
	return found
}

// predAt instantiates a search predicate: the disjunction of the ways it has the
// given value at index k.
func (q *seq) predAt(s, k *Term, want bool) disj {
	e := q.e
	b := e.mk("bound", "i")
	sub := func(t *Term) *Term {
		return q.norm(e.rewriteIn(t, "pred", func(x *Term) *Term {
			if x == b {
				return k
			}
			return nil
		}))
	}
	var d disj
	for _, c := range s.Args[1].Args {
		var conj []Fact
		for i, t := range c.Args {
			v := true
			if i == 0 {
				v = want
			}
			t = sub(t)
			for t.Op == "not" {
				t, v = t.Args[0], !v
			}
			conj = append(conj, Fact{C: t, Val: v})
		}
		d = append(d, conj)
	}
	return d
}

func ltf(e *Engine, a, b *Term) Fact { return norm1(Fact{C: e.lt(a, b), Val: true}) }
func lef(e *Engine, a, b *Term) Fact { return norm1(Fact{C: e.lt(b, a), Val: false}) }
func eqf(e *Engine, a, b *Term) Fact { return norm1(Fact{C: e.eq(a, b), Val: true}) }
func nef(e *Engine, a, b *Term) Fact { return norm1(Fact{C: e.eq(a, b), Val: false}) }

func norm1(f Fact) Fact {
	for f.C.Op == "not" {
		f.C, f.Val = f.C.Args[0], !f.Val
	}
	return f
}

func (f Fact) negate() Fact { return Fact{C: f.C, Val: !f.Val, Pos: f.Pos} }

// less is version order as a disjunction.
func (q *seq) less(a, b *Term) disj {
	e := q.e
	a0, a1 := e.index(a, e.int(0)), e.index(a, e.int(1))
	b0, b1 := e.index(b, e.int(0)), e.index(b, e.int(1))
	return disj{{ltf(e, a0, b0)}, {eqf(e, a0, b0), ltf(e, a1, b1)}}
}

// close returns the facts and disjunctions that hold besides the path condition.
func (q *seq) close(o *Outcome, facts []Fact, extra []*Term) ([]Fact, []disj) {
	e := q.e
	var ts []*Term
	for _, f := range facts {
		ts = append(ts, f.C)
	}
	ts = append(ts, extra...)
	var fs []Fact
	var ds []disj
	// every lineage has a schema
	fs = append(fs, ltf(e, e.int(0), q.len()))
	fs = append(fs, eqf(e, q.ver(e.int(0)), e.mk("arr", "", e.int(0), e.int(0))))
	for _, b := range q.base {
		fs = append(fs, lef(e, e.int(0), b), ltf(e, b, q.len()))
	}
	fs = append(fs, q.inv...)
	for _, f := range q.inv {
		ts = append(ts, f.C)
	}
	var add func(d disj)
	add = func(d disj) {
		ds = append(ds, d)
		for _, c := range d {
			for _, f := range c {
				ts = append(ts, f.C)
			}
		}
	}
	for _, s := range q.searches(ts) {
		n := s.Args[0]
		fs = append(fs, lef(e, e.int(0), s), lef(e, s, n))
		// s == n or the predicate holds at s; s == 0 or it fails at s-1
		add(append(disj{{eqf(e, s, n)}}, q.predAt(s, s, true)...))
		add(append(disj{{eqf(e, s, e.int(0))}}, q.predAt(s, e.add(s, e.int(-1)), false)...))
	}
	// loops that were left: what holds of their completed iterations
	if o != nil {
		for _, ev := range o.Events {
			if ev.Kind != evExit {
				continue
			}
			it := e.iter(ev.Loop)
			its := iterations(q.outs, ev.Loop)
			if len(its) == 0 {
				continue
			}
			var cands []*Term
			cands = append(cands, e.add(it, e.int(-1)))
			for _, b := range q.base {
				cands = append(cands, b, e.sub(q.last(), b))
			}
			for _, k := range cands {
				d := disj{{ltf(e, k, e.int(0))}, {lef(e, it, k)}}
				for _, io := range its {
					var conj []Fact
					for _, f := range q.normFacts(io.Facts) {
						// only what the iteration itself established
						if !f.C.contains(it) {
							continue
						}
						c := q.norm(e.rewrite(f.C, func(x *Term) *Term {
							if x == it {
								return k
							}
							return nil
						}))
						conj = append(conj, norm1(Fact{C: c, Val: f.Val}))
					}
					d = append(d, conj)
				}
				add(d)
			}
			fs = append(fs, lef(e, e.int(0), it))
		}
	}
	// sums and differences with a count
	seen := map[*Term]bool{}
	for _, t := range append([]*Term{}, ts...) {
		t.walk(func(x *Term) bool {
			if seen[x] || freeBound(x) {
				return true
			}
			seen[x] = true
			if x.Op == "plus" || x.Op == "sub" {
				a, b := x.Args[0], x.Args[1]
				if x.Op == "plus" && e.nonNeg(a) && a.Op == "iter" {
					a, b = b, a
				}
				if e.nonNeg(b) || contains(q.base, b) {
					if x.Op == "plus" {
						ds = append(ds, disj{{eqf(e, b, e.int(0)), eqf(e, x, a)}, {ltf(e, e.int(0), b), ltf(e, a, x)}})
					} else {
						ds = append(ds, disj{{eqf(e, b, e.int(0)), eqf(e, x, a)}, {ltf(e, e.int(0), b), ltf(e, x, a)}})
					}
				}
			}
			return true
		})
	}
	ks := q.positions(ts)
	for k, v := range q.ats {
		if contains(ks, k) {
			fs = append(fs, eqf(e, q.ver(k), q.norm(v)), lef(e, e.int(0), k), ltf(e, k, q.len()))
		}
	}
	for i, a := range ks {
		for _, b := range ks[i+1:] {
			d := disj{{ltf(e, a, e.int(0))}, {ltf(e, b, e.int(0))}}
			d = append(d, []Fact{eqf(e, a, b), eqf(e, q.ver(a), q.ver(b))})
			for _, c := range q.less(q.ver(a), q.ver(b)) {
				d = append(d, append([]Fact{ltf(e, a, b)}, c...))
			}
			for _, c := range q.less(q.ver(b), q.ver(a)) {
				d = append(d, append([]Fact{ltf(e, b, a)}, c...))
			}
			ds = append(ds, d)
		}
	}
	return fs, ds
}

func contains(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// proves reports whether the path condition, closed under the sequence facts,
// excludes the negation of every goal.
func (q *seq) proves(o *Outcome, goals ...Fact) bool {
	for _, g := range goals {
		g = norm1(Fact{C: q.norm(g.C), Val: g.Val})
		if !q.excludes(o, []Fact{g.negate()}) {
			return false
		}
	}
	return true
}

// excludes reports whether the trace cannot be taken when the facts hold.
func (q *seq) excludes(o *Outcome, extra []Fact) bool {
	facts := q.normFacts(o.Facts)
	extra = q.normFacts(extra)
	all := append(append([]Fact{}, facts...), extra...)
	var ts []*Term
	for _, g := range extra {
		ts = append(ts, g.C)
	}
	for _, v := range o.Vals {
		ts = append(ts, q.norm(v))
	}
	fs, ds := q.close(o, all, ts)
	return !q.e.satisfiable(append(all, fs...), ds)
}

// satisfiable is consistency in the zone domain with disjunctive completion.
func (e *Engine) satisfiable(facts []Fact, ds []disj) bool {
	known := map[*Term]bool{}
	for _, f := range facts {
		f = norm1(f)
		if f.C.Op == "const" {
			if (f.C.Sym == "true") != f.Val {
				return false
			}
			continue
		}
		if old, ok := known[f.C]; ok && old != f.Val {
			return false
		}
		known[f.C] = f.Val
	}
	edges, cl, bad := e.compile(facts)
	if bad || !consistent(e, edges) {
		return false
	}
	type alt struct {
		es []edge
		cl []clause
		op []Fact
	}
	var all [][]alt
	for _, c := range cl {
		var as []alt
		for _, d := range c {
			as = append(as, alt{es: d})
		}
		all = append(all, as)
	}
	for _, d := range ds {
		var as []alt
		for _, conj := range d {
			es, cl, bad := e.compile(conj)
			if bad {
				continue
			}
			ok := true
			var op []Fact
			for _, f := range conj {
				f = norm1(f)
				if f.C.Op == "const" {
					continue
				}
				if v, has := known[f.C]; has && v != f.Val {
					ok = false
				}
				if f.C.Op != "lt" && f.C.Op != "eq" {
					op = append(op, f)
				}
			}
			if ok {
				as = append(as, alt{es, cl, op})
			}
		}
		all = append(all, as)
	}
	budget := 400000
	var rec func(es []edge, rest [][]alt) bool
	rec = func(es []edge, rest [][]alt) bool {
		if budget <= 0 {
			return true
		}
		// pick the disjunction with the fewest consistent alternatives
		best, bestN := -1, 0
		var bestAlts []alt
		for i, as := range rest {
			var live []alt
			for _, a := range as {
				budget--
				if consistent(e, append(append([]edge{}, es...), a.es...)) {
					live = append(live, a)
				}
			}
			if len(live) == 0 {
				return false
			}
			if best < 0 || len(live) < bestN {
				best, bestN, bestAlts = i, len(live), live
				if bestN == 1 {
					break
				}
			}
		}
		if best < 0 {
			return true
		}
		var rem [][]alt
		rem = append(rem, rest[:best]...)
		rem = append(rem, rest[best+1:]...)
		for _, a := range bestAlts {
			n := append(append([]edge{}, es...), a.es...)
			r := rem
			if len(a.cl) > 0 {
				r = append([][]alt{}, rem...)
				for _, c := range a.cl {
					var as []alt
					for _, d := range c {
						as = append(as, alt{es: d})
					}
					r = append(r, as)
				}
			}
			if rec(n, r) {
				return true
			}
		}
		return false
	}
	return rec(edges, all)
}

// needMethod resolves a method of one of the module's carrier types.
func (c *Ctx) needMethod(tn string, name string) *ssa.Function {
	fn := c.p.fn("", tn+"."+name)
	if fn == nil || fn.Blocks == nil {
		c.failAt("anchor", tn+"."+name, "the method the property is about is not there, so nothing can be decided")
		return nil
	}
	return fn
}

func (c *Ctx) schemaName() string  { return c.p.roles.schema.Obj().Name() }
func (c *Ctx) lineageName() string { return c.p.roles.lineage.Obj().Name() }

// invalidReceiver reports whether a panic trace is confined to receivers the
// binder never returns (nil, or not marked as validated).
func invalidReceiver(e *Engine, o *Outcome, recv *Term) bool {
	if v, ok := e.fact(o.Facts, e.nilEq(recv)); ok && v {
		return true
	}
	if v, ok := e.fact(o.Facts, e.mk("fld", "validated", recv)); ok && !v {
		return true
	}
	if v, ok := e.fact(o.Facts, e.mk("fld", "valid", recv)); ok && !v {
		return true
	}
	return false
}

func splitName(s string) (string, string) {
	a, b, _ := strings.Cut(s, ".")
	return a, b
}
