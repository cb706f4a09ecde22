package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// navigation resolves, for each function that picks a schema of a lineage, which
// position of the version sequence it returns.
func ruleT12(c *Ctx) {
	S, L := c.schemaName(), c.lineageName()
	if fn := c.needMethod(S, "Successor"); fn != nil {
		c.nav(fn, func(q *seq, o *Outcome, recv *Term) (want *Term, nilWhen Fact) {
			p := q.bindPos(recv)
			return q.e.add(p, q.e.int(1)), eqf(q.e, p, q.last())
		}, "successor")
	}
	if fn := c.needMethod(S, "Predecessor"); fn != nil {
		c.nav(fn, func(q *seq, o *Outcome, recv *Term) (*Term, Fact) {
			p := q.bindPos(recv)
			return q.e.add(p, q.e.int(-1)), eqf(q.e, p, q.e.int(0))
		}, "predecessor")
	}
	if fn := c.needMethod(L, "Latest"); fn != nil {
		c.nav(fn, func(q *seq, o *Outcome, recv *Term) (*Term, Fact) {
			q.bind[recv] = q.lin
			return q.last(), Fact{C: q.e.boolT(false), Val: true}
		}, "latest")
	}
	if fn := c.needMethod(L, "First"); fn != nil {
		c.nav(fn, func(q *seq, o *Outcome, recv *Term) (*Term, Fact) {
			q.bind[recv] = q.lin
			return q.e.int(0), Fact{C: q.e.boolT(false), Val: true}
		}, "first")
	}
	if fn := c.needMethod(S, "LatestInMajor"); fn != nil {
		c.latestInMajor(fn)
	}
	if fn := c.needMethod(L, "Schema"); fn != nil {
		c.schemaByVersion(fn)
	}
	if fn := c.needMethod(L, "All"); fn != nil {
		c.allSchemas(fn)
	}
	c.navWrappers()
	c.accessors("schema and lineage accessors", []getter{
		{S, "Version", "v"}, {S, "Underlying", "ref"}, {S, "Lineage", "lin"},
		{L, "Name", "name"}, {L, "Underlying", "uni"}, {L, "Runtime", "rt"},
	})
	c.accessorsGeneric(c.p.roles.convLin, "TypedSchema", "tsch")
	c.accessorsGeneric(c.p.roles.typedSch, "ConvergentLineage", "tlin")
	c.delegates(c.p.roles.typedSch, "Schema")
	c.delegates(c.p.roles.convLin, "Lineage")
}

func (q *seq) bindPos(recv *Term) *Term {
	p := q.e.mk("pos", "P")
	if _, ok := q.bind[recv]; !ok {
		q.pos(recv, "P")
	}
	return p
}

// position decides that a returned schema is the one at position want.
func (q *seq) isAt(o *Outcome, t, want *Term) bool {
	t = q.norm(t)
	if t.Op != "index" || t.Args[0] != q.alls {
		return false
	}
	return q.proves(o, eqf(q.e, t.Args[1], want))
}

func (c *Ctx) returns(fn *ssa.Function, outs []*Outcome) []*Outcome {
	var r []*Outcome
	for _, o := range outs {
		if o.Kind == outReturn {
			r = append(r, o)
		}
	}
	return r
}

func (c *Ctx) nav(fn *ssa.Function, spec func(*seq, *Outcome, *Term) (*Term, Fact), what string) {
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	n := 0
	for _, o := range outs {
		q := newSeq(c, e, outs)
		want, nilWhen := spec(q, o, recv)
		q.walk()
		c.inRange("navigation", fn, q, o)
		switch o.Kind {
		case outPanic:
			if invalidReceiver(e, o, recv) || q.excludes(o, nil) {
				c.ok("no panic on a bound lineage", fname(fn), 1)
				continue
			}
			c.fail("navigation", o.Pos, fn, e, o, "%s may panic for a schema of a bound lineage", what)
		case outReturn:
			n++
			v := o.Vals[0]
			if v.Op == "typednil" {
				c.fail("navigation", o.Pos, fn, e, o, "%s returns a non-nil interface holding a nil schema", what)
				continue
			}
			if q.excludes(o, nil) {
				c.ok("path excluded by the shape of bound lineages", fname(fn), 1)
				continue
			}
			if v.isNil() {
				if q.proves(o, nilWhen) {
					c.ok("nil exactly at the end of the lineage", fname(fn), 1)
					continue
				}
				c.fail("navigation", o.Pos, fn, e, o, "%s returns nil for a schema that has one", what)
				continue
			}
			if !q.isAt(o, v, want) {
				c.fail("navigation", o.Pos, fn, e, o, "%s is not the schema at position %v", what, want)
				continue
			}
			if nilWhen.C.Op != "const" && !q.proves(o, nilWhen.negate()) {
				c.fail("navigation", o.Pos, fn, e, o, "%s is returned although there is none", what)
				continue
			}
			c.ok("the schema at the required position is returned", fname(fn), 1)
		}
	}
	if n == 0 {
		c.fail("navigation", fnPos(fn), fn, nil, nil, "%s never returns", what)
	}
}

// inRange decides that no index on the trace is out of range, for the lists of
// a bound lineage.
func (c *Ctx) inRange(rule string, fn *ssa.Function, q *seq, o *Outcome) {
	for _, ev := range o.Events {
		if ev.Kind != evBound || ev.NFact > len(o.Facts) {
			continue
		}
		pre := &Outcome{Facts: o.Facts[:ev.NFact]}
		for _, cond := range ev.Args {
			f := splitFact(cond, true)
			if q.e.implied(pre.Facts, cond, true) || q.excludes(pre, []Fact{f.negate()}) {
				c.ok("index in range", fname(fn), 1)
				continue
			}
			c.fail(rule, ev.Pos, ev.Fn, q.e, o, "an index may be out of range for a bound lineage: %v is not established", cond)
		}
	}
}

func (c *Ctx) latestInMajor(fn *ssa.Function) {
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	for _, o := range outs {
		q := newSeq(c, e, outs)
		p := q.bindPos(recv)
		q.walk()
		c.inRange("navigation", fn, q, o)
		if o.Kind == outPanic {
			if invalidReceiver(e, o, recv) || q.excludes(o, nil) {
				continue
			}
			c.fail("navigation", o.Pos, fn, e, o, "LatestInMajor may panic for a schema of a bound lineage")
			continue
		}
		if o.Kind != outReturn {
			continue
		}
		if q.excludes(o, nil) {
			c.ok("path excluded by the shape of bound lineages", fname(fn), 1)
			continue
		}
		t := q.norm(o.Vals[0])
		if t.Op != "index" || t.Args[0] != q.alls {
			c.fail("navigation", o.Pos, fn, e, o, "LatestInMajor does not return a schema of the lineage: %v", t)
			continue
		}
		k := t.Args[1]
		maj := func(i *Term) *Term { return e.index(q.ver(i), e.int(0)) }
		q.base = append(q.base, k)
		if !q.proves(o, eqf(e, maj(k), maj(p))) {
			c.fail("navigation", o.Pos, fn, e, o, "LatestInMajor may return a schema of another major version")
			continue
		}
		c.ok("the schema returned is of the same major version", fname(fn), 1)
		// nothing of the same major follows: k is last, or the next one is of another major
		nx := e.add(k, e.int(1))
		if !q.excludes(o, []Fact{ltf(e, nx, q.len()), eqf(e, maj(nx), maj(p))}) {
			c.fail("navigation", o.Pos, fn, e, o, "LatestInMajor may return a schema that has a successor in the same major version")
			continue
		}
		c.ok("no later schema has the same major version", fname(fn), 1)
	}
}

// schemaByVersion decides Lineage.Schema.
func (c *Ctx) schemaByVersion(fn *ssa.Function) {
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	recv, v := ps[0], ps[1]
	for _, o := range outs {
		q := newSeq(c, e, outs)
		q.bind[recv] = q.lin
		q.walk()
		c.inRange("lookup", fn, q, o)
		if o.Kind == outPanic {
			if invalidReceiver(e, o, recv) || q.excludes(o, nil) {
				continue
			}
			c.fail("lookup", o.Pos, fn, e, o, "Schema may panic on a bound lineage")
			continue
		}
		if o.Kind != outReturn || q.excludes(o, nil) {
			continue
		}
		sch, err := o.Vals[0], o.Vals[1]
		switch e.nilness(o, err) {
		case isNil:
			t := q.norm(sch)
			if t.Op != "index" || t.Args[0] != q.alls || !q.proves(o, eqf(e, q.ver(t.Args[1]), v)) {
				c.fail("lookup", o.Pos, fn, e, o, "Schema succeeds with a schema whose version may differ from the one asked for")
				continue
			}
			c.ok("a schema found has the version asked for", fname(fn), 1)
		case notNil:
			if !sch.isNil() {
				c.fail("lookup", o.Pos, fn, e, o, "Schema returns a schema together with an error")
				continue
			}
			if !e.marks(err)["ErrVersionNotExist"] {
				c.fail("lookup", o.Pos, fn, e, o, "the error for a version that does not exist is not ErrVersionNotExist")
				continue
			}
			// were the version at some position x, the path would not be taken
			x := e.mk("pos", "X")
			q.base = append(q.base, x)
			if !q.excludes(o, []Fact{eqf(e, q.ver(x), v)}) {
				c.fail("lookup", o.Pos, fn, e, o, "Schema may report a version of the lineage as missing")
				continue
			}
			c.ok("a version is reported missing only if it is", fname(fn), 1)
		default:
			c.fail("lookup", o.Pos, fn, e, o, "cannot tell whether Schema fails on this path")
		}
	}
}

// allSchemas decides Lineage.All: a list of its own that holds every schema in order.
func (c *Ctx) allSchemas(fn *ssa.Function) {
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	for _, o := range outs {
		if o.Kind != outReturn {
			if o.Kind == outPanic && !invalidReceiver(e, o, recv) {
				c.fail("all schemas", o.Pos, fn, e, o, "All may panic")
			}
			continue
		}
		if invalidReceiver(e, o, recv) {
			continue
		}
		q := newSeq(c, e, outs)
		q.bind[recv] = q.lin
		if why := q.fullCopy(o, o.Vals[0], outs); why != "" {
			c.fail("all schemas", o.Pos, fn, e, o, "All does not return exactly the schemas of the lineage in order: %s", why)
			continue
		}
		c.ok("All returns every schema, in version order", fname(fn), 1)
	}
}

// fullCopy decides that list holds alls[0], ..., alls[len-1].
func (q *seq) fullCopy(o *Outcome, list *Term, outs []*Outcome) string {
	e := q.e
	switch list.Op {
	case "mkslice":
		if q.norm(list.Args[0]) != q.len() {
			return "the list made has another length"
		}
		// every passed loop iteration stores alls[k] at k, from 0 to the end
		for loop := range o.passed() {
			its := iterations(outs, loop)
			if len(its) == 0 {
				continue
			}
			it := e.iter(loop)
			if !q.proves(o, lef(e, q.len(), it)) {
				continue
			}
			for _, io := range its {
				v, ok := io.st.mem[e.mk("saddr", "", list, it)]
				if !ok {
					return "an iteration leaves an element unset"
				}
				if q.norm(v) != q.sch(it) {
					return "an element is not the schema of its position"
				}
			}
			return ""
		}
		return "the elements are not all set"
	case "loopvar", "loopmem":
		loop := listLoop(list)
		if !o.passed()[loop] {
			return "the loop that builds the list may be left early"
		}
		it := e.iter(loop)
		if !q.proves(o, lef(e, q.len(), it)) || !q.proves(o, lef(e, it, q.len())) {
			return "the loop that builds the list does not cover the schemas"
		}
		if !e.emptyList(e.listInit(outs, loop, list)) {
			return "the list is not empty to begin with"
		}
		for _, io := range iterations(outs, loop) {
			el, ok := e.appended(io, list)
			if !ok || len(el) != 1 || q.norm(el[0]) != q.sch(it) {
				return "an iteration does not append the schema of its position"
			}
		}
		return ""
	}
	return "unrecognised construction " + list.String()
}

// navWrappers decides the package-level conveniences.
func (c *Ctx) navWrappers() {
	if fn := c.need("", "SchemaP"); fn != nil {
		e, outs := c.run(fn)
		ps := e.paramTerms(fn)
		call := e.mk("call", "Lineage.Schema", ps[0], ps[1])
		errNil := e.nilEq(e.mk("ext", "1", call))
		for _, o := range outs {
			v, known := e.fact(o.Facts, errNil)
			switch o.Kind {
			case outReturn:
				if !known || !v || o.Vals[0] != e.mk("ext", "0", call) {
					c.fail("lookup", o.Pos, fn, e, o, "SchemaP returns something other than the schema with the version asked for")
					continue
				}
				c.ok("SchemaP returns what Schema found", fname(fn), 1)
			case outPanic:
				if !known || v {
					c.fail("lookup", o.Pos, fn, e, o, "SchemaP panics although the version exists")
					continue
				}
				c.ok("SchemaP panics only for a missing version", fname(fn), 1)
			}
		}
	}
	if fn := c.need("", "LatestVersion"); fn != nil {
		e, outs := c.run(fn)
		p := e.paramTerms(fn)[0]
		for _, o := range outs {
			q := newSeq(c, e, outs)
			q.bind[p] = q.lin
			if o.Kind == outReturn && q.norm(o.Vals[0]) != q.ver(q.last()) {
				c.fail("navigation", o.Pos, fn, e, o, "LatestVersion is not the version of the last schema")
			} else if o.Kind == outReturn {
				c.ok("LatestVersion is that of the last schema", fname(fn), 1)
			}
		}
	}
	if fn := c.need("", "LatestVersionInSequence"); fn != nil {
		e, outs := c.run(fn)
		ps := e.paramTerms(fn)
		call := e.mk("call", "Lineage.Schema", ps[0], e.mk("arr", "", ps[1], e.int(0)))
		errT := e.mk("ext", "1", call)
		for _, o := range outs {
			if o.Kind != outReturn {
				c.fail("navigation", o.Pos, fn, e, o, "LatestVersionInSequence may panic")
				continue
			}
			switch e.nilness(o, o.Vals[1]) {
			case isNil:
				want := e.mk("fld", "v", e.mk("call", "Schema.LatestInMajor", e.mk("ext", "0", call)))
				if o.Vals[0] != want || e.nilness(o, errT) != isNil {
					c.fail("navigation", o.Pos, fn, e, o, "LatestVersionInSequence is not the latest version of the sequence asked for")
					continue
				}
				c.ok("LatestVersionInSequence is the latest of that major", fname(fn), 1)
			case notNil:
				if e.nilness(o, errT) != notNil {
					c.fail("navigation", o.Pos, fn, e, o, "LatestVersionInSequence fails although the sequence exists")
					continue
				}
				c.ok("LatestVersionInSequence fails only for a missing sequence", fname(fn), 1)
			default:
				if o.Vals[1] == errT {
					continue
				}
				c.fail("navigation", o.Pos, fn, e, o, "cannot tell whether LatestVersionInSequence fails on this path")
			}
		}
	}
}

type getter struct{ typ, method, field string }

// accessors decides that an accessor returns the field that carries the value,
// for every receiver made by the module, and has no effect.
func (c *Ctx) accessors(rule string, gs []getter) {
	for _, g := range gs {
		fn := c.needMethod(g.typ, g.method)
		if fn == nil {
			continue
		}
		c.accessor(rule, fn, g.field)
	}
}

func (c *Ctx) accessorsGeneric(nt *types.Named, method, field string) {
	for i := 0; i < nt.NumMethods(); i++ {
		if nt.Method(i).Name() == method {
			fn := c.p.prog.FuncValue(nt.Method(i))
			if fn != nil && fn.Blocks != nil {
				c.accessor("typed accessors", fn, field)
				return
			}
		}
	}
	c.failAt("anchor", nt.Obj().Name()+"."+method, "the accessor is not there")
}

func (c *Ctx) accessor(rule string, fn *ssa.Function, field string) {
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outReturn:
			if invalidReceiver(e, o, recv) {
				c.fail(rule, o.Pos, fn, e, o, "%s answers for a receiver that was never validated", fn.Name())
				continue
			}
			if len(o.Vals) != 1 || o.Vals[0] != e.mk("fld", field, recv) {
				c.fail(rule, o.Pos, fn, e, o, "%s does not return the receiver's own %s: %v", fn.Name(), field, o.Vals)
				continue
			}
			n++
		case outPanic:
			if !invalidReceiver(e, o, recv) {
				c.fail(rule, o.Pos, fn, e, o, "%s may panic on a valid receiver", fn.Name())
			}
		}
		for _, ev := range o.Events {
			if ev.Kind == evStore || ev.Kind == evMap || ev.Kind == evDel {
				c.fail(rule, ev.Pos, fn, e, o, "%s changes state", fn.Name())
			}
		}
	}
	if n > 0 {
		c.ok(rule, fname(fn), n)
	} else {
		c.fail(rule, fnPos(fn), fn, nil, nil, "%s never returns the receiver's %s", fn.Name(), field)
	}
}

// delegates decides that a typed wrapper does not override the methods of the
// interface it embeds with anything but the embedded method itself.
func (c *Ctx) delegates(nt *types.Named, iface string) {
	it := c.p.rootType(iface)
	if it == nil {
		return
	}
	iu, _ := it.Underlying().(*types.Interface)
	names := map[string]bool{}
	for i := 0; i < iu.NumMethods(); i++ {
		names[iu.Method(i).Name()] = true
	}
	var ms []string
	for i := 0; i < nt.NumMethods(); i++ {
		m := nt.Method(i)
		if !names[m.Name()] {
			continue
		}
		ms = append(ms, m.Name())
		fn := c.p.prog.FuncValue(m)
		if fn == nil || fn.Blocks == nil {
			continue
		}
		e, outs := c.run(fn)
		ps := e.paramTerms(fn)
		emb := e.mk("fld", iface, ps[0])
		args := append([]*Term{emb}, ps[1:]...)
		var want *Term
		if f, ok := getters[iface+"."+m.Name()]; ok {
			want = e.mk("fld", f, emb)
		} else {
			want = e.mk("call", iface+"."+m.Name(), args...)
		}
		for _, o := range outs {
			if o.Kind != outReturn {
				continue
			}
			ok := len(o.Vals) == 0 || len(o.Vals) == 1 && o.Vals[0] == want
			if len(o.Vals) > 1 {
				ok = true
				for i, v := range o.Vals {
					if c2, n := v.call(); c2 != want || n != i {
						ok = false
					}
				}
			}
			if !ok {
				c.fail("delegation", o.Pos, fn, e, o, "%s.%s does not do what %s.%s does", nt.Obj().Name(), m.Name(), iface, m.Name())
			} else {
				c.ok("typed wrapper delegates", fname(fn), 1)
			}
		}
	}
	sort.Strings(ms)
	c.ok("typed wrapper adds no overrides beyond delegation", nt.Obj().Name()+" "+strings.Join(ms, ","), len(names)-len(ms))
}
