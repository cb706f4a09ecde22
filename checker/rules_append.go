package main

// ruleT15 decides IsAppendOnly: nil exactly if every schema of the old lineage
// is, at its position, equal to the one of the new lineage.
func ruleT15(c *Ctx) {
	fn := c.need("", "IsAppendOnly")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	if len(ps) != 2 {
		c.failAt("anchor", "IsAppendOnly", "takes %d lineages", len(ps))
		return
	}
	oldL, newL := ps[0], ps[1]
	all := func(t *Term) *Term { // the lineage whose schemas t lists
		if t.Op == "call" && t.Sym == "Lineage.All" && len(t.Args) == 1 {
			return t.Args[0]
		}
		return nil
	}
	// side recognises the schema at a position of a lineage, as a CUE value
	side := func(t *Term) (lin, k *Term, path string) {
		if !t.isCall(cv("LookupPath")) || len(t.Args) != 2 {
			return
		}
		p, ok := parsedPath(t.Args[1])
		if !ok || p != "schema" && p != "_#schema" {
			return
		}
		r := t.Args[0]
		if r.Op != "fld" || r.Sym != "ref" {
			return
		}
		x := unbox(r.Args[0])
		if x.Op != "index" {
			return
		}
		if l := all(x.Args[0]); l != nil {
			return l, x.Args[1], p
		}
		return
	}
	// compared reads a fact as the answer of a subsumption between the two lineages at one position
	compared := func(f Fact) (k *Term, oldFirst, nilErr, ok bool) {
		t := nilOf(f)
		if t == nil || !t.isCall(cv("Subsume")) || len(t.Args) != 3 || !optionSet(t.Args[2], "Raw") {
			return
		}
		la, ka, pa := side(t.Args[0])
		lb, kb, pb := side(t.Args[1])
		if la == nil || lb == nil || ka != kb || pa != pb || la == lb || la != oldL && la != newL || lb != oldL && lb != newL {
			return
		}
		return ka, la == oldL, f.Val, true
	}
	lenOf := func(l *Term) *Term { return e.length(e.mk("call", "Lineage.All", l)) }
	q := newSeq(c, e, outs)
	c.bounds("bounds", fn, e, outs)
	nils, errs := 0, 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			c.fail("total", o.Pos, fn, e, o, "IsAppendOnly may panic")
		case outReturn:
			switch e.nilness(o, o.Vals[0]) {
			case isNil:
				nils++
				if !q.proves(o, lef(e, lenOf(oldL), lenOf(newL))) {
					c.fail("kept", o.Pos, fn, e, o, "a lineage with fewer schemas than the old one may be accepted")
					continue
				}
				done := ""
				for loop := range o.passed() {
					its := iterations(outs, loop)
					it := e.iter(loop)
					if len(its) == 0 || !q.proves(o, lef(e, lenOf(oldL), it)) {
						continue
					}
					all := true
					for _, io := range its {
						var fwd, bwd bool
						for _, f := range io.Facts {
							if k, oldFirst, isnil, ok := compared(f); ok && k == it && isnil {
								fwd = fwd || oldFirst
								bwd = bwd || !oldFirst
							}
						}
						if !fwd || !bwd {
							all = false
							c.fail("equal", io.Pos, fn, e, io, "a schema that differs from the one it replaces may be accepted")
						}
					}
					if all {
						done = loop
					}
				}
				if done == "" {
					c.fail("equal", o.Pos, fn, e, o, "acceptance does not follow from a comparison of every schema of the old lineage")
					continue
				}
				c.ok("accepted lineages keep every old schema, unchanged, at its position", fname(fn), 1)
			case notNil:
				errs++
				why := q.proves(o, ltf(e, lenOf(newL), lenOf(oldL)))
				for _, f := range o.Facts {
					if k, _, isnil, ok := compared(f); ok && !isnil && q.proves(o, ltf(e, k, lenOf(oldL))) {
						why = true
					}
				}
				if !why {
					c.fail("reject", o.Pos, fn, e, o, "a lineage that keeps every old schema may be rejected")
					continue
				}
				c.ok("rejections follow from a missing or changed schema", fname(fn), 1)
			default:
				c.fail("decided", o.Pos, fn, e, o, "the result is not decided on this path: %v", o.Vals[0])
			}
		}
	}
	if nils == 0 || errs < 2 {
		c.fail("decided", fnPos(fn), fn, nil, nil, "%d accepting and %d rejecting paths", nils, errs)
	}
}
