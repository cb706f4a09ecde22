package main

import (
	"strings"
)

// ruleT13: versions are ordered, printed and parsed consistently.
func ruleT13(c *Ctx) {
	if fn := c.needMethod("SyntacticVersion", "Less"); fn != nil {
		e, outs := c.run(fn)
		ps := e.paramTerms(fn)
		q := newSeq(c, e, outs)
		lt := q.less(ps[0], ps[1])
		ge := append(append(disj{}, q.less(ps[1], ps[0])...), []Fact{eqf(e, ps[0], ps[1])})
		for _, o := range outs {
			if o.Kind != outReturn {
				c.fail("order", o.Pos, fn, e, o, "comparing two versions may panic or loop")
				continue
			}
			r := o.Vals[0]
			yes := norm1(Fact{C: r, Val: true})
			no := norm1(Fact{C: r, Val: false})
			if e.satisfiable(append(append([]Fact{}, o.Facts...), yes), []disj{ge}) {
				c.fail("order", o.Pos, fn, e, o, "Less may hold for versions that are not in order")
				continue
			}
			if e.satisfiable(append(append([]Fact{}, o.Facts...), no), []disj{lt}) {
				c.fail("order", o.Pos, fn, e, o, "Less may fail for versions that are in order")
				continue
			}
			c.ok("Less is lexicographic order on (major, minor)", fname(fn), 2)
		}
	}
	if fn := c.needMethod("SyntacticVersion", "String"); fn != nil {
		e, outs := c.run(fn)
		p := e.paramTerms(fn)[0]
		want := e.mk("cat", "", e.mk("dec", "", e.index(p, e.int(0))), e.str("."), e.mk("dec", "", e.index(p, e.int(1))))
		for _, o := range outs {
			if o.Kind != outReturn || o.Vals[0] != want {
				c.fail("print", o.Pos, fn, e, o, "a version is not printed as major.minor in decimal")
				continue
			}
			c.ok("a version prints as major, dot, minor, in decimal", fname(fn), 1)
		}
	}
	if fn := c.need("", "SV"); fn != nil {
		e, outs := c.run(fn)
		ps := e.paramTerms(fn)
		for _, o := range outs {
			v := o.Vals[0]
			if o.Kind != outReturn || e.index(v, e.int(0)) != ps[0] || e.index(v, e.int(1)) != ps[1] {
				c.fail("construct", o.Pos, fn, e, o, "SV(a, b) is not version a.b")
				continue
			}
			c.ok("SV(a, b) is version a.b", fname(fn), 1)
		}
	}
	if fn := c.need("", "ParseSyntacticVersion"); fn != nil {
		e, outs := c.run(fn)
		s := e.paramTerms(fn)[0]
		ns := 0
		for _, o := range outs {
			if o.Kind == outPanic {
				c.fail("parse", o.Pos, fn, e, o, "parsing a version may panic")
				continue
			}
			if o.Kind != outReturn {
				continue
			}
			v, err := o.Vals[0], o.Vals[1]
			switch e.nilness(o, err) {
			case isNil:
				ns++
				for i := int64(0); i < 2; i++ {
					if why := e.versionPart(o, s, e.index(v, e.int(i)), i); why != "" {
						c.fail("parse", o.Pos, fn, e, o, "part %d of a parsed version: %s", i, why)
					} else {
						c.ok("each part of a parsed version is the decimal number in that part of the text", fname(fn), 1)
					}
				}
			case notNil:
				if !e.marks(err)["ErrMalformedSyntacticVersion"] {
					c.fail("parse", o.Pos, fn, e, o, "the parse error is not ErrMalformedSyntacticVersion")
					continue
				}
				if !e.malformed(o, s) {
					c.fail("parse", o.Pos, fn, e, o, "a well-formed version may be rejected")
					continue
				}
				c.ok("only text that is not two decimal numbers is rejected", fname(fn), 1)
			default:
				c.fail("parse", o.Pos, fn, e, o, "cannot tell whether parsing fails on this path")
			}
		}
		if ns == 0 {
			c.fail("parse", fnPos(fn), fn, nil, nil, "no version is ever parsed")
		}
	}
}

// textPart recognises the text before (0) or after (1) the dot.
func (e *Engine) textPart(t, s *Term, i int64) *Term {
	if t.Op == "index" {
		if n, ok := t.Args[1].constInt(); ok && n == i {
			if c := t.Args[0]; c.isCall("strings.Split", "strings.SplitN") && c.Args[0] == s {
				if d, ok := c.Args[1].constStr(); ok && d == "." {
					if len(c.Args) == 3 {
						if n, ok := c.Args[2].constInt(); !ok || n >= 0 && n < 2 {
							return nil
						}
					}
					return c
				}
			}
		}
	}
	if c, n := t.call(); c.isCall("strings.Cut") && int64(n) == i && c.Args[0] == s {
		if d, ok := c.Args[1].constStr(); ok && d == "." {
			return c
		}
	}
	return nil
}

func (e *Engine) parsedNumber(t *Term) (*Term, string) {
	p, n := t.call()
	if n != 0 || !p.isCall("strconv.ParseUint") {
		return nil, "it is not a parsed number: " + t.String()
	}
	if b, ok := p.Args[1].constInt(); !ok || b != 10 {
		return nil, "it is not read as a decimal number"
	}
	if b, ok := p.Args[2].constInt(); !ok || b != 0 && b != 32 && b != 64 {
		return nil, "its size is limited to fewer than 32 bits"
	}
	return p, ""
}

func (e *Engine) versionPart(o *Outcome, s, t *Term, i int64) string {
	p, why := e.parsedNumber(t)
	if p == nil {
		return why
	}
	if !e.holds(o.Facts, e.nilEq(e.mk("ext", "1", p))) {
		return "the number may not have parsed"
	}
	src := e.textPart(p.Args[0], s, i)
	if src == nil {
		return "it is not taken from that part of the text: " + p.Args[0].String()
	}
	if src.isCall("strings.Cut") {
		if v, ok := e.fact(o.Facts, e.mk("ext", "2", src)); !ok || !v {
			return "the text may have no dot"
		}
		return ""
	}
	if !e.holds(o.Facts, e.eq(e.length(src), e.int(2))) {
		return "the text may not have exactly two parts"
	}
	return ""
}

// malformed: some condition of a well-formed version fails on the trace.
func (e *Engine) malformed(o *Outcome, s *Term) bool {
	for _, f := range o.Facts {
		if f.C.Op == "eq" && !f.Val {
			for i := range f.C.Args {
				a, b := f.C.Args[i], f.C.Args[1-i]
				if a.isNil() {
					if p, n := b.call(); n == 1 && p.isCall("strconv.ParseUint") {
						if q, _ := e.parsedNumber(e.mk("ext", "0", p)); q != nil && (e.textPart(p.Args[0], s, 0) != nil || e.textPart(p.Args[0], s, 1) != nil) {
							return true
						}
					}
				}
			}
		}
		if f.C.Op == "ext" && f.C.Sym == "2" && !f.Val && f.C.Args[0].isCall("strings.Cut") && f.C.Args[0].Args[0] == s {
			if d, ok := f.C.Args[0].Args[1].constStr(); ok && d == "." {
				return true
			}
		}
	}
	// the number of parts cannot be two
	two := false
	for _, f := range o.Facts {
		f.C.walk(func(x *Term) bool {
			if x.Op == "len" && strings.HasPrefix(x.Args[0].Sym, "strings.Split") && e.textPart(e.index(x.Args[0], e.int(0)), s, 0) != nil {
				if !e.possible(o.Facts, eqf(e, x, e.int(2))) {
					two = true
				}
			}
			return true
		})
	}
	return two
}
