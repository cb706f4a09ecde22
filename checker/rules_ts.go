package main

import (
	"golang.org/x/tools/go/ssa"
)

// genModel is a generator with a configuration that may be nil.
type genModel struct {
	c        *Ctx
	e        *Engine
	fn       *ssa.Function
	outs     []*Outcome
	sch, cfg *Term
	refuses  func(*Outcome) bool // another reason for an error
}

func (c *Ctx) generator(pkg, name string) *genModel {
	fn := c.need(pkg, name)
	if fn == nil {
		return nil
	}
	e, outs := c.runOpts(fn, Options{Opaque: genOpaque(fn)})
	ps := e.paramTerms(fn)
	if len(ps) != 2 {
		c.fail("anchor", fnPos(fn), fn, nil, nil, "the generator does not take a source and a configuration")
		return nil
	}
	c.nilIsZero(e, fn, outs, ps[1], "configuration")
	return &genModel{c: c, e: e, fn: fn, outs: outs, sch: ps[0], cfg: ps[1]}
}

// nilIsZero: nothing is read through the pointer unless it is known not to be nil.
func (c *Ctx) nilIsZero(e *Engine, fn *ssa.Function, outs []*Outcome, p *Term, what string) {
	for _, o := range outs {
		if e.nilness(o, p) != mayNil {
			continue
		}
		used := false
		see := func(t *Term) {
			if t == nil || used {
				return
			}
			t.walk(func(k *Term) bool {
				used = used || (k.Op == "fld" || k.Op == "deref" || k.Op == "load") && k.Args[0] == p
				return !used
			})
		}
		for _, f := range o.Facts {
			see(f.C)
		}
		for _, ev := range o.Events {
			see(ev.Term)
			for _, a := range ev.Args {
				see(a)
			}
		}
		for _, t := range o.Vals {
			see(t)
		}
		if used {
			c.fail("total", o.Pos, fn, e, o, "a nil %s is used as if it were not", what)
			return
		}
	}
	c.ok("a nil "+what+" is not read", fname(fn), 1)
}

func (m *genModel) noConfig(o *Outcome) bool { return m.e.nilness(o, m.cfg) == isNil }

// flag: the value of a boolean of the configuration on the trace, if it is known.
func (m *genModel) flag(o *Outcome, f string) (v, known bool) {
	if m.noConfig(o) {
		return false, true
	}
	return m.e.fact(o.Facts, m.e.fld(m.cfg, f))
}

// empty: whether a string of the configuration is empty, if it is known.
func (m *genModel) empty(o *Outcome, f string) (v, known bool) {
	if m.noConfig(o) {
		return true, true
	}
	t := m.e.fld(m.cfg, f)
	if v, ok := m.e.fact(o.Facts, m.e.eq(t, m.e.str(""))); ok {
		return v, ok
	}
	if v, ok := m.e.fact(o.Facts, m.e.eq(m.e.length(t), m.e.int(0))); ok {
		return v, ok
	}
	return false, false
}

// outcomes checks every way out of a generator: no panic, an error exactly when
// a step failed, and what is returned without one.
func (m *genModel) outcomes(result func(*Outcome) string) {
	c, e, fn := m.c, m.e, m.fn
	good := 0
	for _, o := range m.outs {
		switch o.Kind {
		case outPanic:
			c.fail("total", o.Pos, fn, e, o, "the generator may panic")
		case outBack:
			c.ok("iterations explored", fname(fn), 1)
		case outReturn:
			if e.nilness(o, o.Vals[1]) == notNil {
				switch {
				case !o.Vals[0].isNil():
					c.fail("errors", o.Pos, fn, e, o, "code is returned along with an error")
				case !c.failedStep(e, o) && (m.refuses == nil || !m.refuses(o)):
					c.fail("errors", o.Pos, fn, e, o, "generation is refused for no reason: %v", o.Vals[1])
				default:
					c.ok("refusals follow from a failed step", fname(fn), 1)
				}
				continue
			}
			good++
			if why := result(o); why != "" {
				c.fail("result", o.Pos, fn, e, o, "%s", why)
				continue
			}
			c.ok("what is generated describes what was given", fname(fn), 1)
		}
	}
	if good == 0 {
		c.fail("result", fnPos(fn), fn, nil, nil, "no path generates anything")
	}
}

// part is a piece of a list: an element, or every element of another list.
type part struct {
	t      *Term
	spread bool
}

func listParts(t *Term) []part {
	switch {
	case t.Op == "append":
		var out []part
		for _, a := range t.Args {
			out = append(out, listParts(a)...)
		}
		return out
	case t.Op == "list":
		var out []part
		for _, a := range t.Args {
			out = append(out, part{t: a})
		}
		return out
	case t.isNil(), t.Op == "zero":
		return nil
	}
	return []part{{t, true}}
}

// ruleT23: TypeScript is generated from the schema given, as configured.
func ruleT23(c *Ctx) {
	m := c.generator("encoding/typescript", "GenerateTypes")
	if m == nil {
		return
	}
	m.outcomes(m.tsFile)
}

const cuetsy = "github.com/grafana/cuetsy."

func (m *genModel) tsFile(o *Outcome) string {
	e := m.e
	if e.nilness(o, o.Vals[1]) != isNil {
		return "the error is not decided: " + o.Vals[1].String()
	}
	if t := m.c.undecidedErr(e, o); t != nil {
		return "code is generated although a step may have failed: " + t.String()
	}
	val := e.lookupPath(e.fld(m.sch, "ref"), hidSchema)
	parts := listParts(o.field(e, o.Vals[0], "Nodes"))
	if len(parts) == 0 || !parts[0].spread || parts[0].t.Op != "fld" || parts[0].t.Sym != "Nodes" {
		return "the file does not start with the elements of the schema"
	}
	gen, i := parts[0].t.Args[0].call()
	if gen == nil || i != 0 || !gen.isCall(cuetsy+"GenerateAST") {
		return "the elements of the schema are not generated: " + parts[0].t.String()
	}
	if gen.Args[0] != val {
		return "the elements are not those of the schema given: " + gen.Args[0].String()
	}
	if why := m.tsConfig(o, gen.Args[1]); why != "" {
		return why
	}
	group, ok := m.flag(o, "Group")
	if !ok {
		return "whether the schema is a group is not considered"
	}
	if group {
		if len(parts) != 1 {
			return "a type is generated for the root of a group"
		}
		return ""
	}
	if len(parts) < 2 || parts[1].spread || parts[1].t.Op != "fld" || parts[1].t.Sym != "T" {
		return "no type is generated for the root of the schema"
	}
	root := parts[1].t.Args[0]
	top, i := root.call()
	if top == nil || i != 0 || !top.isCall(cuetsy+"GenerateSingleAST") {
		return "the type of the root is not generated: " + root.String()
	}
	if top.Args[1] != val {
		return "the type of the root is not that of the schema given: " + top.Args[1].String()
	}
	empty, ok := m.empty(o, "RootName")
	if !ok {
		return "the name given for the root is not considered"
	}
	name := e.mk("call", "strings.Title", e.fld(e.fld(m.sch, "lin"), "name"))
	if !empty {
		name = e.fld(m.cfg, "RootName")
	}
	if top.Args[0] != name {
		return "the root is not named as it should be: " + top.Args[0].String()
	}
	alias, ok := m.flag(o, "RootAsType")
	if !ok {
		return "whether the root is an alias is not considered"
	}
	want := "interface"
	if alias {
		want = "type"
	}
	if s, ok := top.Args[2].constStr(); !ok || s != want {
		return "the root is generated as " + top.Args[2].String() + ", not as " + want
	}
	d := e.fld(root, "D")
	rest := parts[2:]
	switch e.nilness(o, d) {
	case isNil:
		if len(rest) != 0 {
			return "defaults are generated although there are none"
		}
	case notNil:
		if len(rest) != 1 || rest[0].spread || rest[0].t != d {
			return "the defaults of the root are lost"
		}
	default:
		return "whether the root has defaults is not considered"
	}
	return ""
}

// tsConfig: the caller's configuration, or the one documented.
func (m *genModel) tsConfig(o *Outcome, got *Term) string {
	e := m.e
	own := m.noConfig(o)
	if !own {
		switch e.nilness(o, e.fld(m.cfg, "CuetsyConfig")) {
		case isNil:
			own = true
		case mayNil:
			return "whether cuetsy is configured is not considered"
		}
	}
	if !own {
		if got != e.mk("deref", "", e.fld(m.cfg, "CuetsyConfig")) {
			return "cuetsy is not configured as the caller asked: " + got.String()
		}
		return ""
	}
	if x := e.fld(got, "Export"); x.Op != "const" || x.Sym != "true" {
		return "types are not exported by default"
	}
	return ""
}
