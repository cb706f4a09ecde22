package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const schemaDefPath = "_#schema@" + modPath

// defOf is the closed definition of a schema: the def field, or the lookup in
// the declaration it was taken from (T01 shows them equal).
func (e *Engine) defOf(sch *Term) *Term { return e.fld(sch, "def") }

// canonDef rewrites lookups of a schema's definition to the def field.
func (e *Engine) canonDef(t *Term) *Term {
	return e.rewrite(t, func(x *Term) *Term {
		if x.isCall(cv("LookupPath")) && x.Args[1].Op == "path" && x.Args[1].Sym == schemaDefPath && x.Args[0].Op == "fld" && x.Args[0].Sym == "ref" {
			return e.fld(x.Args[0].Args[0], "def")
		}
		return x
	})
}

func (e *Engine) canonFacts(fs []Fact) []Fact { return e.rewriteFacts(fs, e.canonDef) }

// instanceOf: the facts say that data unified with the schema's definition is
// error free and concrete.
func (e *Engine) isInstanceFact(f Fact, sch, data *Term) bool {
	if f.C.Op != "eq" {
		return false
	}
	want := e.unify(e.defOf(sch), data)
	for j, a := range f.C.Args {
		if f.C.Args[1-j].isNil() && a.isCall(cv("Validate")) && a.Args[0] == want && optConcrete("true")(a.Args[1]) {
			return true
		}
	}
	return false
}

// bounds decides that no index or slice operation on the way can be out of range.
func (c *Ctx) bounds(rule string, fn *ssa.Function, e *Engine, outs []*Outcome) {
	c.boundsBut(rule, fn, e, outs, func(*Term) bool { return false })
}

func (c *Ctx) boundsBut(rule string, fn *ssa.Function, e *Engine, outs []*Outcome, skip func(cond *Term) bool) {
	seen := map[token.Pos]bool{}
	n := 0
	for _, o := range outs {
		for _, ev := range o.Events {
			if ev.Kind != evBound || ev.NFact > len(o.Facts) {
				continue
			}
			for _, cond := range ev.Args {
				if skip(cond) {
					continue
				}
				if e.implied(o.Facts[:ev.NFact], cond, true) {
					n++
					continue
				}
				if !seen[ev.Pos] {
					seen[ev.Pos] = true
					c.fail(rule, ev.Pos, ev.Fn, e, o, "an index may be out of range: %v is not established", cond)
				}
			}
		}
	}
	if n > 0 {
		c.ok("index and slice operations in range", fname(fn), n)
	}
}

// nonEmpty decides that a list is not empty at the end of the trace.
func (e *Engine) nonEmpty(o *Outcome, outs []*Outcome, list *Term, nonEmptySrc func(*Term) bool) bool {
	if e.implied(o.Facts, e.lt(e.int(0), e.length(list)), true) {
		return true
	}
	// append keeps what was there and adds
	if list.Op == "append" {
		if list.Args[1].Op == "list" && len(list.Args[1].Args) > 0 {
			return true
		}
		return e.nonEmpty(o, outs, list.Args[0], nonEmptySrc)
	}
	if list.isCall(cueErr + "Append") {
		return true
	}
	loop := listLoop(list)
	if loop == "" || !o.passed()[loop] {
		return false
	}
	its := iterations(outs, loop)
	if len(its) == 0 {
		return false
	}
	for _, it := range its {
		if !e.rangesOver(it, loop, nonEmptySrc) {
			return false
		}
		grew := false
		for _, cr := range e.carriers(it) {
			if cr.old.Op != "loopvar" && cr.old.Op != "loopmem" || cr.old == cr.new {
				continue
			}
			x := cr.new
			if x.Op == "append" && x.Args[0] == cr.old && x.Args[1].Op == "list" && len(x.Args[1].Args) > 0 {
				if cr.old == list || e.implied(o.Facts, e.eq(e.length(cr.old), e.int(0)), true) {
					grew = true
				}
			}
		}
		if !grew {
			return false
		}
	}
	return true
}

// rangesOver: every round of the loop takes one element of a list accepted by
// src, the first round included, so that a non-empty list means a round.
func (e *Engine) rangesOver(it *Outcome, loop string, src func(*Term) bool) bool {
	for _, f := range it.Facts {
		if f.C.Op == "lt" && f.Val && f.C.Args[0] == e.iter(loop) && f.C.Args[1].Op == "len" && src(f.C.Args[1].Args[0]) {
			return true
		}
	}
	return false
}

func structArg(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// schemasIn collects the values of fields of type Schema inside an error value.
func (c *Ctx) schemasIn(e *Engine, o *Outcome, t *Term, depth int) []*Term {
	var out []*Term
	if depth > 6 {
		return nil
	}
	schT := c.p.rootType("Schema")
	var fields func(v *Term, st *types.Struct, d int)
	fields = func(v *Term, st *types.Struct, d int) {
		if d > 4 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fv := e.fld(v, fieldName(st.Field(i)))
			if namedIs(st.Field(i).Type(), schT) {
				out = append(out, fv)
			} else if s2, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				fields(fv, s2, d+1)
			}
		}
	}
	switch t.Op {
	case "alloc":
		if d, ok := e.dyn[t]; ok {
			if st := structArg(d); st != nil {
				v := o.st.load(e, t, d.Underlying().(*types.Pointer).Elem())
				fields(v, st, 0)
			}
		}
	case "call":
		for _, a := range t.Args {
			out = append(out, c.schemasIn(e, o, a, depth+1)...)
		}
	case "list", "box":
		for _, a := range t.Args {
			out = append(out, c.schemasIn(e, o, a, depth+1)...)
		}
	default:
		if d, ok := e.dyn[t]; ok {
			if st, ok := d.Underlying().(*types.Struct); ok {
				fields(t, st, 0)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- T06

func ruleT06(c *Ctx) {
	fn := c.needMethod(c.schemaName(), "Validate")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	recv, data := ps[0], ps[1]
	cueErrs := func(t *Term) bool { return t.isCall(cueErr + "Errors") }
	decided := func(fs []Fact) (bool, bool) {
		for _, f := range fs {
			if e.isInstanceFact(f, recv, data) {
				return f.Val, true
			}
		}
		return false, false
	}
	good, bad := 0, 0
	for _, o := range outs {
		facts := e.canonFacts(o.Facts)
		switch o.Kind {
		case outBack:
			continue
		case outPanic:
			if invalidReceiver(e, o, recv) {
				continue
			}
			c.fail("total", o.Pos, fn, e, o, "Validate may panic")
			continue
		case outReturn:
		default:
			c.fail("total", o.Pos, fn, e, o, "Validate may not return on this path")
			continue
		}
		verdict, known := decided(facts)
		if !known {
			c.fail("verdict", o.Pos, fn, e, o, "Validate answers without having checked that the schema's definition unified with the data is concrete and free of errors")
			continue
		}
		inst, err := o.Vals[0], o.Vals[1]
		if verdict {
			if e.nilness(o, err) != isNil {
				c.fail("verdict", o.Pos, fn, e, o, "Validate may fail for data that is an instance of the schema")
				continue
			}
			if inst.Op != "alloc" {
				c.fail("instance", o.Pos, fn, e, o, "Validate does not return a new Instance for valid data")
				continue
			}
			if o.field(e, inst, "raw") != data || o.field(e, inst, "sch") != recv || o.field(e, inst, "valid").Sym != "true" {
				c.fail("instance", o.Pos, fn, e, o, "the Instance returned is not marked valid, or is not of this schema and this data: raw=%v sch=%v valid=%v", o.field(e, inst, "raw"), o.field(e, inst, "sch"), o.field(e, inst, "valid"))
				continue
			}
			good++
			continue
		}
		if !inst.isNil() {
			c.fail("verdict", o.Pos, fn, e, o, "Validate returns an Instance for data that is not valid")
			continue
		}
		if e.nilness(o, err) != notNil {
			c.fail("verdict", o.Pos, fn, e, o, "Validate may return neither an Instance nor an error")
			continue
		}
		if !e.marks(err)["ErrInvalidData"] && !e.passThrough(o, err) {
			c.fail("error", o.Pos, fn, e, o, "the error of a failed validation does not unwrap to ErrInvalidData")
			continue
		}
		if err.Op == "box" {
			if !e.nonEmpty(o, outs, err.Args[0], cueErrs) {
				c.fail("error", o.Pos, fn, e, o, "a failed validation may return an error without any content")
				continue
			}
		}
		bad++
	}
	if good > 0 {
		c.ok("valid data gives an Instance of this schema and data", fname(fn), good)
	} else {
		c.fail("verdict", fnPos(fn), fn, nil, nil, "Validate never returns an Instance")
	}
	if bad > 0 {
		c.ok("invalid data gives a non-empty ErrInvalidData error and no Instance", fname(fn), bad)
	} else {
		c.fail("verdict", fnPos(fn), fn, nil, nil, "Validate never fails")
	}
	// reported errors are about this schema
	n := 0
	for _, o := range outs {
		if o.Kind != outBack {
			continue
		}
		for _, cr := range e.carriers(o) {
			x := cr.new
			if x == cr.old || x.Op != "append" || x.Args[1].Op != "list" {
				continue
			}
			for _, el := range x.Args[1].Args {
				for _, s := range c.schemasIn(e, o, el, 0) {
					if s != recv {
						c.fail("error", o.Pos, fn, e, o, "a reported error names another schema than the one that was asked: %v", s)
					} else {
						n++
					}
				}
			}
		}
	}
	c.ok("reported errors carry the receiver schema", fname(fn), n)
	c.bounds("total", fn, e, outs)
	c.validateTyped()
}

// passThrough: the error is CUE's own and not of the kind that has structure.
func (e *Engine) passThrough(o *Outcome, err *Term) bool {
	if !err.isCall(cv("Validate")) {
		return false
	}
	for _, f := range o.Facts {
		if f.C.Op == "istype" && !f.Val && f.C.Args[0] == err && f.C.Sym == "iface:"+cuePkg+"/errors.Error" {
			return true
		}
	}
	return false
}

func (c *Ctx) validateTyped() {
	nt := c.p.roles.typedSch
	fn := c.methodOf(nt, "ValidateTyped")
	if fn == nil {
		c.failAt("anchor", nt.Obj().Name()+".ValidateTyped", "the method the property is about is not there, so nothing can be decided")
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	call := e.mk("call", "Schema.Validate", e.mk("fld", "Schema", ps[0]), ps[1])
	inst, err := e.mk("ext", "0", call), e.mk("ext", "1", call)
	for _, o := range outs {
		if o.Kind != outReturn {
			c.fail("typed", o.Pos, fn, e, o, "ValidateTyped may panic")
			continue
		}
		switch e.nilness(o, err) {
		case isNil:
			r := o.Vals[0]
			if r.Op != "alloc" || e.nilness(o, o.Vals[1]) != isNil || o.field(e, r, "Instance") != inst || o.field(e, r, "tsch") != ps[0] {
				c.fail("typed", o.Pos, fn, e, o, "ValidateTyped does not wrap the instance Validate returned together with its own schema")
				continue
			}
			c.ok("ValidateTyped wraps what Validate returned", fname(fn), 1)
		case notNil:
			if !o.Vals[0].isNil() || e.nilness(o, o.Vals[1]) != notNil {
				c.fail("typed", o.Pos, fn, e, o, "ValidateTyped does not report the failure of Validate")
				continue
			}
			c.ok("ValidateTyped fails when Validate does", fname(fn), 1)
		default:
			c.fail("typed", o.Pos, fn, e, o, "ValidateTyped does not look at the error of Validate")
		}
	}
}

// methodOf finds a declared method of a (possibly generic) type.
func (c *Ctx) methodOf(nt *types.Named, name string) *ssa.Function {
	for i := 0; i < nt.NumMethods(); i++ {
		if nt.Method(i).Name() == name {
			if fn := c.p.prog.FuncValue(nt.Method(i)); fn != nil && fn.Blocks != nil {
				return fn
			}
		}
	}
	return nil
}

// instanceAllocs lists the Instance objects created on the trace.
func (c *Ctx) instanceAllocs(e *Engine, o *Outcome) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for a := range o.st.mem {
		r := rootAddr(a)
		if r.Op != "alloc" || seen[r] || r.T == nil {
			continue
		}
		if ptrTo(r.T, c.p.roles.instance) {
			seen[r] = true
			out = append(out, r)
		}
	}
	sortTerms(out)
	return out
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// ---------------------------------------------------------------- T07

// instanceRoots are the entry points from which Instances can come into being.
func (c *Ctx) instanceRoots() []*ssa.Function {
	makes := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if ptrTo(x.Type(), c.p.roles.instance) || ptrTo(x.Type(), c.p.roles.typedInst) {
						return true
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && (ptrTo(fa.X.Type(), c.p.roles.instance) || ptrTo(fa.X.Type(), c.p.roles.typedInst)) {
						return true
					}
					if ptrTo(x.Addr.Type(), c.p.roles.instance) {
						return true
					}
				}
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, fn := range c.p.allFuncs() {
		if fnPkgPath(fn) != modPath || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if !token.IsExported(fn.Name()) && !c.p.isRecursive(fn) {
			continue
		}
		hit := makes(fn)
		for g := range c.p.reachable(fn) {
			if makes(g) {
				hit = true
				break
			}
		}
		if hit {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	return roots
}

func fldOf(t *Term, f string) *Term {
	if t.Op == "fld" && t.Sym == f {
		return t.Args[0]
	}
	return nil
}

// justified explains why an Instance object holds data of its schema, or says what is wrong.
func (c *Ctx) justified(e *Engine, o *Outcome, outs []*Outcome, a *Term, depth int) (string, string) {
	raw, sch, valid := e.canonDef(o.field(e, a, "raw")), e.canonDef(o.field(e, a, "sch")), o.field(e, a, "valid")
	if valid.Sym == "false" && valid.Op == "const" {
		return "never marked valid", ""
	}
	facts := e.canonFacts(o.Facts)
	for _, f := range facts {
		if f.Val && e.isInstanceFact(f, sch, raw) {
			return "validated", ""
		}
	}
	if v, ok := e.fact(facts, e.nilEq(e.mk("ext", "1", e.mk("call", "Schema.Validate", sch, raw)))); ok && v {
		return "validated", ""
	}
	x := fldOf(raw, "raw")
	if x != nil {
		sameValid := fldOf(valid, "valid") == x
		if v, ok := e.fact(o.Facts, e.mk("fld", "valid", x)); ok && v {
			sameValid = true
		}
		for _, ev := range o.Events {
			if ev.Kind == evGet && ev.Term.isCall("Instance.Schema", "Instance.Underlying") && ev.Term.Args[0] == x {
				sameValid = true
			}
		}
		if sameValid && fldOf(sch, "sch") == x {
			if x.Op == "loopmem" && depth < 3 {
				if w := c.loopInstance(e, outs, x, depth); w != "" {
					return "", w
				}
			}
			return "copy", ""
		}
		s0 := e.mk("fld", "sch", x)
		if sameValid && sch == e.mk("call", "Schema.Successor", s0) {
			m1, m0 := e.index(e.mk("fld", "v", sch), e.int(0)), e.index(e.mk("fld", "v", s0), e.int(0))
			if e.holds(o.Facts, e.eq(m1, m0)) && e.nilness(o, sch) == notNil {
				return "minor successor", ""
			}
			return "", "data is taken over unchanged as an instance of the successor schema without the successor being known to be of the same major version"
		}
	}
	if cl, n := raw.call(); cl != nil && n == 0 && len(cl.Args) >= 2 {
		if i := fldOf(sch, "sch"); i != nil && among(cl.Args, e.defOf(sch)) && among(cl.Args, e.mk("fld", "raw", i)) && !inCue(cl.Sym) {
			for _, f := range facts {
				if f.Val && f.C.Op == "eq" {
					for j, y := range f.C.Args {
						if f.C.Args[1-j].isNil() && y.Op == "ext" && y.Args[0] == cl {
							return "defaults", ""
						}
					}
				}
			}
			return "", "the result of adding or removing defaults is used although doing so may have failed"
		}
	}
	if it := raw; it.isCall("Iterator.Value") && len(it.Args) > 0 {
		src, n := it.Args[0].call()
		if n == 0 && src != nil && src.isCall(cv("Fields")) && src.Args[0] == e.lookupPath(e.mk("fld", "ref", sch), "examples") {
			return "example", ""
		}
	}
	return "", fmt.Sprintf("an Instance is made of data that was not validated against its schema: raw=%v sch=%v valid=%v", raw, sch, valid)
}

func inCue(s string) bool { return strings.Contains(s, cuePkg) }

// loopInstance: an Instance object rewritten around a loop is good at its end
// if it is when the loop starts and after every round.
func (c *Ctx) loopInstance(e *Engine, outs []*Outcome, lm *Term, depth int) string {
	cell := lm.Args[0]
	init := e.memStart(outs, lm.Sym, cell)
	if init == nil || init.Op != "deref" && init.Op != "loopmem" {
		return "an Instance changed by a loop does not start as a copy of an existing one"
	}
	for _, it := range iterations(outs, lm.Sym) {
		if _, w := c.justified(e, it, outs, cell, depth+1); w != "" {
			return w
		}
	}
	return ""
}

func ruleT07(c *Ctx) {
	roots := c.instanceRoots()
	made := map[string]int{}
	for _, fn := range roots {
		e, outs := c.run(fn)
		for _, o := range outs {
			for _, ev := range o.Events {
				if ev.Kind != evStore || len(ev.Args) == 0 {
					continue
				}
				r := rootAddr(ev.Args[0])
				if r.Op != "alloc" && r.T != nil && (ptrTo(r.T, c.p.roles.instance) || ptrTo(r.T, c.p.roles.typedInst)) {
					c.fail("mutation", ev.Pos, ev.Fn, e, o, "an existing Instance is changed: %v", ev.Args[0])
				}
			}
			if o.Kind == outPanic {
				continue
			}
			for _, a := range c.instanceAllocs(e, o) {
				if t := typeOfAlloc(a); t != nil && namedIs(t, c.p.roles.typedInst) {
					continue
				}
				why, wrong := c.justified(e, o, outs, a, 0)
				if wrong != "" {
					c.fail("soundness", o.Pos, fn, e, o, "%s", wrong)
					continue
				}
				if why == "example" {
					c.fail("examples-unvalidated", o.Pos, fn, e, o, "an example is returned as an Instance without checking that it is concrete")
				}
				made[why]++
			}
		}
	}
	var ks []string
	for k := range made {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k != "example" {
			c.ok("Instances made soundly: "+k, modPath, made[k])
		}
	}
	if made["validated"] == 0 {
		c.failAt("soundness", modPath, "no Instance is ever made from validated data")
	}
	c.examples()
	c.guarded()
	c.bindInstance()
	c.bindInstanceAccessors()
}

func typeOfAlloc(a *Term) types.Type {
	if a.T == nil {
		return nil
	}
	if p, ok := a.T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// guarded: methods of Instances answer only for valid ones.
func (c *Ctx) guarded() {
	for _, nt := range []*types.Named{c.p.roles.instance, c.p.roles.typedInst} {
		for i := 0; i < nt.NumMethods(); i++ {
			m := nt.Method(i)
			fn := c.p.prog.FuncValue(m)
			if !m.Exported() || fn == nil || fn.Blocks == nil {
				continue
			}
			e, outs := c.run(fn)
			recv := e.paramTerms(fn)[0]
			xs := []*Term{recv, e.mk("fld", "Instance", recv)}
			n := 0
			for _, o := range outs {
				if o.Kind != outReturn {
					continue
				}
				ok := false
				for _, x := range xs {
					if v, known := e.fact(o.Facts, e.mk("fld", "valid", x)); known && v {
						ok = true
					}
					for _, ev := range o.Events {
						if (ev.Kind == evGet || ev.Kind == evCall) && strings.HasPrefix(ev.Term.Sym, "Instance.") && len(ev.Term.Args) > 0 && ev.Term.Args[0] == x {
							ok = true
						}
					}
				}
				if !ok {
					c.fail("guard", o.Pos, fn, e, o, "%s answers for an Instance that was never validated", m.Name())
					continue
				}
				n++
			}
			if n > 0 {
				c.ok("methods answer only for validated Instances", fname(fn), n)
			}
		}
	}
}

func (c *Ctx) bindInstanceAccessors() {
	for _, g := range []getter{{c.p.roles.instance.Obj().Name(), "Schema", "sch"}, {c.p.roles.instance.Obj().Name(), "Underlying", "raw"}} {
		if fn := c.needMethod(g.typ, g.method); fn != nil {
			c.accessor("instance accessors", fn, g.field)
		}
	}
}

// bindInstance: a TypedInstance is only made for a typed schema of the instance's own schema.
func (c *Ctx) bindInstance() {
	fn := c.need("", "BindInstanceType")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	inst, tsch := ps[0], ps[1]
	same := e.eq(e.mk("fld", "Schema", tsch), e.mk("fld", "sch", inst))
	for _, o := range outs {
		if o.Kind == outPanic {
			continue
		}
		if o.Kind != outReturn {
			c.fail("typed", o.Pos, fn, e, o, "cannot follow BindInstanceType")
			continue
		}
		v, known := e.fact(o.Facts, same)
		switch {
		case !known:
			c.fail("typed", o.Pos, fn, e, o, "BindInstanceType answers without comparing the typed schema with the instance's schema")
		case v:
			r := o.Vals[0]
			if r.Op != "alloc" || !o.Vals[1].isNil() || o.field(e, r, "Instance") != inst || o.field(e, r, "tsch") != tsch {
				c.fail("typed", o.Pos, fn, e, o, "BindInstanceType does not return the instance with the typed schema")
				continue
			}
			c.ok("BindInstanceType pairs an instance with the typed schema of its own schema", fname(fn), 1)
		default:
			if !o.Vals[0].isNil() || e.nilness(o, o.Vals[1]) != notNil {
				c.fail("typed", o.Pos, fn, e, o, "BindInstanceType accepts a typed schema of another schema")
				continue
			}
			c.ok("BindInstanceType rejects the typed schema of another schema", fname(fn), 1)
		}
	}
}

// examples: every example is in the result, under its own name, as an instance of the receiver.
func (c *Ctx) examples() {
	fn := c.needMethod(c.schemaName(), "Examples")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	src := e.mk("call", cv("Fields"), e.lookupPath(e.mk("fld", "ref", recv), "examples"), e.nilT())
	it := e.mk("ext", "0", src)
	named := func(t *Term) bool {
		if t.isCall("(*"+cuePkg+".Iterator).Label", "(*"+cuePkg+".hiddenIterator).Label", "Iterator.Label") {
			return t.Args[0] == it
		}
		if t.isCall("("+cuePkg+".Selector).Unquoted", "Selector.Unquoted") && len(t.Args[0].Args) > 0 {
			return t.Args[0].Op == "call" && t.Args[0].Args[0] == it
		}
		return false
	}
	for _, o := range outs {
		switch o.Kind {
		case outBack:
			ok := false
			for _, ev := range o.Events {
				if ev.Kind == evMap && named(ev.Args[1]) && ev.Args[2].Op == "alloc" && o.field(e, ev.Args[2], "sch") == recv {
					r := o.field(e, ev.Args[2], "raw")
					if r.isCall("Iterator.Value") && r.Args[0] == it && o.field(e, ev.Args[2], "valid") == e.boolT(true) {
						ok = true
					}
				}
			}
			if !ok {
				c.fail("examples", o.Pos, fn, e, o, "an example is not returned under its own name as an instance of the schema")
				continue
			}
			c.ok("every example is returned under its own name", fname(fn), 1)
		case outReturn:
			if o.Vals[0].Op != "mkmap" {
				c.fail("examples", o.Pos, fn, e, o, "Examples does not return the map of all examples")
				continue
			}
			more := false
			for _, f := range o.Facts {
				if f.C.isCall("Iterator.Next") && f.C.Args[0] == it && !f.Val {
					more = true
				}
			}
			if !more {
				c.fail("examples", o.Pos, fn, e, o, "Examples may return before all examples were seen")
				continue
			}
			c.ok("all examples are visited", fname(fn), 1)
		}
	}
}

// ---------------------------------------------------------------- T08

func ruleT08(c *Ctx) {
	fn := c.needMethod(c.lineageName(), "ValidateAny")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	recv, data := ps[0], ps[1]
	q := newSeq(c, e, outs)
	q.bind[recv] = q.lin
	q.walk()
	// tried: the fact says whether schema k accepts the data
	tried := func(f Fact) (*Term, bool, bool) {
		if f.C.Op != "eq" {
			return nil, false, false
		}
		for j, a := range f.C.Args {
			if !f.C.Args[1-j].isNil() || a.Op != "ext" {
				continue
			}
			v := a.Args[0]
			if !v.isCall("Schema.Validate") || v.Args[1] != data {
				continue
			}
			s := q.norm(v.Args[0])
			if s.Op != "index" || s.Args[0] != q.alls {
				continue
			}
			ok := f.Val == (a.Sym == "1")
			return s.Args[1], ok, true
		}
		return nil, false, false
	}
	loops := loopsOf(outs)
	var loop string
	for _, l := range loops {
		its := iterations(outs, l)
		if len(its) == 0 {
			continue
		}
		good := true
		for _, it := range its {
			rejected := e.contradictsContract(it)
			for _, f := range it.Facts {
				if k, ok, is := tried(f); is && !ok && q.proves(it, eqf(e, k, e.iter(l))) {
					rejected = true
				}
			}
			if !rejected {
				good = false
			}
		}
		if good {
			loop = l
			c.ok("a round of the scan means that the schema at its position rejected the data", fname(fn), len(its))
		}
	}
	if loop == "" {
		c.fail("oldest", fnPos(fn), fn, nil, nil, "ValidateAny does not try the schemas from the oldest to the newest, going on only when one rejects the data")
		return
	}
	it := e.iter(loop)
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			if !invalidReceiver(e, o, recv) && !q.excludes(o, nil) {
				c.fail("oldest", o.Pos, fn, e, o, "ValidateAny may panic")
			}
		case outReturn:
			if e.contradictsContract(o) || q.excludes(o, nil) {
				continue
			}
			v := o.Vals[0]
			if v.isNil() {
				if !o.entered(loop) || !q.proves(o, lef(e, q.len(), it)) {
					c.fail("oldest", o.Pos, fn, e, o, "ValidateAny may answer nil before all schemas were tried")
					continue
				}
				n++
				c.ok("nil only after all schemas rejected the data", fname(fn), 1)
				continue
			}
			ok := false
			cl, i := v.call()
			if cl != nil && i == 0 && cl.isCall("Schema.Validate") && cl.Args[1] == data {
				for _, f := range o.Facts {
					k, acc, is := tried(f)
					s := q.norm(cl.Args[0])
					if is && acc && s.Op == "index" && s.Args[0] == q.alls && s.Args[1] == k && o.entered(loop) && q.proves(o, eqf(e, k, it)) {
						ok = true
					}
				}
			}
			if !ok {
				c.fail("oldest", o.Pos, fn, e, o, "ValidateAny does not return the instance of the oldest schema that accepts the data: %v", v)
				continue
			}
			n++
			c.ok("the instance returned is that of the first accepting schema", fname(fn), 1)
		}
	}
	if n == 0 {
		c.fail("oldest", fnPos(fn), fn, nil, nil, "ValidateAny never returns")
	}
}

func among(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}
