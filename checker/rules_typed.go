package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- T30

// ruleT30: what typed schemas and typed instances give out in Go.
func ruleT30(c *Ctx) {
	c.typedValue()
	c.typedValueP()
	c.typedSchemaOf()
	c.validateTyped()
	c.typedBinding()
}

func (c *Ctx) needTyped(nt *types.Named, name string) *ssa.Function {
	fn := c.methodOf(nt, name)
	if fn == nil {
		c.failAt("anchor", nt.Obj().Name()+"."+name, "the method the property is about is not there, so nothing can be decided")
	}
	return fn
}

// decoded recognises the contents of an empty variable after decoding from a
// value; it returns the call, and what is wrong with the variable.
func (c *Ctx) decoded(e *Engine, o *Outcome, v *Term, outer *Outcome) (call *Term, why string) {
	if v.Op != "out" || !v.Args[0].isCall(cv("Decode")) || v.Sym != "1" {
		return nil, "it is not what was decoded: " + v.String()
	}
	call = v.Args[0]
	to := unbox(call.Args[1])
	if to.Op != "alloc" {
		return nil, "it is decoded onto " + to.String()
	}
	// made in this very call
	if outer != nil {
		shared := false
		for k, x := range outer.st.mem {
			shared = shared || k.contains(to) || x.contains(to)
		}
		if shared {
			return nil, "all calls decode onto the same variable"
		}
	}
	n := 0
	for _, ev := range o.Events {
		if ev.Kind == evStore && ev.Args[0].contains(to) && !zeroValue(ev.Args[1]) {
			return nil, "it is decoded onto a variable that is not empty, or changed afterwards"
		}
		if ev.Kind != evCall {
			continue
		}
		for _, a := range ev.Term.Args {
			if a.contains(to) {
				n++
				break
			}
		}
	}
	if n != 1 {
		return nil, "other calls get at the variable it is decoded onto"
	}
	return call, ""
}

func zeroValue(t *Term) bool { return t.isNil() || t.isZero() }

// typedValue: the data, unified with the schema's definition, decoded onto an
// empty value, or the error of doing so.
func (c *Ctx) typedValue() {
	fn := c.needTyped(c.p.roles.typedInst, "Value")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	inst := e.fld(recv, "Instance")
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			if e.holds(o.Facts, e.not(e.fld(inst, "valid"))) || c.notALineage(e, o) {
				continue
			}
			c.fail("value", o.Pos, fn, e, o, "Value may panic on a valid instance")
		case outReturn:
			if invalidReceiver(e, o, inst) {
				c.fail("value", o.Pos, fn, e, o, "Value answers for an instance that was never validated")
				continue
			}
			err := o.Vals[1]
			if o.Vals[0].Op != "out" && e.nilness(o, err) == notNil {
				// on an error the value does not matter
				if why := c.decodeFailed(e, o, err); why != "" {
					c.fail("value", o.Pos, fn, e, o, "Value: %s", why)
				} else {
					c.ok("the error of decoding is returned", fname(fn), 1)
				}
				continue
			}
			call, why := c.decoded(e, o, o.Vals[0], nil)
			if why != "" {
				c.fail("value", o.Pos, fn, e, o, "the value of a typed instance: %s", why)
				continue
			}
			src := e.canonDef(call.Args[0])
			ok := false
			for _, sch := range []*Term{e.fld(inst, "sch"), e.fld(recv, "tsch"), e.fld(e.fld(recv, "tsch"), "Schema")} {
				ok = ok || src == e.unify(e.defOf(sch), e.fld(inst, "raw"))
			}
			if !ok {
				c.fail("value", o.Pos, fn, e, o, "the value of a typed instance is not decoded from its data together with its schema, but from %v", call.Args[0])
				continue
			}
			if err != call && !(err.isNil() && e.nilness(o, call) == isNil) && !(e.nilness(o, err) == notNil && e.nilness(o, call) == notNil) {
				c.fail("value", o.Pos, fn, e, o, "the error of decoding is not returned, but %v", err)
				continue
			}
			n++
			c.ok("a typed instance's value is its data and the schema's defaults", fname(fn), 1)
		}
	}
	if n == 0 {
		c.fail("value", fnPos(fn), fn, nil, nil, "Value never returns a value")
	}
}

// notALineage: the schema's lineage is none that this package made.
func (c *Ctx) notALineage(e *Engine, o *Outcome) bool {
	for _, f := range o.Facts {
		if !f.Val && f.C.Op == "istype" {
			return true
		}
	}
	return false
}

func (c *Ctx) decodeFailed(e *Engine, o *Outcome, err *Term) string {
	for _, f := range o.Facts {
		if t := nilOf(f); t != nil && !f.Val && t.isCall(cv("Decode")) {
			return ""
		}
	}
	return "an error is returned although nothing has failed"
}

// typedSchemaOf: the instance's own typed schema.
func (c *Ctx) typedSchemaOf() {
	fn := c.needTyped(c.p.roles.typedInst, "TypedSchema")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			if !e.holds(o.Facts, e.not(e.fld(e.fld(recv, "Instance"), "valid"))) {
				c.fail("schema", o.Pos, fn, e, o, "TypedSchema may panic on a valid instance")
			}
		case outReturn:
			if o.Vals[0] != e.fld(recv, "tsch") {
				c.fail("schema", o.Pos, fn, e, o, "TypedSchema does not return the instance's typed schema, but %v", o.Vals[0])
				continue
			}
			n++
			c.ok("TypedSchema is the schema the instance was made with", fname(fn), 1)
		}
	}
	if n == 0 {
		c.fail("schema", fnPos(fn), fn, nil, nil, "TypedSchema never returns")
	}
}

func (c *Ctx) typedValueP() {
	fn := c.needTyped(c.p.roles.typedInst, "ValueP")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	isValue := func(t *Term) bool { return t.isCall("Instance.Value") && t.Args[0] == recv }
	n, p := 0, 0
	for _, o := range outs {
		var call *Term
		failed, known := false, false
		for _, ev := range o.Events {
			if ev.Kind == evCall && isValue(ev.Term) {
				call = ev.Term
				if v, ok := e.fact(o.Facts, e.nilEq(e.mk("ext", "1", call))); ok {
					failed, known = !v, true
				}
			}
		}
		switch o.Kind {
		case outPanic:
			if call == nil && e.holds(o.Facts, e.not(e.fld(e.fld(recv, "Instance"), "valid"))) {
				continue
			}
			if !known || !failed {
				c.fail("valuep", o.Pos, fn, e, o, "ValueP panics although Value gave no error")
				continue
			}
			p++
			c.ok("ValueP panics if Value fails", fname(fn), 1)
		case outReturn:
			if call == nil || !known || failed {
				c.fail("valuep", o.Pos, fn, e, o, "ValueP returns although Value may have failed")
				continue
			}
			if o.Vals[0] != e.mk("ext", "0", call) {
				c.fail("valuep", o.Pos, fn, e, o, "ValueP returns something else than Value: %v", o.Vals[0])
				continue
			}
			n++
			c.ok("ValueP returns what Value returns", fname(fn), 1)
		}
	}
	if n == 0 || p == 0 {
		c.fail("valuep", fnPos(fn), fn, nil, nil, "ValueP never returns, or never panics")
	}
}

// typedBinding: the typed schema gives out fresh values with the schema's
// defaults, and the caller's own value is left alone.
func (c *Ctx) typedBinding() {
	fn := c.need("", "BindType")
	newT := c.needTyped(c.p.roles.typedSch, "NewT")
	if fn == nil || newT == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	sch, given := ps[0], ps[1]
	isDecode := func(t *Term) bool {
		return t.isCall(cv("Decode")) && e.canonDef(t.Args[0]) == e.defOf(sch)
	}
	n := 0
	for _, o := range outs {
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.isCall(cv("Decode")) && unbox(ev.Term.Args[1]).contains(given) {
				c.fail("given", ev.Pos, fn, e, o, "the schema is decoded onto the value that the caller gave")
			}
			if ev.Kind == evStore && ev.Args[0].contains(given) {
				c.fail("given", ev.Pos, fn, e, o, "the value that the caller gave is changed")
			}
		}
		if o.Kind == outPanic && !c.notALineage(e, o) {
			c.fail("bind", o.Pos, fn, e, o, "BindType may panic")
		}
		if o.Kind != outReturn {
			continue
		}
		res := unbox(o.Vals[0])
		var dec *Term
		decOK := false
		for _, f := range o.Facts {
			if t := nilOf(f); t != nil && isDecode(t) {
				dec, decOK = t, f.Val
			}
		}
		if e.nilness(o, o.Vals[1]) != isNil {
			if dec == nil {
				continue // T16
			}
			if decOK {
				c.fail("decodes", o.Pos, fn, e, o, "a type is refused although the schema can be decoded onto it")
				continue
			}
			if why := c.realErrors(e, outs, o, dec, true); why != "" {
				c.fail("decodes", o.Pos, fn, e, o, "%s", why)
				continue
			}
			c.ok("types the schema cannot be decoded onto are refused", fname(fn), 1)
			continue
		}
		if dec == nil {
			c.fail("decodes", o.Pos, fn, e, o, "a type is accepted without trying to decode the schema onto it")
			continue
		}
		if !decOK {
			if why := c.realErrors(e, outs, o, dec, false); why != "" {
				c.fail("decodes", o.Pos, fn, e, o, "%s", why)
				continue
			}
		}
		c.ok("the schema can be decoded onto accepted types", fname(fn), 1)
		if res.Op != "alloc" || o.field(e, res, "Schema") != sch {
			c.fail("bind", o.Pos, fn, e, o, "the typed schema is not that of the schema given")
			continue
		}
		lin := unbox(o.field(e, res, "tlin"))
		if lin.Op != "alloc" || o.field(e, lin, "Lineage") != e.fld(sch, "lin") || unbox(o.field(e, lin, "tsch")) != res {
			c.fail("bind", o.Pos, fn, e, o, "the typed schema's lineage is not the schema's lineage with that typed schema: %v", lin)
			continue
		}
		c.ok("typed lineage and typed schema refer to each other", fname(fn), 1)
		if c.freshValues(e, o, res, newT, sch) {
			n++
		}
	}
	if n == 0 {
		c.fail("bind", fnPos(fn), fn, nil, nil, "BindType never succeeds")
	}
}

// freshValues: NewT decodes the schema's definition onto a new value each time.
func (c *Ctx) freshValues(be *Engine, bo *Outcome, res *Term, newT *ssa.Function, sch *Term) bool {
	check := func(e *Engine, o *Outcome, v *Term, want *Term, outer *Outcome) bool {
		call, why := c.decoded(e, o, v, outer)
		if why == "" && e.canonDef(call.Args[0]) != e.defOf(want) {
			why = "it is decoded from " + call.Args[0].String() + ", not from the schema's definition"
		}
		if why != "" {
			c.fail("newt", o.Pos, o.Fn, e, o, "the value NewT returns: %s", why)
			return false
		}
		c.ok("NewT decodes the schema's definition onto a new value", fname(o.Fn), 1)
		return true
	}
	e, outs := c.run(newT)
	recv := e.paramTerms(newT)[0]
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			if !c.notALineage(e, o) {
				c.fail("newt", o.Pos, newT, e, o, "NewT may panic")
				return false
			}
		case outReturn:
			v := o.Vals[0]
			if v.Op == "call" && v.Sym == "dynamic" && len(v.Args) >= 1 && v.Args[0] == e.fld(recv, "newfn") {
				cl := bo.field(be, res, "newfn")
				if cl.Op != "closure" || cl.Fn == nil {
					c.fail("newt", bo.Pos, newT, be, bo, "what makes new values is unknown: %v", cl)
					return false
				}
				m := 0
				for _, io := range c.runClosure(be, bo, cl) {
					switch io.Kind {
					case outReturn:
						if !check(be, io, io.Vals[0], sch, bo) {
							return false
						}
						m++
					case outPanic:
						if !c.notALineage(be, io) {
							c.fail("newt", io.Pos, io.Fn, be, io, "NewT may panic")
							return false
						}
					}
				}
				if m == 0 {
					c.fail("newt", bo.Pos, newT, be, bo, "NewT never returns")
					return false
				}
				n++
				continue
			}
			if !check(e, o, v, e.fld(recv, "Schema"), nil) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// realErrors decides that the errors of decoding were told apart: those about
// values that are not concrete do not count, all others do.
func (c *Ctx) realErrors(e *Engine, outs []*Outcome, o *Outcome, dec *Term, want bool) string {
	all := e.mk("call", cueErr+"Errors", dec)
	for loop := range o.passed() {
		its := iterations(outs, loop)
		if len(its) == 0 || !e.rangesOver(its[0], loop, func(l *Term) bool { return l == all }) {
			continue
		}
		var acc *Term
		kept := false
		for _, it := range its {
			if !e.samePath(it, o, loop) {
				continue
			}
			el := e.index(all, e.iter(loop))
			concrete, known := false, false
			for _, f := range it.Facts {
				if f.C.isCall("strings.Contains") && f.C.Args[0].contains(el) && insideLoop(it, loop, f) {
					if s, ok := f.C.Args[1].constStr(); ok && strings.Contains("cannot convert non-concrete value", s) && strings.Contains(s, "non-concrete") {
						concrete, known = f.Val, true
					}
				}
			}
			if !known {
				return "the errors of decoding are not told apart"
			}
			grew := false
			for _, k := range e.carriers(it) {
				if k.old.Op != "loopvar" && k.old.Op != "loop" && listLoop(k.old) == "" || k.old == k.new {
					continue
				}
				if k.new.contains(el) && k.new.contains(k.old) {
					if !zeroValue(k.init) && !emptyList(k.init) {
						return "the errors of decoding are added to something else"
					}
					grew, acc = true, k.old
				}
			}
			if grew == concrete {
				return "an error of decoding is ignored although it is not about a value that is not concrete, or the other way round"
			}
			kept = kept || grew
		}
		if !kept || acc == nil {
			return "no error of decoding counts"
		}
		// what is left of them decides
		some, none := false, false
		for _, f := range o.Facts {
			t, v := f.C, f.Val
			if x := nilOf(f); x != nil && x == acc {
				some, none = some || !v, none || v
				continue
			}
			if (t.Op == "lt" || t.Op == "eq") && t.contains(acc) && t.contains(e.int(0)) {
				nonEmpty := v
				if t.Op == "eq" {
					nonEmpty = !v
				}
				if t.Op == "lt" && t.Args[1] == e.int(0) {
					nonEmpty = false
				}
				some, none = some || nonEmpty, none || !nonEmpty
			}
		}
		switch {
		case some && none: // not possible
			return ""
		case some && want && !o.Vals[1].contains(acc):
			return "the error returned is not that of decoding"
		case some && want, none && !want:
			return ""
		case some || none:
			return "the errors of decoding are decided the wrong way round"
		}
		return "the errors of decoding do not decide"
	}
	if want {
		return ""
	}
	return "a type is accepted although the schema cannot be decoded onto it"
}
