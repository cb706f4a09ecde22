package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runClosure analyses a closure a function returned, in the state it was returned in.
func (c *Ctx) runClosure(e *Engine, o *Outcome, cl *Term) []*Outcome {
	outs := e.RunWith(cl.Fn, nil, cl.Args, func(s *State) {
		for k, v := range o.st.mem {
			s.mem[k] = v
		}
		for k, v := range o.st.fresh {
			s.fresh[k] = v
		}
	})
	c.account(e, cl.Fn, outs)
	return outs
}

// contradictsContract: the path needs a call to return neither a result nor an
// error, or both, which the properties about the callee exclude.
func (e *Engine) contradictsContract(o *Outcome) bool {
	for _, f := range o.Facts {
		s := nilOf(f)
		if s == nil || s.Op != "ext" {
			continue
		}
		errAt := "1"
		switch {
		case s.Args[0].isCall("Schema.Validate", "Schema.ValidateTyped", "thema.BindInstanceType", "Lineage.Schema", "thema.BindLineage", "thema.BindType"):
		case s.Args[0].isCall("Instance.Translate", "Instance.AsSuccessor", "Instance.AsPredecessor"):
			errAt = "2"
		default:
			continue
		}
		if s.Sym != "0" {
			continue
		}
		switch e.nilness(o, e.mk("ext", errAt, s.Args[0])) {
		case isNil:
			if f.Val {
				return true
			}
		case notNil:
			if !f.Val {
				return true
			}
		}
	}
	return false
}

// closureOf unwraps a returned function value.
func closureOf(t *Term) *Term {
	t = unbox(t)
	if (t.Op == "closure" || t.Op == "fn") && t.Fn != nil && t.Fn.Blocks != nil {
		return t
	}
	return nil
}

type muxKind struct {
	ctor  string
	typed bool
	final string // "", "value" or "bytes"
}

func ruleT17(c *Ctx) {
	for _, k := range []muxKind{{"NewUntypedMux", false, ""}, {"NewTypedMux", true, ""}, {"NewValueMux", true, "value"}, {"NewByteMux", false, "bytes"}} {
		c.mux(k)
	}
}

// mux decides one constructor of a version multiplexer.
func (c *Ctx) mux(k muxKind) {
	ctor := c.need("vmux", k.ctor)
	if ctor == nil {
		return
	}
	e := newEngine(c.p, Options{})
	couts := e.Run(ctor)
	c.account(e, ctor, couts)
	ps := e.paramTerms(ctor)
	sch, dec := ps[0], ps[1]
	own := e.fld(sch, "v")
	ret := 0
	for _, co := range append([]*Outcome(nil), couts...) {
		if co.Kind == outPanic && !noFirst(e, co, sch) {
			c.fail("construct", co.Pos, ctor, e, co, "%s may panic", k.ctor)
		}
		if co.Kind != outReturn {
			continue
		}
		ret++
		cl := closureOf(co.Vals[0])
		if cl == nil {
			c.fail("construct", co.Pos, ctor, e, co, "%s does not return a function that can be analysed: %v", k.ctor, co.Vals[0])
			continue
		}
		outs := c.runClosure(e, co, cl)
		c.muxBody(k, ctor, e, outs, cl.Fn, sch, dec, own)
	}
	if ret == 0 {
		c.fail("construct", fnPos(ctor), ctor, nil, nil, "%s never returns", k.ctor)
	}
}

// noFirst: the panic is confined to lineages without a 0.0 schema, which do not exist (T02).
func noFirst(e *Engine, o *Outcome, sch *Term) bool {
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil && !f.Val {
			if cl, n := s.call(); cl != nil && n == 1 && cl.isCall("Lineage.Schema") {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) muxBody(k muxKind, ctor *ssa.Function, e *Engine, outs []*Outcome, fn *ssa.Function, sch, dec, own *Term) {
	q := newSeq(c, e, outs)
	q.pos(sch, "own")
	ownPos := q.at(q.norm(sch))
	q.walk()
	lin := e.fld(sch, "lin")
	ctx := e.mk("call", cv("Context"), e.fld(lin, "uni"))
	input := e.paramTerms(fn)[0]
	// the decoded data
	decoded := func(t *Term) bool {
		cl, n := t.call()
		return cl != nil && n == 0 && isDecode(cl) && cl.Args[0] == dec && cl.Args[1] == ctx && cl.Args[2] == input
	}
	// tried: the fact says whether the schema at a position accepts the data
	tried := func(f Fact) (pos *Term, verdict *Term, accepted, ok bool) {
		s := nilOf(f)
		if s == nil || s.Op != "ext" {
			return
		}
		v := s.Args[0]
		if !v.isCall("Schema.Validate", "Schema.ValidateTyped") || len(v.Args) < 2 || !decoded(v.Args[1]) {
			return
		}
		p := q.at(q.norm(v.Args[0]))
		if p == nil {
			return
		}
		return p, v, f.Val == (s.Sym == "1"), true
	}
	isOwn := func(o *Outcome, p *Term) bool { return p == ownPos || q.proves(o, eqf(e, p, ownPos)) }
	ownRejected := func(o *Outcome) (*Term, bool) {
		for _, f := range o.Facts {
			if p, v, acc, ok := tried(f); ok && !acc && p == ownPos {
				return v, true
			}
		}
		return nil, false
	}
	// the scan over the other schemas
	loop := ""
	for _, l := range loopsOf(outs) {
		its := iterations(outs, l)
		good := len(its) > 0
		for _, it := range its {
			passed := e.contradictsContract(it) || q.excludes(it, nil)
			at := e.sub(q.last(), e.iter(l))
			for _, f := range it.Facts {
				if p, _, acc, ok := tried(f); ok && !acc && q.proves(it, eqf(e, p, at)) {
					passed = true
				}
			}
			if _, rej := ownRejected(it); rej && q.proves(it, eqf(e, q.ver(at), q.norm(own))) {
				passed = true
			}
			if !passed {
				good = false
			}
		}
		if good {
			loop = l
			c.ok("a round of the scan means that the schema at its position, from the newest down, rejected the data", fname(fn), len(its))
		}
	}
	if loop == "" {
		c.fail("scan", fnPos(fn), fn, nil, nil, "the mux of %s does not try the schemas from the newest to the oldest, going on only when one rejects the data", k.ctor)
		return
	}
	at := e.sub(q.last(), e.iter(loop))
	n := map[string]int{}
	for _, o := range outs {
		if o.Kind == outBack || e.contradictsContract(o) || q.excludes(o, nil) {
			continue
		}
		if o.Kind == outPanic {
			if noFirst(e, o, sch) || c.bindFails(e, o, sch) {
				continue
			}
			c.fail("pipeline", o.Pos, fn, e, o, "the mux of %s may panic", k.ctor)
			continue
		}
		res, lac, err := o.Vals[0], o.Vals[1], o.Vals[2]
		// the core: the instance that is passed on
		var inst, clac, cerr *Term
		stage := ""
		for _, f := range o.Facts {
			s := nilOf(f)
			if s == nil || f.Val || s.Op != "ext" || s.Sym != "1" {
				continue
			}
			if isDecode(s.Args[0]) && s.Args[0].Args[2] == input {
				stage, cerr = "decode", s
			}
		}
		if stage == "" {
			for _, f := range o.Facts {
				p, v, acc, ok := tried(f)
				if !ok || !acc {
					continue
				}
				if isOwn(o, p) {
					stage, inst = "own", e.mk("ext", "0", v)
					continue
				}
				if !o.entered(loop) || !q.proves(o, eqf(e, p, at)) {
					c.fail("scan", o.Pos, fn, e, o, "the instance passed on may not be that of the newest schema that accepts the data")
					stage = "bad"
					break
				}
				if _, rej := ownRejected(o); !rej {
					c.fail("scan", o.Pos, fn, e, o, "another schema is tried before the mux's own")
					stage = "bad"
					break
				}
				tr := e.mk("call", "Instance.Translate", e.mk("ext", "0", v), own)
				stage, inst, clac, cerr = "translate", e.mk("ext", "0", tr), e.mk("ext", "1", tr), e.mk("ext", "2", tr)
			}
		}
		if stage == "bad" {
			continue
		}
		if stage == "" {
			v, rej := ownRejected(o)
			if !rej || !o.entered(loop) || !q.proves(o, lef(e, q.len(), e.iter(loop))) {
				c.fail("scan", o.Pos, fn, e, o, "the mux of %s gives up before all schemas were tried", k.ctor)
				continue
			}
			stage, cerr = "none", e.mk("ext", "1", v)
		}
		failed := stage == "decode" || stage == "none"
		if stage == "translate" {
			switch e.nilness(o, cerr) {
			case isNil:
			case notNil:
				failed = true
			default:
				// passed on as it is
				if k.final == "" && !k.typed && res == inst && lac == clac && err == cerr {
					n["translate"]++
					continue
				}
				c.fail("pipeline", o.Pos, fn, e, o, "the mux of %s does not look at the error of the translation", k.ctor)
				continue
			}
		}
		if failed {
			if e.nilness(o, err) != notNil || !wraps(e, err, cerr) {
				c.fail("errors", o.Pos, fn, e, o, "a failure (%s) is not reported: %v", stage, err)
				continue
			}
			if k.final != "value" && !res.isNil() && !(stage == "translate" && res == inst) {
				c.fail("errors", o.Pos, fn, e, o, "a result is returned together with an error: %v", res)
				continue
			}
			n["err:"+stage]++
			continue
		}
		// success: lacunas
		if stage == "own" && !lac.isNil() || stage == "translate" && lac != clac {
			c.fail("lacunas", o.Pos, fn, e, o, "the lacunas returned are not those of the translation: %v", lac)
			continue
		}
		if w := c.muxResult(k, e, o, stage, sch, dec, inst, res, err); w != "" {
			c.fail("result", o.Pos, fn, e, o, "%s", w)
			continue
		}
		n[stage]++
	}
	for _, s := range []string{"own", "translate", "err:decode", "err:none"} {
		if n[s] == 0 {
			c.fail("pipeline", fnPos(fn), fn, nil, nil, "the mux of %s has no path of kind %q left", k.ctor, s)
			continue
		}
		c.ok(fmt.Sprintf("%s: %s", k.ctor, map[string]string{"own": "data of the mux's own schema is passed on without lacunas", "translate": "data of another schema is translated to the mux's version", "err:decode": "undecodable data is an error", "err:none": "data no schema accepts is an error naming the own schema's verdict"}[s]), fname(fn), n[s])
	}
}

func isDecode(t *Term) bool {
	return t.Op == "call" && len(t.Args) == 3 && strings.HasPrefix(t.Sym, "invoke "+modPath+"/vmux.") && strings.HasSuffix(t.Sym, ".Decode")
}

// wraps: err is cause, or an error made from it.
func wraps(e *Engine, err, cause *Term) bool {
	if err == cause {
		return true
	}
	err = unbox(err)
	if err == cause {
		return true
	}
	if err.Op != "call" {
		return false
	}
	switch err.Sym {
	case "fmt.Errorf", crErr + "Newf", crErr + "Errorf":
		for _, a := range wrapped(err) {
			if wraps(e, a, cause) {
				return true
			}
		}
	case crErr + "Mark":
		return wraps(e, err.Args[0], cause)
	default:
		if strings.HasPrefix(err.Sym, crErr) && len(err.Args) > 0 {
			return wraps(e, err.Args[0], cause)
		}
		if err.Sym == "errors.Join" {
			for _, a := range err.Args[0].Args {
				if wraps(e, a, cause) {
					return true
				}
			}
		}
	}
	return false
}

// bindFails: the panic needs BindInstanceType to refuse an instance of the mux's own version.
func (c *Ctx) bindFails(e *Engine, o *Outcome, sch *Term) bool {
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil && !f.Val {
			if cl, n := s.call(); cl != nil && n == 1 && cl.isCall("thema.BindInstanceType") && cl.Args[1] == sch {
				if in, _ := cl.Args[0].call(); in != nil && (in.isCall("Instance.Translate") || in.isCall("Schema.Validate") && in.Args[0] == sch) {
					return true
				}
			}
		}
	}
	return false
}

func (t *Term) isExtOf(call string) bool {
	cl, _ := t.call()
	return cl != nil && cl.isCall(call)
}

// muxResult decides what the mux makes of the instance.
func (c *Ctx) muxResult(k muxKind, e *Engine, o *Outcome, stage string, sch, dec, inst, res, err *Term) string {
	typed := func(t *Term) bool {
		if stage == "own" && t == inst && inst.isExtOf("Schema.ValidateTyped") {
			return true
		}
		cl, n := t.call()
		if cl == nil || n != 0 || !cl.isCall("thema.BindInstanceType") {
			return false
		}
		return cl.Args[0] == inst && cl.Args[1] == sch && e.nilness(o, e.mk("ext", "1", cl)) == isNil
	}
	plain := func() string {
		if e.nilness(o, err) != isNil {
			return "an error is returned although the data was accepted"
		}
		return ""
	}
	switch {
	case k.final == "" && !k.typed:
		if res != inst {
			return fmt.Sprintf("the instance returned is not the one obtained: %v", res)
		}
		return plain()
	case k.final == "":
		if !typed(res) {
			return fmt.Sprintf("the typed instance returned is not made from the instance obtained and the mux's schema: %v", res)
		}
		return plain()
	case k.final == "value":
		cl, n := res.call()
		if cl == nil || n != 0 || !cl.isCall("Instance.Value") || !typed(cl.Args[0]) || err != e.mk("ext", "1", cl) && !passed(e, o, err, e.mk("ext", "1", cl)) {
			return fmt.Sprintf("the value returned is not that of the typed instance: %v", res)
		}
	case k.final == "bytes":
		cl, n := res.call()
		if cl != nil && n == 0 && cl.Op == "call" && strings.HasSuffix(cl.Sym, ".Encode") && strings.Contains(cl.Sym, modPath+"/vmux.") && cl.Args[0] == dec && cl.Args[1] == e.fld(inst, "raw") {
			if x := e.mk("ext", "1", cl); err == x || passed(e, o, err, x) {
				return ""
			}
		}
		if res.isNil() && e.nilness(o, err) == notNil && strings.Contains(fmt.Sprint(err), ".Encode") {
			return ""
		}
		return fmt.Sprintf("the bytes returned are not the instance's data as encoded by the codec: %v", res)
	}
	return ""
}

// passed: the error is nil exactly as the cause is known to be.
func passed(e *Engine, o *Outcome, err, cause *Term) bool {
	a, b := e.nilness(o, err), e.nilness(o, cause)
	return a != mayNil && a == b && (a == isNil || wraps(e, err, cause))
}

// ---------------------------------------------------------------- T18

func ruleT18(c *Ctx) {
	c.codec("NewJSONCodec", "JSON", []string{cuePkgRoot + "/encoding/json.Extract"},
		[]string{"encoding/json.Marshal", cv("MarshalJSON"), cuePkgRoot + "/pkg/encoding/json.Marshal"})
	c.codec("NewYAMLCodec", "YAML", []string{cuePkgRoot + "/encoding/yaml.Extract"},
		[]string{cuePkgRoot + "/pkg/encoding/yaml.Marshal", cuePkgRoot + "/encoding/yaml.Encode"})
}

const cuePkgRoot = "cuelang.org/go"

// codec decides the codec a constructor returns.
func (c *Ctx) codec(ctor, format string, extract, marshal []string) {
	fn := c.need("vmux", ctor)
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	for _, o := range outs {
		if o.Kind != outReturn {
			c.fail("construct", o.Pos, fn, e, o, "%s may panic", ctor)
			continue
		}
		t, ok := e.dyn[o.Vals[0]]
		if !ok {
			c.fail("construct", o.Pos, fn, e, o, "cannot tell which codec %s returns", ctor)
			continue
		}
		method := func(name string) *ssa.Function {
			ms := c.p.prog.MethodSets.MethodSet(t)
			s := ms.Lookup(fn.Pkg.Pkg, name)
			if s == nil {
				c.fail("construct", o.Pos, fn, e, o, "the codec has no method %s", name)
				return nil
			}
			return c.p.prog.MethodValue(s)
		}
		if d := method("Decode"); d != nil {
			c.decodes(d, format, extract)
		}
		if d := method("Encode"); d != nil {
			c.encodes(d, format, marshal)
		}
	}
}

func (c *Ctx) decodes(fn *ssa.Function, format string, extract []string) {
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	ctx, data := ps[1], ps[2]
	var ext *Term
	for _, o := range outs {
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.isCall(extract...) && unbox(ev.Term.Args[1]) == data {
				ext = ev.Term
			}
		}
	}
	if ext == nil {
		c.fail("decode", fnPos(fn), fn, nil, nil, "the %s decoder does not parse its input as %s", format, format)
		return
	}
	expr, eerr := e.mk("ext", "0", ext), e.mk("ext", "1", ext)
	for _, o := range outs {
		if o.Kind != outReturn {
			c.fail("decode", o.Pos, fn, e, o, "the %s decoder may panic", format)
			continue
		}
		v, err := o.Vals[0], o.Vals[1]
		switch e.nilness(o, eerr) {
		case notNil:
			if e.nilness(o, err) != notNil || !wraps(e, err, eerr) {
				c.fail("decode", o.Pos, fn, e, o, "input that is not %s is not reported as an error", format)
				continue
			}
			c.ok("malformed "+format+" is an error", fname(fn), 1)
		case isNil:
			if e.nilness(o, err) == notNil {
				ok := false
				for _, op := range []string{"BuildExpr", "BuildFile"} {
					for _, ev := range o.Events {
						if b := ev.Term; ev.Kind == evCall && b.isCall("(*"+cuePkg+".Context)."+op) && b.Args[0] == ctx && unbox(b.Args[1]) == expr && valueErr(e, o, err, b) {
							ok = true
						}
					}
				}
				if ok {
					c.ok("a value with an error is an error", fname(fn), 1)
					continue
				}
			}
			built := v.Op == "call" && len(v.Args) >= 2 && v.Args[0] == ctx && unbox(v.Args[1]) == expr &&
				(v.isCall("(*"+cuePkg+".Context).BuildExpr") || v.isCall("(*"+cuePkg+".Context).BuildFile"))
			if !built {
				c.fail("decode", o.Pos, fn, e, o, "the value returned is not the one the %s input denotes, built in the context given: %v", format, v)
				continue
			}
			if e.nilness(o, err) == notNil && !valueErr(e, o, err, v) {
				c.fail("decode", o.Pos, fn, e, o, "well-formed %s may be rejected", format)
				continue
			}
			c.ok("well-formed "+format+" gives the value it denotes", fname(fn), 1)
		default:
			c.fail("decode", o.Pos, fn, e, o, "the %s decoder does not look whether the input could be parsed", format)
		}
	}
}

// valueErr: the error is the one of the value that was built.
func valueErr(e *Engine, o *Outcome, err, v *Term) bool {
	return wraps(e, err, e.mk("call", cv("Err"), v))
}

func (c *Ctx) encodes(fn *ssa.Function, format string, marshal []string) {
	e, outs := c.run(fn)
	v := e.paramTerms(fn)[1]
	for _, o := range outs {
		if o.Kind != outReturn {
			c.fail("encode", o.Pos, fn, e, o, "the %s encoder may panic", format)
			continue
		}
		res, err := unbox(o.Vals[0]), o.Vals[1]
		for res.Op == "conv" || res.Op == "bytes" || res.Op == "convert" {
			res = res.Args[0]
		}
		var m *Term
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.isCall(marshal...) && unbox(ev.Term.Args[0]) == v {
				m = ev.Term
			}
		}
		if m == nil {
			c.fail("encode", o.Pos, fn, e, o, "the %s encoder does not write the value it is given as %s", format, format)
			continue
		}
		merr := e.mk("ext", "1", m)
		if err != merr && !passed(e, o, err, merr) {
			c.fail("encode", o.Pos, fn, e, o, "a value that cannot be written as %s is not reported as an error, or one that can is", format)
			continue
		}
		if e.nilness(o, merr) != notNil && res != e.mk("ext", "0", m) {
			c.fail("encode", o.Pos, fn, e, o, "what is returned is not the %s text of the value: %v", format, res)
			continue
		}
		c.ok("values are written as "+format, fname(fn), 1)
	}
}
