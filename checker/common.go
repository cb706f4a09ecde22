package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	crErr  = "github.com/cockroachdb/errors."
	cueErr = "cuelang.org/go/cue/errors."
	tErr   = modPath + "/errors."
)

func cv(m string) string { return "(" + cuePkg + ".Value)." + m }

type nilState int

const (
	mayNil nilState = iota
	isNil
	notNil
)

// nilness of a value at the end of a trace.
func (e *Engine) nilness(o *Outcome, t *Term) nilState {
	if t.isNil() {
		return isNil
	}
	if nonNil(t) {
		return notNil
	}
	if t.Op == "call" {
		// wrappers preserve nil
		switch t.Sym {
		case crErr + "Mark", crErr + "WithStack", crErr + "Wrap", crErr + "Wrapf", crErr + "WithMessage":
			return e.nilness(o, t.Args[0])
		}
	}
	c := e.nilEq(t)
	for _, f := range o.Facts {
		if f.C == c {
			if f.Val {
				return isNil
			}
			return notNil
		}
	}
	// Err() != nil asked twice and similar are equal terms already
	return mayNil
}

// marks returns the sentinels an error is marked with or wraps.
func (e *Engine) marks(t *Term) map[string]bool {
	out := map[string]bool{}
	e.collectMarks(t, out)
	return out
}

func (e *Engine) collectMarks(t *Term, out map[string]bool) {
	switch t.Op {
	case "gval":
		out[strings.TrimPrefix(t.Sym, tErr)] = true
	case "alloc":
		if d, ok := e.dyn[t]; ok {
			e.unwrapMarks(d, out)
		}
	case "box":
		if d, ok := e.dyn[t]; ok {
			e.unwrapMarks(d, out)
		}
	case "call":
		switch t.Sym {
		case crErr + "Mark":
			e.collectMarks(t.Args[0], out)
			e.collectMarks(t.Args[1], out)
		case crErr + "WithStack", crErr + "Wrap", crErr + "Wrapf", crErr + "WithMessage", crErr + "WithMessagef":
			e.collectMarks(t.Args[0], out)
		case cueErr + "Promote":
			e.collectMarks(t.Args[0], out)
		case "fmt.Errorf", crErr + "Newf", crErr + "Errorf":
			for _, a := range wrapped(t) {
				e.collectMarks(a, out)
			}
		case "errors.Join", crErr + "Join":
			for _, a := range t.Args {
				for _, b := range a.Args {
					e.collectMarks(b, out)
				}
			}
		}
	}
}

// wrapped lists the arguments of a formatting error constructor that %w wraps.
func wrapped(t *Term) []*Term {
	if len(t.Args) < 2 {
		return nil
	}
	format, ok := t.Args[0].constStr()
	if !ok || t.Args[1].Op != "list" {
		return nil
	}
	var out []*Term
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(t.Args[1].Args) {
			out = append(out, t.Args[1].Args[n])
		}
		n++
	}
	return out
}

// unwrapMarks adds the sentinels a module error type's Unwrap method returns.
func (e *Engine) unwrapMarks(t typesType, out map[string]bool) {
	if g := alwaysReturns(e.p.methodOf(t, "Unwrap"), 4); g != nil {
		out[strings.TrimPrefix(g.Pkg.Pkg.Path()+"."+g.Name(), tErr)] = true
	}
}

// alwaysReturns is the package variable that a function always returns the
// value of, or nil.
func alwaysReturns(m *ssa.Function, depth int) *ssa.Global {
	if m == nil || m.Blocks == nil || depth == 0 {
		return nil
	}
	var of func(v ssa.Value, depth int) *ssa.Global
	of = func(v ssa.Value, depth int) *ssa.Global {
		if depth == 0 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			g, _ := v.X.(*ssa.Global)
			return g
		case *ssa.Call:
			return alwaysReturns(v.Call.StaticCallee(), depth-1)
		case *ssa.Phi:
			var g *ssa.Global
			for _, x := range v.Edges {
				h := of(x, depth-1)
				if h == nil || g != nil && g != h {
					return nil
				}
				g = h
			}
			return g
		}
		return nil
	}
	var g *ssa.Global
	for _, b := range m.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(r.Results) != 1 {
			return nil
		}
		h := of(r.Results[0], depth)
		if h == nil || g != nil && g != h {
			return nil
		}
		g = h
	}
	return g
}

func (p *Program) methodOf(t typesType, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// fact returns the value a condition has on the trace, if it is known.
func (e *Engine) fact(facts []Fact, c *Term) (bool, bool) {
	v := true
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	if c.Op == "const" {
		return (c.Sym == "true") == v, true
	}
	for _, f := range facts {
		if f.C == c {
			return f.Val == v, true
		}
	}
	return false, false
}

func (e *Engine) holds(facts []Fact, c *Term) bool {
	v, ok := e.fact(facts, c)
	if ok {
		return v
	}
	if c.Op == "lt" || c.Op == "eq" || c.Op == "not" {
		return e.implied(facts, c, true)
	}
	return false
}

// loops passed on a trace: entered and left through the header.
func (o *Outcome) passed() map[string]bool {
	out := map[string]bool{}
	for _, ev := range o.Events {
		if ev.Kind == evExit && ev.AtHdr {
			out[ev.Loop] = true
		}
	}
	return out
}

func (o *Outcome) entered(loop string) bool {
	for _, ev := range o.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			return true
		}
	}
	return false
}

func iterations(outs []*Outcome, loop string) []*Outcome {
	var r []*Outcome
	for _, o := range outs {
		if o.Kind == outBack && o.Loop == loop {
			r = append(r, o)
		}
	}
	return r
}

// fields loads field f of the struct a pointer term refers to, at the end of the trace.
func (o *Outcome) field(e *Engine, ptr *Term, f string) *Term {
	return o.st.load(e, e.mk("faddr", f, ptr), anyType)
}

// samePath: nothing the iteration knows on arrival at the loop contradicts the outcome.
func (e *Engine) samePath(it, o *Outcome, loop string) bool {
	n := len(it.Facts)
	for _, ev := range it.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			n = min(n, ev.NFact)
		}
	}
	for _, f := range it.Facts[:n] {
		if v, known := e.fact(o.Facts, f.C); known && v != f.Val {
			return false
		}
	}
	return true
}
