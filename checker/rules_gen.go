package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genOpaque: the generators are analysed one by one; a generator another one
// calls, and the helpers over syntax trees and labels, are calls of their own.
func genOpaque(self *ssa.Function) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if fn == self || fn.Parent() != nil {
			return false
		}
		pkg := fnPkgPath(fn)
		for _, h := range []string{"/internal/astutil", "/internal/cuetil", "/internal/util"} {
			if strings.HasSuffix(pkg, h) {
				return true
			}
		}
		return strings.Contains(pkg, "/encoding/") && fn.Object() != nil && fn.Object().Exported() && fn.Signature.Recv() == nil
	}
}

type genFn struct{ pkg, name string }

var generators = []genFn{
	{"encoding/openapi", "GenerateSchema"},
	{"encoding/jsonschema", "GenerateSchema"},
	{"encoding/typescript", "GenerateTypes"},
	{"encoding/gocode", "GenerateTypesOpenAPI"},
	{"encoding/gocode", "GenerateLineageBinding"},
	{"encoding/gocode", "PostprocessGoFile"},
	{"encoding/cue", "NewLineage"},
}

// isGenerator: the function is analysed on its own.
func isGenerator(fn *ssa.Function) bool {
	for _, g := range generators {
		if fn.Name() == g.name && fn.Signature.Recv() == nil && strings.HasSuffix(fnPkgPath(fn), "/"+g.pkg) {
			return true
		}
	}
	return false
}

// ruleT20: no generator writes to anything its caller can see.
func ruleT20(c *Ctx) {
	for _, g := range generators {
		fn := c.need(g.pkg, g.name)
		if fn == nil {
			continue
		}
		e, outs := c.runOpts(fn, Options{Opaque: genOpaque(fn)})
		ps := e.paramTerms(fn)
		n := 0
		done := map[*Term]bool{}
		var check func(o *Outcome, all []*Outcome, ps []*Term)
		check = func(o *Outcome, all []*Outcome, ps []*Term) {
			for _, ev := range o.Events {
				n++
				if why := c.writesShared(e, all, ps, ev); why != "" {
					c.fail("pure", ev.Pos, fn, e, o, "%s", why)
				}
				// functions handed to others are entered with what they capture
				for _, a := range append([]*Term{ev.Term}, ev.Args...) {
					if a == nil {
						continue
					}
					a.walk(func(t *Term) bool {
						if t.Op != "closure" || done[t] || t.Fn == nil || o.st == nil {
							return true
						}
						done[t] = true
						var own []*Term
						cps := e.paramTerms(t.Fn)
						for _, p := range ps {
							if !contains(cps, p) {
								own = append(own, p)
							}
						}
						inner := c.runClosure(e, o, t)
						for _, io := range inner {
							check(io, inner, own)
						}
						return true
					})
				}
			}
		}
		for _, o := range outs {
			check(o, outs, ps)
		}
		if n == 0 {
			c.fail("pure", fnPos(fn), fn, nil, nil, "nothing was analysed")
		}
		c.ok("writes go to values made in the call", fname(fn), n)
	}
}

// writesShared explains in what way an event changes a value the caller holds
// or a package variable.
func (c *Ctx) writesShared(e *Engine, outs []*Outcome, ps []*Term, ev Event) string {
	switch ev.Kind {
	case evStore, evMap, evDel, evAppend:
		t := rootAddr(ev.Args[0])
		if t.Op == "global" {
			return "a package variable is changed: " + t.String()
		}
		if p := e.callers(outs, t, 0); p != nil && contains(ps, p) {
			return "what the caller passed is changed: " + ev.Args[0].String()
		}
	case evCall:
		fn := c.p.byCanon(ev.Term.Sym)
		if fn == nil || fn.Blocks == nil || !analysedPkg(fnPkgPath(fn)) || isGenerator(fn) {
			return ""
		}
		for i, a := range ev.Term.Args {
			if i < len(fn.Params) && c.p.writesParam(fn, i) {
				if p := e.callers(outs, rootAddr(unbox(a)), 0); p != nil && contains(ps, p) {
					return fname(fn) + " changes what the caller passed: " + a.String()
				}
			}
		}
	}
	return ""
}

// callers returns the parameter a reference leads to, or nil if the value was
// made during the call.
func (e *Engine) callers(outs []*Outcome, t *Term, d int) *Term {
	if d > 20 {
		return nil
	}
	switch t.Op {
	case "param":
		return t
	case "fld", "index", "slice", "sliceof", "deref", "assert", "ext", "box":
		if len(t.Args) > 0 {
			return e.callers(outs, rootAddr(t.Args[0]), d+1)
		}
	case "append":
		return e.callers(outs, rootAddr(t.Args[0]), d+1)
	case "loopvar", "loopmem":
		if in := e.listInit(outs, listLoop(t), t); in != nil && in != t {
			return e.callers(outs, rootAddr(in), d+1)
		}
	}
	return nil
}

// byCanon finds a function of the module by its name in call terms.
func (p *Program) byCanon(name string) *ssa.Function {
	if p.canon == nil {
		p.canon = map[string]*ssa.Function{}
		for _, fn := range p.allFuncs() {
			if fn.Parent() == nil && analysedPkg(fnPkgPath(fn)) {
				p.canon[canonFn(fn)] = fn
			}
		}
	}
	return p.canon[name]
}

// writesParam: the function, or one it calls, may store through its i-th parameter.
func (p *Program) writesParam(fn *ssa.Function, i int) bool {
	key := fmt.Sprintf("%p/%d", fn, i)
	if p.wparam == nil {
		p.wparam = map[string]bool{}
	}
	if v, ok := p.wparam[key]; ok {
		return v
	}
	p.wparam[key] = false
	from := map[ssa.Value]bool{fn.Params[i]: true}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || from[v] {
					continue
				}
				switch in.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Field, *ssa.Index, *ssa.Phi, *ssa.Slice, *ssa.Extract,
					*ssa.TypeAssert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Lookup, *ssa.Range, *ssa.Next:
				default:
					continue
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && from[*op] {
						from[v], changed = true, true
						break
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if from[in.Addr] {
					p.wparam[key] = true
				}
			case *ssa.MapUpdate:
				if from[in.Map] {
					p.wparam[key] = true
				}
			case ssa.CallInstruction:
				g := in.Common().StaticCallee()
				if g == nil || g.Blocks == nil || !analysedPkg(fnPkgPath(g)) {
					continue
				}
				for j, a := range in.Common().Args {
					if from[a] && j < len(g.Params) && p.writesParam(g, j) {
						p.wparam[key] = true
					}
				}
			}
		}
	}
	return p.wparam[key]
}
