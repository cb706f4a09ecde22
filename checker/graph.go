package main

import (
	"golang.org/x/tools/go/ssa"
)

// globalStores returns every store to a package-level variable in the module.
func (p *Program) globalStores(g *ssa.Global) []*ssa.Store {
	if p.gstores == nil {
		p.gstores = map[*ssa.Global][]*ssa.Store{}
		for _, fn := range p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if gl, ok := st.Addr.(*ssa.Global); ok {
							p.gstores[gl] = append(p.gstores[gl], st)
						}
					}
				}
			}
		}
	}
	return p.gstores[g]
}

// allFuncs includes the package initialisers.
func (p *Program) allFuncs() []*ssa.Function {
	if p.all == nil {
		p.all = append(p.all, p.funcs...)
		have := map[*ssa.Function]bool{}
		for _, f := range p.all {
			have[f] = true
		}
		for _, sp := range p.spkgs {
			if f := sp.Func("init"); f != nil && !have[f] {
				p.all = append(p.all, f)
			}
		}
	}
	return p.all
}

// staticCallees lists the functions of the module a function calls directly,
// including the closures it creates.
func (p *Program) staticCallees(fn *ssa.Function) []*ssa.Function {
	if c, ok := p.callees[fn]; ok {
		return c
	}
	if p.callees == nil {
		p.callees = map[*ssa.Function][]*ssa.Function{}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				add(c.Common().StaticCallee())
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				}
			}
		}
	}
	p.callees[fn] = out
	return out
}

// reaches reports whether from can reach to through static calls.
func (p *Program) reachable(from *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, c := range p.staticCallees(f) {
			if !seen[c] {
				seen[c] = true
				rec(c)
			}
		}
	}
	rec(from)
	return seen
}

func (p *Program) isRecursive(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if r, ok := p.recur[fn]; ok {
		return r
	}
	if p.recur == nil {
		p.recur = map[*ssa.Function]bool{}
	}
	// a contract function is never entered from another one, so a cycle through
	// it is none
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, c := range p.staticCallees(f) {
			if !seen[c] {
				seen[c] = true
				if !contracts[canonFn(c)] {
					rec(c)
				}
			}
		}
	}
	rec(fn)
	r := seen[fn]
	p.recur[fn] = r
	return r
}
