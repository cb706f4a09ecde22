package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fnValues resolves function values: a small flow-insensitive points-to
// analysis over closures, cells, fields and parameters of the module.
type fnValues struct {
	p       *Program
	callers map[*ssa.Function][]*ssa.CallCommon
	fields  map[string][]ssa.Value // stores to fields, by struct type and index
	makers  map[*ssa.Function][]*ssa.MakeClosure
	esc     map[*ssa.Function]bool
}

func (p *Program) fnVals() *fnValues {
	if p.fnv != nil {
		return p.fnv
	}
	x := &fnValues{p: p, callers: map[*ssa.Function][]*ssa.CallCommon{}, fields: map[string][]ssa.Value{}, makers: map[*ssa.Function][]*ssa.MakeClosure{}, esc: map[*ssa.Function]bool{}}
	for _, fn := range p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					callee = c.Value
					if f := c.StaticCallee(); f != nil {
						if o := f.Origin(); o != nil {
							f = o
						}
						x.callers[f] = append(x.callers[f], c)
					}
					// arguments that are functions escape
					for _, a := range c.Args {
						x.escape(a)
					}
				}
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa)
						x.fields[k] = append(x.fields[k], in.Val)
					}
					x.escape(in.Val)
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					x.makers[f] = append(x.makers[f], in)
				case *ssa.Return:
					for _, r := range in.Results {
						x.escape(r)
					}
				case *ssa.MapUpdate:
					x.escape(in.Value)
				case *ssa.MakeInterface:
					x.escape(in.X)
				case *ssa.Phi:
					for _, e := range in.Edges {
						x.escape(e)
					}
				case *ssa.ChangeType:
					x.escape(in.X)
				}
				_ = callee
			}
		}
	}
	p.fnv = x
	return x
}

func (x *fnValues) escape(v ssa.Value) {
	switch v := v.(type) {
	case *ssa.Function:
		x.esc[v] = true
	case *ssa.MakeClosure:
		x.esc[v.Fn.(*ssa.Function)] = true
	}
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := fa.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil {
		return t.String()
	}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return n.Origin().String()
	}
	pkg := ""
	if n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg().Path()
	}
	return pkg + "." + n.Obj().Name() + "." + st.Field(fa.Field).Name()
}

// resolve gives the functions a value may be, and whether that is all of them.
func (x *fnValues) resolve(v ssa.Value) ([]*ssa.Function, bool) {
	seen := map[ssa.Value]bool{}
	var out []*ssa.Function
	have := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if o := f.Origin(); o != nil {
			f = o
		}
		if !have[f] {
			have[f] = true
			out = append(out, f)
		}
	}
	ok := true
	var rec func(v ssa.Value)
	var cell func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Function:
			add(v)
		case *ssa.MakeClosure:
			add(v.Fn.(*ssa.Function))
		case *ssa.ChangeType:
			rec(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.Const:
		case *ssa.Parameter:
			f := v.Parent()
			i := -1
			for k, p := range f.Params {
				if p == v {
					i = k
				}
			}
			cs := x.callers[f]
			if len(cs) == 0 || i < 0 || x.esc[f] {
				ok = false
			}
			for _, c := range cs {
				if i < len(c.Args) {
					rec(c.Args[i])
				}
			}
		case *ssa.FreeVar:
			f := v.Parent()
			for k, fv := range f.FreeVars {
				if fv != v {
					continue
				}
				for _, m := range x.makers[f] {
					rec(m.Bindings[k])
				}
			}
		case *ssa.UnOp:
			cell(v.X)
		default:
			ok = false
		}
	}
	cells := map[ssa.Value]bool{}
	cell = func(a ssa.Value) {
		if cells[a] {
			return
		}
		cells[a] = true
		switch a := a.(type) {
		case *ssa.Alloc:
			var scan func(refs *[]ssa.Instruction, self ssa.Value)
			scan = func(refs *[]ssa.Instruction, self ssa.Value) {
				for _, r := range *refs {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == self {
							rec(r.Val)
						} else {
							ok = false
						}
					case *ssa.MakeClosure:
						f := r.Fn.(*ssa.Function)
						for k, b := range r.Bindings {
							if b == self {
								scan(f.FreeVars[k].Referrers(), f.FreeVars[k])
							}
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						ok = false
					}
				}
			}
			scan(a.Referrers(), a)
		case *ssa.FreeVar:
			f := a.Parent()
			for k, fv := range f.FreeVars {
				if fv != a {
					continue
				}
				for _, m := range x.makers[f] {
					cell(m.Bindings[k])
				}
			}
		case *ssa.FieldAddr:
			vs := x.fields[fieldKey(a)]
			for _, v := range vs {
				rec(v)
			}
			if len(vs) == 0 {
				ok = false
			}
		default:
			ok = false
		}
	}
	rec(v)
	return out, ok
}
