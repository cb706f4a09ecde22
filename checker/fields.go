package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Names of private fields and types are not part of the behaviour the rules talk
// about, so the fields that carry a role are found by type and by what the
// exported accessors return, and get a canonical name.

var fieldCanon = map[*types.Var]string{}

func fieldName(v *types.Var) string {
	if n, ok := fieldCanon[v.Origin()]; ok {
		return n
	}
	return v.Name()
}

type roles struct {
	schema, lineage   *types.Named // concrete carriers of Schema and Lineage
	typedSch, convLin *types.Named
	instance          *types.Named
	typedInst         *types.Named
	runtime           *types.Named
	version           *types.Named
	lens              *types.Named
}

func (p *Program) rootType(name string) *types.Named {
	sp := p.spkgs[modPath]
	if sp == nil {
		return nil
	}
	if t, ok := sp.Members[name].(*ssa.Type); ok {
		n, _ := types.Unalias(t.Type()).(*types.Named)
		return n
	}
	return nil
}

func namedIs(t types.Type, n *types.Named) bool {
	if n == nil {
		return false
	}
	x, _ := types.Unalias(t).(*types.Named)
	return x != nil && x.Origin() == n.Origin()
}

func ptrTo(t types.Type, n *types.Named) bool {
	pt, ok := types.Unalias(t).(*types.Pointer)
	return ok && namedIs(pt.Elem(), n)
}

func isCueValue(t types.Type) bool {
	n, _ := types.Unalias(t).(*types.Named)
	return n != nil && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == cuePkg
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// resolveRoles fills fieldCanon and the interface carriers.
func (p *Program) resolveRoles() error {
	r := &p.roles
	r.instance = p.rootType("Instance")
	r.typedInst = p.rootType("TypedInstance")
	r.runtime = p.rootType("Runtime")
	r.version = p.rootType("SyntacticVersion")
	r.lens = p.rootType("ImperativeLens")
	schI, linI := p.rootType("Schema"), p.rootType("Lineage")
	if r.instance == nil || r.typedInst == nil || r.runtime == nil || r.version == nil || r.lens == nil || schI == nil || linI == nil {
		return loadError{"the public types of package thema (Instance, TypedInstance, Runtime, SyntacticVersion, ImperativeLens, Schema, Lineage) are not all there"}
	}
	var names []string
	for n := range p.spkgs[modPath].Members {
		names = append(names, n)
	}
	sort.Strings(names)
	si, _ := schI.Underlying().(*types.Interface)
	li, _ := linI.Underlying().(*types.Interface)
	embeds := func(st *types.Struct, n *types.Named) bool {
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Embedded() && namedIs(f.Type(), n) {
				return true
			}
		}
		return false
	}
	for _, n := range names {
		nt := p.rootType(n)
		if nt == nil {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		switch {
		case embeds(st, schI):
			r.typedSch = nt
			ifaceOf[n] = "Schema"
		case embeds(st, linI):
			r.convLin = nt
			ifaceOf[n] = "Lineage"
		case nt.TypeParams().Len() == 0 && types.Implements(types.NewPointer(nt), si):
			r.schema = nt
			ifaceOf[n] = "Schema"
		case nt.TypeParams().Len() == 0 && types.Implements(types.NewPointer(nt), li):
			r.lineage = nt
			ifaceOf[n] = "Lineage"
		}
	}
	if r.schema == nil || r.lineage == nil || r.typedSch == nil || r.convLin == nil {
		return loadError{"the implementations of Schema and Lineage were not found"}
	}
	canon := func(nt *types.Named, pick func(f *types.Var) string) {
		st := nt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if n := pick(st.Field(i)); n != "" {
				fieldCanon[st.Field(i).Origin()] = n
			}
		}
	}
	ret := func(nt *types.Named, m string) *types.Var { return p.returnedField(nt, m) }
	sref := ret(r.schema, "Underlying")
	canon(r.schema, func(f *types.Var) string {
		switch {
		case namedIs(f.Type(), r.version):
			return "v"
		case ptrTo(f.Type(), r.lineage):
			return "lin"
		case sref != nil && f == sref:
			return "ref"
		case isCueValue(f.Type()):
			return "def"
		}
		return ""
	})
	luni := ret(r.lineage, "Underlying")
	canon(r.lineage, func(f *types.Var) string {
		t := f.Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if namedIs(u.Elem(), r.version) {
				return "allv"
			}
			if ptrTo(u.Elem(), r.schema) {
				return "allsch"
			}
		case *types.Map:
			if namedIs(u.Elem(), r.lens) {
				return "lensmap"
			}
		}
		switch {
		case ptrTo(t, r.runtime):
			return "rt"
		case basicKind(t) == types.Bool:
			return "validated"
		case basicKind(t) == types.String:
			return "name"
		case luni != nil && f == luni:
			return "uni"
		case isCueValue(t):
			return "raw"
		}
		return ""
	})
	canon(r.instance, func(f *types.Var) string {
		switch {
		case isCueValue(f.Type()):
			return "raw"
		case basicKind(f.Type()) == types.Bool:
			return "valid"
		case basicKind(f.Type()) == types.String:
			return "name"
		case namedIs(f.Type(), schI):
			return "sch"
		}
		return ""
	})
	canon(r.runtime, func(f *types.Var) string {
		if isCueValue(f.Type()) {
			return "val"
		}
		return ""
	})
	tsI := p.rootType("TypedSchema")
	clI := p.rootType("ConvergentLineage")
	canon(r.typedInst, func(f *types.Var) string {
		if namedIs(f.Type(), tsI) {
			return "tsch"
		}
		return ""
	})
	canon(r.convLin, func(f *types.Var) string {
		if namedIs(f.Type(), tsI) {
			return "tsch"
		}
		return ""
	})
	canon(r.typedSch, func(f *types.Var) string {
		if namedIs(f.Type(), clI) {
			return "tlin"
		}
		if _, ok := f.Type().Underlying().(*types.Signature); ok {
			return "newfn"
		}
		return ""
	})
	return nil
}

// returnedField is the field every return of the method reads, if there is one.
func (p *Program) returnedField(nt *types.Named, method string) *types.Var {
	var fn *ssa.Function
	for i := 0; i < nt.NumMethods(); i++ {
		if nt.Method(i).Name() == method {
			fn = p.prog.FuncValue(nt.Method(i))
		}
	}
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	var out *types.Var
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		f := fieldRead(r.Results[0], 0)
		if f == nil || out != nil && f != out {
			return nil
		}
		out = f
	}
	return out
}

func fieldRead(v ssa.Value, d int) *types.Var {
	if d > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return fieldRead(v.X, d+1)
	case *ssa.FieldAddr:
		return v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(v.Field).Origin()
	case *ssa.Field:
		return v.X.Type().Underlying().(*types.Struct).Field(v.Field).Origin()
	case *ssa.MakeInterface:
		return fieldRead(v.X, d+1)
	case *ssa.ChangeInterface:
		return fieldRead(v.X, d+1)
	case *ssa.ChangeType:
		return fieldRead(v.X, d+1)
	case *ssa.Phi:
		var out *types.Var
		for _, e := range v.Edges {
			f := fieldRead(e, d+1)
			if f == nil || out != nil && f != out {
				return nil
			}
			out = f
		}
		return out
	case *ssa.Call:
		if c := v.Call.StaticCallee(); c != nil && c.Blocks != nil && len(c.Blocks) == 1 {
			if r, ok := c.Blocks[0].Instrs[len(c.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return fieldRead(r.Results[0], d+1)
			}
		}
	}
	return nil
}
