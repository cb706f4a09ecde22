package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	codegenPkg = "internal/deepmap/oapi-codegen/pkg/codegen"
	oapi3      = "github.com/getkin/kin-openapi/openapi3."
)

// what a value of each type and format is in Go; * is any other format
var goTypeOf = map[string]map[string]string{
	"integer": {"int64": "int64", "int32": "int32", "int16": "int16", "int8": "int8", "int": "int", "uint64": "uint64", "uint32": "uint32", "uint16": "uint16", "uint8": "uint8", "uint": "uint", "*": "int"},
	"number":  {"double": "float64", "float": "float32", "": "float32"},
	"boolean": {"": "bool"},
	"string":  {"byte": "[]byte", "binary": "[]byte", "email": "openapi_types.Email", "date": "openapi_types.Date", "date-time": "time.Time", "json": "json.RawMessage", "uuid": "openapi_types.UUID", "*": "string"},
	"inner":   {"*": ""},
}

// the functions that map schemas are followed, but for the one that handles a
// whole schema and the one that makes up names
var codegenOpts = Options{InlineRec: true, Also: modPath + "/" + codegenPkg, Opaque: func(fn *ssa.Function) bool {
	return strings.HasSuffix(fnPkgPath(fn), codegenPkg) && (fn.Name() == "GenerateGoSchema" || fn.Name() == "PathToTypeName")
}}

// ruleT40: the Go types of generated fields hold the values of the schema.
func ruleT40(c *Ctx) {
	var conv *ssa.Function
	for _, fn := range c.p.allFuncs() {
		if fn.Pkg == nil || fn.Parent() != nil || fn.Pkg.Pkg.Path() != modPath+"/"+codegenPkg || fn.Signature.Recv() != nil {
			continue
		}
		ps := fn.Signature.Params()
		if ps.Len() == 3 && ps.At(0).Type().String() == "*"+oapi3+"Schema" && ps.At(1).Type().String() == "[]string" && strings.HasSuffix(ps.At(2).Type().String(), "codegen.Schema") {
			if _, ok := types.Unalias(ps.At(2).Type()).(*types.Pointer); ok && (conv == nil || len(fn.Blocks) > len(conv.Blocks)) {
				conv = fn
			}
		}
	}
	if conv == nil {
		c.failAt("anchor", modPath+"/"+codegenPkg, "no function gives the Go type of a schema")
		return
	}
	c.goTypes(conv)
	c.optional()
}

// texts: which constant a string is on the path, and which it is not.
func texts(o *Outcome, t *Term) (is string, known bool, not map[string]bool) {
	not = map[string]bool{}
	for _, f := range o.Facts {
		if f.C.Op != "eq" {
			continue
		}
		for i := range f.C.Args {
			if s, ok := f.C.Args[1-i].constStr(); ok && f.C.Args[i] == t {
				if f.Val {
					is, known = s, true
				} else {
					not[s] = true
				}
			}
		}
	}
	return is, known, not
}

func (c *Ctx) goTypes(fn *ssa.Function) {
	e, outs := c.runOpts(fn, codegenOpts)
	ps := e.paramTerms(fn)
	typ, format := e.fld(ps[0], "Type"), e.fld(ps[0], "Format")
	seen := map[string]bool{}
	for _, o := range outs {
		if o.Kind == outPanic {
			c.fail("total", o.Pos, fn, e, o, "the type of a schema may panic")
			continue
		}
		if o.Kind != outReturn {
			continue
		}
		failed := e.nilness(o, o.Vals[len(o.Vals)-1])
		got := e.fld(o.st.load(e, ps[2], anyType), "GoType")
		t, known, notT := texts(o, typ)
		if !known {
			unknown := true
			for k := range goTypeOf {
				unknown = unknown && notT[k]
			}
			if !unknown || !notT["array"] {
				c.fail("types", o.Pos, fn, e, o, "a Go type is chosen without knowing the type of the schema: %v", got)
			} else if failed != notNil {
				c.fail("types", o.Pos, fn, e, o, "an unknown type is not an error")
			} else {
				c.ok("unknown types are errors", fname(fn), 1)
			}
			continue
		}
		seen[t] = true
		if t == "array" {
			if why := c.arrayType(e, o, fn, ps[0], got, failed); why != "" {
				c.fail("types", o.Pos, fn, e, o, "%s", why)
			} else {
				c.ok("lists have the Go type of their elements", fname(fn), 1)
			}
			continue
		}
		table, ok := goTypeOf[t]
		if !ok {
			c.fail("types", o.Pos, fn, e, o, "type %q is given a Go type: %v", t, got)
			continue
		}
		// a table in the code
		if got.Op == "lookup" && got.Args[1] == format {
			m := c.constTable(got.Args[0])
			bad := len(m) == 0
			for k, v := range m {
				bad = bad || table[k] != v
			}
			if has, known := e.fact(o.Facts, e.mk("has", "", got.Args[0], format)); bad || !known || !has || failed != isNil {
				c.fail("types", o.Pos, fn, e, o, "the Go type of a %s is not the one of its format: %v", t, got)
			} else {
				c.ok("types and formats", fname(fn), len(m))
			}
			continue
		}
		f, known, notF := texts(o, format)
		for _, x := range o.Facts {
			if x.C.Op == "has" && x.C.Args[1] == format && !x.Val {
				for k := range c.constTable(x.C.Args[0]) {
					notF[k] = true
				}
			}
		}
		want, ok := table[f]
		if !known || !ok && known {
			want, ok = table["*"]
			all := true
			if !known {
				for k, v := range table {
					if k != "*" && !notF[k] && v != want {
						all = false
					}
				}
			}
			if !all && !(ok && len(table) == 1) {
				c.fail("types", o.Pos, fn, e, o, "a Go type is chosen for a %s without knowing its format: %v", t, got)
				continue
			}
		}
		switch {
		case !ok && failed != notNil:
			c.fail("types", o.Pos, fn, e, o, "a format of a %s that is not known is not an error", t)
		case ok && failed != isNil:
			c.fail("types", o.Pos, fn, e, o, "format %q of a %s is refused", f, t)
		case ok && !isStr(got, want) && !(got == format && known && f == want):
			c.fail("types", o.Pos, fn, e, o, "the Go type of a %s of format %q is %v, not %s", t, f, got, want)
		default:
			c.ok("types and formats", fname(fn), 1)
		}
	}
	for k := range goTypeOf {
		if !seen[k] {
			c.fail("types", fnPos(fn), fn, nil, nil, "schemas of type %s have no Go type", k)
		}
	}
	if !seen["array"] {
		c.fail("types", fnPos(fn), fn, nil, nil, "lists have no Go type")
	}
}

// arrayType: [] in front of what the schema of the elements is in Go.
func (c *Ctx) arrayType(e *Engine, o *Outcome, fn *ssa.Function, schema, got *Term, failed nilState) string {
	var items *Term
	for _, ev := range o.Events {
		if ev.Kind == evCall && strings.HasSuffix(ev.Term.Sym, "codegen.GenerateGoSchema") {
			if ev.Term.Args[0] != e.fld(schema, "Items") {
				return "the elements of a list are not those of the schema"
			}
			items = ev.Term
		}
	}
	if items == nil {
		return "the elements of a list have no type"
	}
	bad := e.nilness(o, e.mk("ext", "1", items))
	switch {
	case bad == notNil:
		if failed != notNil {
			return "an error about the elements of a list is dropped"
		}
		return ""
	case bad != isNil:
		return "whether the elements have a type is not considered"
	case failed != isNil:
		return "a list is refused"
	}
	if got.Op != "cat" || len(got.Args) != 2 || !isStr(got.Args[0], "[]") {
		return "the Go type of a list is no list: " + got.String()
	}
	about := false
	got.Args[1].walk(func(t *Term) bool {
		about = about || t == items
		return !about
	})
	if !about && !strings.Contains(got.Args[1].String(), "PathToTypeName") {
		return "the Go type of a list is not that of its elements: " + got.String()
	}
	return ""
}

// constTable is the content of a map that is a global and filled with constants.
func (c *Ctx) constTable(t *Term) map[string]string {
	name := t.Sym
	t.walk(func(k *Term) bool {
		if k.Op == "gval" || k.Op == "global" {
			name = k.Sym
		}
		return true
	})
	out := map[string]string{}
	for _, fn := range c.p.allFuncs() {
		if fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg == nil || g.Pkg.Pkg.Path()+"."+g.Name() != name {
					continue
				}
				for _, r := range *st.Val.Referrers() {
					if mu, ok := r.(*ssa.MapUpdate); ok {
						k, ok1 := mu.Key.(*ssa.Const)
						x, ok2 := mu.Value.(*ssa.Const)
						if !ok1 || !ok2 {
							return nil
						}
						ks, _ := strconv.Unquote(k.Value.ExactString())
						xs, _ := strconv.Unquote(x.Value.ExactString())
						out[ks] = xs
					}
				}
			}
		}
	}
	return out
}

// optional: what may be absent or null is a pointer, and nothing else.
func (c *Ctx) optional() {
	var recv types.Type
	for _, pkg := range c.p.prog.AllPackages() {
		if pkg.Pkg.Path() == modPath+"/"+codegenPkg {
			if o := pkg.Pkg.Scope().Lookup("Property"); o != nil {
				recv = o.Type()
			}
		}
	}
	if recv == nil {
		c.failAt("anchor", modPath+"/"+codegenPkg, "there is no type Property")
		return
	}
	fn := c.p.methodOf(recv, "GoTypeDef")
	if fn == nil {
		c.failAt("anchor", modPath+"/"+codegenPkg, "a property has no Go type")
		return
	}
	e, outs := c.runOpts(fn, codegenOpts)
	p := e.paramTerms(fn)[0]
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		// three values: unknown is 0
		is := func(t *Term) int {
			v, known := e.fact(o.Facts, t)
			switch {
			case !known:
				return 0
			case v:
				return 1
			}
			return -1
		}
		option := func() int {
			for _, f := range o.Facts {
				if f.C.Op == "fld" && f.C.Sym == "DisableRequiredReadOnlyAsPointer" {
					return is(f.C)
				}
			}
			return 0
		}
		and := func(a, b int) int { return min(a, b) }
		or := func(a, b int) int { return max(a, b) }
		prop := func(f string) int { return is(e.fld(p, f)) }
		sch := e.fld(p, "Schema")
		want := and(-is(e.fld(sch, "SkipOptionalPointer")),
			or(or(-prop("Required"), prop("Nullable")),
				or(and(prop("ReadOnly"), or(-prop("Required"), -option())), prop("WriteOnly"))))
		got := o.Vals[0]
		star := false
		if got.Op == "cat" && len(got.Args) == 2 && isStr(got.Args[0], "*") {
			star, got = true, got.Args[1]
		}
		ref, known := e.fact(o.Facts, e.eq(e.fld(sch, "RefType"), e.str("")))
		if !known || got != e.fld(sch, map[bool]string{true: "GoType", false: "RefType"}[ref]) {
			if isStr(got, "") && !star {
				continue
			}
			c.fail("pointers", o.Pos, fn, e, o, "the Go type of a field is not that of its schema: %v", got)
			continue
		}
		none, known := e.fact(o.Facts, e.eq(got, e.str("")))
		none = none && known
		switch {
		case want == 0 && !none:
			c.fail("pointers", o.Pos, fn, e, o, "whether a field is a pointer does not depend on whether it may be absent")
		case star && want < 0:
			c.fail("pointers", o.Pos, fn, e, o, "a field that is always there is a pointer")
		case !star && want > 0 && !none:
			c.fail("pointers", o.Pos, fn, e, o, "a field that may be absent or null is no pointer")
		default:
			c.ok("pointers", fname(fn), 1)
		}
	}
}
