package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cuePkg = "cuelang.org/go/cue"

// ifaceOf maps the concrete carriers of the public interfaces to the interface
// name under which their methods are known to the rules.
var ifaceOf = map[string]string{
	"schemaDef": "Schema", "unaryTypedSchema": "Schema", "Schema": "Schema", "TypedSchema": "Schema",
	"baseLineage": "Lineage", "unaryConvLineage": "Lineage", "Lineage": "Lineage", "ConvergentLineage": "Lineage",
	"CUEWrapper": "CUEWrapper",
	"Instance":   "Instance", "TypedInstance": "Instance",
}

// getters are accessors that rules see as plain field reads. That they are is
// itself a checked obligation (see ruleAccessors).
var getters = map[string]string{
	"Schema.Version": "v", "Schema.Lineage": "lin", "Schema.Underlying": "ref",
	"Lineage.Name": "name", "Lineage.Runtime": "rt", "Lineage.Underlying": "uni",
	"Instance.Schema": "sch", "Instance.Underlying": "raw",
	"Schema.TypedSchema": "tsch", "Runtime.Underlying": "val",
}

// contracts stay uninterpreted calls wherever they are not themselves under analysis.
var contracts = map[string]bool{
	"Schema.Validate": true, "Schema.Successor": true, "Schema.Predecessor": true, "Schema.LatestInMajor": true,
	"Schema.Examples": true, "Schema.ValidateTyped": true, "Schema.NewT": true,
	"Lineage.Schema": true, "Lineage.Latest": true, "Lineage.First": true, "Lineage.All": true, "Lineage.ValidateAny": true,
	"Instance.Translate": true, "Instance.AsSuccessor": true, "Instance.AsPredecessor": true,
	"Instance.Hydrate": true, "Instance.Dehydrate": true, "Instance.Value": true,
	"thema.BindLineage": true, "thema.BindType": true, "thema.AssignableTo": true, "thema.BindInstanceType": true,
	"thema.IsAppendOnly": true, "thema.NewRuntime": true, "thema.ParseSyntacticVersion": true,
}

func recvNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// canonFn is the rule-visible name of a function of the module, or its full name.
func canonFn(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pkg := fnPkgPath(fn)
	if sig := fn.Signature; sig.Recv() != nil {
		if n := recvNamed(sig.Recv().Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
			tn := n.Obj().Name()
			if i, ok := ifaceOf[tn]; ok {
				tn = i
			}
			return tn + "." + fn.Name()
		}
	}
	if inModule(pkg) {
		return fname(fn)
	}
	// deprecated methods are declared on an alias-like copy of cue.Value
	n := strings.Replace(fn.String(), "("+cuePkg+".hiddenValue).", "("+cuePkg+".Value).", 1)
	return strings.Replace(n, "(*"+cuePkg+".hiddenIterator).", "(*"+cuePkg+".Iterator).", 1)
}

func canonInvoke(recv types.Type, m *types.Func) string {
	t := types.Unalias(recv)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return "invoke " + n.Obj().Name() + "." + m.Name()
		}
		if n.Obj().Pkg().Path() == modPath {
			tn := n.Obj().Name()
			if i, ok := ifaceOf[tn]; ok {
				tn = i
			}
			if tn == "CUEWrapper" && m.Name() == "Underlying" {
				return "CUEWrapper.Underlying"
			}
			return tn + "." + m.Name()
		}
		return "invoke " + n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + m.Name()
	}
	return "invoke " + m.Name()
}

// callee resolves a call to (callee term, function to inline or nil, arguments).
func (e *Engine) callee(s *State, f *frame, c *ssa.CallCommon) (*Term, *ssa.Function, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(s, f, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, f, a))
	}
	if c.IsInvoke() {
		name := canonInvoke(c.Value.Type(), c.Method)
		// a known concrete receiver of the module
		if t, ok := e.dyn[args[0]]; ok {
			if m := e.p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && m.Blocks != nil && analysedPkg(fnPkgPath(m)) {
				return e.mk("callee", canonFn(m)), m, args
			}
		}
		return e.mk("callee", name), nil, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.mk("builtin", b.Name()), nil, args
	}
	v := e.val(s, f, c.Value)
	if (v.Op == "fn" || v.Op == "closure") && v.Fn != nil {
		fn := v.Fn
		return e.mk("callee", canonFn(fn)), fn, args
	}
	return e.mk("dyncallee", "", v), nil, args
}

func (e *Engine) call(s *State, f *frame, result ssa.Value, c *ssa.CallCommon, instr ssa.Instruction) bool {
	ct, fn, args := e.callee(s, f, c)
	return e.invokeResolved(s, f, result, c, ct, fn, args, instr)
}

func (e *Engine) recursive(fn *ssa.Function) bool {
	return e.p.isRecursive(fn)
}

func (e *Engine) shouldInline(s *State, fn *ssa.Function, name string) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Blocks == nil || !analysedPkg(fnPkgPath(fn)) && (e.opts.Also == "" || fnPkgPath(fn) != e.opts.Also) {
		return false
	}
	for _, fr := range s.stack {
		if fr.fn == fn {
			return false
		}
	}
	if len(s.stack) > e.opts.MaxDepth {
		return false
	}
	if fn.Synthetic != "" && fn.Origin() == nil && !strings.Contains(fn.Synthetic, "instan") {
		// wrappers, bound methods, thunks
		return true
	}
	if contracts[name] {
		return false
	}
	if e.opts.NoInline {
		return fn.Parent() != nil
	}
	if e.opts.Opaque != nil && e.opts.Opaque(fn) {
		return false
	}
	if fn.Parent() == nil && !e.opts.InlineRec && e.recursive(fn) {
		return false
	}
	return true
}

// reachOut marks as changed what an opaque function of the module may change:
// maps and cells its closures capture, and maps held by what it is given.
func (e *Engine) reachOut(s *State, fv *Term, args []*Term, t *Term) {
	seen := map[*Term]bool{}
	var visit func(v *Term)
	visit = func(v *Term) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case "closure":
			for i, b := range v.Args {
				if v.Fn != nil && i < len(v.Fn.FreeVars) && storesTo(v.Fn, v.Fn.FreeVars[i]) {
					s.store(b, e.mk("out", "cell", t, b))
					continue
				}
				visit(b)
			}
		case "alloc":
			for a, x := range s.mem {
				if a == v || rootAddr(a) == v {
					visit(x)
				}
			}
		case "struct", "arr", "list", "tuple":
			for _, a := range v.Args {
				visit(a)
			}
		case "mkmap":
			s.store(e.mk("mapst", "", v), e.mk("out", "map", t, v))
		}
	}
	if fv != nil {
		visit(fv)
	}
	for _, a := range args {
		visit(rootAddr(a))
	}
}

// writtenFields are the fields a function of the module may set in what its
// i-th parameter points to, if that can be told.
func writtenFields(fn *ssa.Function, i, depth int) ([]string, bool) {
	if fn == nil || fn.Blocks == nil || !inModule(fnPkgPath(fn)) || i >= len(fn.Params) || depth > 4 {
		return nil, false
	}
	pt, ok := fn.Params[i].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	set := map[string]bool{}
	// the pointer, and the variables (captured ones included) it is kept in
	work := []ssa.Value{fn.Params[i]}
	cells := map[ssa.Value]bool{}
	var cell func(v ssa.Value) bool
	cell = func(v ssa.Value) bool {
		if cells[v] {
			return true
		}
		cells[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				work = append(work, x)
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr != v {
					return false
				}
			case *ssa.MakeClosure:
				for j, b := range x.Bindings {
					if b == v && !cell(x.Fn.(*ssa.Function).FreeVars[j]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					set[st.Field(x.Field).Name()] = true
				}
			case *ssa.UnOp, *ssa.BinOp, *ssa.DebugRef:
			case *ssa.Store:
				al, ok := x.Addr.(*ssa.Alloc)
				if !ok || !cell(al) {
					return nil, false
				}
			case ssa.CallInstruction:
				cc := x.Common()
				for j, a := range cc.Args {
					if a != v {
						continue
					}
					if cc.IsInvoke() {
						return nil, false
					}
					fs, ok := writtenFields(cc.StaticCallee(), j, depth+1)
					if !ok {
						return nil, false
					}
					for _, f := range fs {
						set[f] = true
					}
				}
			default:
				return nil, false
			}
		}
	}
	var fs []string
	for f := range set {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs, true
}

// storesTo: the function, or a closure it makes, may write to the cell.
func storesTo(fn *ssa.Function, v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if storesTo(fn, x.(ssa.Value)) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && storesTo(x.Fn.(*ssa.Function), x.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) invokeResolved(s *State, f *frame, result ssa.Value, c *ssa.CallCommon, ct *Term, fn *ssa.Function, args []*Term, instr ssa.Instruction) bool {
	set := func(t *Term) {
		if result != nil {
			e.tag(t, result.Type(), instr.Pos())
			f.env[result] = t
		}
	}
	if ct.Op == "builtin" {
		e.builtin(s, f, ct.Sym, c, args, instr, set)
		return true
	}
	name := ct.Sym
	if ct.Op == "dyncallee" {
		all := append([]*Term{ct.Args[0]}, e.expand(s, args)...)
		t := e.mk("call", "dynamic", all...)
		e.record(s, f, Event{Kind: evCall, Term: t, Instr: instr, Pos: instr.Pos()})
		set(t)
		// an unknown callee may write whatever it is given a pointer to
		for i, a := range args {
			if r := rootAddr(a); r.Op == "alloc" && a.Op != "iterver" {
				s.store(a, e.mk("out", strconv.Itoa(i), t))
			}
		}
		return true
	}
	entry := len(s.stack) > 0 && s.stack[0].fn == fn
	if g, ok := getters[name]; ok && !entry {
		e.record(s, f, Event{Kind: evGet, Term: e.mk("call", name, args...), Instr: instr, Pos: instr.Pos()})
		set(s.load(e, e.mk("faddr", g, args[0]), types.Typ[types.Invalid]))
		return true
	}
	if name == "CUEWrapper.Underlying" {
		set(e.mk("call", name, args...))
		return true
	}
	if fn != nil && fn.Synthetic == "package initializer" {
		return true
	}
	if fn != nil && e.shouldInline(s, fn, name) {
		body := fn
		if o := fn.Origin(); o != nil {
			body = o
		}
		g := &frame{fn: body, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopState{}, call: result}
		g.ctx = f.ctx + "/" + f.fn.Name() + "." + instrID(instr) + f.rounds(nil)
		for i, p := range body.Params {
			if i < len(args) {
				g.env[p] = args[i]
			}
		}
		if len(body.FreeVars) > 0 {
			v := e.val(s, f, c.Value)
			if d, ok := instr.(*ssa.Defer); ok {
				_ = d
			}
			for i, fv := range body.FreeVars {
				if i < len(v.Args) {
					g.env[fv] = v.Args[i]
				} else {
					g.env[fv] = e.mk("free", fv.Name())
				}
			}
		}
		g.block = body.Blocks[0]
		s.stack = append(s.stack, g)
		e.analysed[body] = true
		g.inl = e.mk("call", name, args...)
		e.record(s, f, Event{Kind: "inline", Term: g.inl, Instr: instr, Pos: instr.Pos()})
		return true
	}
	if name == "os.Exit" && len(args) == 1 {
		e.end(s, &Outcome{Kind: outExit, Fn: f.fn, Pos: instr.Pos(), Vals: e.expand(s, args)})
		return false
	}
	// sync.Once.Do runs its argument, the first time
	if name == "(*sync.Once).Do" && len(args) == 2 {
		done := e.mk("oncedone", "", args[0])
		if s.mem[done] != nil {
			return true
		}
		s.mem[done] = e.boolT(true)
	}
	if name == "(*sync.Once).Do" && len(args) == 2 && (args[1].Op == "closure" || args[1].Op == "fn") && args[1].Fn != nil && args[1].Fn.Blocks != nil {
		cl := args[1]
		g := &frame{fn: cl.Fn, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopState{}}
		g.ctx = f.ctx + "/once." + instrID(instr)
		for i, fv := range cl.Fn.FreeVars {
			if i < len(cl.Args) {
				g.env[fv] = cl.Args[i]
			}
		}
		g.block = cl.Fn.Blocks[0]
		e.record(s, f, Event{Kind: evCall, Term: e.mk("call", name, args...), Instr: instr, Pos: instr.Pos()})
		s.stack = append(s.stack, g)
		e.analysed[cl.Fn] = true
		return true
	}
	if e.opts.InlineRec && fn != nil && fn.Blocks != nil && (analysedPkg(fnPkgPath(fn)) || e.opts.Also != "" && fnPkgPath(fn) == e.opts.Also) && !contracts[name] {
		t := e.mk("call", name, e.expand(s, args)...)
		e.record(s, f, Event{Kind: evCall, Term: t, Instr: instr, Pos: instr.Pos()})
		var fv *Term
		if !c.IsInvoke() {
			fv = e.val(s, f, c.Value)
		}
		e.reachOut(s, fv, args, t)
		set(t)
		return true
	}
	t := e.external(s, f, name, c, args, instr)
	for _, a := range args {
		if cl := unbox(a); cl.Op == "closure" {
			// the callee may run it
			e.reachOut(s, cl, nil, t)
		}
	}
	set(t)
	return true
}

func instrID(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok && v.Name() != "" {
		return v.Name()
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return strconv.Itoa(in.Block().Index) + "_" + strconv.Itoa(i)
		}
	}
	return "?"
}

// expand replaces slices of freshly built arrays (variadic arguments, slice
// literals) by the list of their elements.
func (e *Engine) expand(s *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = e.expand1(s, a)
	}
	return out
}

func (e *Engine) expand1(s *State, a *Term) *Term {
	if a.Op == "box" {
		in := e.expand1(s, a.Args[0])
		if in != a.Args[0] {
			return in
		}
		return a
	}
	if a.Op != "sliceof" || a.T == nil {
		return a
	}
	at, ok := a.T.Underlying().(*types.Array)
	if !ok || rootAddr(a.Args[0]).Op != "alloc" && rootAddr(a.Args[0]).Op != "global" {
		return a
	}
	if at.Len() > 256 {
		return a
	}
	lo, hi := int64(0), at.Len()
	if n, ok := a.Args[1].constInt(); ok {
		lo = n
	} else if !a.Args[1].isNil() {
		return a
	}
	if n, ok := a.Args[2].constInt(); ok {
		hi = n
	} else if !a.Args[2].isNil() {
		return a
	}
	var el []*Term
	for i := lo; i < hi; i++ {
		el = append(el, e.expand1(s, s.load(e, e.mk("iaddr", "", a.Args[0], e.int(i)), at.Elem())))
	}
	return e.mk("list", "", el...)
}

func (e *Engine) builtin(s *State, f *frame, name string, c *ssa.CallCommon, args []*Term, instr ssa.Instruction, set func(*Term)) {
	switch name {
	case "len":
		x := args[0]
		if x.Op == "const" {
			set(e.length(x))
			return
		}
		e.tag(x, c.Args[0].Type(), instr.Pos())
		set(e.lenOf(s, x))
	case "append":
		base := e.expand1(s, args[0])
		if !base.isNil() && base.Op != "list" && base.Op != "mkslice" && len(args) > 1 {
			e.record(s, f, Event{Kind: evAppend, Term: base, Args: []*Term{base}, Instr: instr, Pos: instr.Pos()})
		}
		if len(args) == 1 {
			set(base)
			return
		}
		el := e.expand1(s, args[1])
		if el.Op == "list" && len(el.Args) == 0 {
			set(base)
			return
		}
		if el.Op == "list" {
			if base.isNil() {
				set(el)
				return
			}
			if base.Op == "list" {
				set(e.mk("list", "", append(append([]*Term{}, base.Args...), el.Args...)...))
				return
			}
			if base.Op == "mkslice" {
				if n, ok := base.Args[0].constInt(); ok && n == 0 {
					set(el)
					return
				}
			}
			if base.Op == "append" && base.Args[1].Op == "list" {
				set(e.mk("append", "", base.Args[0], e.mk("list", "", append(append([]*Term{}, base.Args[1].Args...), el.Args...)...)))
				return
			}
		}
		set(e.mk("append", "", base, el))
	case "delete":
		m, k := args[0], args[1]
		s.store(e.mk("mapst", "", m), e.mk("mapdel", "", e.mapState(s, m), k))
		e.record(s, f, Event{Kind: evDel, Term: m, Args: []*Term{m, k}, Instr: instr, Pos: instr.Pos()})
		set(e.nilT())
	case "copy":
		t := e.mk("call", "copy", args...)
		e.record(s, f, Event{Kind: evCall, Term: t, Instr: instr, Pos: instr.Pos()})
		s.fresh["copy"]++
		if r := rootAddr(args[0]); r.Op == "mkslice" || r.Op == "sliceof" {
			if args[0].Op == "mkslice" {
				s.store(args[0], e.mk("copied", strconv.Itoa(s.fresh["copy"]), args[0], args[1]))
			}
		}
		set(t)
	case "ssa:wrapnilchk":
		set(args[0])
	default:
		set(e.mk("call", "builtin."+name, args...))
	}
}

// fresh results: never shared between two calls.
func impure(name string) bool {
	for _, p := range []string{"os.", "(*os.", "io.", "time.", "math/rand", "(*math/rand", "crypto/rand", "io/ioutil.", "io/fs.", "invoke io/fs.", "invoke io."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Engine) external(s *State, f *frame, name string, c *ssa.CallCommon, args []*Term, instr ssa.Instruction) *Term {
	xs := e.expand(s, args)
	rec := func(t *Term) *Term {
		e.record(s, f, Event{Kind: evCall, Term: t, Instr: instr, Pos: instr.Pos()})
		return t
	}
	if e.opts.Extern != nil {
		if t := e.opts.Extern(name, xs); t != nil {
			return t
		}
	}
	switch name {
	case cuePkg + ".Str", cuePkg + ".Def", cuePkg + ".Hid", cuePkg + ".Index":
		if p := e.selTerm(name, xs); p != nil {
			return p
		}
	case cuePkg + ".MakePath":
		if len(xs) == 1 && xs[0].Op == "list" {
			var parts []string
			ok := true
			for _, a := range xs[0].Args {
				if a.Op != "sel" {
					ok = false
					break
				}
				parts = append(parts, a.Sym)
			}
			if ok {
				return e.path(strings.Join(parts, "."))
			}
		}
		if len(xs) == 1 && xs[0].isNil() {
			return e.path("")
		}
	case "errors.Is", "github.com/cockroachdb/errors.Is":
		if xs[0] == xs[1] {
			return e.boolT(true)
		}
		// a new error that wraps nothing is none of the errors there are
		if x := xs[0]; x.isNil() && xs[1].Op == "gval" || x.Op == "call" && (x.Sym == "fmt.Errorf" && len(wrapped(x)) == 0 && x.Args[0].Op == "const" || x.Sym == "errors.New") && xs[1].Op == "gval" {
			return e.boolT(false)
		}
	case cuePkg + ".ParsePath":
		if str, ok := xs[0].constStr(); ok && simplePath(str) {
			return e.path(str)
		}
	case "(" + cuePkg + ".Path).Selectors":
		if xs[0].Op == "zero" {
			return e.nilT()
		}
	case "(" + cuePkg + ".Value).LookupPath":
		v, p := xs[0], xs[1]
		if v.isCall(name) && v.Args[1].Op == "path" && p.Op == "path" {
			return e.mk("call", name, v.Args[0], e.path(joinPath(v.Args[1].Sym, p.Sym)))
		}
		return rec(e.mk("call", name, v, p))
	case "(" + cuePkg + ".Value).Unify":
		return rec(e.unify(xs[0], xs[1]))
	case "(" + cuePkg + ".Value).Value":
		return xs[0]
	case "(" + cuePkg + ".Value).Lookup":
	case "sort.Search":
		return e.search(s, f, xs, instr)
	case "fmt.Sprintf", "fmt.Sprint":
		if t := e.sprintf(name, xs); t != nil {
			return t
		}
	case "strconv.FormatUint", "strconv.FormatInt":
		if n, ok := xs[1].constInt(); ok && n == 10 {
			return e.mk("dec", "", xs[0])
		}
	case "strconv.Itoa":
		return e.mk("dec", "", xs[0])
	case "strings.Join":
		if xs[0].Op == "list" {
			var parts []*Term
			for i, p := range xs[0].Args {
				if i > 0 {
					parts = append(parts, xs[1])
				}
				parts = append(parts, p)
			}
			return e.cat(parts)
		}
	case "strings.Compare", "cmp.Compare":
		return e.mk("cmp", "", xs[0], xs[1])
	}
	if strings.HasPrefix(name, "(*"+cuePkg+".Iterator).") {
		it := xs[0]
		if v := s.mem[it]; it.Op == "alloc" && v != nil && v.Op == "ext" {
			it = v // an iterator kept by value is the one last assigned
		}
		m := name[len("(*"+cuePkg+".Iterator)."):]
		ver := e.iterVer(s, it)
		if m == "Next" {
			t := rec(e.mk("call", "Iterator.Next", it, ver))
			s.store(e.mk("iterver", "", it), e.add(ver, e.int(1)))
			return t
		}
		return e.mk("call", "Iterator."+m, append([]*Term{it, ver}, xs[1:]...)...)
	}
	if impure(name) {
		s.fresh["impure"]++
		xs = append(xs, e.mk("seq", strconv.Itoa(s.fresh["impure"])))
	}
	if ct, ok := rtName(c); ok && ct != nil && len(xs) > 0 && xs[0].Op == "alloc" && e.memChanged(s, xs[0]) {
		// the result of a method on local mutable state depends on that state
		xs = append([]*Term{xs[0], e.mk("at", "", s.mem[xs[0]])}, xs[1:]...)
	}
	t := rec(e.mk("call", name, xs...))
	// out-parameters
	for i, a := range args {
		r := rootAddr(a)
		if a.Op == "alloc" || (a.Op == "faddr" || a.Op == "iaddr") && r.Op == "alloc" {
			if fs, ok := writtenFields(c.StaticCallee(), i, 0); ok && a.Op == "alloc" {
				// what a function of the module that is not entered does to it
				for _, fn := range fs {
					s.store(e.mk("faddr", fn, a), e.mk("out", strconv.Itoa(i)+"."+fn, t))
				}
				continue
			}
			if readOnlyArg(name) || strings.HasPrefix(name, "(*text/template.Template).Execute") && i == len(args)-1 {
				continue
			}
			s.store(a, e.mk("out", strconv.Itoa(i), t))
		} else if a.Op == "faddr" && writesArg(name) {
			s.store(a, e.mk("out", strconv.Itoa(i), t))
		}
	}
	return t
}

func (e *Engine) memChanged(s *State, a *Term) bool {
	v := s.mem[a]
	return v != nil && v.Op == "out"
}

func rtName(c *ssa.CallCommon) (*types.Named, bool) {
	fn := c.StaticCallee()
	if fn == nil || fn.Signature.Recv() == nil {
		return nil, false
	}
	return recvNamed(fn.Signature.Recv().Type()), true
}

func writesArg(name string) bool {
	return strings.HasSuffix(name, ".Decode") || strings.HasSuffix(name, ".Unmarshal") || strings.HasSuffix(name, "errors.As")
}

func readOnlyArg(name string) bool {
	if writesArg(name) {
		return false
	}
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Print", "errors.", "github.com/cockroachdb/errors.", "reflect.",
		// only fills in the default of Version
		"cuelang.org/go/encoding/openapi.Generate",
		"(*github.com/spf13/cobra.Command)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Engine) unify(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return e.mk("call", "("+cuePkg+".Value).Unify", a, b)
}

func (e *Engine) lookupPath(v *Term, p string) *Term {
	name := "(" + cuePkg + ".Value).LookupPath"
	if v.isCall(name) && v.Args[1].Op == "path" {
		return e.mk("call", name, v.Args[0], e.path(joinPath(v.Args[1].Sym, p)))
	}
	return e.mk("call", name, v, e.path(p))
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

func simplePath(s string) bool {
	for _, p := range strings.Split(s, ".") {
		if p == "" {
			return false
		}
		for i, r := range p {
			if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9' || i == 0 && r == '#') {
				return false
			}
		}
		if strings.HasPrefix(p, "_") {
			return false
		}
	}
	return true
}

func (e *Engine) selTerm(name string, xs []*Term) *Term {
	switch name {
	case cuePkg + ".Str":
		if s, ok := xs[0].constStr(); ok {
			if !simplePath(s) || strings.HasPrefix(s, "#") || strings.Contains(s, ".") {
				s = strconv.Quote(s)
			}
			return e.mk("sel", s)
		}
	case cuePkg + ".Def":
		if s, ok := xs[0].constStr(); ok {
			if !strings.HasPrefix(s, "#") {
				s = "#" + s
			}
			return e.mk("sel", s)
		}
	case cuePkg + ".Hid":
		s, ok := xs[0].constStr()
		p, ok2 := xs[1].constStr()
		if ok && ok2 {
			return e.mk("sel", s+"@"+p)
		}
	case cuePkg + ".Index":
		if n, ok := xs[0].constInt(); ok {
			return e.mk("sel", "["+strconv.FormatInt(n, 10)+"]")
		}
	}
	return nil
}

// globalVal is the value of a package-level variable that was not written on
// this trace: CUE paths are resolved from the initialiser, anything else is named.
func (e *Engine) globalVal(g *ssa.Global) *Term {
	if t, ok := e.gpaths[g]; ok {
		return t
	}
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + name
	}
	t := e.mk("gval", name)
	e.gpaths[g] = t
	if g.Pkg == nil || !inModule(g.Pkg.Pkg.Path()) {
		return t
	}
	stores := e.p.globalStores(g)
	if len(stores) != 1 || stores[0].Parent().Name() != "init" {
		return t
	}
	if v := e.initTerm(stores[0].Val, 0); v != nil {
		e.gpaths[g] = v
		return v
	}
	return t
}

// initTerm evaluates the constant-like initialisers the rules need.
func (e *Engine) initTerm(v ssa.Value, depth int) *Term {
	if depth > 20 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return e.constTerm(v)
		}
		if v.Value != nil && v.Value.Kind() == constant.Int {
			return e.constTerm(v)
		}
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil {
			return nil
		}
		name := fn.String()
		switch name {
		case cuePkg + ".Str", cuePkg + ".Def", cuePkg + ".Hid":
			var xs []*Term
			for _, a := range v.Call.Args {
				t := e.initTerm(a, depth+1)
				if t == nil {
					return nil
				}
				xs = append(xs, t)
			}
			return e.selTerm(name, xs)
		case cuePkg + ".ParsePath":
			if t := e.initTerm(v.Call.Args[0], depth+1); t != nil {
				if s, ok := t.constStr(); ok && simplePath(s) {
					return e.path(s)
				}
			}
		case cuePkg + ".MakePath":
			sl, ok := v.Call.Args[0].(*ssa.Slice)
			if !ok {
				return nil
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil
			}
			n := int(al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			parts := make([]string, n)
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				ic, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok {
						t := e.initTerm(st.Val, depth+1)
						if t == nil || t.Op != "sel" {
							return nil
						}
						parts[ic.Int64()] = t.Sym
					}
				}
			}
			for _, p := range parts {
				if p == "" {
					return nil
				}
			}
			return e.path(strings.Join(parts, "."))
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok {
				t := e.globalVal(g)
				if t.Op != "gval" {
					return t
				}
			}
		}
	}
	return nil
}

// search models sort.Search with a known predicate: the term records the
// predicate's result for an arbitrary index.
func (e *Engine) search(s *State, f *frame, xs []*Term, instr ssa.Instruction) *Term {
	n, cl := xs[0], xs[1]
	if cl.Op != "closure" && cl.Op != "fn" || cl.Fn == nil || cl.Fn.Blocks == nil {
		return e.mk("call", "sort.Search", xs...)
	}
	i := e.mk("bound", "i")
	sub := newEngine(e.p, e.opts)
	sub.tt = e.tt
	sub.dyn, sub.zeroT, sub.gpaths = e.dyn, e.zeroT, e.gpaths
	outs := sub.RunWith(cl.Fn, []*Term{i}, cl.Args, func(st *State) {
		for k, v := range s.mem {
			st.mem[k] = v
		}
	})
	e.analysed[cl.Fn] = true
	e.problems = append(e.problems, sub.problems...)
	// predicate as a list of (result, conditions...)
	var cases []*Term
	for _, o := range outs {
		if o.Kind != outReturn || len(o.Vals) != 1 {
			return e.mk("call", "sort.Search", xs...)
		}
		cs := []*Term{o.Vals[0]}
		for _, fc := range o.Facts {
			c := fc.C
			if !fc.Val {
				c = e.not(c)
			}
			cs = append(cs, c)
		}
		cases = append(cases, e.mk("case", "", cs...))
	}
	return e.mk("search", "", n, e.mk("pred", "", cases...))
}

// sprintf turns simple formatting into concatenation.
func (e *Engine) sprintf(name string, xs []*Term) *Term {
	if name == "fmt.Sprint" {
		return nil
	}
	if len(xs) != 2 || xs[1].Op != "list" {
		if len(xs) == 2 && xs[1].isNil() {
			if s, ok := xs[0].constStr(); ok && !strings.Contains(s, "%") {
				return xs[0]
			}
		}
		return nil
	}
	format, ok := xs[0].constStr()
	if !ok {
		return nil
	}
	args := xs[1].Args
	var parts []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		switch format[i] {
		case '%':
			lit += "%"
		case 'd', 'v', 's':
			if ai >= len(args) {
				return nil
			}
			a := args[ai]
			ai++
			parts = append(parts, e.str(lit))
			lit = ""
			t := e.dyn[a]
			switch {
			case a.Op == "const":
				if s, ok := a.constStr(); ok {
					parts = append(parts, e.str(s))
				} else {
					parts = append(parts, e.str(a.Sym))
				}
			case t != nil && isIntType(t) && format[i] != 's' && types.NewMethodSet(t).Lookup(nil, "String") == nil:
				parts = append(parts, e.mk("dec", "", a))
			case t != nil && isStringType(t) && format[i] != 'd':
				parts = append(parts, a)
			default:
				parts = append(parts, e.mk("fmt", "", a))
			}
		default:
			return nil
		}
	}
	if ai != len(args) {
		return nil
	}
	parts = append(parts, e.str(lit))
	return e.cat(parts)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
