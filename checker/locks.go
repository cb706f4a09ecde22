package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lock analysis is a typestate dataflow over the SSA form: the state of the
// runtime's mutex (free, shared, exclusive) and the pending deferred calls are
// propagated through every function to a fixpoint, callees entered in the
// state of the call (context sensitive in the lock state, memoised).

type lockState int

const (
	free lockState = iota
	shared
	exclusive
)

func (s lockState) String() string { return [...]string{"free", "held shared", "held exclusively"}[s] }

type lockKey struct {
	fn *ssa.Function
	in lockState
}

type lockSummary struct {
	ret, pan map[lockState]bool
}

type lockUse struct {
	pos   token.Pos
	fn    *ssa.Function
	name  string
	state lockState
}

type lockAnalysis struct {
	c       *Ctx
	runtime *types.Named
	may     map[*ssa.Function]bool // may take or release the lock, itself or below
	memo    map[lockKey]*lockSummary
	uses    map[string]lockUse // evaluation of CUE values, with the lock state
	ops     int
	steps   int
	byIface map[string][]*ssa.Function
	bySig   map[string][]*ssa.Function
	inprog  map[lockKey]bool
}

// lockOp recognises an operation on a mutex that is a field of Runtime.
func (a *lockAnalysis) lockOp(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(c.Args) == 0 || fnPkgPath(f) != "sync" {
		return ""
	}
	v := c.Args[0]
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.FieldAddr:
			t := x.X.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if namedIs(t, a.runtime) {
				return f.Name()
			}
			v = x.X
			continue
		}
		return ""
	}
}

func newLockAnalysis(c *Ctx) *lockAnalysis {
	a := &lockAnalysis{c: c, may: map[*ssa.Function]bool{}, memo: map[lockKey]*lockSummary{}, uses: map[string]lockUse{}, inprog: map[lockKey]bool{},
		byIface: map[string][]*ssa.Function{}, bySig: map[string][]*ssa.Function{}}
	tn := c.p.spkgs[modPath].Pkg.Scope().Lookup("Runtime")
	if tn == nil {
		return nil
	}
	a.runtime, _ = tn.Type().(*types.Named)
	if a.runtime == nil {
		return nil
	}
	for _, fn := range c.p.funcs {
		if o := fn.Origin(); o != nil && o != fn {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			a.byIface[fn.Name()] = append(a.byIface[fn.Name()], fn)
		}
		if fn.Parent() != nil {
			k := sigKey(fn.Signature)
			a.bySig[k] = append(a.bySig[k], fn)
		}
	}
	// may: least fixpoint over the call graph
	for {
		changed := false
		for _, fn := range c.p.funcs {
			if a.may[fn] {
				continue
			}
			hit := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if a.lockOp(ci.Common()) != "" {
						hit = true
						continue
					}
					for _, t := range a.targets(ci.Common()) {
						if a.may[t] {
							hit = true
						}
					}
				}
			}
			if hit {
				a.may[fn] = true
				changed = true
			}
		}
		if !changed {
			return a
		}
	}
}

// sigKey identifies function types up to type parameters.
func sigKey(s *types.Signature) string {
	return fmt.Sprintf("%d/%d", s.Params().Len(), s.Results().Len())
}

// targets are the functions of the module a call may enter.
func (a *lockAnalysis) targets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		n := recvNamed(types.Unalias(c.Value.Type()))
		if n == nil || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
			return nil
		}
		it, _ := n.Underlying().(*types.Interface)
		var out []*ssa.Function
		for _, f := range a.byIface[c.Method.Name()] {
			if it != nil && hasMethods(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	// a function value: what can be told from the flow of closures, else any
	// closure of the same shape that is passed around
	fs, known := a.c.p.fnVals().resolve(c.Value)
	if known {
		return fs
	}
	sig, _ := c.Value.Type().Underlying().(*types.Signature)
	if sig == nil {
		return nil
	}
	var out []*ssa.Function
	for _, f := range a.bySig[sigKey(sig)] {
		if closureFits(f, sig) && a.c.p.fnVals().esc[f] {
			out = append(out, f)
		}
	}
	return out
}

// hasMethods: the type has methods of all the interface's names.
func hasMethods(t types.Type, it *types.Interface) bool {
	if _, ok := t.(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if ms.Lookup(m.Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}

// closureFits compares parameter and result types, type parameters matching anything.
func closureFits(f *ssa.Function, sig *types.Signature) bool {
	same := func(x, y *types.Tuple) bool {
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			xt, yt := x.At(i).Type(), y.At(i).Type()
			if _, ok := types.Unalias(xt).(*types.TypeParam); ok {
				continue
			}
			if _, ok := types.Unalias(yt).(*types.TypeParam); ok {
				continue
			}
			if !types.Identical(xt, yt) {
				return false
			}
		}
		return true
	}
	return same(f.Signature.Params(), sig.Params()) && same(f.Signature.Results(), sig.Results())
}

type lstate struct {
	held   lockState
	defers string // indices into the function's defer instructions, innermost last
}

func (a *lockAnalysis) run(fn *ssa.Function, in lockState) *lockSummary {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	k := lockKey{fn, in}
	if s := a.memo[k]; s != nil {
		return s
	}
	s := &lockSummary{ret: map[lockState]bool{}, pan: map[lockState]bool{}}
	if fn.Blocks == nil || !inModule(fnPkgPath(fn)) {
		s.ret[in] = true
		return s
	}
	if a.inprog[k] {
		// a recursive call comes back the way the other paths do, which for a
		// function that keeps the discipline is the state it was entered in
		s.ret[in] = true
		return s
	}
	a.inprog[k] = true
	defer delete(a.inprog, k)
	a.c.fns[fname(fn)] = true

	var defs []*ssa.Defer
	defIdx := map[*ssa.Defer]int{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defIdx[d] = len(defs)
				defs = append(defs, d)
			}
		}
	}
	states := map[*ssa.BasicBlock]map[lstate]bool{}
	type item struct {
		b *ssa.BasicBlock
		s lstate
	}
	var work []item
	push := func(b *ssa.BasicBlock, s lstate) {
		if states[b] == nil {
			states[b] = map[lstate]bool{}
		}
		if len(s.defers) > 16 {
			s.defers = s.defers[:16]
		}
		if !states[b][s] {
			states[b][s] = true
			work = append(work, item{b, s})
		}
	}
	// unwind runs the pending deferred calls
	unwind := func(x lstate) map[lockState]bool {
		cur := map[lockState]bool{x.held: true}
		for i := len(x.defers) - 1; i >= 0; i-- {
			d := defs[int(x.defers[i]-'0')]
			next := map[lockState]bool{}
			for h := range cur {
				rs, _ := a.apply(fn, &d.Call, d.Pos(), h)
				for r := range rs {
					next[r] = true
				}
			}
			cur = next
		}
		return cur
	}
	push(fn.Blocks[0], lstate{held: in})
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		a.steps++
		cur := map[lstate]bool{it.s: true}
		for _, i := range it.b.Instrs {
			next := map[lstate]bool{}
			for x := range cur {
				switch i := i.(type) {
				case *ssa.Defer:
					next[lstate{x.held, x.defers + string(rune('0'+defIdx[i]))}] = true
				case *ssa.RunDefers:
					for h := range unwind(x) {
						next[lstate{held: h}] = true
					}
				case *ssa.Panic:
					for h := range unwind(x) {
						s.pan[h] = true
					}
				case *ssa.Return:
					s.ret[x.held] = true
				case *ssa.Call:
					rs, ps := a.apply(fn, &i.Call, i.Pos(), x.held)
					for h := range rs {
						next[lstate{h, x.defers}] = true
					}
					for h := range ps {
						for u := range unwind(lstate{h, x.defers}) {
							s.pan[u] = true
						}
					}
				case *ssa.Go:
					// runs on its own, with its own view of the lock
					for _, t := range a.targets(&i.Call) {
						a.run(t, free)
					}
					next[x] = true
				default:
					next[x] = true
				}
			}
			cur = next
		}
		for x := range cur {
			for _, sc := range it.b.Succs {
				push(sc, x)
			}
		}
	}
	a.memo[k] = s
	return s
}

// apply gives the lock states after a call, and those in which it panics.
func (a *lockAnalysis) apply(fn *ssa.Function, c *ssa.CallCommon, pos token.Pos, h lockState) (ret, pan map[lockState]bool) {
	one := func(s lockState) map[lockState]bool { return map[lockState]bool{s: true} }
	bad := func(format string, args ...any) {
		a.c.fail("discipline", pos, fn, nil, nil, format, args...)
	}
	switch op := a.lockOp(c); op {
	case "":
	case "Lock", "RLock":
		a.ops++
		if h != free {
			bad("the runtime's lock is taken (%s) while it is already %s: this deadlocks, at the latest with another goroutine waiting", op, h)
		}
		if op == "Lock" {
			return one(exclusive), nil
		}
		return one(shared), nil
	case "Unlock", "RUnlock":
		a.ops++
		want := exclusive
		if op == "RUnlock" {
			want = shared
		}
		if h != want {
			bad("%s is called while the runtime's lock is %s", op, h)
		}
		return one(free), nil
	default:
		bad("%s on the runtime's lock is not followed by this analysis", op)
		return one(h), nil
	}
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		if r := recvNamed(f.Signature.Recv().Type()); r != nil && r.Obj().Pkg() != nil && r.Obj().Pkg().Path() == cuePkg && (r.Obj().Name() == "Value" || r.Obj().Name() == "hiddenValue") {
			u := lockUse{pos, fn, f.Name(), h}
			a.uses[fmt.Sprintf("%d %d", pos, h)] = u
		}
	}
	ret = map[lockState]bool{}
	pan = map[lockState]bool{}
	ts := a.targets(c)
	entered := false
	for _, t := range ts {
		if t.Blocks == nil || !inModule(fnPkgPath(t)) {
			continue
		}
		if !a.may[t] && len(a.inprog) > 60 {
			continue
		}
		entered = true
		s := a.run(t, h)
		for r := range s.ret {
			ret[r] = true
		}
		for r := range s.pan {
			pan[r] = true
		}
	}
	if !entered || len(ts) != 1 {
		ret[h] = true
	}
	return ret, pan
}

func ruleT14(c *Ctx) {
	a := newLockAnalysis(c)
	if a == nil {
		c.failAt("anchor", "Runtime", "the type that holds the lock is not there")
		return
	}
	// every function that can be called from outside, and every closure that is kept
	var roots []*ssa.Function
	for _, fn := range c.p.funcs {
		if o := fn.Origin(); o != nil && o != fn {
			continue
		}
		if !a.may[fn] || strings.Contains(fnPkgPath(fn), "/internal/") {
			continue
		}
		if fn.Parent() == nil && token.IsExported(fn.Name()) || fn.Parent() != nil && a.c.p.fnVals().esc[fn] {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	for _, fn := range roots {
		s := a.run(fn, free)
		for _, k := range []lockState{shared, exclusive} {
			if s.ret[k] {
				c.fail("release", fnPos(fn), fn, nil, nil, "may return with the runtime's lock still %s", k)
			}
			if s.pan[k] {
				c.fail("release", fnPos(fn), fn, nil, nil, "may panic with the runtime's lock still %s", k)
			}
		}
		if len(s.ret) > 0 {
			c.ok("the lock is free again after every return and panic", fname(fn), 1)
		}
	}
	if a.ops == 0 {
		c.failAt("anchor", "Runtime", "no operation on the runtime's lock was found")
		return
	}
	c.ok("lock operations happen in the state they require", modPath, a.ops)
	c.sites += a.ops

	// evaluation under the lock
	cover := func(fn *ssa.Function, what string, min lockState, only func(string) bool) {
		if fn == nil {
			c.failAt("anchor", what, "the operation the property is about is not there")
			return
		}
		b := newLockAnalysis(c)
		b.run(fn, free)
		var ks []string
		for k := range b.uses {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n := 0
		for _, k := range ks {
			u := b.uses[k]
			if !only(u.name) {
				continue
			}
			n++
			if u.state < min {
				c.fail("evaluation", u.pos, u.fn, nil, nil, "%s evaluates CUE (%s) while the runtime's lock is %s", what, u.name, u.state)
			}
		}
		if n == 0 {
			c.fail("evaluation", fnPos(fn), fn, nil, nil, "%s no longer evaluates any CUE value, so nothing can be decided", what)
			return
		}
		c.ok("CUE values are evaluated under the lock", what, n)
		c.sites += n
	}
	all := func(string) bool { return true }
	cover(c.p.fn("", "BindLineage"), "BindLineage", exclusive, all)
	cover(c.p.fn("", c.schemaName()+".Validate"), "Schema.Validate", shared, all)
	cover(c.p.fn("", "AssignableTo"), "AssignableTo", shared, all)
	cover(c.p.fn("", c.p.roles.instance.Obj().Name()+".Translate"), "Instance.Translate", exclusive, func(n string) bool { return n == "FillPath" })
	nt := c.p.fn("", c.p.roles.typedSch.Obj().Name()+".NewT")
	cover(c.methodOf(c.p.roles.typedInst, "Value"), "TypedInstance.Value", shared, all)
	cover(nt, "TypedSchema.NewT", shared, func(n string) bool { return n == "Decode" })
}
