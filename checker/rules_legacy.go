package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	cueAst     = "cuelang.org/go/cue/ast"
	cueAstutil = cueAst + "/astutil"
	cursorCall = "invoke " + cueAstutil + ".Cursor."
)

// legacy is the analysis of the rewriting of a legacy lineage.
type legacy struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	outs []*Outcome
	intK *Term // the kind of integer literals
}

// ruleT31 decides RewriteLegacyLineage.
func ruleT31(c *Ctx) {
	fn := c.need("encoding/cue", "RewriteLegacyLineage")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	if len(ps) != 2 {
		c.failAt("anchor", "RewriteLegacyLineage", "takes %d arguments", len(ps))
		return
	}
	l := &legacy{c: c, e: e, fn: fn, outs: outs}
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == "cuelang.org/go/cue/token" {
			if k, ok := p.Pkg.Scope().Lookup("INT").(*types.Const); ok {
				n, _ := constant.Int64Val(k.Val())
				l.intK = e.int(n)
			}
		}
	}
	if l.intK == nil {
		c.failAt("anchor", "cue/token.INT", "not found")
		return
	}
	c.bounds("bounds", fn, e, outs)
	l.asserts(fn, outs)
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			c.fail("error", o.Pos, fn, e, o, "a lineage that cannot be rewritten makes it panic")
		case outReturn:
			switch e.nilness(o, o.Vals[1]) {
			case notNil:
				c.ok("what cannot be rewritten is reported", fname(fn), 1)
				continue
			case isNil:
			default:
				c.fail("error", o.Pos, fn, e, o, "it is not decided whether this return reports an error")
				continue
			}
			if l.never(o) {
				c.ok("path excluded by what holds in every round of its loops", fname(fn), 1)
				continue
			}
			n++
			l.success(o, ps)
		}
	}
	if n == 0 {
		c.fail("result", fnPos(fn), fn, nil, nil, "no lineage is ever rewritten")
	}
}

// never: the path needs a flag that is off before a loop and after every round
// that goes on to be on after it.
func (l *legacy) never(o *Outcome) bool {
	e := l.e
	for _, f := range o.Facts {
		loop := listLoop(f.C)
		if loop == "" {
			continue
		}
		ok := false
		for _, it := range iterations(l.outs, loop) {
			for _, k := range e.carriers(it) {
				if k.old == f.C {
					ok = true
					if k.init != e.boolT(!f.Val) || k.new != k.init && !e.implied(it.Facts, k.new, !f.Val) {
						return false
					}
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// asserts: no unchecked type assertion may fail.
func (l *legacy) asserts(fn *ssa.Function, outs []*Outcome) {
	for _, o := range outs {
		for _, ev := range o.Events {
			if ev.Kind != evAssert || ev.NFact > len(o.Facts) {
				continue
			}
			if !l.e.implied(o.Facts[:ev.NFact], ev.Args[0], true) {
				l.c.fail("error", ev.Pos, fn, l.e, o, "an unchecked type assertion may panic: %v", ev.Args[0])
			}
		}
	}
}

// success: what a rewritten lineage consists of.
func (l *legacy) success(o *Outcome, ps []*Term) {
	c, e, fn := l.c, l.e, l.fn
	at := e.mk("call", cv("LookupPath"), ps[0], ps[1])
	// the rewrite of the lineage's own declaration
	var apply *Term
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term.isCall(cueAstutil+".Apply") && ev.Term.Args[0].isCall(cv("Source")) {
			if apply != nil && apply != ev.Term {
				c.fail("replace", ev.Pos, fn, e, o, "the source of the lineage is rewritten twice")
			}
			apply = ev.Term
		}
	}
	if apply == nil || len(apply.Args) != 3 || !apply.Args[2].isNil() {
		c.fail("replace", o.Pos, fn, e, o, "success is reported, and the source of the lineage was not rewritten")
		return
	}
	src := apply.Args[0]
	v := src.Args[0]
	switch {
	case v == at:
		// nothing else found: only for the lineage that is the package itself
		if !l.emptyPath(o, ps[1]) {
			c.fail("lineage", o.Pos, fn, e, o, "the value at the path is used although its source may not contain the seqs field")
		}
	case v.Op == "deref" && v.Args[0].Op == "call" && len(v.Args[0].Args) == 1 && v.Args[0].Args[0] == at:
		if f := l.finder(v.Args[0]); f != nil {
			l.checkFinder(f)
			break
		}
		fallthrough
	default:
		c.fail("lineage", o.Pos, fn, e, o, "what is rewritten is not the lineage at the path: %v", v)
		return
	}
	c.ok("the declaration of the lineage at the path is rewritten", fname(fn), 1)
	// the file
	l.file(o, src, ps[0])
	// the replacement
	cl := closureOf(apply.Args[1])
	if cl == nil {
		c.fail("replace", o.Pos, fn, e, o, "the rewriting function is not known")
		return
	}
	schemas, lenses := l.replacement(o, cl, src)
	if schemas == nil || lenses == nil {
		return
	}
	seqs := e.mk("call", cv("LookupPath"), v, e.path("seqs"))
	l.list(o, "schemas", schemas, seqs)
	l.list(o, "lenses", lenses, seqs)
}

func (l *legacy) emptyPath(o *Outcome, p *Term) bool {
	return l.e.implied(o.Facts, l.e.eq(l.e.int(0), l.e.length(l.e.mk("call", "("+cuePkg+".Path).Selectors", p))), true)
}

// finder is the function that finds the declaration with the seqs field.
func (l *legacy) finder(call *Term) *ssa.Function {
	for _, o := range l.outs {
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term == call && ev.Instr != nil {
				if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
					return ci.Common().StaticCallee()
				}
			}
		}
	}
	return nil
}

// checkFinder: what is found is a struct literal, and it is the value itself or
// a part of it that has a seqs field.
func (l *legacy) checkFinder(f *ssa.Function) {
	c := l.c
	e, outs := c.runOpts(f, Options{InlineRec: true})
	p := e.paramTerms(f)[0]
	l2 := &legacy{c: c, e: e, fn: f, outs: outs}
	l2.asserts(f, outs)
	isLit := func(o *Outcome, v *Term) bool {
		s := e.mk("call", cv("Source"), v)
		if e.implied(o.Facts, e.mk("istype", "*"+cueAst+".StructLit", s), true) {
			return true
		}
		return e.implied(o.Facts, e.mk("istype", "*"+cueAst+".Field", s), true) &&
			e.implied(o.Facts, e.mk("istype", "*"+cueAst+".StructLit", e.fld(s, "Value")), true)
	}
	n := 0
	for _, o := range outs {
		if o.Kind != outReturn || o.Vals[0].isNil() {
			continue
		}
		r := o.Vals[0]
		if r.Op == "call" && l2.finder(r) == f {
			a := r.Args[0]
			if !l2.operand(o, a, p) {
				c.fail("lineage", o.Pos, f, e, o, "the search goes on in something that is no operand of the value: %v", a)
				continue
			}
			if !e.implied(o.Facts, e.mk("call", cv("Exists"), e.mk("call", cv("LookupPath"), a, e.path("seqs"))), true) {
				c.fail("lineage", o.Pos, f, e, o, "the search goes on in an operand that may have no seqs field")
				continue
			}
			n++
			continue
		}
		if r.Op != "alloc" {
			c.fail("lineage", o.Pos, f, e, o, "what is found is not known: %v", r)
			continue
		}
		v := o.st.load(e, r, anyType)
		if v != p && !l2.operand(o, v, p) || !isLit(o, v) {
			c.fail("lineage", o.Pos, f, e, o, "what is found may not be the struct literal that declares the lineage: %v", v)
			continue
		}
		n++
	}
	if n == 0 {
		c.fail("lineage", fnPos(f), f, nil, nil, "no declaration is ever found")
	}
	c.ok("what is found is a struct literal of the value, with a seqs field", fname(f), n)
}

// operand: v is one of the unified parts of p.
func (l *legacy) operand(o *Outcome, v, p *Term) bool {
	return v.Op == "index" && v.Args[0].Op == "ext" && v.Args[0].Sym == "1" && v.Args[0].Args[0].isCall(cv("Expr")) && v.Args[0].Args[0].Args[0] == p
}

// file: the file returned is the one that contains the source.
func (l *legacy) file(o *Outcome, src, inst *Term) {
	c, e, fn := l.c, l.e, l.fn
	r := o.Vals[0]
	files := e.fld(e.mk("call", cv("BuildInstance"), inst), "Files")
	if r.Op != "index" || r.Args[0] != files {
		c.fail("file", o.Pos, fn, e, o, "what is returned is no file of the package: %v", r)
		return
	}
	for _, f := range o.Facts {
		x := f.C
		if !f.Val || x.Op != "out" && x.Op != "call" || len(x.Args) == 0 {
			continue
		}
		w := x.Args[0]
		if !w.isCall(cueAst+".Walk") || len(w.Args) != 3 || w.Args[0] != r {
			continue
		}
		cl := closureOf(w.Args[1])
		if cl == nil || len(x.Args) < 2 {
			continue
		}
		cell := x.Args[1]
		if why := l.finds(o, cl, cell, src); why != "" {
			c.fail("file", fnPos(cl.Fn), cl.Fn, e, o, "%s", why)
			return
		}
		c.ok("the file returned contains the rewritten declaration", fname(fn), 1)
		return
	}
	c.fail("file", o.Pos, fn, e, o, "the file returned is not known to contain the rewritten declaration")
}

// finds: walking a file with the function sets the cell exactly if the source is in it.
func (l *legacy) finds(o *Outcome, cl, cell, src *Term) string {
	e := l.e
	for _, before := range []bool{false, true} {
		outs := e.RunWith(cl.Fn, nil, cl.Args, func(s *State) {
			for k, v := range o.st.mem {
				s.mem[k] = v
			}
			for k, v := range o.st.fresh {
				s.fresh[k] = v
			}
			s.store(cell, e.boolT(before))
		})
		l.c.account(e, cl.Fn, outs)
		node := e.paramTerms(cl.Fn)[0]
		same := e.eq(node, src)
		for _, w := range outs {
			if w.Kind != outReturn {
				return "the walk does not return"
			}
			after := w.st.load(e, cell, anyType)
			set := after == e.boolT(true) || after == same && e.implied(w.Facts, same, true)
			unset := after == e.boolT(false) || after == same && e.implied(w.Facts, same, false)
			switch {
			case before && !set:
				return "the walk may forget that the source was found"
			case !before && e.implied(w.Facts, same, true):
				if !set {
					return "the walk does not see the source"
				}
			case !before && e.implied(w.Facts, same, false):
				if !unset {
					return "the walk takes another node for the source"
				}
				if w.Vals[0] != e.boolT(true) {
					return "the walk does not go into all nodes"
				}
			case !before && after != same:
				return "the walk does not compare the node with the source"
			case !before && w.Vals[0] != e.boolT(true) && w.Vals[0] != e.not(same):
				return "the walk does not go into all nodes"
			}
		}
	}
	for _, ot := range l.outs {
		for _, ev := range ot.Events {
			if in, ok := ev.MInit[cell]; ok && ev.Kind == evEnter && o.entered(ev.Loop) && in != e.boolT(false) && in.Op != "loopmem" {
				return "the source counts as found before any file was searched"
			}
		}
	}
	return ""
}

// replacement: the function applied to the lineage's declaration replaces the
// seqs field of the lineage itself, and nothing else, by two fields.
func (l *legacy) replacement(o *Outcome, cl, src *Term) (schemas, lenses *Term) {
	c, e := l.c, l.e
	outs := c.runClosure(e, o, cl)
	cur := e.paramTerms(cl.Fn)[0]
	node := e.mk("call", cursorCall+"Node", cur)
	l.asserts(cl.Fn, outs)
	done := false
	for _, w := range outs {
		if w.Kind != outReturn {
			c.fail("replace", w.Pos, cl.Fn, e, w, "the rewriting function does not return")
			continue
		}
		isField := e.mk("istype", "*"+cueAst+".Field", node)
		own := e.eq(node, src)
		name := e.mk("call", cueAst+".LabelName", e.fld(node, "Label"))
		seqs := e.eq(e.str("seqs"), e.mk("ext", "0", name))
		named := e.nilEq(e.mk("ext", "2", name))
		edits := l.edits(w, cur)
		if len(edits) > 0 {
			var at []string
			parts := map[string]*Term{}
			for _, x := range edits {
				at = append(at, x.Sym)
				k, v := l.part(w, unbox(x.Args[1]))
				if k == "" {
					c.fail("replace", w.Pos, cl.Fn, e, w, "the seqs field is replaced by something unknown: %v", x.Args[1])
					return
				}
				if parts[k] != nil {
					c.fail("replace", w.Pos, cl.Fn, e, w, "%s are put in twice", k)
					return
				}
				parts[k] = v
			}
			if len(at) != 2 || at[0] != cursorCall+"Replace" && at[1] != cursorCall+"Replace" || at[0] == at[1] || parts["schemas"] == nil || parts["lenses"] == nil {
				c.fail("replace", w.Pos, cl.Fn, e, w, "the seqs field is not replaced by the schemas and the lenses")
				return
			}
			if !e.implied(w.Facts, isField, true) || !e.implied(w.Facts, seqs, true) || !e.implied(w.Facts, named, true) {
				c.fail("replace", w.Pos, cl.Fn, e, w, "something other than a field named seqs may be replaced")
				return
			}
			if !e.implied(w.Facts, own, false) {
				c.fail("replace", w.Pos, cl.Fn, e, w, "the declaration of the lineage may itself be replaced")
				return
			}
			schemas, lenses, done = parts["schemas"], parts["lenses"], true
			continue
		}
		if !e.implied(w.Facts, isField, true) || e.implied(w.Facts, own, true) {
			if !e.implied(w.Facts, isField, false) && !e.implied(w.Facts, own, true) {
				c.fail("replace", w.Pos, cl.Fn, e, w, "fields are not told from other nodes")
			} else if w.Vals[0] != e.boolT(true) {
				c.fail("replace", w.Pos, cl.Fn, e, w, "the declaration of the lineage is not searched for its seqs field")
			}
			continue
		}
		if e.possible(w.Facts, Fact{C: own}, Fact{C: seqs, Val: true}, Fact{C: named, Val: true}) {
			c.fail("replace", w.Pos, cl.Fn, e, w, "the seqs field of the lineage may stay as it is")
			continue
		}
		if w.Vals[0] != e.boolT(false) {
			c.fail("replace", w.Pos, cl.Fn, e, w, "fields named seqs inside of other fields of the lineage are replaced, too")
		}
	}
	if !done {
		c.fail("replace", fnPos(cl.Fn), cl.Fn, nil, nil, "the seqs field is never replaced")
		return nil, nil
	}
	c.ok("exactly the lineage's own seqs field is replaced, by schemas and lenses", fname(cl.Fn), len(outs))
	return
}

// edits are the changes a trace makes through a cursor.
func (l *legacy) edits(w *Outcome, cur *Term) []*Term {
	var r []*Term
	for _, ev := range w.Events {
		if ev.Kind == evCall && ev.Term.Op == "call" && len(ev.Term.Args) > 0 && ev.Term.Args[0] == cur {
			switch ev.Term.Sym {
			case cursorCall + "Replace", cursorCall + "InsertAfter", cursorCall + "InsertBefore", cursorCall + "Delete":
				r = append(r, ev.Term)
			}
		}
	}
	return r
}

// part: the name and the value of a field that is put in.
func (l *legacy) part(w *Outcome, t *Term) (string, *Term) {
	if t.Op != "index" {
		return "", nil
	}
	i, ok := t.Args[1].constInt()
	if !ok || t.Args[0].Op != "fld" || t.Args[0].Sym != "Elts" {
		return "", nil
	}
	m := l.fields(w, t.Args[0].Args[0])
	if int(i) >= len(m) || i < 0 {
		return "", nil
	}
	return m[i].k, m[i].v
}

type labelled struct {
	k string
	v *Term
}

// fields are the labels and the values of a struct literal that is made.
func (l *legacy) fields(w *Outcome, t *Term) []labelled {
	if !t.isCall(cueAst+".NewStruct") || len(t.Args) != 1 || t.Args[0].Op != "list" {
		return nil
	}
	xs := t.Args[0].Args
	if len(xs)%2 != 0 {
		return nil
	}
	var r []labelled
	for i := 0; i < len(xs); i += 2 {
		k, ok := unbox(xs[i]).constStr()
		if !ok {
			return nil
		}
		r = append(r, labelled{k, unbox(xs[i+1])})
	}
	return r
}

// elements is the list of a list literal.
func (l *legacy) elements(o *Outcome, t *Term) *Term {
	t = unbox(t)
	switch {
	case t.isCall(cueAst+".NewList") && len(t.Args) == 1:
		return t.Args[0]
	case t.Op == "alloc":
		return o.field(l.e, t, "Elts")
	}
	return nil
}

// made is an element put in a list: the trace that makes it, the facts that hold
// then, and what its parts stand for.
type made struct {
	o     *Outcome
	facts []Fact
	t     *Term
	sub   func(*Term) *Term
}

// list decides the contents of one of the lists.
func (l *legacy) list(o *Outcome, kind string, lit, seqs *Term) {
	c, e, fn := l.c, l.e, l.fn
	list := l.elements(o, lit)
	if list == nil {
		c.fail(kind, o.Pos, fn, e, o, "the list of %s is not known: %v", kind, lit)
		return
	}
	// the lists that are made from one another, element by element
	var stages []stage
	for {
		loop := listLoop(list)
		if loop == "" || !o.passed()[loop] {
			c.fail(kind, o.Pos, fn, e, o, "the list of %s is not made by going through the sequences: %v", kind, list)
			return
		}
		init := e.listInit(l.outs, loop, list)
		if !e.emptyList(init) {
			c.fail(kind, o.Pos, fn, e, o, "the list of %s does not start empty", kind)
			return
		}
		over := l.exhausted(o, loop)
		if over == nil {
			break
		}
		st := stage{loop: loop, over: over}
		for _, it := range iterations(l.outs, loop) {
			if !e.samePath(it, o, loop) {
				continue
			}
			xs, ok := e.appended(it, list)
			if !ok || len(xs) != 1 {
				c.fail(kind, it.Pos, fn, e, it, "the number of %s changes on the way: %d are kept of one", kind, len(xs))
				return
			}
			st.its = append(st.its, it)
			st.elems = append(st.elems, xs[0])
		}
		if len(st.its) == 0 {
			c.fail(kind, o.Pos, fn, e, o, "no %s are ever kept", kind)
			return
		}
		stages = append(stages, st)
		list = over
	}
	outer := listLoop(list)
	if !l.loopsOver(o, outer, seqs) {
		c.fail(kind, o.Pos, fn, e, o, "the list of %s is not made from all sequences of the lineage", kind)
		return
	}
	l.sequences(o, kind, list, outer, seqs, stages)
}

type stage struct {
	loop  string
	over  *Term
	its   []*Outcome
	elems []*Term
}

// exhausted: the loop was left because all elements of a list were visited.
func (l *legacy) exhausted(o *Outcome, loop string) *Term {
	it := l.e.iter(loop)
	for _, f := range o.Facts {
		if !f.Val && f.C.Op == "lt" && f.C.Args[0] == it && f.C.Args[1].Op == "len" {
			return f.C.Args[1].Args[0]
		}
	}
	return nil
}

// loopsOver: the loop was left because the iterator over a CUE list was at its end.
func (l *legacy) loopsOver(o *Outcome, loop string, list *Term) bool {
	e := l.e
	it := e.mk("ext", "0", e.mk("call", cv("List"), list))
	return e.implied(o.Facts, e.mk("call", "Iterator.Next", it, e.int(0)), false)
}

// current is the element of a CUE list the iteration is about.
func (l *legacy) current(o *Outcome, list *Term) *Term {
	e := l.e
	it := e.mk("ext", "0", e.mk("call", cv("List"), list))
	if !e.implied(o.Facts, e.mk("call", "Iterator.Next", it, e.int(0)), true) {
		return nil
	}
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term.isCall("Iterator.Next") && ev.Term.Args[0] == it && ev.Term.Args[1] != e.int(0) {
			return nil
		}
	}
	return e.mk("call", "Iterator.Value", it, e.int(1))
}

// flat lists what is appended to old to make t.
func flat(t, old *Term) ([]*Term, bool) {
	if t == old {
		return nil, true
	}
	if t == nil || t.Op != "append" || t.Args[1].Op != "list" {
		return nil, false
	}
	xs, ok := flat(t.Args[0], old)
	return append(xs, t.Args[1].Args...), ok
}

// sequences decides what each sequence, and each of its schemas, adds to the list.
func (l *legacy) sequences(ret *Outcome, kind string, list *Term, outer string, seqs *Term, stages []stage) {
	c, e, fn := l.c, l.e, l.fn
	n := 0
	inners := map[string]*Term{}
	for _, o := range iterations(l.outs, outer) {
		if !e.samePath(o, ret, outer) {
			continue
		}
		seq := l.current(o, seqs)
		if seq == nil {
			c.fail(kind, o.Pos, fn, e, o, "the sequences are not taken one by one")
			return
		}
		var next *Term
		for _, k := range e.carriers(o) {
			if k.old == list {
				next = k.new
			}
		}
		inner := listLoop(next)
		if next == nil || next == list || inner == "" || inner == outer || !o.passed()[inner] {
			c.fail(kind, o.Pos, fn, e, o, "a sequence adds nothing for its schemas, or adds something after them: %v", next)
			return
		}
		sch := e.mk("call", cv("LookupPath"), seq, e.path("schemas"))
		if !l.loopsOver(o, inner, sch) {
			c.fail(kind, o.Pos, fn, e, o, "not all schemas of the sequence are visited")
			return
		}
		if !e.implied(o.Facts, e.eq(e.int(0), e.iter(inner)), false) {
			c.fail(kind, o.Pos, fn, e, o, "a sequence without schemas is passed over")
			return
		}
		inners[inner] = next
		start := l.start(o, inner, next)
		pre, ok := flat(start, list)
		if !ok {
			c.fail(kind, o.Pos, fn, e, o, "what came before is lost: %v", start)
			return
		}
		first := e.eq(e.int(0), e.iter(outer))
		i := e.iter(outer)
		switch {
		case kind == "schemas" || e.implied(o.Facts, first, true):
			if len(pre) != 0 {
				c.fail(kind, o.Pos, fn, e, o, "%d %s are added that belong to no schema", len(pre), kind)
				return
			}
		case !e.implied(o.Facts, first, false):
			c.fail(kind, o.Pos, fn, e, o, "the lenses to the previous sequence do not depend on whether there is one")
			return
		case len(pre) != 2:
			c.fail(kind, o.Pos, fn, e, o, "%d lenses are added between two sequences", len(pre))
			return
		default:
			last := l.lastOf(outer, inner, pre[0])
			if last == nil {
				c.fail(kind, o.Pos, fn, e, o, "the version of the last schema of the previous sequence is not known")
				return
			}
			prev, this := version{e.sub(i, e.int(1)), last}, version{i, e.int(0)}
			for k, x := range pre {
				w := lens{to: prev, from: this, dir: "reverse"}
				if k == 1 {
					w = lens{to: this, from: prev, dir: "forward"}
				}
				w.mapper = e.mk("call", cv("LookupPath"), seq, e.path("lens."+w.dir+".rel"))
				w.lacunas = e.mk("call", cv("LookupPath"), seq, e.path("lens."+w.dir+".lacunas"))
				if !l.isLens(o, x, stages, w) {
					return
				}
			}
		}
		n++
	}
	if n == 0 {
		c.fail(kind, fnPos(fn), fn, nil, nil, "no sequence is ever visited")
		return
	}
	c.ok(kind+": each sequence adds what belongs between it and the previous one", fname(fn), n)
	n = 0
	for inner, lst := range inners {
		for _, o := range iterations(l.outs, inner) {
			if !e.samePath(o, ret, outer) {
				continue
			}
			seq := l.current(o, seqs)
			if seq == nil {
				c.fail(kind, o.Pos, fn, e, o, "the sequences are not taken one by one")
				return
			}
			sch := l.current(o, e.mk("call", cv("LookupPath"), seq, e.path("schemas")))
			if sch == nil {
				c.fail(kind, o.Pos, fn, e, o, "the schemas of a sequence are not taken one by one")
				return
			}
			var next *Term
			for _, k := range e.carriers(o) {
				if k.old == lst {
					next = k.new
				}
			}
			xs, ok := flat(next, lst)
			if !ok {
				c.fail(kind, o.Pos, fn, e, o, "what came before is lost: %v", next)
				return
			}
			i, j := e.iter(outer), e.iter(inner)
			first := e.eq(e.int(0), j)
			switch {
			case kind == "schemas":
				if len(xs) != 1 {
					c.fail(kind, o.Pos, fn, e, o, "a schema is added %d times", len(xs))
					return
				}
				if !l.isSchema(o, xs[0], stages, version{i, j}, sch) {
					return
				}
			case e.implied(o.Facts, first, true):
				if len(xs) != 0 {
					c.fail(kind, o.Pos, fn, e, o, "a lens is added for the first schema of a sequence")
					return
				}
			case !e.implied(o.Facts, first, false):
				c.fail(kind, o.Pos, fn, e, o, "the lens to the previous schema does not depend on whether there is one")
				return
			case len(xs) != 1:
				c.fail(kind, o.Pos, fn, e, o, "%d lenses are added to the previous schema", len(xs))
				return
			default:
				if !l.isLens(o, xs[0], stages, lens{to: version{i, e.sub(j, e.int(1))}, from: version{i, j}}) {
					return
				}
			}
			n++
		}
	}
	if n == 0 {
		c.fail(kind, fnPos(fn), fn, nil, nil, "no schema is ever visited")
		return
	}
	c.ok(kind+": each schema adds what belongs to it", fname(fn), n)
}

// start is what the list holds when the loop is entered.
func (l *legacy) start(o *Outcome, loop string, list *Term) *Term {
	e := l.e
	var r *Term
	for _, ev := range o.Events {
		if ev.Kind != evEnter || ev.Loop != loop {
			continue
		}
		if list.Op == "loopmem" {
			r = ev.MInit[list.Args[0]]
			continue
		}
		for _, it := range iterations(l.outs, loop) {
			for ph, old := range it.PhiOld {
				if old == list {
					r = ev.Init[ph]
				}
			}
		}
	}
	_ = e
	return r
}

// lastOf finds, in the parts of a lens, the variable that holds the number of
// the last schema of the previous sequence, and returns that number.
func (l *legacy) lastOf(outer, inner string, t *Term) *Term {
	e := l.e
	for _, o := range iterations(l.outs, outer) {
		for _, k := range e.carriers(o) {
			b, n := e.linear(k.new)
			if b != e.iter(inner) || !t.contains(k.old) {
				continue
			}
			ok := true
			for _, p := range iterations(l.outs, outer) {
				for _, q := range e.carriers(p) {
					if q.old == k.old && q.new != k.new {
						ok = false
					}
				}
			}
			if ok {
				// k.new is the number of schemas of the sequence plus n
				return e.add(k.old, e.int(-1-n))
			}
		}
	}
	return nil
}

type version [2]*Term

type lens struct {
	to, from        version
	dir             string
	mapper, lacunas *Term
}

// forms are the syntax trees an element is turned into by the later stages.
func (l *legacy) forms(o *Outcome, x *Term, stages []stage) []made {
	e := l.e
	id := func(t *Term) *Term { return t }
	cur := []made{{o, o.Facts, x, id}}
	for k := len(stages) - 1; k >= 0; k-- {
		st := stages[k]
		var next []made
		for _, m := range cur {
			at := e.index(st.over, e.iter(st.loop))
			v := m.sub(m.t)
			sub := func(t *Term) *Term {
				return e.rewrite(t, func(x *Term) *Term {
					if x == at {
						return v
					}
					return nil
				})
			}
			for i, it := range st.its {
				n := 0 // what the round itself found out
				for _, ev := range it.Events {
					if ev.Kind == evEnter && ev.Loop == st.loop {
						n = ev.NFact
					}
				}
				fs := append(append([]Fact{}, m.facts...), e.rewriteFacts(it.Facts[n:], func(x *Term) *Term {
					if x == at {
						return v
					}
					return nil
				})...)
				if !l.possible(fs) {
					continue
				}
				next = append(next, made{it, fs, st.elems[i], sub})
			}
		}
		cur = next
	}
	return cur
}

// possible: the facts do not contradict one another, nor what is known of CUE:
// the zero value does not exist.
func (l *legacy) possible(fs []Fact) bool {
	for _, f := range fs {
		if f.Val && f.C.isCall(cv("Exists")) && f.C.Args[0].Op == "zero" {
			return false
		}
		if f.C.isConst() && f.C != l.e.boolT(f.Val) {
			return false
		}
	}
	return l.e.possible(fs)
}

// isVersion: the tree is the list of a version's two numbers.
func (l *legacy) isVersion(m made, t *Term, v version) string {
	list := l.elements(m.o, t)
	if list == nil || list.Op != "list" || len(list.Args) != 2 {
		return fmt.Sprintf("it is not a list of two numbers: %v", t)
	}
	for i, x := range list.Args {
		x = unbox(x)
		var kind, text *Term
		switch {
		case x.Op == "alloc":
			kind, text = m.o.field(l.e, x, "Kind"), m.o.field(l.e, x, "Value")
		case x.isCall(cueAst + ".NewLit"):
			kind, text = x.Args[0], x.Args[1]
		}
		if kind != l.intK || text == nil || m.sub(text) != l.e.mk("dec", "", v[i]) {
			return fmt.Sprintf("its number %d is %v, not that of the schema", i, x)
		}
	}
	return ""
}

func (l *legacy) isSchema(o *Outcome, x *Term, stages []stage, v version, sch *Term) bool {
	c, e, fn := l.c, l.e, l.fn
	ms := l.forms(o, x, stages)
	if len(ms) == 0 {
		c.fail("schemas", o.Pos, fn, e, o, "the schema is never written")
		return false
	}
	for _, m := range ms {
		fs := l.fields(m.o, unbox(m.t))
		if len(fs) != 2 {
			c.fail("schemas", m.o.Pos, fn, e, m.o, "a schema is not written as its version and itself: %v", m.t)
			return false
		}
		got := map[string]*Term{}
		for _, f := range fs {
			got[f.k] = f.v
		}
		if got["version"] == nil || got["schema"] == nil {
			c.fail("schemas", m.o.Pos, fn, e, m.o, "a schema is not written as its version and itself: %v", m.t)
			return false
		}
		if why := l.isVersion(m, got["version"], v); why != "" {
			c.fail("schemas", m.o.Pos, fn, e, m.o, "the version of a schema is not the number of its sequence and its place in it: %s", why)
			return false
		}
		if s := m.sub(got["schema"]); !s.isCall(cv("Source")) || s.Args[0] != sch {
			c.fail("schemas", m.o.Pos, fn, e, m.o, "what is written under a schema's version is not the source of that schema: %v", s)
			return false
		}
	}
	c.ok("a schema is written under its own version", fname(fn), len(ms))
	return true
}

func (l *legacy) isLens(o *Outcome, x *Term, stages []stage, w lens) bool {
	c, e, fn := l.c, l.e, l.fn
	ms := l.forms(o, x, stages)
	if len(ms) == 0 {
		c.fail("lenses", o.Pos, fn, e, o, "the lens is never written")
		return false
	}
	for _, m := range ms {
		bad := func(format string, a ...any) bool {
			c.fail("lenses", m.o.Pos, fn, e, m.o, format, a...)
			return false
		}
		fs := l.fields(m.o, unbox(m.t))
		got := map[string]*Term{}
		for _, f := range fs {
			got[f.k] = f.v
		}
		for _, k := range []string{"to", "from", "input", "result", "lacunas"} {
			if got[k] == nil {
				return bad("a lens is written without %q", k)
			}
		}
		if len(fs) != 5 {
			return bad("a lens is written with %d fields", len(fs))
		}
		if why := l.isVersion(m, got["to"], w.to); why != "" {
			return bad("a lens does not lead to the version it should: %s", why)
		}
		if why := l.isVersion(m, got["from"], w.from); why != "" {
			return bad("a lens does not start from the version it should: %s", why)
		}
		if in := got["input"]; !in.isCall(cueAst+".NewIdent") || in.Args[0] != e.str("_") {
			return bad("the input of a lens is not open: %v", in)
		}
		exists := func(v *Term) (bool, bool) {
			if v == nil {
				return false, true
			}
			for _, f := range m.facts {
				if f.C.isCall(cv("Exists")) && f.C.Args[0] == v {
					return f.Val, true
				}
			}
			return false, false
		}
		// the mapping
		r := got["result"]
		ex, known := exists(w.mapper)
		switch {
		case !known:
			return bad("the mapping of a lens is written without a look whether there is one")
		case ex:
			if why := l.carriedOver(m, r, w.mapper, "StructLit"); why != "" {
				return bad("the mapping of a lens is not the one declared for it: %s", why)
			}
		default:
			if !l.placeholder(m, r) {
				return bad("a lens without a mapping is not written as one to be implemented: %v", r)
			}
		}
		// the lacunas
		lac := got["lacunas"]
		ex, known = exists(w.lacunas)
		switch {
		case !known:
			return bad("the lacunas of a lens are written without a look whether there are any")
		case ex:
			if why := l.carriedOver(m, lac, w.lacunas, "ListLit"); why != "" {
				return bad("the lacunas of a lens are not the ones declared for it: %s", why)
			}
		default:
			if xs := l.elements(m.o, lac); xs == nil || !e.emptyList(xs) {
				return bad("a lens without lacunas is written with some: %v", lac)
			}
		}
	}
	c.ok("a lens is written with its own versions, mapping and lacunas", fname(fn), len(ms))
	return true
}

func (l *legacy) placeholder(m made, t *Term) bool {
	if !t.isCall(cueAst+".NewStruct") || t.Args[0].Op != "list" || len(t.Args[0].Args) != 1 {
		return false
	}
	x := unbox(t.Args[0].Args[0])
	if x.isCall(cueAst + ".Embed") {
		x = unbox(x.Args[0])
	}
	return x.Op == "alloc" && x.T != nil && x.T.String() == "*"+cueAst+".BottomLit"
}

// carriedOver: the tree is the declared value of the field, a literal, with its
// references renamed.
func (l *legacy) carriedOver(m made, t, v *Term, lit string) string {
	e := l.e
	src := e.mk("call", cv("Source"), v)
	want := e.fld(src, "Value")
	if m.sub(t) != want {
		return fmt.Sprintf("it is %v", m.sub(t))
	}
	if !e.implied(m.facts, e.mk("istype", "*"+cueAst+"."+lit, want), true) {
		return "it may not be a literal"
	}
	for _, ev := range m.o.Events {
		if ev.Kind == evCall && ev.Term.isCall(cueAstutil+".Apply") && m.sub(ev.Term.Args[0]) == want {
			cl := closureOf(ev.Term.Args[1])
			post := closureOf(ev.Term.Args[2])
			switch {
			case cl != nil && ev.Term.Args[2].isNil():
				return l.renames(m.o, cl)
			case post != nil && ev.Term.Args[1].isNil():
				return l.renames(m.o, post)
			}
			return "it is rewritten by an unknown function"
		}
	}
	return "the references in it are not renamed"
}

// renames: exactly references to from and to are renamed, to input and result.
func (l *legacy) renames(o *Outcome, cl *Term) string {
	c, e := l.c, l.e
	outs := c.runClosure(e, o, cl)
	ps := e.paramTerms(cl.Fn)
	cur := ps[len(ps)-1]
	node := e.mk("call", cursorCall+"Node", cur)
	isIdent := e.mk("istype", "*"+cueAst+".Ident", node)
	bound := e.nilEq(e.fld(node, "Node"))
	is := func(n string) *Term { return e.eq(e.str(n), e.fld(node, "Name")) }
	l.asserts(cl.Fn, outs)
	seen := map[string]bool{}
	for _, w := range outs {
		if w.Kind != outReturn {
			return "the renaming does not return"
		}
		if w.Vals[0] != e.boolT(true) && !e.implied(w.Facts, isIdent, true) {
			return "some references are never reached"
		}
		for _, ev := range w.Events {
			if ev.Kind == evStore && rootAddr(ev.Args[0]).Op != "alloc" {
				return "it changes more than references"
			}
		}
		ed := l.edits(w, cur)
		for from, to := range map[string]string{"from": "input", "to": "result"} {
			ref := []Fact{{C: isIdent, Val: true}, {C: bound, Val: false}, {C: is(from), Val: true}}
			other := map[string]string{"from": "to", "to": "from"}[from]
			if !e.possible(w.Facts, ref...) || e.implied(w.Facts, is(other), true) {
				continue
			}
			if len(ed) != 1 || ed[0].Sym != cursorCall+"Replace" || l.printed(w, unbox(ed[0].Args[1])) != to {
				return fmt.Sprintf("a reference to %s does not become one to %s", from, to)
			}
			seen[from] = true
		}
		if len(ed) > 0 {
			ok := false
			for _, n := range []string{"from", "to"} {
				if e.implied(w.Facts, is(n), true) {
					ok = true
				}
			}
			if !ok || !e.implied(w.Facts, isIdent, true) || !e.implied(w.Facts, bound, false) {
				return "something other than a reference to from or to is replaced"
			}
		}
	}
	if !seen["from"] || !seen["to"] {
		return "references are never renamed"
	}
	c.ok("references to from and to are renamed, all of them and nothing else", fname(cl.Fn), len(outs))
	return ""
}

// printed is the text of a literal or an identifier.
func (l *legacy) printed(w *Outcome, t *Term) string {
	var x *Term
	switch {
	case t.isCall(cueAst+".NewLit") && len(t.Args) == 2:
		x = t.Args[1]
	case t.isCall(cueAst + ".NewIdent"):
		x = t.Args[0]
	case t.Op == "alloc" && t.T != nil && t.T.String() == "*"+cueAst+".Ident":
		x = w.field(l.e, t, "Name")
	case t.Op == "alloc" && t.T != nil && t.T.String() == "*"+cueAst+".BasicLit":
		x = w.field(l.e, t, "Value")
	}
	if x == nil {
		return ""
	}
	s, _ := x.constStr()
	return s
}
