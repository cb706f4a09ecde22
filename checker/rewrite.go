package main

// rewrite rebuilds a term bottom-up through the simplifying constructors,
// applying f to every rebuilt subterm.
func (e *Engine) rewrite(t *Term, f func(*Term) *Term) *Term { return e.rewriteIn(t, "", f) }

// rewriteIn does not descend into terms with the operator stop.
func (e *Engine) rewriteIn(t *Term, stop string, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		if stop != "" && t.Op == stop {
			return t
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = e.rebuild(t, args)
			if r.T == nil && r.Op != "const" {
				r.T = t.T
			}
			if r.Fn == nil {
				r.Fn = t.Fn
			}
			if d, ok := e.dyn[t]; ok {
				if _, has := e.dyn[r]; !has {
					e.dyn[r] = d
				}
			}
		}
		if n := f(r); n != nil {
			r = n
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (e *Engine) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "fld":
		return e.fld(args[0], t.Sym)
	case "index":
		return e.index(args[0], args[1])
	case "eq":
		return e.eq(args[0], args[1])
	case "lt":
		return e.lt(args[0], args[1])
	case "add", "plus":
		return e.add(args[0], args[1])
	case "sub":
		return e.sub(args[0], args[1])
	case "not":
		return e.not(args[0])
	case "len":
		return e.length(args[0])
	case "call":
		if t.Sym == cv("Unify") {
			return e.unify(args[0], args[1])
		}
	}
	return e.mk(t.Op, t.Sym, args...)
}

func (e *Engine) rewriteFacts(fs []Fact, f func(*Term) *Term) []Fact {
	var out []Fact
	for _, x := range fs {
		c, v := e.rewrite(x.C, f), x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		out = append(out, Fact{C: c, Val: v, Pos: x.Pos})
	}
	return out
}

// carrier is a variable (a phi or a memory cell) that changes around a loop.
type carrier struct {
	old, new, init *Term
}

func (e *Engine) carriers(o *Outcome) []carrier {
	var out []carrier
	var enter Event
	for _, ev := range o.Events {
		if ev.Kind == evEnter && ev.Loop == o.Loop {
			enter = ev
		}
	}
	for ph, old := range o.PhiOld {
		out = append(out, carrier{old, o.PhiNew[ph], enter.Init[ph]})
	}
	for a, init := range enter.MInit {
		if _, ok := o.st.known(e, a); ok {
			out = append(out, carrier{e.mk("loopmem", o.Loop, a), o.st.load(e, a, anyType), init})
		}
	}
	return out
}

// memStart is what a memory cell holds when the loop is entered, if that is the
// same on all traces.
func (e *Engine) memStart(outs []*Outcome, loop string, cell *Term) *Term {
	var r *Term
	for _, o := range outs {
		for _, ev := range o.Events {
			if ev.Kind == evEnter && ev.Loop == loop {
				in := ev.MInit[cell]
				if in == nil || r != nil && r != in {
					return nil
				}
				r = in
			}
		}
	}
	return r
}

// listLoop returns the loop that builds a list term, or "".
func listLoop(t *Term) string {
	switch t.Op {
	case "loopmem":
		return t.Sym
	case "loopvar":
		for i := 0; i < len(t.Sym); i++ {
			if t.Sym[i] == '@' {
				return t.Sym[i+1:]
			}
		}
	}
	return ""
}

// appended returns what an iteration appends to the list, given as its old value.
func (e *Engine) appended(o *Outcome, list *Term) ([]*Term, bool) {
	for _, c := range e.carriers(o) {
		if c.old != list {
			continue
		}
		switch {
		case c.new == list:
			return nil, true
		case c.new.Op == "append" && c.new.Args[0] == list && c.new.Args[1].Op == "list":
			return c.new.Args[1].Args, true
		}
		return nil, false
	}
	return nil, false
}

// listInit is what a variable holds when the loop is entered, if that is the
// same on all traces.
func (e *Engine) listInit(outs []*Outcome, loop string, list *Term) *Term {
	var r *Term
	for _, o := range iterations(outs, loop) {
		for _, c := range e.carriers(o) {
			if c.old == list {
				if r != nil && r != c.init {
					return nil
				}
				r = c.init
			}
		}
	}
	return r
}

func (e *Engine) emptyList(t *Term) bool {
	if t == nil {
		return false
	}
	n, ok := e.length(t).constInt()
	return ok && n == 0
}

// segments returns the slices appended to old, in order, to make new: new is
// old with appends, or the outcome of completed loops that append element by
// element of one slice.
func (e *Engine) segments(o *Outcome, outs []*Outcome, new, old *Term) ([]*Term, bool) {
	if new == old {
		return nil, true
	}
	if new.Op == "append" {
		s, ok := e.segments(o, outs, new.Args[0], old)
		if !ok {
			return nil, false
		}
		return append(s, new.Args[1]), true
	}
	loop := listLoop(new)
	if loop == "" || !o.passed()[loop] {
		return nil, false
	}
	init := e.listInit(outs, loop, new)
	if init == nil {
		return nil, false
	}
	s, ok := e.segments(o, outs, init, old)
	if !ok {
		if !e.emptyList(init) || !e.emptyList(old) {
			return nil, false
		}
		s = nil
	}
	its := iterations(outs, loop)
	if len(its) == 0 {
		return nil, false
	}
	var src *Term
	for _, it := range its {
		for _, c := range e.carriers(it) {
			if c.old != new {
				continue
			}
			segs, ok := e.segments(it, outs, c.new, new)
			if !ok || len(segs) != 1 {
				return nil, false
			}
			g := segs[0]
			if g.Op == "list" {
				if len(g.Args) != 1 || g.Args[0].Op != "index" || g.Args[0].Args[1] != e.iter(loop) || src != nil && src != g.Args[0].Args[0] {
					return nil, false
				}
				src = g.Args[0].Args[0]
				continue
			}
			// whole slices, one per round
			x := e.mk("flatten", loop, g)
			if src != nil && src != x {
				return nil, false
			}
			src = x
		}
	}
	if src == nil {
		return nil, false
	}
	over := src
	if src.Op == "flatten" {
		over = nil
		src.Args[0].walk(func(t *Term) bool {
			if t.Op == "index" && t.Args[1] == e.iter(loop) {
				over = t.Args[0]
			}
			return true
		})
		if over == nil {
			return nil, false
		}
	}
	if !e.implied(o.Facts, e.lt(e.iter(loop), e.length(over)), false) {
		return nil, false
	}
	return append(s, src), true
}
