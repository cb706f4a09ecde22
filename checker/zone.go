package main

import (
	"go/types"
)

// A zone is a conjunction of difference constraints x - y <= c between integer
// terms: the relational domain in which path conditions on versions, indices
// and lengths are compared. Disequalities and inequalities of two-part versions
// are handled by case splitting.
type zone struct {
	facts []Fact
}

func (e *Engine) zoneOf(f []Fact) *zone { return &zone{facts: f} }

func (e *Engine) isVersion(t *Term) bool {
	if t.Op == "arr" && len(t.Args) == 2 {
		return true
	}
	if t.T != nil {
		if a, ok := t.T.Underlying().(*types.Array); ok && a.Len() == 2 && isIntType(a.Elem()) {
			return true
		}
	}
	return false
}

func (e *Engine) intLike(t *Term) bool {
	if _, ok := t.constInt(); ok {
		return true
	}
	switch t.Op {
	case "add", "plus", "sub", "len", "iter", "search", "induct", "bound", "cmp", "pos":
		return true
	case "index":
		if e.isVersion(t.Args[0]) {
			return true
		}
	}
	if t.T != nil && isIntType(t.T) && t.Op != "const" {
		return true
	}
	return false
}

func (e *Engine) nonNeg(t *Term) bool {
	switch t.Op {
	case "len", "iter", "search":
		return true
	case "index":
		if e.isVersion(t.Args[0]) {
			return true
		}
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

type edge struct {
	x, y *Term // nil is the constant zero
	c    int64
} // x - y <= c

type clause [][]edge // disjunction of conjunctions

func (e *Engine) diff(a, b *Term, c int64) edge { // a - b <= c
	ba, na := e.linear(a)
	bb, nb := e.linear(b)
	if bb == nil && ba != nil && ba.Op == "sub" {
		// (x - y) + na - nb <= c
		x, nx := e.linear(ba.Args[0])
		y, ny := e.linear(ba.Args[1])
		return edge{x, y, c - na + nb - nx + ny}
	}
	if ba == nil && bb != nil && bb.Op == "sub" {
		// na - (x - y) - nb <= c
		x, nx := e.linear(bb.Args[0])
		y, ny := e.linear(bb.Args[1])
		return edge{y, x, c - na + nb + nx - ny}
	}
	return edge{ba, bb, c - na + nb}
}

// compile turns facts into edges and clauses.
func (e *Engine) compile(facts []Fact) (edges []edge, cl []clause, contradiction bool) {
	for _, f := range facts {
		c, v := f.C, f.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op == "const" {
			if (c.Sym == "true") != v {
				return nil, nil, true
			}
			continue
		}
		switch c.Op {
		case "lt":
			a, b := c.Args[0], c.Args[1]
			if v {
				edges = append(edges, e.diff(a, b, -1))
			} else {
				edges = append(edges, e.diff(b, a, 0))
			}
		case "eq":
			a, b := c.Args[0], c.Args[1]
			if e.isVersion(a) || e.isVersion(b) {
				var ds [][]edge
				for i := int64(0); i < 2; i++ {
					x, y := e.index(a, e.int(i)), e.index(b, e.int(i))
					if v {
						edges = append(edges, e.diff(x, y, 0), e.diff(y, x, 0))
					} else {
						ds = append(ds, []edge{e.diff(x, y, -1)}, []edge{e.diff(y, x, -1)})
					}
				}
				if !v {
					cl = append(cl, ds)
				}
				continue
			}
			if e.intLike(a) && e.intLike(b) {
				if v {
					edges = append(edges, e.diff(a, b, 0), e.diff(b, a, 0))
				} else {
					cl = append(cl, clause{{e.diff(a, b, -1)}, {e.diff(b, a, -1)}})
				}
			}
		}
	}
	return edges, cl, false
}

func consistent(e *Engine, edges []edge) bool {
	// Bellman-Ford on the constraint graph; node 0 is zero
	idx := map[*Term]int{}
	n := 1
	node := func(t *Term) int {
		if t == nil {
			return 0
		}
		if i, ok := idx[t]; ok {
			return i
		}
		idx[t] = n
		n++
		return n - 1
	}
	type ed struct {
		u, v int
		c    int64
	}
	var es []ed
	for _, x := range edges {
		es = append(es, ed{node(x.y), node(x.x), x.c}) // dist[x] <= dist[y] + c
	}
	for t := range idx {
		if e.nonNeg(t) {
			es = append(es, ed{idx[t], 0, 0}) // 0 - t <= 0
		}
	}
	dist := make([]int64, n)
	for i := 0; i <= n; i++ {
		ch := false
		for _, x := range es {
			if dist[x.u]+x.c < dist[x.v] {
				dist[x.v] = dist[x.u] + x.c
				ch = true
			}
		}
		if !ch {
			return true
		}
	}
	return false
}

func (z *zone) feasible(e *Engine, extra []Fact) bool {
	all := append(append([]Fact{}, z.facts...), extra...)
	// direct contradictions
	seen := map[*Term]bool{}
	for _, f := range all {
		c, v := f.C, f.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if old, ok := seen[c]; ok && old != v {
			return false
		}
		seen[c] = v
	}
	edges, cl, bad := e.compile(all)
	if bad {
		return false
	}
	if !consistent(e, edges) {
		return false
	}
	if len(cl) > 8 {
		// keep the clauses that mention terms of the query (the last ones)
		cl = cl[len(cl)-8:]
	}
	var rec func(es []edge, cl []clause) bool
	rec = func(es []edge, cl []clause) bool {
		if len(cl) == 0 {
			return true
		}
		for _, d := range cl[0] {
			n := append(append([]edge{}, es...), d...)
			if consistent(e, n) && rec(n, cl[1:]) {
				return true
			}
		}
		return false
	}
	return rec(edges, cl)
}

// implied reports whether the facts force c to have value v.
func (e *Engine) implied(facts []Fact, c *Term, v bool) bool {
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	if c.Op == "const" {
		return (c.Sym == "true") == v
	}
	for _, f := range facts {
		if f.C == c {
			return f.Val == v
		}
	}
	if c.Op == "lt" || c.Op == "eq" {
		return !e.zoneOf(facts).feasible(e, []Fact{{C: c, Val: !v}})
	}
	return false
}

// possible reports whether the facts together with the extra ones are consistent.
func (e *Engine) possible(facts []Fact, extra ...Fact) bool {
	return e.zoneOf(facts).feasible(e, extra)
}
