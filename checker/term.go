package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed symbolic name for a value (Herbrand / value-numbering
// domain). Two program values with the same Term are equal on that trace.
type Term struct {
	Op   string
	Sym  string
	Args []*Term

	T    types.Type    // Go type, informational only
	Fn   *ssa.Function // for "fn" and "closure"
	Pos  token.Pos     // first program point that created the term
	id   int
	size int
}

type termTable struct {
	m    map[string]*Term
	next int
}

func newTermTable() *termTable { return &termTable{m: map[string]*Term{}} }

func (tt *termTable) mk(op, sym string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(sym)
	for _, a := range args {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.next++
	size := 1
	for _, a := range args {
		size += a.size
		if size > 1<<20 {
			size = 1 << 20
		}
	}
	t := &Term{Op: op, Sym: sym, Args: args, id: tt.next, size: size}
	tt.m[k] = t
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 9 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d + 1) }
	list := func(from int) string {
		var s []string
		for i := from; i < len(t.Args); i++ {
			s = append(s, arg(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.Sym
	case "param", "global", "gval", "free":
		return t.Sym
	case "alloc":
		return "new@" + t.Sym
	case "fld", "faddr":
		pre := ""
		if t.Op == "faddr" {
			pre = "&"
		}
		return pre + arg(0) + "." + t.Sym
	case "index", "iaddr":
		pre := ""
		if t.Op == "iaddr" {
			pre = "&"
		}
		return pre + arg(0) + "[" + arg(1) + "]"
	case "ext":
		return arg(0) + "#" + t.Sym
	case "call":
		return shortName(t.Sym) + "(" + list(0) + ")"
	case "eq", "lt", "add", "sub", "mul", "quo", "rem", "and", "or", "xor", "andnot", "shl", "shr":
		return "(" + arg(0) + " " + t.Op + " " + arg(1) + ")"
	case "not":
		return "!" + arg(0)
	case "loopvar":
		return "loop:" + t.Sym
	case "path":
		return "path(" + t.Sym + ")"
	}
	s := t.Op
	if t.Sym != "" {
		s += ":" + t.Sym
	}
	if len(t.Args) > 0 {
		s += "(" + list(0) + ")"
	}
	return s
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		return pre + s[i+1:]
	}
	return s
}

// isConst reports whether t is a constant.
func (t *Term) isConst() bool { return t.Op == "const" }

func (t *Term) isTrue() bool  { return t.Op == "const" && t.Sym == "true" }
func (t *Term) isFalse() bool { return t.Op == "const" && t.Sym == "false" }

func (t *Term) isNil() bool { return t.Op == "const" && t.Sym == "nil" }

func (t *Term) constInt() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Sym, 10, 64)
	return n, err == nil
}

func (t *Term) constStr() (string, bool) {
	if t.Op != "const" || len(t.Sym) == 0 || t.Sym[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.Sym)
	return s, err == nil
}

// walk visits t and all its subterms; f returns false to stop descending.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(o *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x == o {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) containsOp(op string) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x.Op == op {
			found = true
		}
		return !found
	})
	return found
}

// isCall reports whether t is a call term of one of the named functions.
func (t *Term) isCall(names ...string) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	for _, n := range names {
		if t.Sym == n {
			return true
		}
	}
	return false
}

// call returns the call term under an ext (or t itself).
func (t *Term) call() (*Term, int) {
	if t == nil {
		return nil, -1
	}
	if t.Op == "call" {
		return t, 0
	}
	if t.Op == "ext" && t.Args[0].Op == "call" {
		n, _ := strconv.Atoi(t.Sym)
		return t.Args[0], n
	}
	return nil, -1
}

func debugf(format string, a ...any) {
	if debugOn {
		fmt.Printf(format, a...)
	}
}

var debugOn bool
