package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-partitioned abstract interpreter over go/ssa. Values are
// named by terms of the Herbrand domain (term.go); a trace accumulates the
// branch conditions it is subject to. Calls of functions of the module are
// analysed in place, calls that leave the module are uninterpreted. A loop is
// analysed once, for an arbitrary iteration: everything the body may change is
// replaced by an unknown before the body is entered, and a path that comes back
// to the loop header ends there (an "iteration summary").

type evKind string

const (
	evCall  evKind = "call"
	evStore evKind = "store"
	evMap   evKind = "mapput"
	evDel   evKind = "mapdel"

	evAppend evKind = "append" // may write to the array behind its first operand
	evGo     evKind = "go"
	evEnter  evKind = "loop-enter"
	evAssert evKind = "assert" // an unchecked type assertion: what it needs
	evExit   evKind = "loop-exit"
	evDefer  evKind = "defer"
	evGet    evKind = "getter"
	evBound  evKind = "bound" // Args: conditions that must hold for the operation not to panic
)

type Event struct {
	Kind  evKind
	Term  *Term   // call term, or the map term for mapput
	Args  []*Term // address/value, or map/key/value
	Fn    *ssa.Function
	Instr ssa.Instruction
	Pos   token.Pos
	Loop  string
	AtHdr bool               // loop left because of the header's own condition
	NFact int                // number of facts known at the time
	Init  map[*ssa.Phi]*Term // loop-enter: what the loop's variables start with
	MInit map[*Term]*Term    // loop-enter: what the memory the loop changes starts with
	Pre   map[*Term]*Term    // call: the structs its arguments point to
}

type Fact struct {
	C   *Term
	Val bool
	Pos token.Pos
}

type outKind string

const (
	outReturn outKind = "return"
	outPanic  outKind = "panic"
	outBack   outKind = "iteration"
	outExit   outKind = "exit" // os.Exit; Vals[0] is the status
)

// Outcome is one end of a trace.
type Outcome struct {
	Kind   outKind
	Vals   []*Term
	Fn     *ssa.Function // function in which the trace ended (back edge, panic)
	Pos    token.Pos
	Facts  []Fact
	Events []Event
	Loop   string // for back edges
	LoopFn *ssa.Function
	PhiOld map[*ssa.Phi]*Term
	PhiNew map[*ssa.Phi]*Term
	st     *State
}

type Options struct {
	Opaque    func(fn *ssa.Function) bool
	MaxDepth  int
	MaxTraces int
	// KeepImpure lists extra callees whose results are never shared.
	NoInline bool
	// Also is a package whose functions are inlined although they are not the module's own.
	Also string
	// InlineRec enters recursive functions once; the recursive call itself is
	// opaque and may change whatever it can reach.
	InlineRec bool
	// Pre keeps, for these calls, the structs their arguments point to.
	Pre func(name string) bool
	// Extern gives the results of some external calls.
	Extern func(name string, args []*Term) *Term
}

type loopHavoc struct {
	phis map[*ssa.Phi]string // "ind:<c>" or "any"
	mem  map[*Term]string
}

type Engine struct {
	p    *Program
	tt   *termTable
	opts Options

	loops    map[*ssa.Function]*loopInfo
	havoc    map[string]*loopHavoc
	changed  bool
	outs     []*Outcome
	steps    int
	problems []string
	analysed map[*ssa.Function]bool
	dyn      map[*Term]types.Type
	asserted map[*Term]bool
	zeroT    map[string]types.Type
	gpaths   map[*ssa.Global]*Term
	entry    *ssa.Function
}

type deferred struct {
	callee *Term
	common *ssa.CallCommon
	fn     *ssa.Function
	args   []*Term
	instr  ssa.Instruction
}

type loopState struct {
	mode  string // "havoc" or "unroll"
	count int
	snap  map[*Term]*Term
	old   map[*ssa.Phi]*Term
	nev   int
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	ctx    string
	call   ssa.Value // value in the caller's frame receiving the result
	inl    *Term     // the call this frame stands for
	loops  map[*ssa.BasicBlock]*loopState
	isDef  bool
}

type State struct {
	stack  []*frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	flist  []Fact
	events []Event
	fresh  map[string]int
}

func (f *frame) clone() *frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	g.loops = make(map[*ssa.BasicBlock]*loopState, len(f.loops))
	for k, v := range f.loops {
		c := *v
		g.loops[k] = &c
	}
	return &g
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)), facts: make(map[*Term]bool, len(s.facts)), fresh: make(map[string]int, len(s.fresh))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	n.flist = append([]Fact(nil), s.flist...)
	n.events = append([]Event(nil), s.events...)
	for _, f := range s.stack {
		n.stack = append(n.stack, f.clone())
	}
	return n
}

func (s *State) top() *frame { return s.stack[len(s.stack)-1] }

func newEngine(p *Program, opts Options) *Engine {
	if opts.MaxDepth == 0 {
		opts.MaxDepth = 14
	}
	if opts.MaxTraces == 0 {
		opts.MaxTraces = 60000
	}
	return &Engine{
		p: p, tt: newTermTable(), opts: opts,
		loops: map[*ssa.Function]*loopInfo{}, havoc: map[string]*loopHavoc{},
		analysed: map[*ssa.Function]bool{}, dyn: map[*Term]types.Type{}, asserted: map[*Term]bool{}, zeroT: map[string]types.Type{},
		gpaths: map[*ssa.Global]*Term{},
	}
}

// ---------------------------------------------------------------- terms

func (e *Engine) mk(op, sym string, args ...*Term) *Term { return e.tt.mk(op, sym, args...) }

func (e *Engine) str(s string) *Term  { return e.mk("const", strconv.Quote(s)) }
func (e *Engine) int(n int64) *Term   { return e.mk("const", strconv.FormatInt(n, 10)) }
func (e *Engine) boolT(b bool) *Term  { return e.mk("const", strconv.FormatBool(b)) }
func (e *Engine) nilT() *Term         { return e.mk("const", "nil") }
func (e *Engine) path(s string) *Term { return e.mk("path", s) }

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		switch u := c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return e.zero(c.Type())
		case *types.Basic:
			_ = u
			return e.zero(c.Type())
		}
		if _, ok := c.Type().(*types.TypeParam); ok {
			return e.zero(c.Type())
		}
		return e.nilT()
	}
	switch c.Value.Kind() {
	case constant.String:
		return e.str(constant.StringVal(c.Value))
	case constant.Bool:
		return e.boolT(constant.BoolVal(c.Value))
	case constant.Int:
		return e.mk("const", c.Value.ExactString())
	}
	return e.mk("const", "#"+c.Value.ExactString())
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.boolT(false)
		case u.Info()&types.IsInteger != 0:
			return e.int(0)
		case u.Info()&types.IsString != 0:
			return e.str("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return e.nilT()
		}
		return e.mk("const", "#0")
	case *types.Array:
		if u.Len() <= 4 {
			var el []*Term
			for i := int64(0); i < u.Len(); i++ {
				el = append(el, e.zero(u.Elem()))
			}
			return e.mk("arr", "", el...)
		}
	case *types.Struct:
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); !ok {
			return e.nilT()
		}
	default:
		return e.nilT()
	}
	k := types.TypeString(t, nil)
	e.zeroT[k] = t
	return e.mk("zero", k)
}

func structField(t types.Type, name string) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if fieldName(st.Field(i)) == name {
				return st.Field(i).Type()
			}
		}
	}
	return nil
}

// fld is field selection, of a struct value or through a pointer.
func (e *Engine) fld(x *Term, f string) *Term {
	switch x.Op {
	case "deref":
		return e.mk("fld", f, x.Args[0])
	case "upd":
		if x.Sym == f {
			return x.Args[1]
		}
		return e.fld(x.Args[0], f)
	case "zero":
		if t := e.zeroT[x.Sym]; t != nil {
			if ft := structField(t, f); ft != nil {
				return e.zero(ft)
			}
		}
	}
	return e.mk("fld", f, x)
}

func (e *Engine) index(x, i *Term) *Term {
	if n, ok := i.constInt(); ok {
		switch x.Op {
		case "arr", "list":
			if n >= 0 && int(n) < len(x.Args) {
				return x.Args[n]
			}
		case "const":
			if str, ok := x.constStr(); ok && n >= 0 && int(n) < len(str) {
				return e.int(int64(str[n]))
			}
		}
	}
	if x.Op == "updx" {
		if x.Args[1] == i {
			return x.Args[2]
		}
		if _, a := x.Args[1].constInt(); a {
			if _, b := i.constInt(); b {
				return e.index(x.Args[0], i)
			}
		}
	}
	if x.Op == "deref" {
		x = x.Args[0]
	}
	if x.Op == "slice" && x.Args[1] == e.nilT() {
		return e.index(x.Args[0], i)
	}
	if x.Op == "slice" {
		if lo, ok := x.Args[1].constInt(); ok {
			return e.index(x.Args[0], e.add(i, e.int(lo)))
		}
	}
	return e.mk("index", "", x, i)
}

// linear form: base + constant
func (e *Engine) linear(t *Term) (*Term, int64) {
	if n, ok := t.constInt(); ok {
		return nil, n
	}
	if t.Op == "add" {
		if n, ok := t.Args[1].constInt(); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

func (e *Engine) fromLinear(b *Term, n int64) *Term {
	if b == nil {
		return e.int(n)
	}
	if n == 0 {
		return b
	}
	return e.mk("add", "", b, e.int(n))
}

func (e *Engine) add(a, b *Term) *Term {
	ba, na := e.linear(a)
	bb, nb := e.linear(b)
	switch {
	case ba == nil:
		return e.fromLinear(bb, na+nb)
	case bb == nil:
		return e.fromLinear(ba, na+nb)
	}
	// cancel x + (y - x)
	if bb.Op == "sub" && bb.Args[1] == ba {
		return e.add(bb.Args[0], e.int(na+nb))
	}
	if ba.Op == "sub" && ba.Args[1] == bb {
		return e.add(ba.Args[0], e.int(na+nb))
	}
	if ba.id > bb.id {
		ba, bb = bb, ba
	}
	return e.fromLinear(e.mk("plus", "", ba, bb), na+nb)
}

func (e *Engine) sub(a, b *Term) *Term {
	ba, na := e.linear(a)
	bb, nb := e.linear(b)
	if bb == nil {
		return e.fromLinear(ba, na-nb)
	}
	if ba == bb {
		return e.int(na - nb)
	}
	if ba != nil && ba.Op == "plus" {
		if ba.Args[0] == bb {
			return e.fromLinear(ba.Args[1], na-nb)
		}
		if ba.Args[1] == bb {
			return e.fromLinear(ba.Args[0], na-nb)
		}
	}
	if ba == nil {
		ba = e.int(0)
	}
	if bb.Op == "sub" && bb.Args[0] == ba {
		return e.add(bb.Args[1], e.int(na-nb))
	}
	return e.fromLinear(e.mk("sub", "", ba, bb), na-nb)
}

func (e *Engine) not(t *Term) *Term {
	if t.Op == "const" {
		return e.boolT(t.Sym != "true")
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return e.mk("not", "", t)
}

// nonNil reports whether the value is certainly not nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "faddr", "iaddr", "saddr", "closure", "fn", "typednil", "mkmap", "mkslice", "list", "upd", "zero", "arr", "box", "global":
		return true
	case "const":
		return t.Sym != "nil"
	case "append":
		return false
	case "gval":
		// package-level error sentinels and command objects
		return true
	case "call":
		switch t.Sym {
		case "fmt.Errorf", "errors.New", "github.com/cockroachdb/errors.New", "github.com/cockroachdb/errors.Newf",
			"github.com/cockroachdb/errors.Errorf", "cuelang.org/go/cue/errors.New", "cuelang.org/go/cue/errors.Newf", "cuelang.org/go/cue/errors.Promote":
			return true
		case "github.com/cockroachdb/errors.Mark", "github.com/cockroachdb/errors.WithStack", "github.com/cockroachdb/errors.Wrap",
			"github.com/cockroachdb/errors.Wrapf", "github.com/cockroachdb/errors.WithMessage":
			return len(t.Args) > 0 && nonNil(t.Args[0])
		}
	}
	return false
}

func (e *Engine) eq(a, b *Term) *Term {
	if a == b {
		return e.boolT(true)
	}
	if a.Op == "const" && b.Op == "const" {
		return e.boolT(a.Sym == b.Sym)
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return e.boolT(false)
	}
	// error wrappers are nil exactly if what they wrap is
	for i, t := range []*Term{a, b} {
		o := b
		if i == 1 {
			o = a
		}
		if o.isNil() && t.isCall(crErr+"Mark", crErr+"WithStack", crErr+"Wrap", crErr+"Wrapf", crErr+"WithMessage", crErr+"WithMessagef") && len(t.Args) > 0 {
			return e.eq(t.Args[0], o)
		}
	}
	// x == true
	for i, t := range []*Term{a, b} {
		o := b
		if i == 1 {
			o = a
		}
		if t.Op == "const" && t.Sym == "true" {
			return o
		}
		if t.Op == "const" && t.Sym == "false" {
			return e.not(o)
		}
	}
	if a.Op == "arr" && b.Op == "arr" && len(a.Args) == len(b.Args) {
		same := true
		for i := range a.Args {
			c := e.eq(a.Args[i], b.Args[i])
			if c.Op == "const" && c.Sym == "false" {
				return e.boolT(false)
			}
			if !(c.Op == "const") {
				same = false
			}
		}
		if same {
			return e.boolT(true)
		}
	}
	// linear: x+1 == y+1
	ba, na := e.linear(a)
	bb, nb := e.linear(b)
	if ba != nil && ba == bb && (na != 0 || nb != 0) {
		return e.boolT(na == nb)
	}
	if ba != nil && bb != nil && na != 0 && nb != 0 {
		a, b = e.fromLinear(ba, na-nb), bb
	}
	for i, t := range []*Term{a, b} {
		if n, ok := []*Term{b, a}[i].constInt(); ok && n <= 0 && t.Op == "len" && t.Args[0].Op == "mapput" {
			return e.boolT(false)
		}
	}
	// a string of no bytes is the empty string
	for i, t := range []*Term{a, b} {
		if n, ok := []*Term{b, a}[i].constInt(); ok && n == 0 && lenOfString(t) {
			return e.eq(t.Args[0], e.str(""))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.mk("eq", "", a, b)
}

func lenOfString(t *Term) bool {
	if t.Op != "len" || t.Args[0].T == nil {
		return false
	}
	u, ok := t.Args[0].T.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsString != 0
}

func (e *Engine) lt(a, b *Term) *Term {
	if a == b {
		return e.boolT(false)
	}
	if x, ok := a.constInt(); ok {
		if y, ok := b.constInt(); ok {
			return e.boolT(x < y)
		}
	}
	ba, na := e.linear(a)
	bb, nb := e.linear(b)
	if ba != nil && ba == bb {
		return e.boolT(na < nb)
	}
	if x, ok := a.constInt(); ok && x <= 0 && b.Op == "len" && b.Args[0].Op == "mapput" {
		return e.boolT(true)
	}
	if x, ok := b.constInt(); ok && x <= 1 && a.Op == "len" && a.Args[0].Op == "mapput" {
		return e.boolT(false)
	}
	if x, ok := b.constInt(); ok && x >= 1 && a.Op == "len" && !lenOfString(a) {
		// one form for both ways to compare a length with a constant
		return e.not(e.lt(e.int(x-1), a))
	}
	if x, ok := a.constInt(); ok && x == 0 && lenOfString(b) {
		return e.not(e.eq(b.Args[0], e.str("")))
	}
	if x, ok := b.constInt(); ok && x == 1 && lenOfString(a) {
		return e.eq(a.Args[0], e.str(""))
	}
	return e.mk("lt", "", a, b)
}

func (e *Engine) length(x *Term) *Term {
	switch x.Op {
	case "list", "arr":
		return e.int(int64(len(x.Args)))
	case "const":
		if s, ok := x.constStr(); ok {
			return e.int(int64(len(s)))
		}
		if x.isNil() {
			return e.int(0)
		}
	case "mkslice":
		return x.Args[0]
	case "emptymap":
		return e.int(0)
	case "append":
		if x.Args[1].Op == "list" {
			return e.add(e.length(x.Args[0]), e.int(int64(len(x.Args[1].Args))))
		}
		return e.add(e.length(x.Args[0]), e.length(x.Args[1]))
	case "slice":
		hi := x.Args[2]
		lo := x.Args[1]
		if hi.isNil() {
			hi = e.length(x.Args[0])
		}
		if lo.isNil() {
			return hi
		}
		return e.sub(hi, lo)
	case "sliceof":
		if hi, ok := x.Args[2].constInt(); ok && hi == 0 {
			return e.int(0)
		}
	}
	return e.mk("len", "", x)
}

// ---------------------------------------------------------------- memory

func rootAddr(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" || a.Op == "saddr" {
		a = a.Args[0]
	}
	return a
}

func isSub(a, of *Term) bool {
	for a.Op == "faddr" || a.Op == "iaddr" || a.Op == "saddr" {
		a = a.Args[0]
		if a == of {
			return true
		}
	}
	return false
}

func (s *State) known(e *Engine, a *Term) (*Term, bool) {
	if v, ok := s.mem[a]; ok {
		return v, true
	}
	switch a.Op {
	case "faddr":
		if v, ok := s.known(e, a.Args[0]); ok {
			return e.fld(v, a.Sym), true
		}
	case "iaddr", "saddr":
		if v, ok := s.known(e, a.Args[0]); ok {
			return e.index(v, a.Args[1]), true
		}
	}
	return nil, false
}

func (s *State) initial(e *Engine, a *Term) *Term {
	switch a.Op {
	case "faddr":
		b := a.Args[0]
		if b.Op == "faddr" || b.Op == "iaddr" || b.Op == "saddr" {
			return e.fld(s.initial(e, b), a.Sym)
		}
		return e.mk("fld", a.Sym, b)
	case "iaddr":
		b := a.Args[0]
		if b.Op == "faddr" || b.Op == "iaddr" || b.Op == "saddr" {
			return e.index(s.initial(e, b), a.Args[1])
		}
		return e.index(b, a.Args[1])
	case "saddr":
		return e.index(a.Args[0], a.Args[1])
	}
	return e.mk("deref", "", a)
}

func (s *State) load(e *Engine, a *Term, t types.Type) *Term {
	v, ok := s.known(e, a)
	if !ok {
		v = s.initial(e, a)
	}
	// overlay parts that were written separately
	var subs []*Term
	for k := range s.mem {
		if isSub(k, a) {
			subs = append(subs, k)
		}
	}
	if len(subs) == 0 {
		return v
	}
	direct := map[string]*Term{}
	var names []string
	for _, k := range subs {
		c := k
		for c.Args[0] != a {
			c = c.Args[0]
		}
		key := c.Op + c.Sym
		if c.Op != "faddr" {
			key += strconv.Itoa(c.Args[1].id)
		}
		if direct[key] == nil {
			direct[key] = c
			names = append(names, key)
		}
	}
	sort.Strings(names)
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 4 {
		el := make([]*Term, at.Len())
		allConst := true
		for i := range el {
			el[i] = e.index(v, e.int(int64(i)))
		}
		for _, n := range names {
			c := direct[n]
			if i, ok := c.Args[1].constInt(); ok && i >= 0 && i < at.Len() {
				el[i] = s.load(e, c, at.Elem())
			} else {
				allConst = false
			}
		}
		if allConst {
			return e.mk("arr", "", el...)
		}
	}
	for _, n := range names {
		c := direct[n]
		if c.Op == "faddr" {
			var ft types.Type = types.Typ[types.Invalid]
			if x := structField(t, c.Sym); x != nil {
				ft = x
			}
			v = e.mk("upd", c.Sym, v, s.load(e, c, ft))
		} else {
			v = e.mk("updx", "", v, c.Args[1], s.load(e, c, types.Typ[types.Invalid]))
		}
	}
	return v
}

func (s *State) store(a, v *Term) {
	for k := range s.mem {
		if isSub(k, a) {
			delete(s.mem, k)
		}
	}
	s.mem[a] = v
}

// ---------------------------------------------------------------- facts

// truth evaluates a condition under the facts of the trace.
func (s *State) truth(e *Engine, c *Term) (bool, bool) {
	if c.Op == "const" {
		return c.Sym == "true", true
	}
	if c.Op == "not" {
		v, ok := s.truth(e, c.Args[0])
		return !v, ok
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	switch c.Op {
	case "eq":
		a, b := c.Args[0], c.Args[1]
		// x == c1 known, ask x == c2
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1].Op == "const" {
				for f, v := range s.facts {
					if v && f.Op == "eq" && f != c {
						var o *Term
						if f.Args[0] == p[0] {
							o = f.Args[1]
						} else if f.Args[1] == p[0] {
							o = f.Args[0]
						}
						if o != nil && o.Op == "const" && o != p[1] {
							return false, true
						}
					}
				}
			}
		}
		// non-nil by type
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1].isNil() {
				for f, v := range s.facts {
					if v && f.Op == "istype" && f.Args[0] == p[0] {
						return false, true
					}
				}
			}
		}
	case "istype":
		x := c.Args[0]
		if x.isNil() {
			return false, true
		}
		if x.Op == "typednil" && !strings.HasPrefix(c.Sym, "iface:") {
			return x.Sym == c.Sym, true
		}
		if t, ok := e.dyn[x]; ok {
			ts := types.TypeString(t, nil)
			if !strings.HasPrefix(c.Sym, "iface:") {
				return ts == c.Sym, true
			}
		}
		if v, ok := s.facts[e.nilEq(x)]; ok && v {
			return false, true
		}
		if !strings.HasPrefix(c.Sym, "iface:") {
			for f, v := range s.facts {
				if v && f.Op == "istype" && f.Args[0] == x && f != c && !strings.HasPrefix(f.Sym, "iface:") {
					return false, true
				}
			}
		}
	}
	if c.Op == "lt" || (c.Op == "eq" && e.intLike(c.Args[0]) && e.intLike(c.Args[1])) {
		z := e.zoneOf(s.flist)
		if !z.feasible(e, []Fact{{C: c, Val: true}}) {
			return false, true
		}
		if !z.feasible(e, []Fact{{C: c, Val: false}}) {
			return true, true
		}
	}
	return false, false
}

func (e *Engine) nilEq(x *Term) *Term { return e.eq(x, e.nilT()) }

func (s *State) assume(c *Term, v bool, pos token.Pos) {
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	if c.Op == "const" {
		return
	}
	if _, ok := s.facts[c]; ok {
		return
	}
	s.facts[c] = v
	s.flist = append(s.flist, Fact{c, v, pos})
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body (incl. header)
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := li.headers[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					li.headers[h] = body
				}
				var rec func(x *ssa.BasicBlock)
				rec = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						rec(p)
					}
				}
				rec(b)
			}
		}
	}
	e.loops[fn] = li
	return li
}

// rounds tells apart the iterations of the loops, other than h, that are
// followed one by one.
func (f *frame) rounds(h *ssa.BasicBlock) string {
	var hs []*ssa.BasicBlock
	for b, ls := range f.loops {
		if b != h && ls.mode == "unroll" && ls.count > 0 {
			hs = append(hs, b)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	r := ""
	for _, b := range hs {
		r += "!" + strconv.Itoa(b.Index) + "." + strconv.Itoa(f.loops[b].count)
	}
	return r
}

func (e *Engine) loopKey(f *frame, h *ssa.BasicBlock) string {
	return f.ctx + "|" + f.fn.Name() + "." + strconv.Itoa(h.Index) + f.rounds(h)
}

func (e *Engine) havocOf(key string) *loopHavoc {
	h := e.havoc[key]
	if h == nil {
		h = &loopHavoc{phis: map[*ssa.Phi]string{}, mem: map[*Term]string{}}
		e.havoc[key] = h
	}
	return h
}

// iter is the (unknown, non-negative) number of completed iterations.
func (e *Engine) iter(key string) *Term { return e.mk("iter", key) }

func (e *Engine) induct(init, iter *Term, c int64) *Term {
	switch c {
	case 1:
		return e.add(init, iter)
	case -1:
		return e.sub(init, iter)
	}
	return e.mk("induct", strconv.FormatInt(c, 10), init, iter)
}

// ---------------------------------------------------------------- running

func (e *Engine) problem(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, p := range e.problems {
		if p == m {
			return
		}
	}
	e.problems = append(e.problems, m)
}

// Run analyses fn from its entry, for arbitrary arguments.
func (e *Engine) Run(fn *ssa.Function) []*Outcome {
	return e.RunWith(fn, nil, nil, nil)
}

func (e *Engine) paramTerms(fn *ssa.Function) []*Term {
	var ps []*Term
	for i, p := range fn.Params {
		t := e.mk("param", p.Name())
		if p.Name() == "_" || p.Name() == "" {
			t = e.mk("param", fmt.Sprintf("_%d", i))
		}
		if t.T == nil {
			t.T = p.Type()
		}
		ps = append(ps, t)
	}
	return ps
}

// RunWith analyses fn with the given argument and free-variable terms.
func (e *Engine) RunWith(fn *ssa.Function, args []*Term, free []*Term, setup func(*State)) []*Outcome {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	e.entry = fn
	for round := 0; ; round++ {
		e.outs, e.changed, e.steps = nil, false, 0
		st := &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, fresh: map[string]int{}}
		f := &frame{fn: fn, env: map[ssa.Value]*Term{}, ctx: "", loops: map[*ssa.BasicBlock]*loopState{}}
		ps := e.paramTerms(fn)
		for i, p := range fn.Params {
			if args != nil && i < len(args) {
				f.env[p] = args[i]
			} else {
				f.env[p] = ps[i]
			}
		}
		for i, fv := range fn.FreeVars {
			if free != nil && i < len(free) {
				f.env[fv] = free[i]
			} else {
				f.env[fv] = e.mk("free", fv.Name())
			}
		}
		if fn.Blocks == nil {
			e.problem("%s has no body", fname(fn))
			return nil
		}
		f.block = fn.Blocks[0]
		st.stack = []*frame{f}
		if setup != nil {
			setup(st)
		}
		e.analysed[fn] = true
		e.explore(st)
		if !e.changed {
			break
		}
		if round > 40 {
			e.problem("loop summaries of %s do not stabilise", fname(fn))
			break
		}
	}
	return e.outs
}

func (e *Engine) explore(st *State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if len(e.outs) > e.opts.MaxTraces {
				e.problem("more than %d paths through %s", e.opts.MaxTraces, fname(e.entry))
				return
			}
			more, fork := e.step(s)
			if fork != nil {
				work = append(work, fork)
			}
			if !more {
				break
			}
		}
	}
}

func (e *Engine) end(s *State, o *Outcome) {
	o.Facts, o.Events, o.st = s.flist, s.events, s
	e.outs = append(e.outs, o)
}

func (e *Engine) val(s *State, f *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constTerm(v)
	case *ssa.Global:
		return e.mk("global", v.Pkg.Pkg.Path()+"."+v.Name())
	case *ssa.Function:
		return e.fnTerm(v)
	case *ssa.Builtin:
		return e.mk("builtin", v.Name())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return e.mk("undef", f.ctx+f.fn.Name()+"."+v.Name())
}

func (e *Engine) fnTerm(fn *ssa.Function) *Term {
	t := e.mk("fn", fn.String())
	t.Fn = fn
	return t
}

func (e *Engine) record(s *State, f *frame, ev Event) {
	ev.Fn = f.fn
	ev.NFact = len(s.flist)
	if ev.Kind == evCall && e.opts.Pre != nil && e.opts.Pre(ev.Term.Sym) {
		ev.Pre = map[*Term]*Term{}
		for _, a := range ev.Term.Args {
			a = unbox(a)
			if a.Op != "alloc" || a.T == nil {
				continue
			}
			if p, ok := a.T.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					ev.Pre[a] = s.load(e, a, p.Elem())
				}
			}
		}
	}
	s.events = append(s.events, ev)
}

// tag records where a term was first seen, and its Go type.
func (e *Engine) tag(t *Term, typ types.Type, pos token.Pos) {
	if !t.Pos.IsValid() {
		t.Pos = pos
	}
	if t.T == nil && t.Op != "const" && t.Op != "sliceof" && typ != nil {
		if _, tuple := typ.(*types.Tuple); !tuple {
			t.T = typ
		}
	}
}

// step executes one instruction; returns false when the trace ended.
func (e *Engine) step(s *State) (bool, *State) {
	f := s.top()
	e.steps++
	if f.pc >= len(f.block.Instrs) {
		e.problem("fell off block in %s", fname(f.fn))
		return false, nil
	}
	instr := f.block.Instrs[f.pc]
	f.pc++
	set := func(v ssa.Value, t *Term) {
		e.tag(t, v.Type(), instr.Pos())
		f.env[v] = t
	}
	val := func(v ssa.Value) *Term { return e.val(s, f, v) }

	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// handled on block entry
	case *ssa.Alloc:
		key := f.ctx + ":" + f.fn.Name() + "." + in.Name()
		a := e.mk("alloc", key)
		a.T = in.Type()
		if _, ok := s.mem[a]; ok {
			s.fresh[key]++
			a = e.mk("alloc", key+"#"+strconv.Itoa(s.fresh[key]))
			a.T = in.Type()
		}
		if in.Comment != "" && a.Pos == 0 {
			a.Pos = in.Pos()
		}
		s.store(a, e.zero(in.Type().Underlying().(*types.Pointer).Elem()))
		if in.Heap {
			e.dyn[a] = in.Type()
		}
		set(in, a)
	case *ssa.BinOp:
		set(in, e.binop(in.Op, val(in.X), val(in.Y), in.X.Type()))
	case *ssa.UnOp:
		x := val(in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				if _, w := s.mem[x]; !w {
					set(in, e.globalVal(g))
					break
				}
			}
			set(in, s.load(e, x, in.Type()))
		case token.NOT:
			set(in, e.not(x))
		case token.SUB:
			set(in, e.sub(e.int(0), x))
		case token.ARROW:
			s.fresh["recv"]++
			set(in, e.mk("recv", strconv.Itoa(s.fresh["recv"]), x))
		default:
			set(in, e.mk("un", in.Op.String(), x))
		}
	case *ssa.ChangeType:
		set(in, val(in.X))
	case *ssa.ChangeInterface:
		set(in, val(in.X))
	case *ssa.MakeInterface:
		x := val(in.X)
		if x.isNil() {
			x = e.mk("typednil", types.TypeString(in.X.Type(), nil))
		} else if x.Op != "const" {
			if _, tp := in.X.Type().(*types.TypeParam); !tp {
				// what was asserted to have this type may have another elsewhere
				if old, ok := e.dyn[x]; (!ok || types.Identical(old, in.X.Type())) && !e.asserted[x] {
					e.dyn[x] = in.X.Type()
				}
			}
			if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr && !nonNil(x) {
				switch in.X.Type().Underlying().(type) {
				case *types.Slice, *types.Map, *types.Signature:
					// a nil slice or map in an interface is not a nil interface
					x = e.mk("box", types.TypeString(in.X.Type(), nil), x)
					e.dyn[x] = in.X.Type()
				}
			}
		}
		set(in, x)
	case *ssa.Convert, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		var X ssa.Value
		switch c := instr.(type) {
		case *ssa.Convert:
			X = c.X
		case *ssa.MultiConvert:
			X = c.X
		case *ssa.SliceToArrayPointer:
			X = c.X
		}
		v := instr.(ssa.Value)
		set(v, e.convert(val(X), X.Type(), v.Type()))
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(in, e.mk("faddr", fieldName(st.Field(in.Field)), val(in.X)))
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		set(in, e.fld(val(in.X), fieldName(st.Field(in.Field))))
	case *ssa.IndexAddr:
		x := val(in.X)
		i := val(in.Index)
		e.boundIndex(s, f, in, in.X.Type(), x, i)
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			set(in, e.mk("iaddr", "", x, i))
		} else if x.Op == "sliceof" && (x.Args[1].isNil() || x.Args[1].isConst()) {
			if lo, ok := x.Args[1].constInt(); ok {
				i = e.add(i, e.int(lo))
			}
			set(in, e.mk("iaddr", "", x.Args[0], i))
		} else {
			set(in, e.mk("saddr", "", x, i))
		}
	case *ssa.Index:
		e.boundIndex(s, f, in, in.X.Type(), val(in.X), val(in.Index))
		set(in, e.index(val(in.X), val(in.Index)))
	case *ssa.Lookup:
		m := val(in.X)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if str, ok := m.constStr(); ok {
				if n, ok := val(in.Index).constInt(); ok && n >= 0 && int(n) < len(str) {
					set(in, e.int(int64(str[n])))
					break
				}
			}
			e.boundIndex(s, f, in, in.X.Type(), m, val(in.Index))
			set(in, e.index(m, val(in.Index)))
			break
		}
		v, ok := e.lookup(s, m, val(in.Index), in.X.Type())
		if in.CommaOk {
			set(in, e.mk("tuple", "", v, ok))
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		s.store(e.mk("mapst", "", m), e.mk("mapput", "", e.mapState(s, m), k, v))
		e.record(s, f, Event{Kind: evMap, Term: m, Args: []*Term{m, k, v}, Instr: in, Pos: in.Pos()})
	case *ssa.MakeMap:
		key := f.ctx + ":" + f.fn.Name() + "." + in.Name()
		m := e.mk("mkmap", key)
		if _, ok := s.mem[e.mk("mapst", "", m)]; ok {
			s.fresh[key]++
			m = e.mk("mkmap", key+"#"+strconv.Itoa(s.fresh[key]))
		}
		s.store(e.mk("mapst", "", m), e.mk("emptymap", ""))
		set(in, m)
	case *ssa.MakeSlice:
		key := f.ctx + ":" + f.fn.Name() + "." + in.Name()
		s.fresh[key]++
		set(in, e.mk("mkslice", key+"#"+strconv.Itoa(s.fresh[key]), val(in.Len)))
	case *ssa.MakeChan:
		s.fresh["chan"]++
		set(in, e.mk("mkchan", f.ctx+in.Name()+strconv.Itoa(s.fresh["chan"])))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, val(x))
		}
		t := e.mk("closure", fn.String(), b...)
		t.Fn = fn
		set(in, t)
	case *ssa.Slice:
		x := val(in.X)
		lo, hi := e.nilT(), e.nilT()
		if in.Low != nil {
			lo = val(in.Low)
		}
		if in.High != nil {
			hi = val(in.High)
		}
		e.boundSlice(s, f, in, x, lo, hi)
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			if lo.isNil() && hi.isNil() {
				set(in, e.mk("sliceof", "", x, lo, hi))
			} else {
				set(in, e.mk("sliceof", "", x, lo, hi))
			}
			f.env[in].T = in.X.Type().Underlying().(*types.Pointer).Elem()
			break
		}
		if lo.isNil() && hi.isNil() {
			set(in, x)
			break
		}
		if z, ok := lo.constInt(); ok && z == 0 {
			lo = e.nilT()
			if hi.isNil() {
				set(in, x)
				break
			}
		}
		set(in, e.mk("slice", "", x, lo, hi))
	case *ssa.TypeAssert:
		x := val(in.X)
		ts := types.TypeString(in.AssertedType, nil)
		if types.IsInterface(in.AssertedType) {
			ts = "iface:" + ts
		}
		if x.Op != "box" && !types.IsInterface(in.AssertedType) {
			if _, known := e.dyn[x]; !known {
				e.asserted[x] = true
			}
		}
		if in.CommaOk {
			set(in, e.mk("assert", ts, x))
			// where the code does not ask whether it succeeded, the trace does:
			// the value is the zero value if it did not
			if is := e.mk("istype", ts, x); !asksOk(in) {
				if _, known := s.truth(e, is); !known {
					o := s.clone()
					s.assume(is, true, in.Pos())
					o.assume(is, false, in.Pos())
					return true, o
				}
			}
			break
		}
		if x.Op != "box" && x.Op != "typednil" {
			e.record(s, f, Event{Kind: evAssert, Args: []*Term{e.mk("istype", ts, x)}, Instr: in, Pos: in.Pos()})
		}
		if x.Op == "box" {
			x = x.Args[0]
		}
		if x.Op == "typednil" && x.Sym == ts {
			x = e.nilT()
		}
		set(in, x)
	case *ssa.Extract:
		t := val(in.Tuple)
		set(in, e.extract(s, t, in.Index, in.Type()))
	case *ssa.Range:
		x := val(in.X)
		var st *Term
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			st = e.mapState(s, x)
		} else {
			st = x
		}
		set(in, e.mk("range", f.ctx+":"+f.fn.Name()+"."+in.Name(), x, st))
	case *ssa.Next:
		it := val(in.Iter)
		ver := e.iterVer(s, it)
		set(in, e.mk("next", "", it, ver))
		s.store(e.mk("iterver", "", it), e.add(ver, e.int(1)))
	case *ssa.Store:
		a, v := val(in.Addr), val(in.Val)
		s.store(a, v)
		if r := rootAddr(a); r.Op != "alloc" {
			e.record(s, f, Event{Kind: evStore, Term: a, Args: []*Term{a, v}, Instr: in, Pos: in.Pos()})
		} else if _, isStruct := in.Val.Type().Underlying().(*types.Struct); r != a || isStruct || isTypeParam(in.Val.Type()) {
			e.record(s, f, Event{Kind: evStore, Term: a, Args: []*Term{a, v}, Instr: in, Pos: in.Pos()})
		}
	case *ssa.Call:
		return e.call(s, f, in, &in.Call, in), nil
	case *ssa.Defer:
		d := deferred{common: &in.Call, instr: in}
		d.callee, d.fn, d.args = e.callee(s, f, &in.Call)
		f.defers = append(f.defers, d)
		e.record(s, f, Event{Kind: evDefer, Term: d.callee, Args: d.args, Instr: in, Pos: in.Pos()})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc-- // come back for the rest
			e.invokeResolved(s, f, nil, d.common, d.callee, d.fn, d.args, d.instr)
		}
	case *ssa.Go:
		c, _, args := e.callee(s, f, &in.Call)
		e.record(s, f, Event{Kind: evGo, Term: c, Args: args, Instr: in, Pos: in.Pos()})
	case *ssa.Send:
		e.record(s, f, Event{Kind: evCall, Term: e.mk("call", "chan-send", val(in.Chan), val(in.X)), Instr: in, Pos: in.Pos()})
	case *ssa.Select:
		s.fresh["select"]++
		set(in, e.mk("call", "select", e.int(int64(s.fresh["select"]))))
	case *ssa.Panic:
		e.end(s, &Outcome{Kind: outPanic, Vals: []*Term{val(in.X)}, Fn: f.fn, Pos: in.Pos()})
		return false, nil
	case *ssa.Return:
		var vals []*Term
		for _, r := range in.Results {
			vals = append(vals, val(r))
		}
		if len(s.stack) == 1 {
			pos := in.Pos()
			if !pos.IsValid() {
				pos = lastPos(f.block)
			}
			e.end(s, &Outcome{Kind: outReturn, Vals: vals, Fn: f.fn, Pos: pos})
			return false, nil
		}
		s.stack = s.stack[:len(s.stack)-1]
		g := s.top()
		if f.call != nil {
			var t *Term
			if len(vals) == 1 {
				t = vals[0]
			} else {
				t = e.mk("tuple", "", vals...)
			}
			g.env[f.call] = t
		}
		if f.inl != nil {
			e.record(s, g, Event{Kind: "ret", Term: f.inl, Args: vals, Instr: in, Pos: in.Pos()})
		}
	case *ssa.Jump:
		return e.jump(s, f, f.block.Succs[0]), nil
	case *ssa.If:
		c := val(in.Cond)
		pos := in.Cond.Pos()
		if !pos.IsValid() {
			pos = lastPos(f.block)
		}
		if v, ok := s.truth(e, c); ok {
			// keep decided conditions visible to the rules, unless constant
			if v {
				return e.jump(s, f, f.block.Succs[0]), nil
			}
			return e.jump(s, f, f.block.Succs[1]), nil
		}
		o := s.clone()
		s.assume(c, true, pos)
		o.assume(c, false, pos)
		var fork *State
		if e.jump(o, o.top(), f.block.Succs[1]) {
			fork = o
		}
		return e.jump(s, f, f.block.Succs[0]), fork
	default:
		e.problem("unhandled instruction %T in %s", instr, fname(f.fn))
		if v, ok := instr.(ssa.Value); ok {
			set(v, e.mk("unknown", f.ctx+v.Name()))
		}
	}
	return true, nil
}

// asksOk: whether an assertion succeeded is used.
func asksOk(in *ssa.TypeAssert) bool {
	for _, r := range *in.Referrers() {
		x, ok := r.(*ssa.Extract)
		if !ok || x.Index != 1 {
			continue
		}
		for _, u := range *x.Referrers() {
			if _, dbg := u.(*ssa.DebugRef); !dbg {
				return true
			}
		}
	}
	return false
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	for _, p := range b.Preds {
		for i := len(p.Instrs) - 1; i >= 0; i-- {
			if q := p.Instrs[i].Pos(); q.IsValid() {
				return q
			}
		}
	}
	if b.Parent() != nil {
		return b.Parent().Pos()
	}
	return token.NoPos
}

func (e *Engine) iterVer(s *State, it *Term) *Term {
	a := e.mk("iterver", "", it)
	if v, ok := s.mem[a]; ok {
		return v
	}
	v := e.int(0)
	s.mem[a] = v
	return v
}

// jump moves the frame to block b.
func (e *Engine) jump(s *State, f *frame, b *ssa.BasicBlock) bool {
	li := e.loopsOf(f.fn)
	from := f.block
	// leaving loops
	var left []*ssa.BasicBlock
	for h := range f.loops {
		if !li.headers[h][b] {
			left = append(left, h)
		}
	}
	sort.Slice(left, func(i, j int) bool { return left[i].Index > left[j].Index })
	for _, h := range left {
		ls := f.loops[h]
		delete(f.loops, h)
		if ls.mode == "havoc" {
			e.record(s, f, Event{Kind: evExit, Loop: e.loopKey(f, h), AtHdr: from == h, Pos: lastPos(from)})
		}
	}
	// phi values
	var phis []*ssa.Phi
	vals := map[*ssa.Phi]*Term{}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		if pi >= 0 {
			vals[ph] = e.val(s, f, ph.Edges[pi])
		}
	}
	body, isHdr := li.headers[b]
	if isHdr {
		key := e.loopKey(f, b)
		ls, active := f.loops[b]
		if active && body[from] {
			// back edge
			if ls.mode == "havoc" {
				e.backEdge(s, f, b, key, ls, phis, vals)
				return false
			}
			ls.count++
			for _, ph := range phis {
				f.env[ph] = vals[ph]
			}
			if ls.count < 70 && e.headerConst(s, f, b) {
				f.prev, f.block, f.pc = from, b, len(phis)
				return true
			}
			// no longer decided by constants: continue with an arbitrary iteration
		} else {
			for _, ph := range phis {
				f.env[ph] = vals[ph]
			}
			if e.headerConst(s, f, b) {
				f.loops[b] = &loopState{mode: "unroll"}
				f.prev, f.block, f.pc = from, b, len(phis)
				return true
			}
		}
		// enter for an arbitrary iteration
		hv := e.havocOf(key)
		old := map[*ssa.Phi]*Term{}
		it := e.iter(key)
		for _, ph := range phis {
			v := vals[ph]
			if m, ok := hv.phis[ph]; ok {
				if strings.HasPrefix(m, "ind:") {
					c, _ := strconv.ParseInt(m[4:], 10, 64)
					v = e.induct(v, it, c)
				} else {
					n := ph.Comment
					if n == "" {
						n = ph.Name()
					}
					v = e.mk("loopvar", n+"@"+key)
				}
			}
			f.env[ph] = v
			old[ph] = v
		}
		minit := map[*Term]*Term{}
		for a, m := range hv.mem {
			cur, had := s.known(e, a)
			if !had {
				cur = s.initial(e, a)
			}
			minit[a] = cur
			if strings.HasPrefix(m, "ind:") {
				c, _ := strconv.ParseInt(m[4:], 10, 64)
				s.store(a, e.induct(cur, it, c))
			} else {
				s.store(a, e.mk("loopmem", key, a))
			}
		}
		snap := make(map[*Term]*Term, len(s.mem))
		for k, v := range s.mem {
			snap[k] = v
		}
		f.loops[b] = &loopState{mode: "havoc", snap: snap, old: old, nev: len(s.events)}
		e.record(s, f, Event{Kind: evEnter, Loop: key, Pos: lastPos(b), Init: vals, MInit: minit})
	} else {
		for _, ph := range phis {
			f.env[ph] = vals[ph]
		}
	}
	f.prev, f.block, f.pc = from, b, len(phis)
	return true
}

// headerConst reports whether the loop condition in block b is decided by constants.
func (e *Engine) headerConst(s *State, f *frame, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	tmp := map[ssa.Value]*Term{}
	get := func(v ssa.Value) *Term {
		if t, ok := tmp[v]; ok {
			return t
		}
		return e.val(s, f, v)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
			if _, ok := in.X.(*ssa.FreeVar); !ok {
				if _, ok := in.X.(*ssa.Alloc); !ok {
					return false
				}
			}
			tmp[in] = s.load(e, get(in.X), in.Type())
		case *ssa.BinOp:
			tmp[in] = e.binop(in.Op, get(in.X), get(in.Y), in.X.Type())
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				tmp[in] = e.lenOf(s, get(in.Call.Args[0]))
				continue
			}
			return false
		default:
			return false
		}
	}
	c := get(iff.Cond)
	for c.Op == "not" {
		c = c.Args[0]
	}
	if c.Op == "lt" {
		// a length that is known on this trace
		c = e.lt(s.knownInt(e, c.Args[0]), s.knownInt(e, c.Args[1]))
	}
	return c.Op == "const"
}

// knownInt replaces a term the path condition equates with a constant.
func (s *State) knownInt(e *Engine, t *Term) *Term {
	if t.Op == "len" {
		for f, v := range s.facts {
			if v && f.Op == "eq" {
				for i := range f.Args {
					if f.Args[i] == t {
						if _, ok := f.Args[1-i].constInt(); ok {
							return f.Args[1-i]
						}
					}
				}
			}
		}
	}
	return t
}

func (e *Engine) backEdge(s *State, f *frame, h *ssa.BasicBlock, key string, ls *loopState, phis []*ssa.Phi, vals map[*ssa.Phi]*Term) {
	hv := e.havocOf(key)
	mark := func(m map[*ssa.Phi]string, ph *ssa.Phi, v string) {
		if old, ok := m[ph]; !ok {
			m[ph] = v
			e.changed = true
		} else if old != v && old != "any" {
			m[ph] = "any"
			e.changed = true
		}
	}
	for _, ph := range phis {
		if vals[ph] == ls.old[ph] {
			if m, ok := hv.phis[ph]; ok && strings.HasPrefix(m, "ind:") {
				hv.phis[ph] = "any"
				e.changed = true
			}
			continue
		}
		d := e.sub(vals[ph], ls.old[ph])
		if n, ok := d.constInt(); ok && isIntType(ph.Type()) {
			mark(hv.phis, ph, "ind:"+strconv.FormatInt(n, 10))
		} else {
			mark(hv.phis, ph, "any")
		}
	}
	for a, v := range s.mem {
		old, had := ls.snap[a]
		if had && old == v {
			if m := hv.mem[a]; strings.HasPrefix(m, "ind:") {
				hv.mem[a] = "any"
				e.changed = true
			}
			continue
		}
		if !had {
			// created within the iteration?
			if r := rootAddr(a); r.Op == "alloc" {
				if _, ok := ls.snap[r]; !ok {
					continue
				}
			}
			if a.Op == "mapst" && a.Args[0].Op == "mkmap" {
				continue
			}
			if a.Op == "iterver" {
				continue
			}
			if a.Op == "saddr" && a.containsOp("iter") {
				// element write indexed by the iteration
				continue
			}
		}
		if _, ok := hv.mem[a]; !ok {
			m := "any"
			if had {
				if n, ok := e.sub(v, old).constInt(); ok && (a.Op == "iterver" || old.Op == "const" && v.Op == "const") {
					if _, isInt := old.constInt(); isInt || a.Op == "iterver" {
						m = "ind:" + strconv.FormatInt(n, 10)
					}
				}
			}
			hv.mem[a] = m
			e.changed = true
		} else if m := hv.mem[a]; strings.HasPrefix(m, "ind:") {
			c, _ := strconv.ParseInt(m[4:], 10, 64)
			if n, ok := e.sub(v, old).constInt(); !ok || n != c {
				hv.mem[a] = "any"
				e.changed = true
			}
		}
	}
	e.end(s, &Outcome{Kind: outBack, Fn: f.fn, Pos: lastPos(f.block), Loop: key, LoopFn: f.fn, PhiOld: ls.old, PhiNew: vals})
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---------------------------------------------------------------- operators

func (e *Engine) binop(op token.Token, x, y *Term, t types.Type) *Term {
	isStr := false
	if b, ok := t.Underlying().(*types.Basic); ok {
		isStr = b.Info()&types.IsString != 0
	}
	switch op {
	case token.EQL:
		return e.eq(x, y)
	case token.NEQ:
		return e.not(e.eq(x, y))
	case token.LSS:
		return e.lt(x, y)
	case token.GTR:
		return e.lt(y, x)
	case token.LEQ:
		return e.not(e.lt(y, x))
	case token.GEQ:
		return e.not(e.lt(x, y))
	case token.ADD:
		if isStr {
			return e.concat(x, y)
		}
		return e.add(x, y)
	case token.SUB:
		return e.sub(x, y)
	}
	if a, ok := x.constInt(); ok {
		if b, ok := y.constInt(); ok {
			switch op {
			case token.MUL:
				return e.int(a * b)
			case token.AND:
				return e.int(a & b)
			case token.OR:
				return e.int(a | b)
			case token.XOR:
				return e.int(a ^ b)
			case token.AND_NOT:
				return e.int(a &^ b)
			}
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		if x.id > y.id {
			x, y = y, x
		}
	}
	return e.mk("op", op.String(), x, y)
}

func (e *Engine) concat(x, y *Term) *Term {
	var parts []*Term
	addp := func(t *Term) {
		if t.Op == "cat" {
			parts = append(parts, t.Args...)
		} else {
			parts = append(parts, t)
		}
	}
	addp(x)
	addp(y)
	return e.cat(parts)
}

func (e *Engine) cat(parts []*Term) *Term {
	var out []*Term
	for _, p := range parts {
		s, ok := p.constStr()
		if ok && s == "" {
			continue
		}
		if ok && len(out) > 0 {
			if q, ok2 := out[len(out)-1].constStr(); ok2 {
				out[len(out)-1] = e.str(q + s)
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return e.str("")
	case 1:
		return out[0]
	}
	return e.mk("cat", "", out...)
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (e *Engine) convert(x *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if intSize(tb) >= intSize(fb) || x.Op == "const" {
			return x
		}
		return e.mk("conv", tb.Name(), x)
	}
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return x
	}
	ts := types.TypeString(to.Underlying(), nil)
	if x.Op == "conv" && ts == "string" && x.Sym == "[]byte" {
		return x.Args[0]
	}
	if x.Op == "conv" && ts == "[]byte" && x.Sym == "string" {
		return x.Args[0]
	}
	return e.mk("conv", ts, x)
}

func (e *Engine) extract(s *State, t *Term, i int, typ types.Type) *Term {
	switch t.Op {
	case "tuple":
		return t.Args[i]
	case "assert":
		x := t.Args[0]
		if i == 1 {
			return e.mk("istype", t.Sym, x)
		}
		if v, ok := s.truth(e, e.mk("istype", t.Sym, x)); ok && !v {
			return e.zero(typ)
		}
		if x.Op == "box" {
			return x.Args[0]
		}
		if x.Op == "typednil" && x.Sym == t.Sym {
			return e.nilT()
		}
		return x
	}
	return e.mk("ext", strconv.Itoa(i), t)
}

func (e *Engine) mapState(s *State, m *Term) *Term {
	a := e.mk("mapst", "", m)
	if v, ok := s.mem[a]; ok {
		return v
	}
	return e.mk("map0", "", m)
}

func (e *Engine) lookup(s *State, m, k *Term, mt types.Type) (*Term, *Term) {
	var elem types.Type
	if t, ok := mt.Underlying().(*types.Map); ok {
		elem = t.Elem()
	}
	st := e.mapState(s, m)
	for {
		switch st.Op {
		case "mapput":
			if st.Args[1] == k {
				return st.Args[2], e.boolT(true)
			}
			c := e.eq(st.Args[1], k)
			if v, ok := s.truth(e, c); ok {
				if v {
					return st.Args[2], e.boolT(true)
				}
				st = st.Args[0]
				continue
			}
		case "mapdel":
			if st.Args[1] == k {
				return e.zero(elem), e.boolT(false)
			}
			c := e.eq(st.Args[1], k)
			if v, ok := s.truth(e, c); ok && !v {
				st = st.Args[0]
				continue
			}
		case "emptymap":
			if elem != nil {
				return e.zero(elem), e.boolT(false)
			}
		}
		return e.mk("lookup", "", st, k), e.mk("has", "", st, k)
	}
}

// boundIndex records the conditions under which x[i] does not panic.
func (e *Engine) boundIndex(s *State, f *frame, in ssa.Instruction, t types.Type, x, i *Term) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := e.lenOf(s, x)
	if at, ok := t.Underlying().(*types.Array); ok {
		n = e.int(at.Len())
	}
	e.bound(s, f, in, e.lt(i, n), e.not(e.lt(i, e.int(0))))
}

func (e *Engine) boundSlice(s *State, f *frame, in *ssa.Slice, x, lo, hi *Term) {
	n := e.lenOf(s, x)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			n = e.int(at.Len())
		}
	}
	h := hi
	if h.isNil() {
		h = n
	} else {
		e.bound(s, f, in, e.not(e.lt(n, h)), e.not(e.lt(h, e.int(0))))
	}
	if !lo.isNil() {
		e.bound(s, f, in, e.not(e.lt(h, lo)), e.not(e.lt(lo, e.int(0))))
	}
}

func (e *Engine) bound(s *State, f *frame, in ssa.Instruction, conds ...*Term) {
	var open []*Term
	for _, c := range conds {
		if c.Op == "const" && c.Sym == "true" {
			continue
		}
		open = append(open, c)
	}
	if len(open) > 0 {
		e.record(s, f, Event{Kind: evBound, Args: open, Instr: in, Pos: in.Pos()})
	}
}

func (e *Engine) lenOf(s *State, x *Term) *Term {
	if x.Op == "sliceof" {
		if x.Args[1].isNil() && x.Args[2].isNil() {
			if at, ok := x.T.Underlying().(*types.Array); ok {
				return e.int(at.Len())
			}
		}
	}
	if x.Op == "mkmap" || x.Op == "fld" && false {
		st := e.mapState(s, x)
		if st.Op == "emptymap" {
			return e.int(0)
		}
		return e.mk("len", "", st)
	}
	if v, ok := s.mem[e.mk("mapst", "", x)]; ok {
		return e.mk("len", "", v)
	}
	return e.length(x)
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}
