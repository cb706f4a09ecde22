package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	cobraCmd = "(*github.com/spf13/cobra.Command)."
	pflagSet = "(*github.com/spf13/pflag.FlagSet)."
	cliPkg   = modPath + "/cmd/thema"
)

// A command of the CLI, as main sets it up.
type cliCmd struct {
	obj    *Term // the *cobra.Command
	name   string
	parent *cliCmd
	flags  []*cliFlag
}

type cliFlag struct {
	name, short string
	def         *Term
	ptr         *Term
	val         *Term // what a run of the command finds in the variable
	persistent  bool
	event       Event
}

// cli is the command line program after its commands were set up.
type cli struct {
	c     *Ctx
	e     *Engine
	st    *State // when Execute is called
	root  *Term
	cmds  map[*Term]*cliCmd
	order []*cliCmd
	mains []*Outcome

	loading bool            // the loader itself is being looked at
	loaders map[string]bool // the functions that load a lineage
	fields  map[string]string

	instLoops map[*Term]bool // lists of loaded instances put together in loops
}

func (x *cliCmd) path() string {
	if x.parent == nil {
		return ""
	}
	return strings.TrimSpace(x.parent.path() + " " + x.name)
}

// cliTree interprets the initialisation of the program and main up to Execute.
func (c *Ctx) cliTree() *cli {
	init, main := c.need("cmd/thema", "init"), c.need("cmd/thema", "main")
	if init == nil || main == nil {
		return nil
	}
	e := newEngine(c.p, Options{})
	x := &cli{c: c, e: e, cmds: map[*Term]*cliCmd{}}
	e.opts.Opaque = func(fn *ssa.Function) bool {
		return fnPkgPath(fn) != cliPkg || loadsLineage(fn) && !x.loading
	}
	e.opts.Pre = func(name string) bool {
		return strings.HasPrefix(name, "encoding/") || strings.HasSuffix(name, "schema.Extract") || strings.HasSuffix(name, ".CompileFile") || strings.HasSuffix(name, "/load.Instances") || x.loaders[name]
	}
	e.opts.Extern = func(name string, args []*Term) *Term {
		if len(args) == 0 {
			return nil
		}
		if k := x.cmds[args[0]]; k != nil && (name == cobraCmd+"CalledAs" || name == cobraCmd+"Name") {
			return e.str(k.name)
		}
		return nil
	}
	x.loaders = map[string]bool{}
	for _, fn := range c.p.allFuncs() {
		if fnPkgPath(fn) == cliPkg && loadsLineage(fn) {
			x.loaders[canonFn(fn)] = true
		}
	}
	outs := e.Run(init)
	c.account(e, init, outs)
	var st *State
	for _, o := range outs {
		if o.Kind == outReturn && len(o.Events) > 0 {
			st = o.st
		}
	}
	if st == nil {
		c.fail("setup", fnPos(main), main, nil, nil, "the program's initialisation could not be followed")
		return nil
	}
	x.mains = e.RunWith(main, nil, nil, func(s *State) { inherit(s, st) })
	c.account(e, main, x.mains)
	for _, o := range x.mains {
		if o.Kind == outBack || o.Kind == outPanic {
			c.fail("setup", o.Pos, main, e, o, "setting up the commands could not be followed")
			return nil
		}
	}
	if len(x.mains) == 0 {
		return nil
	}
	o := x.mains[0]
	x.st = o.st
	child := map[*Term]*Term{}
	for _, ev := range o.Events {
		if ev.Kind != evCall {
			continue
		}
		switch {
		case ev.Term.isCall(cobraCmd + "AddCommand"):
			for _, ch := range ev.Term.Args[1].Args {
				child[ch] = ev.Term.Args[0]
			}
		case ev.Term.isCall(cobraCmd+"Execute", cobraCmd+"ExecuteC", cobraCmd+"ExecuteContext"):
			x.root = ev.Term.Args[0]
		}
	}
	if x.root == nil {
		c.fail("setup", fnPos(main), main, nil, nil, "main does not run a command")
		return nil
	}
	x.command(x.root, child)
	for ch := range child {
		x.command(ch, child)
	}
	sort.Slice(x.order, func(i, j int) bool { return x.order[i].path() < x.order[j].path() })
	for _, ev := range o.Events {
		x.flagEvent(ev)
	}
	return x
}

// loadsLineage: the function returns a struct with the lineage and the schema loaded.
func loadsLineage(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != cliPkg {
			continue
		}
		if lin, sch := loaderFields(n); lin != "" && sch != "" {
			return true
		}
	}
	return false
}

// loaderFields are the names of the fields holding a Lineage and a Schema.
func loaderFields(n *types.Named) (lin, sch string) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().String() {
		case modPath + ".Lineage":
			lin = st.Field(i).Name()
		case modPath + ".Schema":
			sch = st.Field(i).Name()
		}
	}
	return
}

// inherit continues in the state another function ended in.
func inherit(s, from *State) {
	for k, v := range from.mem {
		s.mem[k] = v
	}
	for k, v := range from.facts {
		s.facts[k] = v
	}
	for k, v := range from.fresh {
		s.fresh[k] = v
	}
	s.flist = append([]Fact(nil), from.flist...)
	s.events = append([]Event(nil), from.events...)
}

func (x *cli) command(obj *Term, child map[*Term]*Term) *cliCmd {
	if k := x.cmds[obj]; k != nil {
		return k
	}
	k := &cliCmd{obj: obj}
	x.cmds[obj] = k
	x.order = append(x.order, k)
	use := x.st.load(x.e, x.e.mk("faddr", "Use", obj), anyType)
	if s, ok := use.constStr(); ok {
		if f := strings.Fields(s); len(f) > 0 {
			k.name = f[0]
		}
	}
	if p := child[obj]; p != nil {
		k.parent = x.command(p, child)
	}
	return k
}

func (x *cli) flagEvent(ev Event) {
	if ev.Kind != evCall || !strings.HasPrefix(ev.Term.Sym, pflagSet) {
		return
	}
	m := strings.TrimPrefix(ev.Term.Sym, pflagSet)
	a := ev.Term.Args
	if !strings.Contains(m, "Var") || len(a) < 4 || len(a[0].Args) == 0 {
		return
	}
	k := x.cmds[a[0].Args[0]]
	if k == nil {
		return
	}
	f := &cliFlag{ptr: a[1], event: ev, persistent: a[0].isCall(cobraCmd + "PersistentFlags")}
	f.name, _ = a[2].constStr()
	f.def = a[3]
	if strings.HasSuffix(m, "P") {
		f.short, _ = a[3].constStr()
		f.def = a[4]
	}
	f.val = x.e.mk("flag", f.name)
	k.flags = append(k.flags, f)
}

// allFlags are the flags a command accepts: its own and the persistent ones above it.
func (x *cliCmd) allFlags() []*cliFlag {
	out := append([]*cliFlag(nil), x.flags...)
	for p := x.parent; p != nil; p = p.parent {
		for _, f := range p.flags {
			if f.persistent {
				out = append(out, f)
			}
		}
	}
	return out
}

// hook is a function cobra runs for the command, in order.
type hook struct {
	name string
	fn   *Term
	errs bool
}

func (x *cli) hooks(k *cliCmd) []hook {
	get := func(k *cliCmd, f string) *Term {
		v := x.st.load(x.e, x.e.mk("faddr", f, k.obj), anyType)
		if cl := closureOf(v); cl != nil {
			return cl
		}
		return nil
	}
	var hs []hook
	add := func(k *cliCmd, fs ...string) bool {
		for _, f := range fs {
			if cl := get(k, f); cl != nil {
				hs = append(hs, hook{f, cl, strings.HasSuffix(f, "E")})
				return true
			}
		}
		return false
	}
	for p := k; p != nil; p = p.parent {
		if add(p, "PersistentPreRunE", "PersistentPreRun") {
			break
		}
	}
	add(k, "PreRunE", "PreRun")
	if !add(k, "RunE", "Run") {
		return nil // cobra prints the help
	}
	add(k, "PostRunE", "PostRun")
	for p := k; p != nil; p = p.parent {
		if add(p, "PersistentPostRunE", "PersistentPostRun") {
			break
		}
	}
	return hs
}

// cliRun is one way a run of a command may go.
type cliRun struct {
	o    *Outcome
	hook int
	fail *Term // the error cobra is given
	ok   bool  // the exit status is 0
}

// runs interprets a run of the command with arbitrary flags and arguments.
func (x *cli) runs(k *cliCmd) []cliRun {
	hs := x.hooks(k)
	e := x.e
	if len(hs) == 0 {
		return nil
	}
	start := &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, fresh: map[string]int{}}
	inherit(start, x.st)
	start.events, start.flist, start.facts = nil, nil, map[*Term]bool{}
	for _, f := range k.allFlags() {
		start.store(f.ptr, f.val)
	}
	args := []*Term{k.obj, e.mk("param", "args")}
	var out []cliRun
	var step func(i int, st *State)
	step = func(i int, st *State) {
		cl := hs[i].fn
		for _, o := range e.RunWith(cl.Fn, args, cl.Args, func(s *State) {
			inherit(s, st)
			s.stack[0].ctx = fmt.Sprintf("/hook%d", i)
		}) {
			switch o.Kind {
			case outBack:
				out = append(out, cliRun{o: o, hook: i})
			case outExit:
				out = append(out, cliRun{o: o, hook: i})
			case outReturn:
				if hs[i].errs && e.nilness(o, o.Vals[0]) == notNil {
					out = append(out, cliRun{o: o, hook: i, fail: o.Vals[0]})
					continue
				}
				if i+1 < len(hs) {
					step(i+1, o.st)
					continue
				}
				r := cliRun{o: o, hook: i, ok: true}
				if hs[i].errs {
					r.fail = o.Vals[0]
				}
				out = append(out, r)
			default:
				out = append(out, cliRun{o: o, hook: i})
			}
		}
	}
	step(0, start)
	return out
}

// ---------------------------------------------------------------- output

// cliOutput is something a run writes: to its standard output ("out"), its
// standard error ("err") or a file.
type cliOutput struct {
	to    string
	file  *Term
	parts []*Term
	ev    Event
}

// writes are the outputs of a run, in order, and the contents of the buffers
// that were filled on the way.
func (x *cli) writes(o *Outcome) []cliOutput {
	e := x.e
	bufs := map[*Term][]*Term{}
	var outs []cliOutput
	var parts func(t *Term) []*Term
	parts = func(t *Term) []*Term {
		t = unbox(t)
		switch t.Op {
		case "cat":
			var ps []*Term
			for _, a := range t.Args {
				ps = append(ps, parts(a)...)
			}
			return ps
		case "conv", "fmt":
			return parts(t.Args[0])
		case "const":
			if s, ok := t.constStr(); ok && s == "" {
				return nil
			}
		case "alloc":
			if b, ok := bufs[t]; ok {
				return b
			}
		case "call":
			switch t.Sym {
			case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader", "SyntacticVersion.String", "fmt.Sprint":
				if len(t.Args) == 1 {
					if t.Args[0].Op == "list" && len(t.Args[0].Args) == 1 {
						return parts(t.Args[0].Args[0])
					}
					return parts(t.Args[0])
				}
			case "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*strings.Builder).String":
				return bufs[t.Args[0]]
			}
		}
		if v := x.jsonOf(t); v != nil {
			return []*Term{e.mk("json", "", v)}
		}
		if v := x.yamlOf(t); v != nil {
			return []*Term{e.mk("yaml", "", v)}
		}
		return []*Term{t}
	}
	emit := func(w *Term, ps []*Term, ev Event) {
		w = unbox(w)
		switch {
		case w.isCall(cobraCmd+"OutOrStdout") || w.Op == "gval" && w.Sym == "os.Stdout":
			outs = append(outs, cliOutput{to: "out", parts: ps, ev: ev})
		case w.isCall(cobraCmd+"ErrOrStderr", cobraCmd+"OutOrStderr") || w.Op == "gval" && w.Sym == "os.Stderr":
			outs = append(outs, cliOutput{to: "err", parts: ps, ev: ev})
		case w.Op == "alloc" || w.isCall("bytes.NewBuffer", "bytes.NewBufferString"):
			if _, ok := bufs[w]; !ok && w.Op == "call" {
				bufs[w] = parts(w.Args[0])
			}
			bufs[w] = append(bufs[w], ps...)
		default:
			outs = append(outs, cliOutput{to: "?", parts: ps, ev: ev})
		}
	}
	printed := func(l *Term, ln bool) []*Term {
		var ps []*Term
		if l.Op == "list" {
			for _, a := range l.Args {
				ps = append(ps, parts(a)...)
			}
		}
		if ln {
			ps = append(ps, e.str("\n"))
		}
		return ps
	}
	formatted := func(f, l *Term) []*Term {
		if t := e.sprintf("fmt.Sprintf", []*Term{f, l}); t != nil {
			return parts(t)
		}
		return []*Term{e.mk("formatted", "", f, l)}
	}
	for _, ev := range o.Events {
		if ev.Kind != evCall {
			continue
		}
		t := ev.Term
		var a []*Term
		for _, y := range t.Args {
			if y.Op != "at" {
				a = append(a, y)
			}
		}
		stdout := e.mk("gval", "os.Stdout")
		switch t.Sym {
		case "fmt.Fprintf":
			emit(a[0], formatted(a[1], a[2]), ev)
		case "fmt.Fprint":
			emit(a[0], printed(a[1], false), ev)
		case "fmt.Fprintln":
			emit(a[0], printed(a[1], true), ev)
		case "fmt.Printf":
			emit(stdout, formatted(a[0], a[1]), ev)
		case "fmt.Print":
			emit(stdout, printed(a[0], false), ev)
		case "fmt.Println":
			emit(stdout, printed(a[0], true), ev)
		case cobraCmd + "Printf", cobraCmd + "PrintErrf":
			emit(e.mk("gval", "os.Stderr"), formatted(a[1], a[2]), ev)
		case cobraCmd + "Print", cobraCmd + "Println", cobraCmd + "PrintErr", cobraCmd + "PrintErrln":
			emit(e.mk("gval", "os.Stderr"), printed(a[1], strings.HasSuffix(t.Sym, "ln")), ev)
		case "io.Copy", "io.WriteString", "invoke io.Writer.Write", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*os.File).Write", "(*os.File).WriteString":
			emit(a[0], parts(a[1]), ev)
		case "(*bytes.Buffer).WriteTo":
			emit(a[1], parts(a[0]), ev)
		case "encoding/json.Indent", "encoding/json.Compact":
			emit(a[0], parts(a[1]), ev)
		case "os.WriteFile", "io/ioutil.WriteFile":
			outs = append(outs, cliOutput{to: "file", file: a[0], parts: parts(a[1]), ev: ev})
		case "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.Truncate":
			outs = append(outs, cliOutput{to: "?", parts: []*Term{t}, ev: ev})
		}
	}
	return outs
}

// jsonOf: the bytes are the JSON form of a value, indented or not.
func (x *cli) jsonOf(t *Term) *Term {
	cl, n := t.call()
	if cl == nil || n != 0 {
		return nil
	}
	switch cl.Sym {
	case "encoding/json.MarshalIndent", "encoding/json.Marshal", cv("MarshalJSON"):
		return unbox(cl.Args[0])
	}
	return nil
}

func (x *cli) yamlOf(t *Term) *Term {
	cl, n := t.call()
	if cl == nil || n != 0 {
		return nil
	}
	if cl.Sym == "cuelang.org/go/pkg/encoding/yaml.Marshal" {
		return unbox(cl.Args[0])
	}
	return nil
}

// text joins the parts of an output.
func (x *cli) text(ps []*Term) *Term { return x.e.cat(append([]*Term{x.e.str("")}, ps...)) }

// ---------------------------------------------------------------- data commands

// isErr: the result of a call is an error.
func isErr(t *Term) bool {
	return t.T != nil && t.T.String() == "error"
}

// loaded is what the loader gave the run.
type loaded struct {
	call     *Term // of the loader
	lin, sch *Term
}

func (x *cli) loaded(r cliRun) *loaded {
	for _, ev := range r.o.Events {
		if ev.Kind != evCall || ev.Term.Op != "call" {
			continue
		}
		cc, ok := ev.Instr.(ssa.CallInstruction)
		if !ok {
			continue
		}
		fn := cc.Common().StaticCallee()
		if fn == nil || !loadsLineage(fn) {
			continue
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				if l, s := loaderFields(n); l != "" && s != "" {
					v := x.e.mk("ext", fmt.Sprint(i), ev.Term)
					if res.Len() == 1 {
						v = ev.Term
					}
					return &loaded{ev.Term, x.e.fld(v, l), x.e.fld(v, s)}
				}
			}
		}
	}
	return nil
}

// strFact is the constant a term is known to equal, or to differ from.
func (x *cli) strIs(r cliRun, t *Term) (is string, known bool, not []string) {
	for _, f := range r.o.Facts {
		if f.C.Op != "eq" {
			continue
		}
		for i := range f.C.Args {
			if f.C.Args[i] != t {
				continue
			}
			if s, ok := f.C.Args[1-i].constStr(); ok {
				if f.Val {
					return s, true, nil
				}
				not = append(not, s)
			}
		}
	}
	return "", false, not
}

// given: whether a string flag was given a value on the run.
func (x *cli) given(r cliRun, name string) (yes, no bool) {
	s, known, not := x.strIs(r, x.e.mk("flag", name))
	if known {
		return s != "", s == ""
	}
	for _, n := range not {
		if n == "" {
			return true, false
		}
	}
	for _, f := range r.o.Facts {
		if f.C == x.e.lt(x.e.int(0), x.e.length(x.e.mk("flag", name))) {
			return f.Val, !f.Val
		}
	}
	return false, false
}

// isInput: the bytes are all of the file named by the single argument, or of
// standard input if there is none.
func (x *cli) isInput(r cliRun, b *Term) bool {
	e := x.e
	args := e.mk("param", "args")
	n := func(k int64) bool {
		v, ok := e.fact(r.o.Facts, e.eq(e.length(args), e.int(k)))
		return ok && v
	}
	cl, i := b.call()
	if cl == nil || i != 0 || e.nilness(r.o, e.mk("ext", "1", cl)) != isNil {
		// nothing was read
		if b.isNil() || b.Op == "zero" {
			for _, f := range r.o.Facts {
				if f.C.Op == "lt" && !f.Val && f.C.Args[1].Op == "len" && x.isInput(r, f.C.Args[1].Args[0]) {
					if z, ok := f.C.Args[0].constInt(); ok && z == 0 {
						return true
					}
				}
			}
		}
		return false
	}
	arg := e.index(args, e.int(0))
	switch cl.Sym {
	case "io.ReadAll", "io/ioutil.ReadAll":
		src := unbox(cl.Args[0])
		if src.Op == "gval" && src.Sym == "os.Stdin" {
			return n(0)
		}
		f, k := src.call()
		return f != nil && k == 0 && f.isCall("os.Open") && f.Args[0] == arg && n(1)
	case "os.ReadFile", "io/ioutil.ReadFile":
		return cl.Args[0] == arg && n(1)
	}
	return false
}

// decoded is the data of a run: the value decoded from the input by the codec
// the format flag asks for.
func (x *cli) decoded(k *cliCmd, r cliRun) (data *Term, problem string) {
	e := x.e
	type try struct {
		codec string
		call  *Term
		ok    bool
	}
	var tries []try
	for _, ev := range r.o.Events {
		if ev.Kind != evCall || !isDecode(ev.Term) {
			continue
		}
		t := try{call: ev.Term}
		switch c := unbox(ev.Term.Args[0]); {
		case c.isCall("vmux.NewJSONCodec"):
			t.codec = "json"
		case c.isCall("vmux.NewYAMLCodec"):
			t.codec = "yaml"
		}
		switch e.nilness(r.o, e.mk("ext", "1", ev.Term)) {
		case isNil:
			t.ok = true
		case mayNil:
			return nil, "whether decoding the input failed is not looked at"
		}
		tries = append(tries, t)
	}
	if len(tries) == 0 {
		return nil, "no input is decoded"
	}
	last := tries[len(tries)-1]
	if !last.ok {
		return nil, "input that cannot be decoded is used"
	}
	for _, t := range tries {
		if !x.isInput(r, t.call.Args[2]) {
			return nil, fmt.Sprintf("what is decoded is not the file given, or standard input if none is: %v", t.call.Args[2])
		}
	}
	format, known, _ := x.strIs(r, e.mk("flag", "format"))
	switch {
	case !known:
		return nil, "an input format that is not known is accepted"
	case format == "" && last.codec == "json":
	case format == "" && last.codec == "yaml" && len(tries) > 1 && tries[0].codec == "json" && !tries[0].ok:
	case format != "" && format == last.codec && len(tries) == 1:
	default:
		return nil, fmt.Sprintf("input of format %q is decoded as %s", format, last.codec)
	}
	return e.mk("ext", "0", last.call), ""
}

// cause: something that went wrong, or was wrong about how the command was
// called, explains a nonzero exit.
func (x *cli) cause(r cliRun, data *Term) string {
	e := x.e
	for _, f := range r.o.Facts {
		s := nilOf(f)
		if s != nil {
			cl, _ := s.call()
			switch {
			case cl == nil:
			case isErr(s) && !f.Val && !isDecode(cl) && !cl.isCall("Schema.Validate"):
				return "error of " + shortName(cl.Sym)
			case isErr(s) && !f.Val:
				// counts unless another try succeeded, or was left out
				if x.failsWith(r, s) && (!isDecode(cl) || x.allTried(r)) {
					return "error of " + shortName(cl.Sym)
				}
			case cl.isCall("Lineage.ValidateAny") && f.Val:
				return "no schema accepts the data"
			}
			continue
		}
		switch {
		case f.C.Op == "call" && f.C.isCall(cv("Exists")) && !f.Val:
			return "no value"
		case f.C.Op == "call" && f.C.isCall(cv("IsConcrete")) && !f.Val:
			return "not concrete"
		}
	}
	for _, ev := range r.o.Events {
		if ev.Kind == evCall && isDecode(ev.Term) && e.nilness(r.o, e.mk("ext", "1", ev.Term)) == isNil {
			return ""
		}
	}
	for _, f := range r.o.Facts {
		if f.C.Op == "call" && strings.HasSuffix(f.C.Sym, "FileInfo.IsDir") && f.Val {
			return "a directory"
		}
	}
	if r.fail != nil {
		if _, known, _ := x.strIs(r, e.mk("flag", "format")); !known && len(x.flagFacts(r, "format")) > 0 {
			return "unknown format"
		}
		if _, no := x.given(r, "to"); no {
			return "no version given"
		}
		args := e.mk("param", "args")
		none, ok0 := e.fact(r.o.Facts, e.eq(e.length(args), e.int(0)))
		one, ok1 := e.fact(r.o.Facts, e.eq(e.length(args), e.int(1)))
		if ok0 && ok1 && !none && !one {
			return "more than one argument"
		}
		if none {
			// nothing is piped in
			for _, f := range r.o.Facts {
				if f.Val && f.C.Op == "eq" && strings.Contains(f.C.String(), "FileInfo.Mode") {
					return "no input"
				}
			}
		}
		if format, known, _ := x.strIs(r, e.mk("flag", "format")); one && known && format != "" {
			for _, f := range r.o.Facts {
				if strings.Contains(f.C.String(), "filepath.Ext(") && len(x.flagFacts(r, "format")) > 0 {
					return "the extension and the format differ"
				}
			}
		}
	}
	return ""
}

func (x *cli) flagFacts(r cliRun, name string) []Fact {
	fl := x.e.mk("flag", name)
	var out []Fact
	for _, f := range r.o.Facts {
		if f.C.contains(fl) {
			out = append(out, f)
		}
	}
	return out
}

// failsWith: the error is (part of) what the run fails with.
func (x *cli) failsWith(r cliRun, err *Term) bool {
	return r.fail != nil && (wraps(x.e, r.fail, err) || r.fail.contains(err)) || isDecode(err.Args[0]) && r.fail != nil
}

// allTried: all decoders failed that may read the input, if no format is given.
func (x *cli) allTried(r cliRun) bool {
	e := x.e
	failed := map[string]bool{}
	for _, ev := range r.o.Events {
		if ev.Kind != evCall || !isDecode(ev.Term) {
			continue
		}
		if e.nilness(r.o, e.mk("ext", "1", ev.Term)) != notNil {
			return false
		}
		failed[unbox(ev.Term.Args[0]).Sym] = true
	}
	format, known, _ := x.strIs(r, e.mk("flag", "format"))
	return !known || format != "" || failed["vmux.NewJSONCodec"] && failed["vmux.NewYAMLCodec"]
}

func ruleT27(c *Ctx) {
	x := c.cliTree()
	if x == nil {
		return
	}
	x.mainStatus()
	for _, name := range []string{"validate", "validate-any", "translate", "hydrate", "dehydrate"} {
		k := x.find("data " + name)
		if k == nil {
			c.failAt("command", "thema data "+name, "the command is not there")
			continue
		}
		x.dataCommand(k)
	}
	c.accountCLI(x)
}

func (c *Ctx) accountCLI(x *cli) {
	for _, pr := range x.e.problems {
		c.failAt("analysis", "cmd/thema", "the analysis of the commands is incomplete: %s", pr)
	}
	for f := range x.e.analysed {
		c.fns[fname(f)] = true
	}
}

func (x *cli) find(path string) *cliCmd {
	for _, k := range x.order {
		if k.path() == path {
			return k
		}
	}
	return nil
}

// mainStatus: the program's status is 0 exactly if the command gave no error.
func (x *cli) mainStatus() {
	main := x.c.p.fn("cmd/thema", "main")
	n := 0
	for _, o := range x.mains {
		var exec *Term
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.isCall(cobraCmd+"Execute", cobraCmd+"ExecuteContext") {
				exec = ev.Term
			}
		}
		if exec == nil {
			x.c.fail("status", o.Pos, main, x.e, o, "main may end without running a command")
			continue
		}
		st := x.e.nilness(o, exec)
		zero := o.Kind == outReturn
		if o.Kind == outExit {
			v, ok := o.Vals[0].constInt()
			if !ok {
				x.c.fail("status", o.Pos, main, x.e, o, "the exit status is not a constant")
				continue
			}
			zero = v == 0
		}
		if zero && st != isNil || !zero && st != notNil {
			x.c.fail("status", o.Pos, main, x.e, o, "the exit status does not say whether the command failed")
			continue
		}
		n++
	}
	x.c.ok("main exits with a status other than 0 exactly if the command fails", "cmd/thema.main", n)
}

func (x *cli) dataCommand(k *cliCmd) {
	c, e := x.c, x.e
	runs := x.runs(k)
	where := "thema " + k.path()
	done, failed := 0, 0
	for _, r := range runs {
		o := r.o
		fn := o.Fn
		bad := func(rule, format string, a ...any) {
			c.fail(rule, o.Pos, fn, e, o, where+": "+format, a...)
		}
		if o.Kind == outBack || e.contradictsContract(o) {
			continue
		}
		zero := r.ok
		if o.Kind == outExit {
			v, ok := o.Vals[0].constInt()
			zero = !ok || v == 0
		}
		ld := x.loaded(r)
		outs := x.writes(o)
		if r.fail != nil && r.ok {
			// what decides is the error of the last thing that was written
			cl, _ := r.fail.call()
			if r.fail.isNil() || cl != nil && isWrite(cl) {
				zero = true
			} else if e.nilness(o, r.fail) == mayNil {
				if x.dataTail(k, r, ld, bad) {
					done++
					failed++
				}
				continue
			}
		}
		if !zero {
			var data *Term
			if why := x.cause(r, data); why == "" {
				bad("spurious", "fails although nothing went wrong")
			} else if x.accepted(k, r) {
				bad("spurious", "fails although the data is valid")
			} else {
				failed++
			}
			x.quietRun(k, r, outs, bad)
			continue
		}
		if ld == nil || e.nilness(o, e.mk("ext", "1", ld.call)) != isNil {
			bad("load", "succeeds without having loaded the lineage")
			continue
		}
		data, problem := x.decoded(k, r)
		if problem != "" {
			bad("input", "%s", problem)
			continue
		}
		if problem := x.errIgnored(r, true); problem != "" {
			bad("status", "%s", problem)
			continue
		}
		if problem := x.dataResult(k, r, ld, data, outs); problem != "" {
			bad("result", "%s", problem)
			continue
		}
		x.quietRun(k, r, outs, bad)
		done++
	}
	c.traces += len(runs)
	c.ok("a run that succeeds decoded the input in the format asked for and did the operation on it", where, done)
	c.ok("a run that fails has a reason to", where, failed)
	if done == 0 || failed == 0 {
		c.failAt("vacuous", where, "the command has no run that succeeds, or none that fails")
	}
}

func isWrite(cl *Term) bool {
	switch cl.Sym {
	case "io.Copy", "io.WriteString", "invoke io.Writer.Write", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "os.WriteFile", "(*bytes.Buffer).WriteTo":
		return true
	}
	return false
}

// dataTail: the command returns a result's error without having looked at it.
func (x *cli) dataTail(k *cliCmd, r cliRun, ld *loaded, bad func(string, string, ...any)) bool {
	cl, _ := r.fail.call()
	if k.name == "validate" && ld != nil && cl != nil && cl.isCall("Schema.Validate") {
		data, problem := x.decoded(k, r)
		if problem != "" {
			bad("input", "%s", problem)
		} else if cl.Args[0] != ld.sch || cl.Args[1] != data {
			bad("result", "what is validated is not the data, or not against the schema asked for")
		} else {
			x.quietRun(k, r, x.writes(r.o), bad)
			return true
		}
		return false
	}
	bad("result", "what the command returns is not known: %v", r.fail)
	return false
}

// accepted: the run found that the data is valid for what was asked.
func (x *cli) accepted(k *cliCmd, r cliRun) bool {
	if k.name != "validate" && k.name != "validate-any" {
		return false
	}
	for _, f := range r.o.Facts {
		s := nilOf(f)
		if s == nil {
			continue
		}
		if cl, n := s.call(); cl != nil {
			if cl.isCall("Schema.Validate") && n == 1 && f.Val {
				return true
			}
			if cl.isCall("Lineage.ValidateAny") && !f.Val {
				return true
			}
		}
	}
	return false
}

// quietRun: with --quiet nothing is written, and cobra does not print the error.
func (x *cli) quietRun(k *cliCmd, r cliRun, outs []cliOutput, bad func(string, string, ...any)) {
	var q *cliFlag
	for _, f := range k.flags {
		if f.name == "quiet" {
			q = f
		}
	}
	if q == nil {
		return
	}
	silent := r.o.st.load(x.e, x.e.mk("faddr", "SilenceErrors", k.obj), anyType)
	v, known := x.e.fact(r.o.Facts, q.val)
	if known && !v {
		return
	}
	if len(outs) > 0 {
		bad("quiet", "writes output although --quiet may be given")
	}
	if r.fail != nil && !r.fail.isNil() {
		if b := silent; b != q.val && !(b.isConst() && b.Sym == "true") {
			bad("quiet", "the error is printed although --quiet may be given")
		}
	}
}

// dataResult: what a successful run of a data command must have found and written.
func (x *cli) dataResult(k *cliCmd, r cliRun, ld *loaded, data *Term, outs []cliOutput) string {
	e, o := x.e, r.o
	validated := func(sch *Term) (inst *Term, st nilState) {
		v := e.mk("call", "Schema.Validate", sch, data)
		return e.mk("ext", "0", v), e.nilness(o, e.mk("ext", "1", v))
	}
	any := e.mk("call", "Lineage.ValidateAny", ld.lin, data)
	written := func(want ...*Term) string {
		if len(outs) != 1 || outs[0].to != "out" {
			return fmt.Sprintf("writes %d outputs instead of one to standard output", len(outs))
		}
		got := x.text(outs[0].parts)
		for _, w := range want {
			if got == w {
				return ""
			}
		}
		return fmt.Sprintf("writes %v", got)
	}
	nl := e.str("\n")
	version := func(inst *Term) *Term { return e.fld(e.fld(inst, "sch"), "v") }
	switch k.name {
	case "validate":
		if _, st := validated(ld.sch); st != isNil {
			return "succeeds without the schema asked for having accepted the data"
		}
		if len(outs) != 0 {
			return "writes output on success"
		}
		return ""
	case "validate-any":
		inst, st := validated(ld.sch)
		yes, no := x.given(r, "version")
		quiet, known := e.fact(o.Facts, e.mk("flag", "quiet"))
		if known && quiet && len(outs) == 0 {
			if yes && st == isNil || e.nilness(o, any) == notNil {
				return ""
			}
			return "succeeds without any schema having accepted the data"
		}
		switch {
		case yes && st == isNil:
			return written(x.text([]*Term{e.fld(ld.sch, "v"), nl}), x.text([]*Term{version(inst), nl}))
		case e.nilness(o, any) == notNil && (no || st == notNil):
			return written(x.text([]*Term{version(any), nl}))
		}
		return "succeeds without any schema having accepted the data, or without trying the version asked for first"
	case "translate":
		if e.nilness(o, any) != notNil {
			return "succeeds without any schema having accepted the data"
		}
		if yes, _ := x.given(r, "to"); !yes {
			return "succeeds without a version to translate to"
		}
		tr := e.mk("call", "Instance.Translate", any, e.fld(ld.sch, "v"))
		if e.nilness(o, e.mk("ext", "2", tr)) != isNil {
			return "succeeds without the translation to the version asked for having succeeded"
		}
		if len(outs) != 1 || outs[0].to != "out" || len(outs[0].parts) == 0 || outs[0].parts[0].Op != "json" {
			return "does not write one JSON document"
		}
		for _, p := range outs[0].parts[1:] {
			if p != nl {
				return "writes more than a JSON document"
			}
		}
		res := outs[0].parts[0].Args[0]
		tinst := e.mk("ext", "0", tr)
		str := func(v *Term) *Term { return e.mk("call", "SyntacticVersion.String", v) }
		for key, want := range map[string]*Term{"from": str(version(any)), "to": str(version(tinst)), "result": e.fld(tinst, "raw"), "lacunas": e.mk("ext", "1", tr)} {
			got := x.member(o, res, key)
			if got == nil {
				return fmt.Sprintf("what is written has no %q", key)
			}
			if got != want && !(key == "to" && got == str(e.fld(ld.sch, "v"))) {
				return fmt.Sprintf("%q of what is written is %v", key, got)
			}
		}
		return ""
	case "hydrate", "dehydrate":
		inst, st := validated(ld.sch)
		yes, no := x.given(r, "version")
		switch {
		case yes && st == isNil:
		case no && e.nilness(o, any) == notNil:
			inst = any
		default:
			return "succeeds without the data being an instance of the version asked for, or of any if none is"
		}
		op := "Instance.Hydrate"
		if k.name == "dehydrate" {
			op = "Instance.Dehydrate"
		}
		js := e.mk("json", "", e.fld(e.mk("call", op, inst), "raw"))
		return written(js, x.text([]*Term{js, nl}))
	}
	return "the command is not known"
}

// member is the part of a value that its JSON form has under the key.
func (x *cli) member(o *Outcome, v *Term, key string) *Term {
	e := x.e
	v = unbox(v)
	if v.Op == "alloc" {
		if p, ok := v.T.Underlying().(*types.Pointer); ok {
			v = o.st.load(e, v, p.Elem())
		}
	}
	t := e.dyn[v]
	for b := v; t == nil; b = b.Args[0] {
		if b.Op == "zero" {
			t = e.zeroT[b.Sym]
			break
		}
		if b.Op != "upd" {
			t = b.T
			break
		}
	}
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		name, _, _ := strings.Cut(tag, ",")
		if name == "" {
			name = st.Field(i).Name()
		}
		if name == key && tag != "-" {
			return e.fld(v, st.Field(i).Name())
		}
	}
	return nil
}

// ---------------------------------------------------------------- gen, init and fix

func ruleT28(c *Ctx) {
	x := c.cliTree()
	if x == nil {
		return
	}
	for _, name := range []string{"gen jsonschema", "gen openapi", "gen gotypes", "gen gobindings", "init empty", "init openapi", "init jsonschema", "fix"} {
		k := x.find("lineage " + name)
		if k == nil {
			c.failAt("command", "thema lineage "+name, "the command is not there")
			continue
		}
		x.genCommand(k)
	}
	c.accountCLI(x)
}

func (x *cli) genCommand(k *cliCmd) {
	c, e := x.c, x.e
	runs := x.runs(k)
	if strings.Contains(k.name, "go") {
		x.loaderSets(k, runs)
	}
	where := "thema " + k.path()
	done, failed := 0, 0
	for _, r := range runs {
		o := r.o
		bad := func(rule, format string, a ...any) {
			c.fail(rule, o.Pos, o.Fn, e, o, where+": "+format, a...)
		}
		if o.Kind == outBack || e.contradictsContract(o) || x.noBytes(o) {
			continue
		}
		zero := r.ok
		if o.Kind == outExit {
			v, ok := o.Vals[0].constInt()
			zero = !ok || v == 0
		}
		outs := x.writes(o)
		if r.fail != nil && r.ok && !r.fail.isNil() {
			if cl, _ := r.fail.call(); cl == nil || !isWrite(cl) {
				if e.nilness(o, r.fail) == mayNil {
					bad("result", "what the command returns is not known: %v", r.fail)
					continue
				}
				zero = false
			}
		}
		// a last write whose error decides
		if e := x.lastWriteFails(r); e {
			if zero {
				bad("status", "succeeds although writing the result failed")
			} else {
				failed++
			}
			continue
		}
		if !zero {
			if why := x.genCause(k, r); why == "" {
				bad("spurious", "fails although nothing went wrong")
			} else {
				failed++
			}
			for _, w := range outs {
				if w.to == "out" || w.to == "file" {
					bad("result", "writes %v and then fails", x.text(w.parts))
				}
			}
			continue
		}
		if problem := x.errIgnored(r, false); problem != "" {
			bad("status", "%s", problem)
			continue
		}
		if problem := x.genResult(k, r, outs); problem != "" {
			bad("result", "%s", problem)
			continue
		}
		done++
	}
	c.traces += len(runs)
	c.ok("a run that succeeds wrote what was made for the schema asked for, where it belongs", where, done)
	c.ok("a run that fails has a reason to, and wrote no result", where, failed)
	if done == 0 || failed == 0 {
		c.failAt("vacuous", where, "the command has no run that succeeds, or none that fails")
	}
}

// lastWriteFails: the run ends because its result could not be written.
func (x *cli) lastWriteFails(r cliRun) bool {
	for _, f := range r.o.Facts {
		s := nilOf(f)
		if s == nil || f.Val {
			continue
		}
		if cl, _ := s.call(); cl != nil && isWrite(cl) {
			return true
		}
	}
	return false
}

// errIgnored: on a run that succeeds, every error was found to be nil.
func (x *cli) errIgnored(r cliRun, data bool) string {
	for _, f := range r.o.Facts {
		s := nilOf(f)
		if s == nil || f.Val || !isErr(s) {
			continue
		}
		cl, _ := s.call()
		if cl == nil || cl.isCall("os.ReadFile", "io/ioutil.ReadFile") {
			continue // whether a file is there
		}
		if data && (isDecode(cl) || cl.isCall("Schema.Validate")) {
			continue // another format or schema is tried
		}
		return fmt.Sprintf("succeeds although %s failed", shortName(cl.Sym))
	}
	// errors nobody looked at
	for _, ev := range r.o.Events {
		if ev.Kind != evCall {
			continue
		}
		cc, ok := ev.Instr.(*ssa.Call)
		if !ok {
			continue
		}
		res := cc.Call.Signature().Results()
		n := res.Len()
		if n == 0 || res.At(n-1).Type().String() != "error" {
			continue
		}
		t := ev.Term
		if n > 1 {
			t = x.e.mk("ext", fmt.Sprint(n-1), ev.Term)
		}
		switch {
		case strings.HasPrefix(ev.Term.Sym, "fmt.Fprint"), strings.HasPrefix(ev.Term.Sym, "(*bytes.Buffer)."), strings.HasPrefix(ev.Term.Sym, "(*strings.Builder)."):
			continue
		case strings.HasSuffix(ev.Term.Sym, "ast.LabelName"):
			continue // says whether there is a name
		case strings.HasSuffix(ev.Term.Sym, "parser.ParseExpr") && constArgs(ev.Term.Args[:2]):
			continue
		case r.fail == t, x.e.nilness(r.o, t) != mayNil:
			continue
		case n == 2 && x.e.nilness(r.o, x.e.mk("ext", "0", ev.Term)) == notNil:
			continue // there is a result, so there is no error
		case n > 1 && !isWrite(ev.Term) && !x.usedAfter(r.o, ev.Term):
			continue // the results were dropped, too
		}
		return fmt.Sprintf("succeeds without looking at the error of %s", shortName(ev.Term.Sym))
	}
	return ""
}

// usedAfter: a result of the call was used.
func (x *cli) usedAfter(o *Outcome, call *Term) bool {
	uses := func(t *Term) bool {
		used := false
		if t != nil {
			t.walk(func(y *Term) bool {
				if y.Op == "ext" && y.Args[0] == call {
					used = true
				}
				return !used
			})
		}
		return used
	}
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term != call && uses(ev.Term) {
			return true
		}
	}
	for _, f := range o.Facts {
		if uses(f.C) {
			return true
		}
	}
	for _, v := range o.st.mem {
		if uses(v) {
			return true
		}
	}
	return false
}

func constArgs(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

// noBytes: the run needs a call that returns bytes to return neither bytes nor an error.
func (x *cli) noBytes(o *Outcome) bool {
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil && f.Val {
			if cl, n := s.call(); cl != nil && n == 0 && cl.isCall(cv("MarshalJSON"), "encoding/json.Marshal", "encoding/json.MarshalIndent") && x.e.nilness(o, x.e.mk("ext", "1", cl)) == isNil {
				return true
			}
		}
	}
	return false
}

func (x *cli) genCause(k *cliCmd, r cliRun) string {
	e := x.e
	for _, f := range r.o.Facts {
		s := nilOf(f)
		if s != nil {
			if cl, _ := s.call(); cl != nil && isErr(s) && !f.Val && !cl.isCall("os.ReadFile") {
				return shortName(cl.Sym)
			}
		}
		if f.C.Op == "call" {
			switch {
			case f.C.isCall(cv("Exists")) && !f.Val:
				return "no value"
			case strings.HasSuffix(f.C.Sym, "FileInfo.IsDir") && f.Val && strings.HasPrefix(k.path(), "lineage init"):
				return "a directory"
			case f.C.isCall("cuelang.org/go/cue/ast.IsValidIdent") && !f.Val:
				return "not an identifier"
			case f.C.isCall("os.IsNotExist") && !f.Val:
				return "a file cannot be read"
			case f.C.isCall("errors.Is") && !f.Val:
				return "a file cannot be read"
			}
		}
	}
	if _, known, not := x.strIs(r, e.mk("flag", "format")); !known && len(not) >= 2 {
		return "unknown format"
	}
	if strings.HasPrefix(k.path(), "lineage init") {
		if _, no := x.given(r, "name"); no {
			return "no name"
		}
		if v, ok := e.fact(r.o.Facts, e.mk("flag", "no-package")); ok && v {
			if yes, _ := x.given(r, "package-name"); yes {
				return "package name given although there is to be none"
			}
		}
		read, loaded := false, false
		for _, ev := range r.o.Events {
			if ev.Kind == evCall && ev.Term.isCall("io.ReadAll", "os.ReadFile", "io/ioutil.ReadAll", "io/ioutil.ReadFile") {
				read = true
			}
			if ev.Kind == evCall && ev.Term.isCall("cuelang.org/go/cue/load.Instances") {
				loaded = true
			}
		}
		if !read || loaded {
			// no input, or input that is neither JSON nor YAML
			return "no input"
		}
	}
	return ""
}

// genResult: what a successful run must have written.
func (x *cli) genResult(k *cliCmd, r cliRun, outs []cliOutput) string {
	e, o := x.e, r.o
	nl := e.str("\n")
	ld := x.loaded(r)
	if !strings.HasPrefix(k.path(), "lineage init") {
		if ld == nil || e.nilness(o, e.mk("ext", "1", ld.call)) != isNil {
			return "succeeds without having loaded the lineage"
		}
	}
	one := func(to string) ([]*Term, *Term, string) {
		var ps []*Term
		var file *Term
		n := 0
		for _, w := range outs {
			if w.to == to {
				// what is written in pieces is one output
				if to == "file" {
					n++
				}
				ps = append(ps, w.parts...)
				file = w.file
			} else if !(to == "file" && w.to == "out") {
				return nil, nil, fmt.Sprintf("writes %v to somewhere else", x.text(w.parts))
			}
		}
		if ps == nil || n > 1 {
			return nil, nil, "does not write one result"
		}
		return ps, file, ""
	}
	trim := func(ps []*Term) []*Term {
		for len(ps) > 0 && ps[len(ps)-1] == nl {
			ps = ps[:len(ps)-1]
		}
		return ps
	}
	made := func(call *Term) bool { return e.nilness(o, e.mk("ext", "1", call)) == isNil }
	find := func(name string) *Term {
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.isCall(name) {
				return ev.Term
			}
		}
		return nil
	}
	name := strings.TrimPrefix(k.path(), "lineage ")
	switch name {
	case "gen jsonschema", "gen openapi":
		g := find("encoding/jsonschema.GenerateSchema")
		if name == "gen openapi" {
			g = find("encoding/openapi.GenerateSchema")
		}
		if g == nil || g.Args[0] != ld.sch || !made(g) {
			return "what is written was not generated from the schema asked for"
		}
		if len(g.Args) > 1 && !g.Args[1].isNil() && !emptyStruct(o, e, g.Args[1]) {
			return "the document is generated with a configuration nobody asked for"
		}
		ps, _, problem := one("out")
		if problem != "" {
			return problem
		}
		ps = trim(ps)
		format, known, _ := x.strIs(r, e.mk("flag", "format"))
		want := format
		switch format {
		case "yml":
			want = "yaml"
		case "json", "yaml":
		default:
			known = false
		}
		if !known {
			return "an output format that is not known is accepted"
		}
		if len(ps) != 1 || ps[0].Op != want {
			return fmt.Sprintf("with format %s, writes %v", format, x.text(ps))
		}
		v := unbox(ps[0].Args[0])
		if !v.isCall("(*"+cuePkg+".Context).BuildFile") || v.Args[1] != e.mk("ext", "0", g) {
			return fmt.Sprintf("what is written is not the document generated: %v", v)
		}
		return ""
	case "gen gotypes", "gen gobindings":
		gen := "encoding/gocode.GenerateTypesOpenAPI"
		if name == "gen gobindings" {
			gen = "encoding/gocode.GenerateLineageBinding"
		}
		g := find(gen)
		src := ld.sch
		if name == "gen gobindings" {
			src = ld.lin
		}
		if g == nil || g.Args[0] != src && !(src == ld.lin && g.Args[0] == e.mk("call", "Schema.Lineage", ld.sch)) || !made(g) {
			return "what is written was not generated from the schema or lineage asked for"
		}
		std, known := e.fact(o.Facts, e.mk("flag", "stdout"))
		if !known {
			return "whether the result goes to standard output does not depend on --stdout"
		}
		to := "file"
		if std {
			to = "out"
		}
		ps, file, problem := one(to)
		if problem != "" {
			return problem
		}
		if len(ps) == 0 || ps[len(ps)-1] != e.mk("ext", "0", g) {
			return fmt.Sprintf("what is written does not end with what was generated: %v", x.text(ps))
		}
		for _, p := range ps[:len(ps)-1] {
			if s, ok := p.constStr(); ok {
				for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
					if !strings.HasPrefix(l, "//") {
						return fmt.Sprintf("what is written begins with text that is not a comment: %q", l)
					}
				}
				break
			}
		}
		if h := ps[:len(ps)-1]; len(h) > 0 {
			if s, ok := h[len(h)-1].constStr(); !ok || !strings.HasSuffix(s, "\n") {
				return "the comment before the generated code is not ended"
			}
		}
		if to == "file" {
			suffix := "_types_gen.go"
			if name == "gen gobindings" {
				suffix = "_bindings_gen.go"
			}
			if p := x.besideLineage(r, ld, file, suffix); p != "" {
				return p
			}
			if q, ok := e.fact(o.Facts, e.mk("flag", "quiet")); len(outs) > 1 && (!ok || q) {
				return "a message is written although --quiet may be given"
			}
		}
		return x.genConfig(name, r, ld, g, std)
	case "init empty", "init openapi", "init jsonschema":
		g := find("encoding/cue.NewLineage")
		if g == nil || !made(g) || g.Args[1] != e.mk("flag", "name") {
			return "what is written is not a new lineage of the name given"
		}
		pkg := g.Args[2]
		nopkg, known := e.fact(o.Facts, e.mk("flag", "no-package"))
		yes, no := x.given(r, "package-name")
		pf := e.mk("flag", "package-name")
		s, isc := pkg.constStr()
		switch {
		case known && nopkg && no && (pkg == pf || isc && s == ""):
		case known && !nopkg && no && pkg == e.mk("flag", "name"):
		case known && !nopkg && yes && pkg == pf:
		default:
			return fmt.Sprintf("the package of the new lineage is %v", pkg)
		}
		if name != "init empty" {
			if p := x.fromSource(name, r, g.Args[0]); p != "" {
				return p
			}
		}
		ps, _, problem := one("out")
		if problem != "" {
			return problem
		}
		ps = trim(ps)
		f := find("internal/astutil.FmtNode")
		if f == nil || !made(f) || unbox(f.Args[0]) != e.mk("ext", "0", g) || len(ps) != 1 || ps[0] != e.mk("ext", "0", f) {
			return fmt.Sprintf("what is written is not the new lineage: %v", x.text(ps))
		}
		return ""
	case "fix":
		g := find("encoding/cue.RewriteLegacyLineage")
		if g == nil || !made(g) {
			return "what is written is not the rewritten lineage"
		}
		p := g.Args[1]
		if !p.isCall(cuePkg+".ParsePath") || p.Args[0] != e.mk("flag", "path") {
			return "the lineage at another path is rewritten"
		}
		ps, file, problem := one("file")
		if problem != "" {
			return problem
		}
		f := find("internal/astutil.FmtNode")
		nf := e.mk("ext", "0", g)
		if f == nil || !made(f) || unbox(f.Args[0]) != nf || len(ps) != 1 || ps[0] != e.mk("ext", "0", f) {
			return fmt.Sprintf("what is written is not the rewritten lineage: %v", x.text(ps))
		}
		if file != e.fld(nf, "Filename") {
			return fmt.Sprintf("the rewritten lineage is written to %v", file)
		}
		return ""
	}
	return "the command is not known"
}

// emptyStruct: the pointer is to a struct none of whose fields was set.
func emptyStruct(o *Outcome, e *Engine, t *Term) bool {
	t = unbox(t)
	if t.Op != "alloc" {
		return false
	}
	for a, v := range o.st.mem {
		if (a == t || rootAddr(a) == t) && v.Op != "zero" {
			return false
		}
	}
	return true
}
