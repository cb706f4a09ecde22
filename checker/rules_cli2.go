package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loadRun is one way loading the lineage for a command may go.
type loadRun struct {
	o    *Outcome
	recv *Term
}

// loaderCall is the call of the loader in a run, and the receiver's fields then.
func (x *cli) loaderCall(o *Outcome) (fn *ssa.Function, ev Event, ok bool) {
	for _, ev := range o.Events {
		if ev.Kind != evCall || !x.loaders[ev.Term.Sym] {
			continue
		}
		if cc, isCall := ev.Instr.(ssa.CallInstruction); isCall {
			if fn := cc.Common().StaticCallee(); fn != nil {
				return fn, ev, true
			}
		}
	}
	return nil, Event{}, false
}

// loads interprets the loader as the command calls it.
func (x *cli) loads(k *cliCmd, runs []cliRun) (out []loadRun, fn *ssa.Function) {
	e := x.e
	type key struct{ recv, val *Term }
	seen := map[key]bool{}
	for _, r := range runs {
		f, ev, ok := x.loaderCall(r.o)
		if !ok {
			continue
		}
		recv := ev.Term.Args[0]
		val := ev.Pre[unbox(recv)]
		if val == nil || seen[key{recv, val}] {
			continue
		}
		seen[key{recv, val}] = true
		fn = f
		x.loading = true
		outs := e.RunWith(f, ev.Term.Args, nil, func(s *State) {
			inherit(s, x.st)
			s.events, s.flist, s.facts = nil, nil, map[*Term]bool{}
			s.store(recv, val)
			s.stack[0].ctx = "/load"
		})
		x.loading = false
		x.c.account(e, f, outs)
		for _, o := range outs {
			out = append(out, loadRun{o, recv})
		}
	}
	return out, fn
}

// loaderSets says which of its receiver's fields the loader leaves the absolute
// path of the lineage in, and which whether that is a directory.
func (x *cli) loaderSets(k *cliCmd, runs []cliRun) map[string]string {
	if x.fields != nil {
		return x.fields
	}
	e := x.e
	loads, _ := x.loads(k, runs)
	kind := map[string]string{}
	for _, l := range loads {
		if l.o.Kind != outReturn || e.nilness(l.o, l.o.Vals[len(l.o.Vals)-1]) != isNil {
			continue
		}
		for a, v := range l.o.st.mem {
			if a.Op != "faddr" || a.Args[0] != l.recv {
				continue
			}
			is := "?"
			switch {
			case v != e.mk("flag", "lineage") && x.isLinPath(v):
				is = "abs"
			case x.isDirTest(v):
				is = "dir"
			}
			if was, ok := kind[a.Sym]; ok && was != is {
				is = "?"
			}
			kind[a.Sym] = is
		}
	}
	x.fields = kind
	return kind
}

// isLinPath: the term is the path of the lineage that was given, or that path made absolute.
func (x *cli) isLinPath(t *Term) bool {
	if t == x.e.mk("flag", "lineage") {
		return true
	}
	if t.Op == "out" {
		if _, f, ok := strings.Cut(t.Sym, "."); ok && x.fields[f] == "abs" && t.Args[0].Op == "call" && x.loaders[t.Args[0].Sym] {
			return true
		}
	}
	if cl, n := t.call(); cl != nil && n == 0 && cl.isCall("path/filepath.Abs") {
		return x.isLinPath(cl.Args[0])
	}
	if t.isCall("path/filepath.Clean") {
		return x.isLinPath(t.Args[0])
	}
	return false
}

// isDirTest: the term says whether the path of the lineage is a directory.
func (x *cli) isDirTest(t *Term) bool {
	if t.Op == "out" {
		_, f, ok := strings.Cut(t.Sym, ".")
		return ok && x.fields[f] == "dir" && t.Args[0].Op == "call" && x.loaders[t.Args[0].Sym]
	}
	if t.Op != "call" || !strings.HasSuffix(t.Sym, "FileInfo.IsDir") {
		return false
	}
	cl, n := t.Args[0].call()
	return cl != nil && n == 0 && cl.isCall("os.Stat") && x.isLinPath(cl.Args[0])
}

// linIsDir: whether the lineage is known to be given as a directory, and as a
// file. Both, if the file system changed in between.
func (x *cli) linIsDir(o *Outcome) (dir, file bool) {
	for _, f := range o.Facts {
		if x.isDirTest(f.C) {
			if f.Val {
				dir = true
			} else {
				file = true
			}
		}
	}
	return
}

// isLinDir: the term is the directory the lineage is in.
func (x *cli) isLinDir(o *Outcome, t *Term) bool {
	dir, file := x.linIsDir(o)
	if x.isLinPath(t) {
		return dir
	}
	return t.isCall("path/filepath.Dir") && x.isLinPath(t.Args[0]) && file
}

// besideLineage: the file is named after the lineage, in the directory it is in.
func (x *cli) besideLineage(r cliRun, ld *loaded, file *Term, suffix string) string {
	e := x.e
	wrong := fmt.Sprintf("the result is written to %v", file)
	if !file.isCall("path/filepath.Join") || file.Args[0].Op != "list" || len(file.Args[0].Args) != 2 {
		return wrong
	}
	dir, base := file.Args[0].Args[0], file.Args[0].Args[1]
	lower := e.mk("call", "strings.ToLower", e.fld(ld.lin, "name"))
	if base != e.cat([]*Term{lower, e.str(suffix)}) {
		return wrong
	}
	if !x.isLinDir(r.o, dir) {
		return wrong
	}
	return ""
}

// setFields are the fields of a struct value that were set.
func setFields(t *Term) (map[string]*Term, bool) {
	out := map[string]*Term{}
	for t.Op == "upd" {
		if _, ok := out[t.Sym]; !ok {
			out[t.Sym] = t.Args[1]
		}
		t = t.Args[0]
	}
	return out, t.Op == "zero"
}

func isZero(t *Term) bool {
	if t == nil || t.Op == "zero" || t.isNil() {
		return true
	}
	if s, ok := t.constStr(); ok {
		return s == ""
	}
	if n, ok := t.constInt(); ok {
		return n == 0
	}
	return t.isFalse()
}

// same: a value is the one wanted, as far as what the run found out tells.
func (x *cli) same(o *Outcome, got, want *Term) bool {
	e := x.e
	if got == nil {
		got = e.str("")
		if v, ok := e.fact(o.Facts, want); ok && !v {
			return true
		}
	}
	if got == want {
		return true
	}
	if s, ok := got.constStr(); ok {
		is, known, _ := x.strIs(cliRun{o: o}, want)
		return known && is == s
	}
	if got.isTrue() || got.isFalse() {
		v, ok := e.fact(o.Facts, want)
		return ok && v == got.isTrue()
	}
	return false
}

// genConfig: code is generated with the configuration the flags ask for.
func (x *cli) genConfig(name string, r cliRun, ld *loaded, g *Term, std bool) string {
	e, o := x.e, r.o
	var cfg *Term
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term == g {
			cfg = ev.Pre[unbox(g.Args[1])]
		}
	}
	if cfg == nil {
		return "the configuration the code is generated with is not known"
	}
	fs, ok := setFields(cfg)
	if !ok {
		return fmt.Sprintf("the configuration the code is generated with is not known: %v", cfg)
	}
	flag := func(n string) *Term { return e.mk("flag", n) }
	say := func(f string) string {
		if fs[f] == nil {
			return fmt.Sprintf("the code is generated without %s", f)
		}
		return fmt.Sprintf("the code is generated with %s %v", f, fs[f])
	}
	if !x.same(o, fs["PackageName"], flag("pkgname")) {
		return say("PackageName")
	}
	delete(fs, "PackageName")
	if name == "gen gobindings" {
		for f, n := range map[string]string{"FactoryNameSuffix": "suffix", "PrivateFactory": "private"} {
			if !x.same(o, fs[f], flag(n)) {
				return say(f)
			}
			delete(fs, f)
		}
		if fs["TargetSchemaVersion"] != e.fld(ld.sch, "v") {
			return say("TargetSchemaVersion")
		}
		delete(fs, "TargetSchemaVersion")
		for f, w := range map[string]struct{ flag, fn string }{"CuePath": {"path", cuePkg + ".ParsePath"}, "Assignee": {"bind-type", "github.com/dave/dst.NewIdent"}} {
			v := unboxed(fs[f])
			yes, no := x.given(r, w.flag)
			switch {
			case yes && !isZero(v) && v.isCall(w.fn) && v.Args[0] == flag(w.flag):
			case no && isZero(v):
			default:
				return say(f)
			}
			delete(fs, f)
		}
		off := func(n string) (off, on bool) {
			v, ok := e.fact(o.Facts, flag(n))
			return ok && v, ok && !v
		}
		// embed
		dir, file := x.linIsDir(o)
		noembed, embed := off("no-embed")
		p := fs["EmbedPath"]
		switch {
		case isZero(p):
			if !std && !noembed {
				return say("EmbedPath")
			}
		case std || !embed:
			return say("EmbedPath")
		case p.isCall("path/filepath.Base") && x.isLinPath(p.Args[0]):
			if !file {
				return say("EmbedPath")
			}
		default:
			if s, ok := p.constStr(); !ok || s != "*.cue" || !dir {
				return say("EmbedPath")
			}
		}
		delete(fs, "EmbedPath")
		// loading
		nofs, usefs := off("no-fs-func")
		l, m := fs["LoadDir"], fs["CueModName"]
		switch {
		case isZero(l) && isZero(m):
			if why := x.moduleFound(o); !std && !nofs && why != "" {
				return fmt.Sprintf("the code is generated without a function for loading, although there is a module: %s", why)
			}
		case std || !usefs:
			return say("LoadDir")
		default:
			if s, ok := l.constStr(); !ok || s != "." {
				return say("LoadDir")
			}
			if !x.moduleName(o, m) {
				return say("CueModName")
			}
		}
		delete(fs, "LoadDir")
		delete(fs, "CueModName")
	}
	for f, v := range fs {
		if !isZero(v) {
			return say(f)
		}
	}
	return ""
}

// fromSource: the schema of a new lineage is the one in the document given, at
// the path asked for.
func (x *cli) fromSource(name string, r cliRun, v *Term) string {
	e, o := x.e, r.o
	pre := map[*Term]*Term{}
	for _, ev := range o.Events {
		for a, s := range ev.Pre {
			pre[a] = s
		}
	}
	extract := "cuelang.org/go/encoding/openapi.Extract"
	if name == "init jsonschema" {
		extract = "cuelang.org/go/encoding/jsonschema.Extract"
	}
	var ex *Term
	looked, input := false, false
	path := e.mk("flag", "src-subpath")
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		t.walk(func(y *Term) bool {
			if seen[y] {
				return false
			}
			seen[y] = true
			if y.isCall(extract) {
				ex = y
			}
			if y.isCall(cv("LookupPath")) && y.Args[1].isCall(cuePkg+".ParsePath") && y.Args[1].Args[0] == path {
				looked = true
			}
			if x.isInput(r, y) {
				input = true
			}
			if s := pre[y]; s != nil {
				visit(s)
			} else if y.Op == "alloc" {
				for a, s := range o.st.mem {
					if rootAddr(a) == y {
						visit(s)
					}
				}
			}
			return true
		})
	}
	visit(v)
	switch {
	case ex == nil || e.nilness(o, e.mk("ext", "1", ex)) != isNil:
		return "the schema of the new lineage is not the one extracted from a document"
	case !input:
		return "the schema of the new lineage is not extracted from the document given"
	}
	yes, no := x.given(r, "src-subpath")
	if name == "init openapi" {
		if yes && looked || no && !looked {
			return ""
		}
	} else if cfg := pre[unbox(ex.Args[1])]; cfg != nil {
		if fs, ok := setFields(cfg); ok && x.same(o, fs["Root"], path) {
			return ""
		}
	}
	return "the schema of the new lineage is not the one at the path asked for"
}

func unboxed(t *Term) *Term {
	if t == nil {
		return nil
	}
	return unbox(t)
}

// moduleFile is the file a term is the contents of, and the directory it is in.
func moduleFile(t *Term, names ...string) *Term {
	cl, n := t.call()
	if cl == nil || n != 0 || !cl.isCall("os.ReadFile", "io/ioutil.ReadFile") || !cl.Args[0].isCall("path/filepath.Join") {
		return nil
	}
	l := cl.Args[0].Args[0]
	if l.Op != "list" || len(l.Args) != len(names)+1 {
		return nil
	}
	for i, n := range names {
		if s, ok := l.Args[i+1].constStr(); !ok || s != n {
			return nil
		}
	}
	return l.Args[0]
}

// moduleOf is the directory of the module whose name a term is.
func moduleOf(t *Term) (dir *Term, cueMod bool) {
	if cl, n := t.call(); cl != nil && n == 0 && cl.isCall(cv("String")) && cl.Args[0].isCall(cv("LookupPath")) {
		v := cl.Args[0]
		if v.Args[1].Op != "path" || v.Args[1].Sym != "module" || !strings.HasSuffix(v.Args[0].Sym, "Context).CompileBytes") {
			return nil, false
		}
		return moduleFile(v.Args[0].Args[1], "cue.mod", "module.cue"), true
	}
	if t.Op == "call" && strings.HasSuffix(t.Sym, "modfile.ModulePath") {
		return moduleFile(t.Args[0], "go.mod"), false
	}
	return nil, false
}

// moduleFound: the name of a module that the run found and that is not empty.
func (x *cli) moduleFound(o *Outcome) string {
	for _, f := range o.Facts {
		if f.C.Op != "eq" || f.Val {
			continue
		}
		for i, a := range f.C.Args {
			if s, ok := f.C.Args[1-i].constStr(); ok && s == "" {
				if d, _ := moduleOf(a); d != nil {
					return a.String()
				}
			}
		}
	}
	return ""
}

// moduleName: the term is the name of the module, with the way from its
// directory to the lineage's appended if it is a CUE module.
func (x *cli) moduleName(o *Outcome, t *Term) bool {
	if t == nil {
		return false
	}
	if t.isCall("path/filepath.ToSlash") {
		t = t.Args[0]
	}
	var rel *Term
	if t.isCall("path.Join") || t.isCall("path/filepath.Join") {
		l := t.Args[0]
		if l.Op != "list" || len(l.Args) != 2 {
			return false
		}
		t, rel = l.Args[0], l.Args[1]
		if rel.isCall("path/filepath.ToSlash") {
			rel = rel.Args[0]
		}
	}
	if t.Op == "loopmem" || t.Op == "loop" {
		return rel == nil // found in an earlier round: the module of the Go package
	}
	dir, cueMod := moduleOf(t)
	if dir == nil {
		return false
	}
	if is, known, _ := x.strIs(cliRun{o: o}, dir); known && is == "" {
		return true // no directory is called that
	}
	if rel != nil {
		cl, n := rel.call()
		return cueMod && cl != nil && n == 0 && cl.isCall("path/filepath.Rel") && cl.Args[0] == dir && x.isLinDir(o, cl.Args[1])
	}
	if !cueMod {
		return true
	}
	// nothing to append
	for _, f := range o.Facts {
		if f.C.Op == "eq" && f.Val {
			for i, a := range f.C.Args {
				if s, ok := f.C.Args[1-i].constStr(); ok && s == "." {
					if cl, n := a.call(); cl != nil && n == 0 && cl.isCall("path/filepath.Rel") && cl.Args[0] == dir && x.isLinDir(o, cl.Args[1]) {
						return true
					}
				}
				if s, ok := f.C.Args[1-i].constStr(); ok && s == "" && a == t {
					return true
				}
			}
		}
	}
	return false
}

func ruleT29(c *Ctx) {
	x := c.cliTree()
	if x == nil {
		return
	}
	n := 0
	for _, k := range x.order {
		runs := x.runs(k)
		ls, fn := x.loads(k, runs)
		if fn != nil {
			x.loadCommand(k, fn, ls)
			n++
		}
		x.flagUse(k, runs, ls)
	}
	x.flagVars()
	x.lineageSources()
	if n == 0 {
		c.failAt("vacuous", "thema", "no command loads a lineage")
	}
	c.accountCLI(x)
}

// norm writes paths below a directory that were made relative to it and joined
// to it again as what they were.
func (x *cli) norm(o *Outcome, t *Term) *Term {
	e := x.e
	rel := func(t *Term) (base, of *Term) {
		cl, n := t.call()
		if cl == nil || n != 0 || !cl.isCall("path/filepath.Rel") {
			return nil, nil
		}
		return cl.Args[0], cl.Args[1]
	}
	switch {
	case t.isCall("path/filepath.Join") && t.Args[0].Op == "list" && len(t.Args[0].Args) == 2:
		root, sub := t.Args[0].Args[0], t.Args[0].Args[1]
		dir := false
		if sub.isCall("path/filepath.Dir") {
			dir, sub = true, sub.Args[0]
		}
		if b, of := rel(sub); b != nil && b == root {
			of = x.norm(o, of)
			if dir {
				return e.mk("call", "path/filepath.Dir", of)
			}
			return of
		}
	case t.isCall("path/filepath.Base"):
		if b, of := rel(t.Args[0]); b != nil {
			return e.mk("call", "path/filepath.Base", x.norm(o, of))
		}
	}
	return t
}

// loadCommand checks the ways loading the lineage for a command may go.
func (x *cli) loadCommand(k *cliCmd, fn *ssa.Function, ls []loadRun) {
	c, e := x.c, x.e
	where := "thema " + k.path()
	ver := e.str("")
	for _, f := range k.allFlags() {
		if f.name == "version" || f.name == "to" {
			ver = f.val
		}
	}
	flag := func(n string) *Term { return e.mk("flag", n) }
	hasPath := false
	for _, f := range k.allFlags() {
		hasPath = hasPath || f.name == "path"
	}
	x.gather(where, ls)
	done, failed, bound := 0, 0, 0
	for _, l := range ls {
		o := l.o
		bad := func(rule, format string, a ...any) {
			c.fail(rule, o.Pos, o.Fn, e, o, where+": "+format, a...)
		}
		if e.contradictsContract(o) {
			continue
		}
		// there may be no instance
		for _, ev := range o.Events {
			if ev.Kind != evBound || ev.NFact > len(o.Facts) {
				continue
			}
			for _, cond := range ev.Args {
				of := false
				cond.walk(func(y *Term) bool {
					of = of || y.Op == "len" && x.instLoops[y.Args[0]] && !y.Args[0].isCall("cuelang.org/go/cue/load.Instances")
					return !of
				})
				if of && !e.implied(o.Facts[:ev.NFact], cond, true) {
					bad("load", "there may be no instance to take: %v is not established", cond)
				}
			}
		}
		// what is bound
		for _, ev := range o.Events {
			if ev.Kind != evCall || !ev.Term.isCall("thema.BindLineage", modPath+".BindLineage") {
				continue
			}
			if k.name == "fix" {
				bad("spurious", "a legacy lineage is bound, which fails, before it is rewritten")
				continue
			}
			v := ev.Term.Args[0]
			given, not := x.given(cliRun{o: o}, "path")
			if v.isCall(cv("LookupPath")) {
				p := v.Args[1]
				if !p.isCall(cuePkg+".ParsePath") || p.Args[0] != flag("path") || !given {
					bad("bind", "the lineage that is bound is the one at %v", p)
					continue
				}
				v = v.Args[0]
			} else if hasPath && !not {
				bad("bind", "the lineage that is bound is not the one at the path given")
				continue
			}
			if !strings.HasSuffix(v.Sym, "Context).BuildInstance") || !x.isInstance(v.Args[1]) {
				bad("bind", "what is bound is not what was loaded: %v", v)
				continue
			}
			if in := v.Args[1]; o.Kind == outBack && len(in.Args) == 2 && in.Args[1].isConst() {
				bad("bind", "the same instance is bound for each that was loaded")
				continue
			}
			bound++
		}
		switch o.Kind {
		case outBack:
			x.pick(o, bad)
			continue
		case outReturn:
		default:
			continue
		}
		err := o.Vals[len(o.Vals)-1]
		if st := e.nilness(o, err); st != isNil {
			if st == mayNil && !x.mayFail(o, err) {
				bad("result", "whether loading failed is not known: %v", err)
			} else if !x.loadCause(o, err) {
				bad("spurious", "loading the lineage fails although nothing went wrong")
			} else {
				failed++
			}
			if st != mayNil {
				continue
			}
		}
		if problem := x.loadResult(k, o, ver); problem != "" {
			bad("result", "%s", problem)
			continue
		}
		if problem := x.instances(o); problem != "" {
			bad("load", "%s", problem)
			continue
		}
		done++
	}
	c.ok("the lineage and schema a command works with are the ones the flags name", where, done)
	c.ok("loading a lineage fails for a reason", where, failed)
	c.ok("what is bound as a lineage is what was loaded, at the path given", where, bound)
	if done == 0 || failed == 0 || bound == 0 && k.name != "fix" {
		c.failAt("vacuous", where, "loading the lineage was not understood")
	}
}

// isInstance: the term is one of the instances that were loaded.
func (x *cli) isInstance(t *Term) bool {
	if t.Op != "index" && t.Op != "elem" && len(t.Args) == 0 {
		return false
	}
	found := false
	t.walk(func(y *Term) bool {
		if x.instList(y) {
			found = true
		}
		return !found
	})
	return found
}

// instList: the term is a list of instances that were loaded.
func (x *cli) instList(t *Term) bool {
	return t.isCall("cuelang.org/go/cue/load.Instances") || x.instLoops[t]
}

// gather checks the loops that put together the instances to use from those
// that were loaded.
func (x *cli) gather(where string, ls []loadRun) {
	e := x.e
	x.instLoops = map[*Term]bool{}
	for _, l := range ls {
		o := l.o
		if o.Kind != outBack || e.contradictsContract(o) {
			continue
		}
		bad := func(format string, a ...any) {
			x.c.fail("load", o.Pos, o.Fn, e, o, where+": "+format, a...)
		}
		for phi, now := range o.PhiNew {
			sl, ok := phi.Type().Underlying().(*types.Slice)
			if !ok || sl.Elem().String() != "*cuelang.org/go/cue/build.Instance" {
				continue
			}
			was := o.PhiOld[phi]
			// the instance this iteration is about
			var elem, list *Term
			find := func(t *Term) {
				t.walk(func(y *Term) bool {
					if (y.Op == "index" || y.Op == "elem") && y.Args[0].isCall("cuelang.org/go/cue/load.Instances") && elem == nil {
						elem, list = y, y.Args[0]
					}
					return elem == nil
				})
			}
			find(now)
			for _, f := range o.Facts {
				find(f.C)
			}
			for _, ev := range o.Events {
				if ev.Kind == evCall && ev.Term.isCall("cuelang.org/go/cue/load.Instances") {
					for _, f := range ev.Pre {
						find(f)
					}
				}
			}
			if elem == nil {
				continue
			}
			x.instLoops[was], x.instLoops[list] = true, true
			switch {
			case now == was:
				noErr, empty := false, false
				for _, f := range o.Facts {
					if s := nilOf(f); s != nil && f.Val && fieldIs(s, elem, "Err") {
						noErr = true
					}
				}
				for _, f := range o.Facts {
					f.C.walk(func(y *Term) bool {
						if y.Op == "len" && fieldIs(y.Args[0], elem, "Files") {
							empty = empty || e.implied(o.Facts, e.mk("lt", "", y, e.int(1)), true)
						}
						return true
					})
				}
				if !noErr || !empty {
					bad("an instance that was loaded is left out")
				}
			case now.Op == "append" && now.Args[0] == was && now.Args[1] == e.mk("list", "", elem):
				if x.wildcard(o, list) && !x.unnamed(o, elem) {
					bad("the imports of a package found through a wildcard are not loaded")
				}
			case now.Op == "append" && now.Args[0] == was && now.Args[1].isCall("cuelang.org/go/cue/load.Instances"):
				if problem := x.reload(o, list, now.Args[1], elem); problem != "" {
					bad("%s", problem)
				}
			default:
				bad("the instances used are not the ones loaded: %v", now)
			}
		}
	}
}

// fieldIs: the term is a field of what another one is or points to.
func fieldIs(t, of *Term, field string) bool {
	return len(t.Args) == 1 && t.Sym == field && t.Args[0] == of
}

// wildcard: all packages in a directory are loaded.
func (x *cli) wildcard(o *Outcome, load *Term) bool {
	if a := load.Args[0]; a.Op == "list" && len(a.Args) > 0 {
		if s, ok := a.Args[0].constStr(); !ok || s != "." {
			return false // a file
		}
	}
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term == load {
			if cfg := ev.Pre[unbox(load.Args[1])]; cfg != nil {
				fs, _ := setFields(cfg)
				if p := fs["Package"]; p != nil {
					s, ok := p.constStr()
					return !ok || s == "*"
				}
			}
		}
	}
	return false
}

// unnamed: an instance is not a package with a name, or could not be loaded.
func (x *cli) unnamed(o *Outcome, elem *Term) bool {
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil && !f.Val && fieldIs(s, elem, "Err") {
			return true
		}
		if f.C.Op != "eq" || !f.Val {
			continue
		}
		for i, a := range f.C.Args {
			if s, ok := f.C.Args[1-i].constStr(); ok && s == "_" && fieldIs(a, elem, "PkgName") {
				return true
			}
		}
	}
	return false
}

// reload: a package that was found is loaded again by its name.
func (x *cli) reload(o *Outcome, first, again, elem *Term) string {
	conf := map[*Term]*Term{}
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term.isCall("cuelang.org/go/cue/load.Instances") {
			conf[ev.Term] = ev.Pre[unbox(ev.Term.Args[1])]
		}
	}
	if conf[first] == nil || conf[again] == nil || first.Args[0] != again.Args[0] {
		return "something else is loaded in place of a package that was found"
	}
	if dir, _ := x.linIsDir(o); !dir {
		return "a package is loaded although a file is given"
	}
	was, ok := setFields(conf[first])
	if !ok {
		return "it is not known how the lineage is loaded"
	}
	now := map[string]*Term{}
	t := conf[again]
	for t.Op == "upd" {
		if now[t.Sym] == nil {
			now[t.Sym] = t.Args[1]
		}
		t = t.Args[0]
	}
	// loading does not change the configuration
	if !(t.Op == "out" && len(t.Args) == 1 && t.Args[0] == first) && t != conf[first] && t.Op != "zero" {
		return fmt.Sprintf("a package is loaded in another way than it was found: %v", t)
	}
	if t.Op != "zero" {
		for k, v := range was {
			if now[k] == nil {
				now[k] = v
			}
		}
	}
	if p := now["Package"]; p == nil || !fieldIs(p, elem, "PkgName") {
		return fmt.Sprintf("package %v is loaded in place of one that was found", p)
	}
	for _, k := range []string{"Dir", "ModuleRoot", "Module", "Overlay"} {
		if now[k] != was[k] {
			return "a package is loaded in another way than it was found: " + k
		}
	}
	return ""
}

// mayFail: an error that is passed on as it is.
func (x *cli) mayFail(o *Outcome, err *Term) bool { return isErr(err) }

// loadCause is why loading failed.
func (x *cli) loadCause(o *Outcome, err *Term) bool {
	e := x.e
	if cl, _ := err.call(); cl != nil && !cl.isCall("fmt.Errorf", "errors.New") && isErr(err) {
		return true
	}
	if err.Op == "loopmem" || err.Op == "loop" || err.Op == "field" || err.Op == "fld" {
		return true
	}
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil {
			if !f.Val && isErr(s) {
				return true
			}
			continue
		}
		if f.C.Op == "call" && f.C.isCall(cv("Exists")) && !f.Val {
			return true
		}
		if f.C.Op != "eq" || !f.Val {
			continue
		}
		for i, a := range f.C.Args {
			b := f.C.Args[1-i]
			if z, ok := b.constInt(); ok && z == 0 && a.Op == "len" && x.instList(a.Args[0]) {
				return true
			}
		}
	}
	if is, known, _ := x.strIs(cliRun{o: o}, e.mk("flag", "lineage")); known && is == "" {
		return true
	}
	// two lineages
	lins := 0
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil && !f.Val && s.T != nil && s.T.String() == modPath+".Lineage" {
			lins++
		}
	}
	return lins >= 2
}

// loadResult: the lineage is one that was bound, and the schema the one the version names.
func (x *cli) loadResult(k *cliCmd, o *Outcome, ver *Term) string {
	e := x.e
	res := unbox(o.Vals[0])
	var n *types.Named
	t := o.Fn.Signature.Results().At(0).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		res = o.st.load(e, res, t)
	}
	n, _ = types.Unalias(t).(*types.Named)
	if n == nil {
		return "what is loaded is not known"
	}
	lf, sf := loaderFields(n)
	lin, sch := e.fld(res, lf), e.fld(res, sf)
	if isZero(lin) {
		if k.name == "fix" || x.noLineage(o) {
			return ""
		}
		return "loading succeeds without a lineage"
	}
	// the lineage is one
	ok := e.nilness(o, lin) == notNil
	if cl, i := lin.call(); cl != nil && i == 0 && e.nilness(o, e.mk("ext", "1", cl)) == isNil {
		ok = true
	}
	if !ok {
		if base, typ := fieldBase(lin); base != nil {
			for _, f := range o.Facts {
				if s := nilOf(f); s != nil && f.Val {
					if b, t := fieldBase(s); b == base && t != typ && isErr(s) {
						ok = true
					}
				}
			}
		}
	}
	if !ok {
		return fmt.Sprintf("loading succeeds although the lineage may not have been bound: %v", lin)
	}
	is, known, not := x.strIs(cliRun{o: o}, ver)
	if s, c := ver.constStr(); c {
		is, known = s, true
	}
	if sch == e.mk("call", "Lineage.Latest", lin) {
		if known && is == "" {
			return ""
		}
		return "the schema is the latest although a version may be given"
	}
	cl, i := sch.call()
	if cl != nil && i == 0 && cl.isCall("Lineage.Schema") && cl.Args[0] == lin && e.nilness(o, e.mk("ext", "1", cl)) == isNil {
		pv, j := cl.Args[1].call()
		if pv != nil && j == 0 && strings.HasSuffix(pv.Sym, "ParseSyntacticVersion") && pv.Args[0] == ver && e.nilness(o, e.mk("ext", "1", pv)) == isNil {
			if known && is == "" {
				return "without a version, the schema is not the latest"
			}
			_ = not
			return ""
		}
	}
	return fmt.Sprintf("the schema is %v", sch)
}

// noLineage: the run needs binding to have given neither a lineage nor an error.
func (x *cli) noLineage(o *Outcome) bool {
	for _, f := range o.Facts {
		if s := nilOf(f); s != nil && f.Val && isErr(s) {
			if b, _ := fieldBase(s); b != nil {
				return true
			}
		}
	}
	return false
}

// fieldBase is the struct a term is a field of, and the field.
func fieldBase(t *Term) (base *Term, field string) {
	if t.Op == "loopmem" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	switch t.Op {
	case "faddr", "fld", "field":
		return t.Args[0], t.Sym
	}
	return nil, ""
}

// pick: of the instances loaded, only one may be a lineage.
func (x *cli) pick(o *Outcome, bad func(string, string, ...any)) {
	e := x.e
	lineage := func(t types.Type) bool { return t.String() == modPath+".Lineage" }
	for phi, now := range o.PhiNew {
		was := o.PhiOld[phi]
		if !lineage(phi.Type()) || now == was {
			continue
		}
		if e.nilness(o, was) != isNil {
			bad("pick", "one lineage replaces another one found before it")
		}
	}
	// a lineage and its error are kept together
	for a, v := range o.st.mem {
		cl, i := v.call()
		if cl == nil || i != 0 || a.Op != "faddr" || !strings.HasSuffix(cl.Sym, "BindLineage") {
			continue
		}
		ok := false
		for b, w := range o.st.mem {
			if b.Op == "faddr" && b.Args[0] == a.Args[0] && w == e.mk("ext", "1", cl) {
				ok = true
			}
			if b.Op == "faddr" && b.Args[0] == a.Args[0] && w.isNil() && e.nilness(o, v) == notNil {
				ok = true
			}
		}
		if !ok {
			bad("pick", "a lineage is kept without the error binding it gave")
		}
	}
}

// instances: what is loaded is the file or directory given, with thema's own
// CUE files in place.
func (x *cli) instances(o *Outcome) string {
	e := x.e
	var call *Term
	var cfg *Term
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term.isCall("cuelang.org/go/cue/load.Instances") {
			if call != nil {
				return "instances are loaded twice"
			}
			call, cfg = ev.Term, ev.Pre[unbox(ev.Term.Args[1])]
		}
	}
	if call == nil || cfg == nil {
		return "nothing is loaded, or it is not known how"
	}
	fs, ok := setFields(cfg)
	if !ok {
		return fmt.Sprintf("it is not known how the lineage is loaded: %v", cfg)
	}
	dir, file := x.linIsDir(o)
	if x.wildcard(o, call) && !x.instLoops[call] {
		return "the imports of a package found through a wildcard are not loaded"
	}
	args := call.Args[0]
	switch {
	case args.isNil() || args.Op == "zero" || args.Op == "list" && len(args.Args) == 0:
		if !dir {
			return "the file given is not what is loaded"
		}
	case args.Op == "list" && len(args.Args) == 1:
		a := x.norm(o, args.Args[0])
		if s, ok := a.constStr(); ok && s == "." {
			if !dir {
				return "the file given is not what is loaded"
			}
		} else if x.isLinPath(a) || a.isCall("path/filepath.Base") && x.isLinPath(a.Args[0]) {
			if !file {
				return "the directory given is not what is loaded"
			}
		} else {
			return fmt.Sprintf("what is loaded is %v", a)
		}
	default:
		return fmt.Sprintf("what is loaded is %v", args)
	}
	if fs["Dir"] == nil || !x.isLinDir(o, x.norm(o, fs["Dir"])) {
		return fmt.Sprintf("the lineage is loaded in %v", fs["Dir"])
	}
	root := fs["ModuleRoot"]
	if root == nil {
		return "the lineage is loaded without a module root"
	}
	overlay := fs["Overlay"]
	if overlay == nil || overlay.isNil() {
		return "the lineage is loaded without thema's own CUE files"
	}
	inThema := false
	for _, f := range o.Facts {
		if f.C.Op != "eq" || !f.Val {
			continue
		}
		for i, a := range f.C.Args {
			if s, ok := f.C.Args[1-i].constStr(); ok && s == modPath {
				if d, cueMod := moduleOf(a); d == root && cueMod {
					inThema = true
				}
			}
		}
	}
	if !inThema {
		found := false
		for _, ev := range o.Events {
			if ev.Kind != evCall || !strings.HasSuffix(ev.Term.Sym, "util.ToOverlay") {
				continue
			}
			a := ev.Term.Args
			if a[2] != overlay || e.nilness(o, ev.Term) != isNil || unbox(a[1]) == nil || !strings.HasSuffix(unbox(a[1]).Sym, modPath+".CueFS") {
				continue
			}
			if x.joined(a[0]) == x.joined(e.mk("call", "path/filepath.Join", e.mk("list", "", root, e.str("cue.mod/pkg/"+modPath)))) {
				found = true
			}
		}
		if !found {
			return "the lineage is loaded without thema's own CUE files"
		}
	}
	// the module is the one found, or one made up
	if m := fs["Module"]; m != nil && !isZero(m) {
		if d, cueMod := moduleOf(m); d != root || !cueMod {
			return fmt.Sprintf("the lineage is loaded in module %v at %v", m, root)
		}
		return ""
	}
	if !x.isLinDir(o, x.norm(o, root)) {
		return fmt.Sprintf("the lineage is loaded in a module at %v", root)
	}
	for _, ev := range o.Events {
		if ev.Kind == evMap && ev.Args[0] == overlay && x.joined(ev.Args[1]) == x.joined(e.mk("call", "path/filepath.Join", e.mk("list", "", root, e.str("cue.mod/module.cue")))) {
			return ""
		}
	}
	return "the lineage is loaded without a module, and none is made up"
}

// joined are the elements of a path, the constant ones with slashes.
func (x *cli) joined(t *Term) *Term {
	e := x.e
	var parts []*Term
	text := ""
	flush := func() {
		if text != "" {
			parts = append(parts, e.str(text))
			text = ""
		}
	}
	var add func(t *Term)
	add = func(t *Term) {
		if t.isCall("path/filepath.Join") || t.isCall("path.Join") {
			if l := t.Args[0]; l.Op == "list" {
				for _, a := range l.Args {
					add(a)
				}
				return
			}
		}
		if t.isCall("path/filepath.FromSlash") {
			add(t.Args[0])
			return
		}
		if s, ok := t.constStr(); ok {
			if text != "" {
				text += "/"
			}
			text += strings.Trim(s, "/")
			return
		}
		flush()
		parts = append(parts, t)
	}
	add(t)
	flush()
	return e.mk("list", "", parts...)
}

// lineageSources: every lineage in the program was bound from what was loaded.
func (x *cli) lineageSources() {
	c := x.c
	lineage := func(t types.Type) bool { return t.String() == modPath+".Lineage" }
	n := 0
	for _, fn := range c.p.allFuncs() {
		if fnPkgPath(fn) != cliPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !lineage(v.Type()) {
					continue
				}
				src := ""
				switch v := v.(type) {
				case *ssa.Extract:
					if call, ok := v.Tuple.(*ssa.Call); ok {
						if f := call.Call.StaticCallee(); f != nil && (fnPkgPath(f) == cliPkg || f.Name() == "BindLineage" && fnPkgPath(f) == modPath) {
							n++
							continue
						}
						src = call.Call.String()
					}
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f != nil && fnPkgPath(f) == cliPkg {
						n++
						continue
					}
					if v.Call.IsInvoke() && v.Call.Method.Name() == "Lineage" {
						n++
						continue
					}
					src = v.Call.String()
				case *ssa.UnOp, *ssa.Phi, *ssa.Field, *ssa.Parameter, *ssa.Index, *ssa.Lookup:
					n++
					continue
				default:
					src = v.String()
				}
				c.fail("source", in.Pos(), fn, nil, nil, "a lineage that was not bound from what was loaded: %s", src)
			}
		}
	}
	c.ok("every lineage the commands work with was bound from what was loaded", "cmd/thema", n)
}

// flagVars: no two flags interfere with each other.
func (x *cli) flagVars() {
	c := x.c
	type use struct {
		k *cliCmd
		f *cliFlag
	}
	by := map[*Term][]use{}
	n := 0
	for _, k := range x.order {
		for _, f := range k.flags {
			for _, u := range by[f.ptr] {
				n++
				if u.f.def != f.def {
					c.fail("flags", f.event.Pos, f.event.Fn, nil, nil, "--%s of thema %s and --%s of thema %s set the same variable, but default to %v and %v", u.f.name, u.k.path(), f.name, k.path(), u.f.def, f.def)
				}
			}
			by[f.ptr] = append(by[f.ptr], use{k, f})
		}
		names, vars := map[string]bool{}, map[*Term]string{}
		for _, f := range k.allFlags() {
			n++
			if other, ok := vars[f.ptr]; ok && other != f.name {
				c.fail("flags", f.event.Pos, f.event.Fn, nil, nil, "thema %s: --%s and --%s set the same variable", k.path(), other, f.name)
			}
			vars[f.ptr] = f.name
			for _, s := range []string{f.name, "-" + f.short} {
				if s == "-" {
					continue
				}
				if names[s] {
					c.fail("flags", f.event.Pos, f.event.Fn, nil, nil, "thema %s: there are two flags -%s", k.path(), s)
				}
				names[s] = true
			}
		}
	}
	c.ok("flags do not interfere with each other", "cmd/thema", n)
}

// flagUse: every flag of a command has a say in some run of it.
func (x *cli) flagUse(k *cliCmd, runs []cliRun, ls []loadRun) {
	c := x.c
	if len(runs) == 0 {
		return
	}
	hidden := x.st.load(x.e, x.e.mk("faddr", "Hidden", k.obj), anyType)
	if hidden.isTrue() {
		return
	}
	used := map[*Term]bool{}
	seen := map[*Term]bool{}
	note := func(t *Term) {
		if t != nil {
			t.walk(func(y *Term) bool {
				if seen[y] {
					return false
				}
				seen[y] = true
				if y.Op == "flag" {
					used[y] = true
				}
				return true
			})
		}
	}
	look := func(o *Outcome) {
		for _, f := range o.Facts {
			note(f.C)
		}
		for _, ev := range o.Events {
			if ev.Kind == evStore {
				note(ev.Args[1])
			}
			if ev.Kind == evCall {
				note(ev.Term)
				if !x.loaders[ev.Term.Sym] {
					for _, v := range ev.Pre {
						note(v)
					}
				}
			}
		}
	}
	for _, r := range runs {
		look(r.o)
	}
	for _, l := range ls {
		look(l.o)
	}
	n := 0
	for _, f := range k.allFlags() {
		if used[f.val] || k.path() == "lineage gen gotypes" && f.name == "quiet" {
			n++ // gotypes prints nothing in any case
			continue
		}
		c.fail("flags", f.event.Pos, f.event.Fn, nil, nil, "--%s of thema %s changes nothing", f.name, k.path())
	}
	c.ok("every flag has a say", "thema "+k.path(), n)
}
