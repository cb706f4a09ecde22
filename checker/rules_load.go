package main

import (
	"go/ast"
	"go/types"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ruleT25(c *Ctx) {
	fns := c.overlayFuncs()
	if len(fns) == 0 {
		c.failAt("anchor", "ToOverlay", "no function copies a file system into an overlay")
		return
	}
	for _, fn := range fns {
		c.overlay(fn)
	}
	c.instanceLoader()
	c.packageOption()
	c.unwraps()
	c.asModFS()
	c.newRuntime()
	c.embedded()
}

// overlayFuncs are the module's functions (prefix, fs.FS, overlay) error.
func (c *Ctx) overlayFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.allFuncs() {
		if fn.Parent() == nil && fn.Blocks != nil && isOverlaySig(fn.Signature) && !strings.Contains(fnPkgPath(fn), "txtar") {
			out = append(out, fn)
		}
	}
	return out
}

func isOverlaySig(sig *types.Signature) bool {
	if sig.Params().Len() != 3 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return false
	}
	return sig.Params().At(0).Type().String() == "string" && sig.Params().At(1).Type().String() == "io/fs.FS" &&
		sig.Params().At(2).Type().String() == "map[string]"+cuePkg+"/load.Source" && sig.Results().At(0).Type().String() == "error"
}

// overlay: every file of the file system is put under the prefix, unchanged, or an error is returned.
func (c *Ctx) overlay(fn *ssa.Function) {
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			c.fail("overlay", o.Pos, fn, e, o, "building the overlay may panic")
		case outReturn:
			walk, cl := c.walkDir(e, o, ps[1])
			switch e.nilness(o, o.Vals[0]) {
			case notNil:
				abs, known := e.fact(o.Facts, e.mk("call", "path/filepath.IsAbs", ps[0]))
				if walk != nil && e.nilness(o, walk) == notNil || known && !abs {
					c.ok("overlay errors follow from a relative prefix or a failed walk", fname(fn), 1)
				} else {
					c.fail("overlay", o.Pos, fn, e, o, "an overlay is refused for no reason")
				}
				continue
			case mayNil:
				if walk == nil || o.Vals[0] != walk {
					c.fail("overlay", o.Pos, fn, e, o, "the result is not decided: %v", o.Vals[0])
					continue
				}
			case isNil:
				if walk == nil || e.nilness(o, walk) != isNil {
					c.fail("overlay", o.Pos, fn, e, o, "an overlay is reported complete without a walk over all files having succeeded")
					continue
				}
			}
			if root, ok := walk.Args[1].constStr(); !ok || root != "." {
				c.fail("overlay", o.Pos, fn, e, o, "the walk does not start at the root of the file system: %v", walk.Args[1])
			}
			c.overlayStep(fn, e, o, cl, ps)
		}
	}
}

// walkDir finds the walk over the file system on the trace.
func (c *Ctx) walkDir(e *Engine, o *Outcome, vfs *Term) (walk, cl *Term) {
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term.isCall("io/fs.WalkDir") && unbox(ev.Term.Args[0]) == unbox(vfs) {
			if k := closureOf(ev.Term.Args[2]); k != nil {
				walk, cl = ev.Term, k
			}
		}
	}
	return
}

func (c *Ctx) overlayStep(fn *ssa.Function, e *Engine, o *Outcome, cl *Term, ps []*Term) {
	outs := c.runClosure(e, o, cl)
	cp := e.paramTerms(cl.Fn)
	if len(cp) != 3 {
		c.failAt("anchor", fname(cl.Fn), "the walk's callback takes %d arguments", len(cp))
		return
	}
	path, d, werr := cp[0], cp[1], cp[2]
	put := 0
	for _, io := range outs {
		if io.Kind == outPanic {
			c.fail("overlay", io.Pos, cl.Fn, e, io, "building the overlay may panic")
			continue
		}
		if io.Kind != outReturn {
			continue
		}
		var puts []Event
		for _, ev := range io.Events {
			if ev.Kind == evMap {
				puts = append(puts, ev)
			}
		}
		switch e.nilness(io, io.Vals[0]) {
		case notNil:
			if !c.failedStep(e, io) && e.nilness(io, werr) != notNil {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "a file is refused for no reason: %v", io.Vals[0])
				continue
			}
			c.ok("errors of the walk follow from a failed step", fname(cl.Fn), 1)
		case isNil:
			if e.nilness(io, werr) != isNil {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "an error of the walk is ignored")
				continue
			}
			if dir, ok := c.isDir(e, io, d); ok && dir {
				if len(puts) > 0 {
					c.fail("overlay", io.Pos, cl.Fn, e, io, "a directory is put into the overlay")
				}
				c.ok("directories are skipped", fname(cl.Fn), 1)
				continue
			}
			if t := c.undecidedErr(e, io); t != nil {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "an error is ignored: %v", t)
				continue
			}
			if len(puts) != 1 {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "a file may be left out of the overlay")
				continue
			}
			k, v := puts[0].Args[1], unbox(puts[0].Args[2])
			if !isJoin(e, k, ps[0], path) {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "a file is put at %v instead of prefix/path", k)
				continue
			}
			if m := puts[0].Args[0]; m != ps[2] {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "a file is put into another map: %v", m)
				continue
			}
			if !v.isCall(cuePkg+"/load.FromBytes", cuePkg+"/load.FromString") || !c.contentOf(v.Args[0], ps[1], path) {
				c.fail("overlay", io.Pos, cl.Fn, e, io, "what is put into the overlay is not the content of the file: %v", v)
				continue
			}
			put++
			c.ok("each file is put under the prefix with its own content", fname(cl.Fn), 1)
		default:
			c.fail("overlay", io.Pos, cl.Fn, e, io, "the result is not decided: %v", io.Vals[0])
		}
	}
	if put == 0 {
		c.fail("overlay", fnPos(cl.Fn), cl.Fn, nil, nil, "no file is ever put into the overlay")
	}
}

// contentOf: the whole content of the file at path.
func (c *Ctx) contentOf(t, vfs, path *Term) bool {
	t = unconvert(t)
	if t.Op != "ext" || t.Sym != "0" {
		return false
	}
	r := t.Args[0]
	if r.isCall("io/fs.ReadFile") {
		return unbox(r.Args[0]) == unbox(vfs) && r.Args[1] == path
	}
	if !r.isCall("io.ReadAll", "io/ioutil.ReadAll") {
		return false
	}
	f := unbox(r.Args[0])
	if f.Op != "ext" || f.Sym != "0" {
		return false
	}
	return f.Args[0].isCall("invoke io/fs.FS.Open") && unbox(f.Args[0].Args[0]) == unbox(vfs) && f.Args[0].Args[1] == path
}

func unconvert(t *Term) *Term {
	for t.Op == "conv" || t.Op == "box" {
		t = t.Args[0]
	}
	return t
}

func (c *Ctx) isDir(e *Engine, o *Outcome, d *Term) (bool, bool) {
	for _, f := range o.Facts {
		if f.C.Op == "call" && strings.HasSuffix(f.C.Sym, "DirEntry.IsDir") && f.C.Args[0] == d {
			return f.Val, true
		}
	}
	return false, false
}

func isJoin(e *Engine, t *Term, parts ...*Term) bool {
	t = unslash(t)
	if !t.isCall("path/filepath.Join", "path.Join") || t.Args[0].Op != "list" || len(t.Args[0].Args) != len(parts) {
		return false
	}
	for i, p := range parts {
		if unslash(t.Args[0].Args[i]) != unslash(p) {
			return false
		}
	}
	return true
}

func unslash(t *Term) *Term {
	for t.isCall("path/filepath.FromSlash", "path/filepath.ToSlash", "path/filepath.Clean") {
		t = t.Args[0]
	}
	return t
}

// failedStep: some call on the trace is known to have failed.
func (c *Ctx) failedStep(e *Engine, o *Outcome) bool {
	for _, f := range o.Facts {
		if t := nilOf(f); t != nil && !f.Val && e.isErrTerm(t) {
			return true
		}
	}
	return false
}

// isErrTerm: the value is an error some call returned.
func (e *Engine) isErrTerm(t *Term) bool {
	if t.T != nil {
		return t.T.String() == "error" || strings.HasSuffix(t.T.String(), "cue/errors.Error")
	}
	return false
}

// undecidedErr finds a call on the trace that returned an error nobody looked at.
func (c *Ctx) undecidedErr(e *Engine, o *Outcome) *Term {
	for _, ev := range o.Events {
		if ev.Kind != evCall || ev.Instr == nil {
			continue
		}
		if t := c.errOf(e, ev); t != nil && e.nilness(o, t) != isNil {
			return t
		}
	}
	return nil
}

// errOf is the error result of the call an event records, if it has one.
func (c *Ctx) errOf(e *Engine, ev Event) *Term {
	ci, ok := ev.Instr.(*ssa.Call)
	if !ok {
		return nil
	}
	res := ci.Call.Signature().Results()
	n := res.Len()
	if n == 0 || res.At(n-1).Type().String() != "error" {
		return nil
	}
	if n == 1 {
		return ev.Term
	}
	return e.mk("ext", strconv.Itoa(n-1), ev.Term)
}

// overlaid: a call that copied a file system into an overlay and succeeded.
type overlaid struct{ prefix, vfs, overlay *Term }

func (c *Ctx) filledOverlays(e *Engine, o *Outcome) []overlaid {
	var out []overlaid
	for _, ev := range o.Events {
		if ev.Kind != "ret" || len(ev.Args) != 1 || len(ev.Term.Args) != 3 {
			continue
		}
		ok := false
		for _, fn := range c.overlayFuncs() {
			if fname(fn) == ev.Term.Sym {
				ok = true
			}
		}
		if ok && e.nilness(o, ev.Args[0]) == isNil {
			out = append(out, overlaid{ev.Term.Args[0], unbox(ev.Term.Args[1]), ev.Term.Args[2]})
		}
	}
	return out
}

func isGlobal(t *Term, name string) bool {
	t = unbox(t)
	return t.Op == "gval" && t.Sym == modPath+"."+name
}

const themaDep = "cue.mod/pkg/github.com/grafana/thema"

// themaDepPath: the path at which CUE looks for thema as a dependency.
func themaDepPath(e *Engine, c *Ctx, t *Term) bool {
	s, ok := c.pathText(e, t)
	return ok && s == themaDep
}

// pathText evaluates a path made of constants, with slashes.
func (c *Ctx) pathText(e *Engine, t *Term) (string, bool) {
	t = unslash(t)
	if s, ok := t.constStr(); ok {
		return strings.Trim(s, "/"), true
	}
	if t.isCall("path/filepath.Join", "path.Join") && t.Args[0].Op == "list" {
		var parts []string
		for _, a := range t.Args[0].Args {
			s, ok := c.pathText(e, a)
			if !ok {
				return "", false
			}
			parts = append(parts, s)
		}
		return strings.Join(parts, "/"), true
	}
	if t.Op == "gval" {
		// a package variable that is written once, by its initialiser
		if s, ok := c.p.globalText(t.Sym); ok {
			return s, true
		}
	}
	return "", false
}

// globalText is the text of a package variable initialised with constant path parts.
func (p *Program) globalText(sym string) (string, bool) {
	for _, fn := range p.allFuncs() {
		if fn.Name() != "init" || fn.Parent() != nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg.Pkg.Path()+"."+g.Name() != sym {
					continue
				}
				if len(p.globalStores(g)) != 1 {
					return "", false
				}
				return constPath(st.Val)
			}
		}
	}
	return "", false
}

// constPath evaluates filepath.Join of constants.
func constPath(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			s := x.Value.ExactString()
			if u, err := strconv.Unquote(s); err == nil {
				return strings.Trim(u, "/"), true
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return "", false
		}
		switch f.String() {
		case "path/filepath.FromSlash", "path/filepath.ToSlash", "path/filepath.Clean":
			return constPath(x.Call.Args[0])
		case "path/filepath.Join", "path.Join":
			sl, ok := x.Call.Args[0].(*ssa.Slice)
			if !ok {
				return "", false
			}
			parts := map[int64]string{}
			n := int64(0)
			for _, r := range *sl.X.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, ok := ia.Index.(*ssa.Const)
				if !ok {
					return "", false
				}
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok {
						s, ok := constPath(st.Val)
						if !ok {
							return "", false
						}
						parts[i.Int64()] = s
						n++
					}
				}
			}
			var out []string
			for i := int64(0); i < n; i++ {
				out = append(out, parts[i])
			}
			return strings.Join(out, "/"), true
		}
	}
	return "", false
}

func (c *Ctx) instanceLoader() {
	fn := c.need("load", "InstanceWithThema")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	modFS, dir, opts := ps[0], ps[1], ps[2]
	good, bad := 0, 0
	var step *Term
	for _, o := range outs {
		switch o.Kind {
		case outPanic:
			c.fail("loader", o.Pos, fn, e, o, "loading may panic")
			continue
		case outReturn:
		default:
			continue
		}
		if e.nilness(o, o.Vals[1]) == notNil || e.nilness(o, o.Vals[1]) == mayNil && !o.Vals[0].isNil() {
			if e.nilness(o, o.Vals[0]) != isNil {
				c.fail("loader", o.Pos, fn, e, o, "an instance is returned together with an error")
				continue
			}
		}
		if e.nilness(o, o.Vals[1]) != isNil {
			bad++
			if !c.failedStep(e, o) && !c.emptyModule(e, o) && !c.relative(e, o) {
				c.fail("loader", o.Pos, fn, e, o, "a module is refused for no reason")
				continue
			}
			if why := c.notAModule(e, o); why != "" {
				c.fail("loader", o.Pos, fn, e, o, "%s", why)
				continue
			}
			c.ok("refusals follow from a failed step", fname(fn), 1)
			continue
		}
		good++
		// the module's name
		var walk, cl, name *Term
		for _, ev := range o.Events {
			if ev.Kind == evCall && ev.Term.isCall("io/fs.WalkDir") && unbox(ev.Term.Args[0]) == modFS {
				if r, ok := ev.Term.Args[1].constStr(); ok && r == "cue.mod" {
					walk, cl = ev.Term, closureOf(ev.Term.Args[2])
				}
			}
		}
		if walk == nil || cl == nil || e.nilness(o, walk) != isNil {
			c.fail("loader", o.Pos, fn, e, o, "an instance is returned without the module's cue.mod having been read")
			continue
		}
		for _, f := range o.Facts {
			if f.C.Op == "eq" && !f.Val {
				for i, a := range f.C.Args {
					if s, ok := a.constStr(); ok && s == "" && f.C.Args[1-i].Op == "out" && f.C.Args[1-i].contains(walk) {
						name = f.C.Args[1-i]
					}
				}
			}
		}
		if name == nil {
			c.fail("loader", o.Pos, fn, e, o, "an instance is returned although the module may have no name")
			continue
		}
		res := o.Vals[0]
		var call *Term
		res.walk(func(t *Term) bool {
			if t.isCall(cuePkg + "/load.Instances") {
				call = t
				return false
			}
			return true
		})
		if call == nil || res.Op != "index" || res.Args[0] != call || res.Args[1] != e.int(0) {
			c.fail("loader", o.Pos, fn, e, o, "the result is not the instance CUE loaded: %v", res)
			continue
		}
		if v, ok := e.fact(o.Facts, e.nilEq(e.fld(res, "Err"))); !ok || !v {
			c.fail("loader", o.Pos, fn, e, o, "an instance with an error may be returned as loaded")
			continue
		}
		if a := call.Args[0]; !a.isNil() && !(a.Op == "list" && len(a.Args) == 0) {
			c.fail("loader", o.Pos, fn, e, o, "something else than the directory given is loaded: %v", a)
			continue
		}
		cfg := call.Args[1]
		get := func(f string) *Term { return o.fieldBefore(e, cfg, f, call) }
		root := get("ModuleRoot")
		if r := unslash(root); !r.isCall("path/filepath.Join", "path.Join") || r.Args[0].Op != "list" || r.Args[0].Args[len(r.Args[0].Args)-1] != name {
			c.fail("loader", o.Pos, fn, e, o, "the module's root does not end in the module's name: %v", root)
			continue
		}
		if get("Module") != name {
			c.fail("loader", o.Pos, fn, e, o, "the module is not loaded under its own name")
			continue
		}
		m := get("Overlay")
		own, dep := false, false
		for _, f := range c.filledOverlays(e, o) {
			if f.overlay != m {
				continue
			}
			if f.vfs == modFS && unslash(f.prefix) == unslash(root) {
				own = true
			}
			self, known := e.fact(o.Facts, e.eq(name, e.str(modPath)))
			j := unslash(f.prefix)
			switch {
			case isGlobal(f.vfs, "CueJointFS") && j == unslash(root) && known && self:
				dep = true
			case isGlobal(f.vfs, "CueFS") && known && !self && j.isCall("path/filepath.Join", "path.Join") && j.Args[0].Op == "list" &&
				len(j.Args[0].Args) >= 2 && unslash(j.Args[0].Args[0]) == unslash(root) && c.joined(e, j.Args[0].Args[1:]) == themaDep:
				dep = true
			}
		}
		if !own {
			c.fail("loader", o.Pos, fn, e, o, "the files of the module are not part of what is loaded")
			continue
		}
		if !dep {
			c.fail("loader", o.Pos, fn, e, o, "thema's own files are not part of what is loaded where CUE looks for them")
			continue
		}
		here := c.isHere(e, o, dir)
		d := unslash(get("Dir"))
		if !(here && d == unslash(root)) && !isJoin(e, d, root, dir) {
			c.fail("loader", o.Pos, fn, e, o, "the directory that is loaded is %v", d)
			continue
		}
		if get("DataFiles") != e.boolT(true) {
			c.fail("loader", o.Pos, fn, e, o, "data files are not part of what is loaded")
			continue
		}
		if why := c.pkgName(e, o, outs, get("Package"), dir, root, opts, here); why != "" {
			c.fail("loader", o.Pos, fn, e, o, "%s", why)
			continue
		}
		c.ok("what is loaded is the given directory of the module with thema as a dependency", fname(fn), 1)
		if step == nil {
			step = cl
			c.moduleName(fn, e, o, cl, modFS)
		}
	}
	if good == 0 || bad < 3 {
		c.fail("loader", fnPos(fn), fn, nil, nil, "%d paths return an instance, %d an error", good, bad)
	}
}

func (c *Ctx) joined(e *Engine, ts []*Term) string {
	var out []string
	for _, t := range ts {
		s, ok := c.pathText(e, t)
		if !ok {
			return ""
		}
		out = append(out, s)
	}
	return strings.Join(out, "/")
}

// isHere: the trace knows that dir is empty or ".".
func (c *Ctx) isHere(e *Engine, o *Outcome, dir *Term) bool {
	for _, s := range []string{"", "."} {
		if v, ok := e.fact(o.Facts, e.eq(dir, e.str(s))); ok && v {
			return true
		}
	}
	v, ok := c.cleanHere(e, o, dir)
	return ok && v
}

// cleanHere: the trace has compared the cleaned dir with ".".
func (c *Ctx) cleanHere(e *Engine, o *Outcome, dir *Term) (bool, bool) {
	for _, name := range []string{"path/filepath.Clean", "path.Clean"} {
		for _, d := range []*Term{dir, e.mk("call", "path/filepath.FromSlash", dir)} {
			if v, ok := e.fact(o.Facts, e.eq(e.mk("call", name, d), e.str("."))); ok {
				return v, true
			}
		}
	}
	return false, false
}

// isNotHere: the trace knows that dir is neither empty nor ".".
func (c *Ctx) isNotHere(e *Engine, o *Outcome, dir *Term) bool {
	if v, ok := c.cleanHere(e, o, dir); ok {
		return !v
	}
	for _, s := range []string{"", "."} {
		if v, ok := e.fact(o.Facts, e.eq(dir, e.str(s))); !ok || v {
			return false
		}
	}
	return true
}

func (c *Ctx) emptyModule(e *Engine, o *Outcome) bool {
	for _, f := range o.Facts {
		if f.C.Op == "eq" && f.Val {
			for i, a := range f.C.Args {
				if s, ok := a.constStr(); ok && s == "" && f.C.Args[1-i].Op == "out" {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) relative(e *Engine, o *Outcome) bool {
	for _, f := range o.Facts {
		if !f.Val && f.C.isCall("path/filepath.IsAbs") {
			return true
		}
	}
	return false
}

// notAModule: a missing or unreadable cue.mod is reported as ErrFSNotACueModule.
func (c *Ctx) notAModule(e *Engine, o *Outcome) string {
	bad := c.emptyModule(e, o)
	for _, f := range o.Facts {
		if t := nilOf(f); t != nil && !f.Val && t.isCall("io/fs.WalkDir") {
			if r, ok := t.Args[1].constStr(); ok && r == "cue.mod" {
				bad = true
			}
		}
	}
	if !bad {
		return ""
	}
	v := unbox(o.Vals[1])
	if v.Op == "alloc" && v.T != nil && strings.HasSuffix(v.T.String(), "load.ErrFSNotACueModule") {
		if f := c.causeField(v.T); f != "" && e.nilness(o, o.field(e, v, f)) == isNil {
			return "ErrFSNotACueModule does not say what is wrong"
		}
		return ""
	}
	return "a file system without readable module file is not reported as ErrFSNotACueModule: " + v.String()
}

// pkgName: the package is the directory's name unless an option says otherwise;
// all options are applied.
func (c *Ctx) pkgName(e *Engine, o *Outcome, outs []*Outcome, t, dir, root, opts *Term, here bool) string {
	isBase := func(t *Term) bool {
		if !t.isCall("path/filepath.Base", "path.Base") {
			return false
		}
		x := unslash(t.Args[0])
		if isJoin(e, x, root, dir) {
			return true
		}
		return here && x == unslash(root) || c.isNotHere(e, o, dir) && x == unslash(dir)
	}
	if t.Op != "fld" || t.Args[0].Op != "loopmem" {
		return "the options are not applied before the package is chosen: " + t.String()
	}
	c.pkgField = t.Sym
	loop, cell := t.Args[0].Sym, t.Args[0].Args[0]
	if !o.passed()[loop] {
		return "the loop over the options may end early"
	}
	// what the options start from
	var init *Term
	for _, ev := range o.Events {
		if ev.Kind == evEnter && ev.Loop == loop {
			break
		}
		if ev.Kind == evStore && ev.Args[0].Op == "faddr" && ev.Args[0].Sym == t.Sym && ev.Args[0].Args[0] == cell {
			init = ev.Args[1]
		}
		if ev.Kind == evStore && ev.Args[0] == cell {
			init = e.fld(ev.Args[1], t.Sym)
		}
	}
	if init == nil || !isBase(init) {
		return "without options the package is not named after the directory"
	}
	its := iterations(outs, loop)
	if len(its) == 0 {
		return "the options are not applied"
	}
	for _, io := range its {
		n := 0
		for _, ev := range io.Events {
			if ev.Kind == evCall && ev.Term.isCall("dynamic") && len(ev.Term.Args) == 2 && unconvert(ev.Term.Args[0]) == e.mk("index", "", opts, e.iter(loop)) && rootAddr(ev.Term.Args[1]) == cell {
				n++
			}
		}
		if n != 1 {
			return "an option is not applied exactly once"
		}
	}
	return ""
}

// moduleName decides the callback that reads the module's name.
func (c *Ctx) moduleName(fn *ssa.Function, e *Engine, o *Outcome, cl, modFS *Term) {
	outs := c.runClosure(e, o, cl)
	cp := e.paramTerms(cl.Fn)
	path, d, werr := cp[0], cp[1], cp[2]
	at := func(io *Outcome, want string) (bool, bool) {
		for _, f := range io.Facts {
			if f.C.Op != "eq" {
				continue
			}
			for i, a := range f.C.Args {
				if unslash(a) == path {
					if s, ok := c.pathText(e, f.C.Args[1-i]); ok && s == want {
						return f.Val, true
					}
				}
			}
		}
		return false, false
	}
	named := 0
	for _, io := range outs {
		if io.Kind == outPanic {
			c.fail("module", io.Pos, cl.Fn, e, io, "reading the module may panic")
			continue
		}
		if io.Kind != outReturn {
			continue
		}
		var set *Term
		for _, cell := range cl.Args {
			if cell.T == nil || cell.T.String() != "*string" {
				continue
			}
			if now := io.st.load(e, cell, anyType); now != o.st.load(e, cell, anyType) {
				set = now
			}
		}
		dirv, dirk := c.isDir(e, io, d)
		r := io.Vals[0]
		skip := isSkipDir(r)
		if set != nil && e.nilness(io, io.Vals[0]) != notNil {
			v, ok := at(io, "cue.mod/module.cue")
			if !ok || !v || dirv {
				c.fail("module", io.Pos, cl.Fn, e, io, "the module's name is taken from another file than cue.mod/module.cue")
				continue
			}
			if !c.moduleField(set, modFS, path) {
				c.fail("module", io.Pos, cl.Fn, e, io, "the module's name is not the field module of cue.mod/module.cue: %v", set)
				continue
			}
		}
		switch {
		case skip:
			g, gk := at(io, "cue.mod/gen")
			u, uk := at(io, "cue.mod/usr")
			if !(gk && g || uk && u) || !dirv {
				c.fail("module", io.Pos, cl.Fn, e, io, "a directory that may hold the module's metadata is skipped")
				continue
			}
		case e.nilness(io, r) == isNil:
			if e.nilness(io, werr) != isNil {
				c.fail("module", io.Pos, cl.Fn, e, io, "an error of the walk is ignored")
				continue
			}
			if t := c.undecidedErr(e, io); t != nil {
				c.fail("module", io.Pos, cl.Fn, e, io, "an error is ignored: %v", t)
				continue
			}
			if dirk && dirv {
				if v, ok := at(io, themaDep); !ok || v {
					c.fail("module", io.Pos, cl.Fn, e, io, "a module that brings its own thema is accepted")
					continue
				}
			} else if v, ok := at(io, "cue.mod/module.cue"); !ok || v && set == nil {
				c.fail("module", io.Pos, cl.Fn, e, io, "the module file is not read")
				continue
			}
			if set != nil {
				named++
			}
		case e.nilness(io, r) == notNil:
			own, k := at(io, themaDep)
			if !(k && own && dirv) && !c.failedStep(e, io) && e.nilness(io, werr) != notNil && !c.emptyName(e, io, set) {
				c.fail("module", io.Pos, cl.Fn, e, io, "a module is refused for no reason: %v", r)
				continue
			}
		default:
			c.fail("module", io.Pos, cl.Fn, e, io, "the result is not decided: %v", r)
			continue
		}
		c.ok("the module's name comes from its module file", fname(cl.Fn), 1)
	}
	if named == 0 {
		c.fail("module", fnPos(cl.Fn), cl.Fn, nil, nil, "the module's name is never read")
	}
}

func (c *Ctx) emptyName(e *Engine, o *Outcome, name *Term) bool {
	if name == nil {
		return false
	}
	v, ok := e.fact(o.Facts, e.eq(name, e.str("")))
	return ok && v
}

func isSkipDir(t *Term) bool {
	t = unbox(t)
	return t.Op == "gval" && (t.Sym == "io/fs.SkipDir" || t.Sym == "path/filepath.SkipDir")
}

// moduleField: the string at field module of the file's content.
func (c *Ctx) moduleField(t, modFS, path *Term) bool {
	if t.Op != "ext" || t.Sym != "0" || !t.Args[0].isCall(cv("String")) {
		return false
	}
	l := t.Args[0].Args[0]
	if !l.isCall(cv("LookupPath")) {
		return false
	}
	if p, ok := parsedPath(l.Args[1]); !ok || p != "module" {
		return false
	}
	b := l.Args[0]
	return b.isCall("(*"+cuePkg+".Context).CompileBytes", "(*"+cuePkg+".Context).CompileString") && c.contentOf(b.Args[1], modFS, path)
}

func (c *Ctx) packageOption() {
	fn := c.need("load", "Package")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	p := e.paramTerms(fn)[0]
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		cl := closureOf(unconvert(o.Vals[0]))
		if cl == nil {
			c.fail("package", o.Pos, fn, e, o, "the option is no known function: %v", o.Vals[0])
			continue
		}
		for _, io := range c.runClosure(e, o, cl) {
			lc := e.paramTerms(cl.Fn)[0]
			var set string
			if st, ok := cl.Fn.Params[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && io.Kind == outReturn {
				for i := 0; i < st.NumFields(); i++ {
					if f := fieldName(st.Field(i)); f == c.pkgField && io.field(e, lc, f) == p {
						set = f
					}
				}
			}
			if set == "" {
				c.fail("package", io.Pos, cl.Fn, e, io, "the option does not set the package")
				continue
			}
			c.ok("the option sets the package", fname(fn), 1)
		}
	}
}

func (c *Ctx) asModFS() {
	fn := c.need("load", "AsModFS")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ps := e.paramTerms(fn)
	in, name := ps[0], ps[1]
	kept, made := 0, 0
	for _, o := range outs {
		if o.Kind == outPanic {
			c.fail("asmodfs", o.Pos, fn, e, o, "AsModFS may panic")
			continue
		}
		if o.Kind != outReturn {
			continue
		}
		missing, known := false, false
		for _, f := range o.Facts {
			if f.C.isCall("os.IsNotExist") || f.C.isCall("errors.Is") {
				t := f.C.Args[0]
				if t.Op == "ext" && t.Sym == "1" && t.Args[0].isCall("io/fs.Stat") && unbox(t.Args[0].Args[0]) == in {
					if s, ok := c.pathText(e, t.Args[0].Args[1]); ok && s == "cue.mod/module.cue" {
						missing, known = f.Val, true
					}
				}
			}
		}
		if !known {
			c.fail("asmodfs", o.Pos, fn, e, o, "it is not looked whether the module file exists")
			continue
		}
		r := unbox(o.Vals[0])
		if !missing {
			if r != in {
				c.fail("asmodfs", o.Pos, fn, e, o, "a file system with a module file is altered")
				continue
			}
			kept++
			continue
		}
		if !strings.HasSuffix(r.Sym, "merged_fs.NewMergedFS") || r.Op != "call" || len(r.Args) != 2 || unbox(r.Args[0]) != in && unbox(r.Args[1]) != in {
			c.fail("asmodfs", o.Pos, fn, e, o, "the result is not the file system with a module file added: %v", r)
			continue
		}
		ok := false
		for _, ev := range o.Events {
			if ev.Kind != evMap {
				continue
			}
			if s, is := c.pathText(e, ev.Args[1]); is && s == "cue.mod/module.cue" {
				data := o.field(e, unbox(ev.Args[2]), "Data")
				if data.contains(name) && strings.Contains(data.String(), "module: ") {
					ok = true
				}
			}
		}
		if !ok {
			c.fail("asmodfs", o.Pos, fn, e, o, "no module file with the name given is added")
			continue
		}
		made++
	}
	if kept == 0 || made == 0 {
		c.fail("asmodfs", fnPos(fn), fn, nil, nil, "the file system is kept on %d paths and completed on %d", kept, made)
		return
	}
	c.ok("a module file is added exactly if there is none", fname(fn), kept+made)
}

// newRuntime: the runtime is built from thema's own embedded files.
func (c *Ctx) newRuntime() {
	fn := c.need("", "NewRuntime")
	if fn == nil {
		return
	}
	e, outs := c.run(fn)
	ctx := e.paramTerms(fn)[0]
	n := 0
	for _, o := range outs {
		if o.Kind != outReturn {
			continue
		}
		r := o.Vals[0]
		if r.Op != "alloc" {
			c.fail("runtime", o.Pos, fn, e, o, "the result is not a new runtime: %v", r)
			continue
		}
		v := o.field(e, r, "val")
		if !v.isCall("(*"+cuePkg+".Context).BuildInstance") || v.Args[0] != ctx {
			c.fail("runtime", o.Pos, fn, e, o, "the runtime's value is not built in the context given: %v", v)
			continue
		}
		n++
	}
	if n == 0 {
		c.fail("runtime", fnPos(fn), fn, nil, nil, "no path returns a runtime")
		return
	}
	c.ok("runtimes are built in the context given", fname(fn), n)
}

// fieldBefore is what a field of the object held when a call was made.
func (o *Outcome) fieldBefore(e *Engine, ptr *Term, f string, call *Term) *Term {
	v := e.mk("zero", "unset")
	for _, ev := range o.Events {
		if ev.Kind == evCall && ev.Term == call {
			break
		}
		if ev.Kind != evStore {
			continue
		}
		if ev.Args[0] == ptr {
			v = e.fld(ev.Args[1], f)
		}
		if a := ev.Args[0]; a.Op == "faddr" && a.Sym == f && a.Args[0] == ptr {
			v = ev.Args[1]
		}
	}
	return v
}

// embedded: the embedded file systems hold every CUE file of thema's packages.
func (c *Ctx) embedded() {
	files := map[string]bool{}
	for _, dir := range []string{".", "crd"} {
		m, _ := filepath.Glob(filepath.Join(c.p.dir, dir, "*.cue"))
		for _, f := range m {
			if r, err := filepath.Rel(c.p.dir, f); err == nil {
				files[filepath.ToSlash(r)] = true
			}
		}
	}
	if len(files) < 4 {
		c.failAt("embed", "embed.go", "only %d CUE files found at the root of the module", len(files))
		return
	}
	for v, extra := range map[string]string{"CueFS": "", "CueJointFS": "cue.mod"} {
		pats := c.p.embedPatterns(v)
		if len(pats) == 0 {
			c.failAt("embed", v, "no embedded files found")
			continue
		}
		has := func(f string) bool {
			for _, p := range pats {
				if ok, _ := path.Match(p, f); ok || p == f || strings.HasPrefix(f, p+"/") {
					return true
				}
			}
			return false
		}
		for f := range files {
			if !has(f) {
				c.failAt("embed", v, "the file %s is not embedded", f)
			}
		}
		if extra != "" && !has(extra) && !has(extra+"/module.cue") {
			c.failAt("embed", v, "%s is not embedded", extra)
		}
		c.ok("embedded file systems hold all CUE files", v, len(files))
	}
}

// embedPatterns are the go:embed patterns of a variable of the root package.
func (p *Program) embedPatterns(name string) []string {
	var out []string
	for _, pk := range p.pkgs {
		if pk.PkgPath != modPath {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || len(vs.Names) != 1 || vs.Names[0].Name != name {
						continue
					}
					for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
						if doc == nil {
							continue
						}
						for _, l := range doc.List {
							if r, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
								for _, w := range strings.Fields(r) {
									out = append(out, strings.TrimPrefix(strings.Trim(w, "\"`"), "all:"))
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// causeField is the field that holds what an error wraps.
func (c *Ctx) causeField(t types.Type) string {
	st := structArg(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Universe.Lookup("error").Type()) {
			return fieldName(st.Field(i))
		}
	}
	return ""
}

// unwraps: errors.Is and errors.As see the cause.
func (c *Ctx) unwraps() {
	p := c.p.spkgs[modPath+"/load"]
	if p == nil || p.Type("ErrFSNotACueModule") == nil {
		c.failAt("anchor", "load.ErrFSNotACueModule", "the error type is not there")
		return
	}
	nt, _ := p.Type("ErrFSNotACueModule").Type().(*types.Named)
	f := c.causeField(nt)
	fn := c.methodOf(nt, "Unwrap")
	if f == "" || fn == nil {
		c.failAt("cause", "load.ErrFSNotACueModule", "the error does not wrap its cause")
		return
	}
	e, outs := c.run(fn)
	recv := e.paramTerms(fn)[0]
	for _, o := range outs {
		if o.Kind == outReturn && o.Vals[0] == e.fld(recv, f) {
			c.ok("the cause is what the error wraps", fname(fn), 1)
			continue
		}
		c.fail("cause", o.Pos, fn, e, o, "ErrFSNotACueModule does not unwrap to its cause")
	}
}
