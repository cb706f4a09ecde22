package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects what one rule analysed and what it found.
type Ctx struct {
	pkgField string // the field the loader reads the package from
	p        *Program
	id       string
	tier     string
	viol     []Violation
	obl      []Obligation
	fns      map[string]bool
	traces   int
	sites    int
	engs     map[*ssa.Function]*runResult
	files    map[string]bool
}

type runResult struct {
	e    *Engine
	outs []*Outcome
}

type Violation struct {
	Key    string   `json:"key"`
	Where  string   `json:"where"`
	Func   string   `json:"function,omitempty"`
	Rule   string   `json:"rule"`
	Detail string   `json:"detail"`
	Path   []string `json:"path,omitempty"`
}

type Obligation struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	N     int    `json:"instances"`
}

type Rule struct {
	ID          string
	Technique   string
	Explain     string
	Assumptions []string
	Run         func(c *Ctx)
	// Min is the confirmed number of discharged obligation instances below which
	// the check counts as vacuous.
	Min int
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.ID] = r }

// ok records discharged obligation instances.
func (c *Ctx) ok(rule, where string, n int) {
	for i := range c.obl {
		if c.obl[i].Rule == rule && c.obl[i].Where == where {
			c.obl[i].N += n
			return
		}
	}
	c.obl = append(c.obl, Obligation{rule, where, n})
}

// fail records a violation at a source construct.
func (c *Ctx) fail(rule string, pos token.Pos, fn *ssa.Function, e *Engine, o *Outcome, format string, a ...any) {
	v := Violation{Rule: rule, Where: c.p.pos(pos), Detail: fmt.Sprintf(format, a...)}
	if fn != nil {
		v.Func = fname(fn)
		if !pos.IsValid() {
			v.Where = c.p.pos(fnPos(fn))
		}
	}
	v.Key = rule + "@" + privateRecv.ReplaceAllString(v.Func, "$1.")
	if o != nil && e != nil {
		for _, f := range o.Facts {
			v.Path = append(v.Path, fmt.Sprintf("%s: %v is %v", c.p.pos(f.Pos), f.C, f.Val))
		}
		for i, t := range o.Vals {
			v.Path = append(v.Path, fmt.Sprintf("result %d = %v", i, t))
		}
	}
	for _, w := range c.viol {
		if w.Rule == v.Rule && w.Where == v.Where && w.Detail == v.Detail {
			return
		}
	}
	c.viol = append(c.viol, v)
}

// failAt records a violation that is not about a Go function.
func (c *Ctx) failAt(rule, where, format string, a ...any) {
	v := Violation{Rule: rule, Where: where, Detail: fmt.Sprintf(format, a...), Key: rule + "@" + where}
	for _, w := range c.viol {
		if w.Rule == v.Rule && w.Where == v.Where && w.Detail == v.Detail {
			return
		}
	}
	c.viol = append(c.viol, v)
}

// need resolves an anchor of the public surface; a missing one leaves the
// property undecided, which is reported.
func (c *Ctx) need(pkg, name string) *ssa.Function {
	fn := c.p.fn(pkg, name)
	if fn == nil || fn.Blocks == nil {
		at := name
		if pkg != "" {
			at = pkg + "." + name
		}
		c.failAt("anchor", at, "the function the property is about is not there, so nothing can be decided")
		return nil
	}
	return fn
}

// run analyses fn, once.
func (c *Ctx) run(fn *ssa.Function) (*Engine, []*Outcome) {
	return c.runOpts(fn, Options{})
}

func (c *Ctx) runOpts(fn *ssa.Function, opts Options) (*Engine, []*Outcome) {
	if r, ok := c.engs[fn]; ok && opts.Opaque == nil && !opts.NoInline && !opts.InlineRec {
		return r.e, r.outs
	}
	e := newEngine(c.p, opts)
	outs := e.Run(fn)
	c.account(e, fn, outs)
	if opts.Opaque == nil && !opts.NoInline && !opts.InlineRec {
		c.engs[fn] = &runResult{e, outs}
	}
	return e, outs
}

func (c *Ctx) account(e *Engine, fn *ssa.Function, outs []*Outcome) {
	for _, pr := range e.problems {
		c.fail("analysis", fnPos(fn), fn, nil, nil, "the analysis of %s is incomplete: %s", fname(fn), pr)
	}
	for f := range e.analysed {
		c.fns[fname(f)] = true
	}
	c.traces += len(outs)
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

var commonAssumptions = []string{
	"go/packages, go/types and go/ssa (golang.org/x/tools) represent the source faithfully",
	"calls that leave the module (CUE, the standard library) are uninterpreted: equal arguments give equal results, nothing more is assumed about them unless the rule says so",
	"no reflection or unsafe access to the unexported fields of the module's types",
}

// runRule executes one rule, writes the evidence and replay files, prints the
// verdict and returns the exit status.
func runRule(r *Rule, repo, verif, tier string, seed int) int {
	start := time.Now()
	c := &Ctx{id: r.ID, tier: tier, fns: map[string]bool{}, engs: map[*ssa.Function]*runResult{}, files: map[string]bool{}}
	p, err := loadShared(repo)
	if err != nil {
		c.failAt("load", repo, "%v", err)
	} else {
		c.p = p
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(x)
					}
					c.failAt("analysis", r.ID, "the analysis failed: %v", x)
				}
			}()
			r.Run(c)
		}()
		n := 0
		for _, o := range c.obl {
			n += o.N
		}
		if n < r.Min && len(c.viol) == 0 {
			c.failAt("vacuity", r.ID, "only %d obligation instances were found, %d are expected: the rule no longer sees the code it is about", n, r.Min)
		}
	}
	known, kerr := readKnown(filepath.Join(verif, "known-findings.txt"), r.ID)
	if kerr != nil {
		c.failAt("known-findings", "known-findings.txt", "%v", kerr)
	}
	var rest []Violation
	for _, v := range c.viol {
		if d, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", r.ID, v.Where, v.Func, d)
			continue
		}
		rest = append(rest, v)
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Where+rest[i].Detail < rest[j].Where+rest[j].Detail })

	total := 0
	for _, o := range c.obl {
		total += o.N
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var files []string
	for f := range c.files {
		files = append(files, f)
	}
	sort.Strings(files)
	ev := evidence{Property: r.ID, Tier: tier, Seed: seed, Level: "other", WallS: time.Since(start).Seconds(), Violations: len(rest)}
	ev.Assumptions = append(append([]string{}, r.Assumptions...), commonAssumptions...)
	ev.Coverage = map[string]any{
		"explanation":           r.Explain,
		"technique":             r.Technique,
		"functions_analysed":    len(fns),
		"functions":             fns,
		"paths":                 c.traces,
		"sites":                 c.sites,
		"obligations":           total,
		"obligation_detail":     c.obl,
		"undischarged":          len(rest),
		"cue_files":             files,
		"module_functions":      0,
		"known_findings_listed": len(known),
	}
	if c.p != nil {
		ev.Coverage["module_functions"] = len(c.p.funcs)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, r.ID+".replay.json")
	os.Remove(replay)
	if len(rest) > 0 {
		var vs []any
		for _, v := range rest {
			vs = append(vs, map[string]any{"where": v.Where, "function": v.Func, "rule": v.Rule, "detail": v.Detail, "replay": replay})
		}
		ev.Coverage["violation_detail"] = vs
		b, _ := json.MarshalIndent(map[string]any{
			"property":   r.ID,
			"how":        "deterministic: run '" + filepath.Join(verif, "check.sh") + " " + r.ID + "' on the same tree; each entry names the construct and the path through it",
			"violations": rest,
		}, "", " ")
		os.WriteFile(replay, b, 0o644)
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 1
	}
	fmt.Printf("%s: %d functions, %d paths, %d sites, %d obligations, %.1fs\n", r.ID, len(fns), c.traces, c.sites, total, time.Since(start).Seconds())
	if len(rest) == 0 {
		fmt.Printf("%s: holds\n", r.ID)
		return 0
	}
	for i, v := range rest {
		if i >= 8 {
			fmt.Printf("  ... and %d more\n", len(rest)-i)
			break
		}
		fmt.Printf("  %s %s: [%s] %s\n", v.Where, v.Func, v.Rule, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	return 1
}

// privateRecv is a receiver whose type's name is not part of the API.
var privateRecv = regexp.MustCompile(`^\(\*?(\w+)\.[a-z]\w*\)\.`)

// readKnown reads the recorded findings of a property. Lines that start with
// "fixed:" or "#" suppress nothing.
func readKnown(path, id string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" ")
		if !strings.HasPrefix(l, "key=") {
			return nil, fmt.Errorf("malformed line %q", l)
		}
		l = strings.TrimPrefix(l, "key=")
		k, d, _ := strings.Cut(l, " :: ")
		out[k] = d
	}
	return out, nil
}

// shareLoad makes several rules run in one process use one loaded program.
var shareLoad bool
var sharedProgram *Program

func loadShared(repo string) (*Program, error) {
	if shareLoad && sharedProgram != nil {
		return sharedProgram, nil
	}
	p, err := loadProgram(repo)
	if err == nil {
		sharedProgram = p
	}
	return p, err
}
