package main

import (
	_ "embed"
	"fmt"
	"os"
	"strings"

	cast "cuelang.org/go/cue/ast"
	ctoken "cuelang.org/go/cue/token"
)

//go:embed thema_spec.cue
var cueSpec []byte

// cueDefs reads and prepares the CUE definitions of a package.
func cueDefs(files []cfile, basis map[string]bool, std map[string]bool) (*cueNorm, error) {
	p, err := readCue(files)
	if err != nil {
		return nil, err
	}
	p.std = std
	t := p.def("#Lineage", cref("lin"))
	if t.op != "struct" {
		return nil, fmt.Errorf("#Lineage is not a struct")
	}
	p.linInst = t.in
	p.known = map[string]bool{}
	for _, n := range []string{"#Lineage", "#SchemaDef"} {
		if t := p.def(n, nil); t.op == "struct" {
			for _, d := range p.decls(t.in) {
				p.known[d.label] = true
			}
		}
	}
	p.basis = basis
	return p, nil
}

// cueVariants are other ways of putting what is specified which do not give the
// same normal form but, majors being numbered without gaps and counted from
// zero, the same values.
var cueVariants = [][2]string{
	{"L._forwardLenses[schdef.version[0]-1]", "L._forwardLenses[prior.to[0]]"},
	{"_basis: [0, for maj, _ in list.Drop(_counts, 1) {\n\t\tlist.Sum(list.Take(_counts, maj+1))", "_basis: [ for maj, _ in _counts {\n\t\tlist.Sum(list.Take(_counts, maj))"},
	{"_counts: [0]", "_counts: [1]"},
}

// cueBoth reads the specification, in all its variants, and the definitions of
// the tree.
func cueBoth(dir string) (specs []*cueNorm, repo *cueNorm, err error) {
	basis := map[string]bool{}
	var texts []string
	for m := 0; m < 1<<len(cueVariants); m++ {
		t := string(cueSpec)
		for i, v := range cueVariants {
			if m>>i&1 == 0 {
				continue
			}
			if strings.Count(t, v[0]) != 1 {
				return nil, nil, fmt.Errorf("specification: %q does not occur once", v[0])
			}
			t = strings.Replace(t, v[0], v[1], 1)
		}
		texts = append(texts, t)
		p, err := cueDefs([]cfile{{"spec.cue", []byte(t)}}, nil, nil)
		if err != nil {
			return nil, nil, fmt.Errorf("specification: %w", err)
		}
		basis[p.str(p.sel(cref("lin"), "_basis"))] = true
	}
	for _, t := range texts {
		p, err := cueDefs([]cfile{{"spec.cue", []byte(t)}}, basis, nil)
		if err != nil {
			return nil, nil, fmt.Errorf("specification: %w", err)
		}
		specs = append(specs, p)
	}
	rf, err := repoCue(dir)
	if err != nil {
		return nil, nil, err
	}
	repo, err = cueDefs(rf, basis, specs[0].labelsOf())
	return specs, repo, err
}

// labelsOf are the labels declared anywhere.
func (p *cueNorm) labelsOf() map[string]bool {
	out := map[string]bool{}
	for _, fs := range p.fields {
		for _, f := range fs {
			cast.Walk(f, func(n cast.Node) bool {
				if f, ok := n.(*cast.Field); ok {
					if l, _, ok := fieldLabel(f); ok {
						out[l] = true
					}
				}
				return true
			}, nil)
		}
	}
	return out
}

func cueRoot(name string) *ct {
	if name == "#Lineage" {
		return cref("lin")
	}
	return cref(name)
}

func dumpCue(dir string) {
	_, p, err := cueBoth(dir)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, n := range os.Args[2:] {
		t := p.named(n)
		if t.op == "struct" {
			for _, f := range p.structFields(t.in) {
				fmt.Println(n, f.label, "=", p.str(f.t))
			}
			continue
		}
		fmt.Println(n, "=", p.str(t))
	}
	fmt.Println(p.bad)
}

// cueRule compares definitions with their specification.
func (c *Ctx) cueRule(names []string) {
	specs, repo, err := cueBoth(c.p.dir)
	if err != nil {
		c.failAt("read", "*.cue", "%v", err)
		return
	}
	for f := range repo.src {
		c.files[f] = true
	}
	for _, n := range names {
		if repo.fields[n] == nil {
			c.failAt("anchor", n, "the definition is gone")
			continue
		}
		c.fns[n] = true
		g := repo.named(n)
		// the variant that differs least is the one meant
		var best *Ctx
		for _, spec := range specs {
			t := &Ctx{p: c.p, id: c.id}
			t.cueSame(spec, repo, n, spec.named(n), g, repo.fields[n][0].Pos())
			if best == nil || len(t.viol) < len(best.viol) {
				best = t
			}
			if len(t.viol) == 0 {
				break
			}
		}
		c.viol = append(c.viol, best.viol...)
		c.obl = append(c.obl, best.obl...)
	}
	for _, b := range repo.bad {
		c.failAt("form", "*.cue", "not decided: %s", b)
	}
}

// named is a definition under its own name. What #Lineage hides is used by
// #Translate, which is read first.
func (p *cueNorm) named(n string) *ct {
	if n != "#Lineage" {
		return p.def(n, cueRoot(n))
	}
	p.force(p.def("#Translate", cueRoot("#Translate")))
	return &ct{op: "struct", in: p.linInst}
}

// cueSame compares two values field by field.
func (c *Ctx) cueSame(spec, repo *cueNorm, path string, w, g *ct, pos ctoken.Pos) {
	if w.op == "struct" && g.op == "struct" {
		wf, gf := map[string]sfield{}, map[string]sfield{}
		var wl, gl []string
		for _, f := range spec.structFields(w.in) {
			if _, ok := wf[f.label]; ok || f.label == "" {
				wl = nil
				break
			}
			wf[f.label] = f
			wl = append(wl, f.label)
		}
		for _, f := range repo.structFields(g.in) {
			if _, ok := gf[f.label]; ok || f.label == "" {
				gl = nil
				break
			}
			gf[f.label] = f
			gl = append(gl, f.label)
		}
		if wl != nil && gl != nil && w.in.open == g.in.open {
			for _, l := range wl {
				f, ok := gf[l]
				if !ok {
					c.failAt("value", fmt.Sprintf("%s:%d", pos.Filename(), pos.Line()), "%s.%s is gone", path, l)
					continue
				}
				c.cueSame(spec, repo, path+"."+l, wf[l].t, f.t, f.pos)
			}
			for _, l := range gl {
				if _, ok := wf[l]; !ok {
					c.failAt("value", fmt.Sprintf("%s:%d", gf[l].pos.Filename(), gf[l].pos.Line()), "%s.%s is not part of the definition as stated", path, l)
				}
			}
			return
		}
	}
	a, b := spec.str(w), repo.str(g)
	if a == b {
		c.ok("the value is the one stated", path, 1+strings.Count(a, "for ")+strings.Count(a, "if ")+strings.Count(a, ": "))
		return
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+100
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	c.failAt("value", fmt.Sprintf("%s:%d", pos.Filename(), pos.Line()), "%s is not the value stated: it has ...%s... where ...%s... is stated", path, cut(b), cut(a))
}

// ruleT32 decides translation as defined in CUE.
func ruleT32(c *Ctx) {
	c.cueRule([]string{"#Translate", "#TranslatedInstance", "#Lens", "#Lacuna", "#LacunaTypes", "#LacunaType"})
}

// ruleT33 decides the definition of lineages and schemas in CUE.
func ruleT33(c *Ctx) {
	c.cueRule([]string{"#Lineage", "#SchemaDef", "#SyntacticVersion", "#SearchAndValidate", "#ValidFor", "#LinkedInstance"})
}
