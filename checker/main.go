package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) > 2 && strings.HasPrefix(os.Args[1], "cue:") {
		dumpCue(strings.TrimPrefix(os.Args[1], "cue:"))
		return
	}
	repo := flag.String("repo", "/repo", "the tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings are")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.Bool("dump", false, "dump the paths through PKG FUNC")
	ssadump := flag.Bool("ssa", false, "print the SSA form of a function")
	inlrec := flag.Bool("rec", false, "with -dump: enter recursive functions once")
	gen := flag.Bool("gen", false, "with -dump: generator options")
	stop := flag.Bool("stop", false, "with several properties: stop at the first one that fails")
	events := flag.Bool("events", false, "with -dump: print events")
	flag.Parse()
	debugOn = *events
	args := flag.Args()
	if *dump || *ssadump {
		p, err := loadProgram(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fn := p.fn(args[0], args[1])
		if fn == nil {
			fn = p.byKey[args[1]]
		}
		if fn == nil {
			for _, f := range p.allFuncs() {
				if (f.Name() == args[1] || strings.HasSuffix(fname(f), args[1])) && strings.HasSuffix(fnPkgPath(f), args[0]) {
					fn = f
				}
			}
		}
		if *ssadump {
			fn.WriteTo(os.Stdout)
			return
		}
		debugOn = *events
		opts := Options{InlineRec: *inlrec}
		if *gen {
			opts.Opaque = genOpaque(fn)
		}
		e := newEngine(p, opts)
		outs := e.Run(fn)
		fmt.Println(len(outs), e.problems)
		for _, o := range outs {
			e.dump(o)
		}
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(args) == 1 && args[0] == "list" {
		var ids []string
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(args) == 1 && (args[0] == "all" || strings.Contains(args[0], ",")) {
		ids := strings.Split(args[0], ",")
		if args[0] == "all" {
			ids = nil
			for id := range rules {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		shareLoad = true
		bad := 0
		for _, id := range ids {
			if runRule(rules[id], *repo, *verif, *tier, seed) != 0 {
				bad = 1
				if *stop {
					break
				}
			}
		}
		os.Exit(bad)
	}
	if len(args) != 1 || rules[args[0]] == nil {
		fmt.Println("usage: checker [-tier quick|thorough] PROPERTY")
		os.Exit(2)
	}
	os.Exit(runRule(rules[args[0]], *repo, *verif, *tier, seed))
}
