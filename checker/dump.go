package main

import (
	"fmt"
	"go/types"
)

type typesType = types.Type

var anyType types.Type = types.Typ[types.Invalid]

func (e *Engine) dump(o *Outcome) {
	fmt.Printf("== %s %s %s %s\n", o.Kind, o.Loop, fname(o.Fn), e.p.pos(o.Pos))
	for _, f := range o.Facts {
		fmt.Printf("   %v  %s\n", f.Val, f.C)
	}
	for _, ev := range o.Events {
		if debugOn {
			fmt.Printf("     . %s %s %v %v\n", ev.Kind, ev.Loop, ev.Term, ev.Args)
		}
	}
	for i, v := range o.Vals {
		fmt.Printf("   -> [%d] %s\n", i, v)
		if v.Op == "alloc" {
			fmt.Printf("        = %s\n", o.st.load(e, v, v.T.Underlying().(interface{ Elem() typesType }).Elem()))
		}
	}
	if o.Kind == outBack {
		for _, c := range e.carriers(o) {
			fmt.Printf("   carried %s => %s (init %s)\n", c.old, c.new, c.init)
		}
	}
}
