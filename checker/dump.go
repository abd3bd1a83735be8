package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dumpEffects prints the effect summary of a function (development aid):
// VDUMP=substring-of-the-function's-full-name.
func dumpEffects(p *Prog) {
	want := os.Getenv("VDUMP")
	if want == "" {
		return
	}
	for _, fn := range p.all {
		if len(fn.Blocks) == 0 || generic(fn) || !strings.Contains(fn.String()+"$", want) {
			continue
		}
		e := &Effects{P: p, MaxPaths: 20000}
		if os.Getenv("VDUMPO") == "1" {
			e.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil }
		}
		if l := os.Getenv("VDUMPX"); l != "" {
			e.Opaque = func(f *ssa.Function) bool {
				for _, n := range strings.Split(l, ",") {
					if f.Name() == n || f.Origin() != nil && f.Origin().Name() == n {
						return true
					}
				}
				return false
			}
		}
		os := e.Run(fn, nil)
		fmt.Println("==", fn.String(), len(os), "outcomes over", e.Over, "cut", e.Cut)
		for i, o := range os {
			if i > 100 {
				break
			}
			fmt.Println(" -- outcome", i, "panic", o.Panic)
			for _, c := range o.Conds {
				fmt.Println("    if", c.A.Key(), c.Val)
			}
			for _, ev := range o.Ev {
				var as []string
				for _, a := range ev.Args {
					as = append(as, a.Key())
				}
				fmt.Println("    ", ev.Kind, ev.Name, strings.Join(as, " , "), "=>", ev.Res.Key())
			}
			for _, x := range o.Ret {
				fmt.Println("    ret", x.Key())
			}
		}
	}
}

// dumpOpaque: as dumpEffects, with calls to named functions of other packages left opaque (VDUMPO).
