package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

// evalDump prints what the value analysis knows about a function (debugging aid).
func evalDump(p *Prog, name string) {
	f := p.byKey[name]
	if f == nil {
		fmt.Println("no such function", name)
		return
	}
	if os.Getenv("DBG") != "" {
		dbgContent = func(ev *Ev, st *state, cell *T) {
			fmt.Println("UNINIT", cell.s, cell.args)
			for _, f := range st.fams {
				fmt.Println("   fam", f.pat.s, f.pat.args, "ctrs", f.ctrs)
			}
		}
	}
	r := Run(p, f, nil)
	fmt.Println("==", name, "ok:", r.ok, "steps:", r.ev.steps)
	if !r.ok {
		for _, n := range r.ev.sortedNotes() {
			fmt.Println("  note:", n)
		}
		return
	}
	for i, v := range r.vals {
		fmt.Println("  result", i, ":", r.ev.deep(r.st, v, f.Signature.Results().At(i).Type(), 0))
	}
	for i, a := range r.args {
		t := f.Params[i].Type()
		d := r.ev.deep(r.st, a, t, 0)
		if d != a {
			fmt.Println("  param", f.Params[i].Name(), ":", d)
		}
	}
	for _, e := range r.ev.events {
		fmt.Println("  event", e.kind, e.name, e.args, "pc", e.pc, "loops", e.loops)
	}
	for _, n := range r.ev.sortedNotes() {
		fmt.Println("  note:", n)
	}
}

var dbgContent func(ev *Ev, st *state, cell *T)

func evalAll(p *Prog, pkgs ...string) {
	for _, f := range p.Funcs {
		if f.Parent() != nil || !inScope(f, pkgs...) || f.Name() == "init" {
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println("PANIC", fnKey(f), e)
					if os.Getenv("DBG") != "" {
						debug.PrintStack()
					}
				}
			}()
			r := Run(p, f, nil)
			st := "ok"
			if !r.ok {
				st = "FAILED"
			} else {
				for i, v := range r.vals {
					if isOpaque(r.ev.deep(r.st, v, f.Signature.Results().At(i).Type(), 0)) {
						st = "opaque result"
					}
				}
			}
			fmt.Println(st, fnKey(f), r.ev.steps, len(r.ev.sortedNotes()))
		}()
	}
}

// dbgLoop prints the updates of loop variables that have no closed form.
var dbgLoop = os.Getenv("UC_LOOP") != ""
