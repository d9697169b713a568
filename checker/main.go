package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFn func(p *Prog, r *Report, thorough bool)

type propInfo struct {
	run  checkFn
	rule string // what was analysed and the rule applied (goes to the evidence)
}

var propText = map[string]*propInfo{}

func register(id string, rule string, fn checkFn) { propText[id] = &propInfo{fn, rule} }

func main() {
	start := time.Now()
	repo, verif := os.Getenv("UNLYNX_REPO"), os.Getenv("VERIF_DIR")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	if len(os.Args) < 2 {
		fmt.Println("usage: unlynxcheck <property> [quick|thorough] | dump <func>...")
		os.Exit(2)
	}
	if os.Args[1] == "dump" {
		p, err := Load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, a := range os.Args[2:] {
			if f := p.byKey[a]; f != nil {
				dumpFn(f)
			} else {
				fmt.Println("no such function", a)
			}
		}
		return
	}
	if os.Args[1] == "eval" {
		p, err := Load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, a := range os.Args[2:] {
			if a == "all" {
				evalAll(p, "lib", "protocols", "services")
				continue
			}
			evalDump(p, a)
		}
		return
	}
	if os.Args[1] == "law" {
		lawDump(repo, verif, os.Args[2:])
		return
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := []string{id}
	code := 0
	if id == "all" {
		ids = nil
		for k := range propText {
			ids = append(ids, k)
		}
		sortStrings(ids)
	}
	var p *Prog
	var lerr error
	p, lerr = Load(repo)
	for _, id := range ids {
		if c := runOne(id, p, lerr, verif, tier, seed, start); c != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

func runOne(id string, p *Prog, lerr error, verif, tier string, seed int, start time.Time) (code int) {
	info := propText[id]
	if info == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	r := newReport(id)
	meta := map[string]interface{}{}
	if lerr != nil {
		r.bad("setup", "load", "-", "%v", lerr)
	} else {
		meta["packages"] = len(p.Pkgs)
		meta["functions_loaded"] = len(p.Funcs)
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.bad("setup", "internal", "-", "analysis failed: %v\n%s", e, debug.Stack())
				}
			}()
			info.run(p, r, tier == "thorough")
		}()
	}
	return r.finish(verif, tier, seed, start, meta)
}

func dumpFn(f *ssa.Function) {
	f.WriteTo(os.Stdout)
	for _, a := range f.AnonFuncs {
		dumpFn(a)
	}
}
