package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lawCheck makes the laws with the given prefix obligations of a property.
func lawCheck(prefix string, min int) checkFn {
	return func(p *Prog, r *Report, thorough bool) {
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		q, dropped, err := loadLaws(p.Repo, verif, prefix)
		if err != nil {
			r.skip("laws could not be loaded: %v", err)
			return
		}
		for _, d := range dropped {
			if strings.HasPrefix(d, prefix) {
				r.skip("law %s does not apply to this tree", d)
			}
		}
		seen := map[string]bool{}
		counts := map[string]int{}
		for _, f := range lawFns(q, prefix) {
			v := decideLaw(q, f, thorough)
			counts[v.verdict]++
			switch v.verdict {
			case "undecided":
				r.skip("law %s: %s", v.name, v.why)
				continue
			case "violated":
				r.ob("law", v.name)
				fn := lawAnchor(q, f)
				pos := "-"
				if fn != nil {
					pos = q.pos(fn.Pos())
				}
				r.bad("law", v.name, pos, "the value computed by %s breaks the law %s (%s); it flows through %s", anchorName(fn), v.name, v.why, strings.Join(v.fns, ", "))
			default:
				r.ob("law", fmt.Sprintf("%s: %s, %d instructions summarised, through %s", v.name, v.verdict, v.steps, strings.Join(v.fns, ", ")))
			}
			for _, g := range v.fns {
				seen[g] = true
			}
		}
		r.min("law", min)
		r.Notes = append(r.Notes, fmt.Sprintf("laws decided by equal normal forms: %d, by random interpretation of the summaries: %d, undecided: %d, violated: %d; %d repository functions summarised",
			counts["normal form"], counts["random interpretation"], counts["undecided"], counts["violated"], len(seen)))
	}
}

// lawAnchor is the first repository function a law calls.
func lawAnchor(p *Prog, f *ssa.Function) *ssa.Function {
	var best *ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || best != nil {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil || cal.Pkg == nil || !inRepo(cal.Pkg.Pkg) || cal.Blocks == nil {
					continue
				}
				if isLaw(p, cal) {
					walk(cal)
				} else if best == nil {
					best = cal
				}
			}
		}
	}
	walk(f)
	return best
}

func anchorName(f *ssa.Function) string {
	if f == nil {
		return "the repository"
	}
	return fnKey(f)
}

func init() {
	const rule = "each law (an equation between expressions over the API, type-checked with the repository) is summarised together with the functions it calls by a value analysis over SSA (value numbering with joins, loop summaries and memory cells); it holds when both sides have the same normal form, or when their summaries agree under random interpretation of their leaves (uniform polynomial identity testing); nothing is executed and no path is enumerated"
	register("C01", rule, lawCheck("C01_", 20))
	register("C02", rule, lawCheck("C02_", 5))
	register("C03", rule, lawCheck("C03_", 15))
	register("C08", rule, lawCheck("C08_", 12))
	register("C10", rule, lawCheck("C10_", 10))
	register("C11", rule, lawCheck("C11_", 10))
	register("C12", rule, lawCheck("C12_", 5))
	register("C13", rule, lawCheck("C13_", 12))
	register("C19", rule, lawCheck("C19_", 7))
}
