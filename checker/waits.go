package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "every channel receive in protocols and services: part of a select that also has a timer case built from time.After/time.NewTimer with a positive bound, whose branch ends the function with a non-nil error without returning to the wait; the three service barriers on other parties (SurveyChannel, DpChannel, DDTChannel) are outside the rule", checkWaits)
}

// barriers: waits for other parties that are unbounded by design (see DESIGN.md).
var barriers = map[string]bool{"SurveyChannel": true, "DpChannel": true, "DDTChannel": true}

func checkWaits(p *Prog, r *Report, thorough bool) {
	callers := callerIndex(p)
	for _, f := range p.Funcs {
		if !inScope(f, "protocols", "services", "lib") {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op != token.ARROW {
						continue
					}
					n++
					names := chanNames(x.X, callers, 0)
					id := fmt.Sprintf("%s:receive %s", fnKey(f), strings.Join(names, "/"))
					if isTimer(x.X) {
						continue
					}
					all := len(names) > 0
					for _, q := range names {
						if !barriers[q] {
							all = false
						}
					}
					if all {
						r.skip("%s: barrier on other parties, unbounded by design", id)
						continue
					}
					if localJoin(x.X) {
						r.skip("%s: channel made and fed in this function", id)
						continue
					}
					r.ob("receive", id)
					r.bad("unbounded", id, p.pos(x.Pos()), "%s waits for %s without a time limit", fnKey(f), strings.Join(names, "/"))
				case *ssa.Select:
					if !x.Blocking {
						continue
					}
					timer, recv, bar := -1, "", true
					for i, s := range x.States {
						if isTimer(s.Chan) {
							timer = i
							continue
						}
						ns := chanNames(s.Chan, callers, 0)
						recv += strings.Join(ns, "/") + " "
						for _, q := range ns {
							if !barriers[q] {
								bar = false
							}
						}
						if len(ns) == 0 {
							bar = false
						}
					}
					id := fmt.Sprintf("%s:select %s", fnKey(f), strings.TrimSpace(recv))
					r.ob("receive", id)
					if timer < 0 {
						if bar {
							continue
						}
						r.bad("unbounded", id, p.pos(x.Pos()), "%s waits in a select for %s without a time limit", fnKey(f), recv)
						continue
					}
					if d := timerBound(x.States[timer].Chan); d != "" {
						r.bad("bound", id, p.pos(x.Pos()), "%s: %s", fnKey(f), d)
					}
					checkTimeoutBranch(p, r, f, x, timer, id)
				}
			}
		}
	}
	checkTimeoutDecl(p, r)
	r.min("receive", 8)
}

// localJoin: the channel was made in the same function and one of its own goroutines sends on or closes it.
func localJoin(ch ssa.Value) bool {
	q := resolve(ch)
	mc, ok := q.root.(*ssa.MakeChan)
	if !ok || len(q.segs) > 0 {
		return false
	}
	for _, a := range mc.Parent().AnonFuncs {
		if sendsOnChannel(a) {
			return true
		}
	}
	// or closed by the function itself before it can wait for anything else
	for _, b := range mc.Parent().Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && resolve(c.Common().Args[0]).root == ssa.Value(mc) {
					return true
				}
			}
		}
	}
	return false
}

// chanNames: the field or variable names a channel is known by; a parameter is followed to the call sites.
func chanNames(ch ssa.Value, callers map[*ssa.Function][]callSite, d int) []string {
	q := resolve(ch)
	for i := len(q.segs) - 1; i >= 0; i-- {
		if q.segs[i].kind == 'f' {
			return []string{q.segs[i].name}
		}
	}
	if pr, ok := q.root.(*ssa.Parameter); ok && d < 4 {
		var out []string
		seen := map[string]bool{}
		for _, s := range callers[pr.Parent()] {
			for i, x := range pr.Parent().Params {
				if x == pr && i < len(s.c.Common().Args) {
					for _, n := range chanNames(s.c.Common().Args[i], callers, d+1) {
						if !seen[n] {
							seen[n] = true
							out = append(out, n)
						}
					}
				}
			}
		}
		return out
	}
	return []string{q.nice()}
}

// timerCall finds the time.After / NewTimer / context call a timer channel comes from.
func timerCall(ch ssa.Value) *ssa.Call {
	q := resolve(ch)
	if c, ok := q.root.(*ssa.Call); ok {
		switch calleeName(c) {
		case "time.After", "time.NewTimer", "time.Tick":
			return c
		}
		if g := staticCallee(c); g != nil && inRepoFn(g) && len(g.Blocks) > 0 { // helper returning a timer channel
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 {
						return timerCall(ret.Results[0])
					}
				}
			}
		}
	}
	return nil
}

func isTimer(ch ssa.Value) bool {
	if timerCall(ch) != nil {
		return true
	}
	c, ok := resolve(ch).root.(*ssa.Call)
	return ok && strings.Contains(calleeName(c), "context.Context).Done")
}

// timerBound checks the duration of a timer.
func timerBound(ch ssa.Value) string {
	c := timerCall(ch)
	if c == nil {
		return ""
	}
	return badDuration(c.Call.Args[0])
}

func badDuration(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			n := x.Int64()
			if n <= 0 {
				return "the time limit is not positive"
			}
			if n > int64(24*3600)*1e9 {
				return "the time limit is longer than a day"
			}
		}
	case *ssa.BinOp:
		if x.Op == token.MUL {
			for _, o := range []ssa.Value{x.X, x.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Int64() <= 0 {
					return "the time limit is not positive"
				}
			}
		}
	case *ssa.Convert:
		return badDuration(x.X)
	}
	return ""
}

// checkTimeoutBranch: after the timer fires the function ends with an error.
func checkTimeoutBranch(p *Prog, r *Report, f *ssa.Function, sel *ssa.Select, timer int, id string) {
	br := caseBlock(sel, timer)
	if br == nil {
		r.bad("timeout", id, p.pos(sel.Pos()), "%s: nothing happens when the time limit of the wait is reached", fnKey(f))
		return
	}
	r.ob("timeout", id)
	res := f.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		res = nil
	}
	// Follow the paths from the branch, with what merged values and variables hold
	// on the path, up to the returns.
	type env map[ssa.Value]ssa.Value
	steps := 0
	seen := map[string]bool{}
	bad := false
	fail := func(pos token.Pos, format string) {
		if !bad {
			r.bad("timeout", id, p.pos(pos), format, fnKey(f))
		}
		bad = true
	}
	var walk func(b, from *ssa.BasicBlock, e env)
	walk = func(b, from *ssa.BasicBlock, e env) {
		steps++
		if bad || steps > 5000 || deadExit(b) {
			return
		}
		if b == sel.Block() {
			fail(sel.Pos(), "%s goes back to waiting after the time limit")
			return
		}
		val := func(v ssa.Value) ssa.Value {
			if w, ok := e[v]; ok {
				return w
			}
			return v
		}
		n := env{}
		for k, v := range e {
			n[k] = v
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == from {
					n[ph] = val(ph.Edges[i])
				}
			}
		}
		e = n
		key := fmt.Sprint(b.Index, "/")
		var ks []string
		for k, v := range e {
			ks = append(ks, k.Name()+"="+v.Name())
		}
		sort.Strings(ks)
		key += strings.Join(ks, ",")
		if seen[key] {
			return
		}
		seen[key] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && isErrorType(x.Val.Type()) {
					e[al] = val(x.Val)
				}
			case *ssa.UnOp:
				if w, ok := e[x.X]; ok && x.Op == token.MUL {
					e[x] = w
				} else {
					delete(e, x)
				}
			case *ssa.Return:
				if res == nil {
					return
				}
				v := val(x.Results[len(x.Results)-1])
				if c, ok := v.(*ssa.Const); ok && c.IsNil() {
					fail(x.Pos(), "%s returns no error after the time limit of the wait is reached")
				} else if !madeAfter(v, br) {
					fail(x.Pos(), "%s goes on after the time limit of the wait is reached: it does not return an error made there")
				}
				return
			case *ssa.If:
				if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
					v := bo.X
					if isNilConst(v) {
						v = bo.Y
					} else if !isNilConst(bo.Y) {
						v = nil
					}
					if v != nil && isErrorType(v.Type()) {
						nn, nl := b.Succs[0], b.Succs[1]
						if bo.Op == token.EQL {
							nn, nl = nl, nn
						}
						w := val(v)
						if c, ok := w.(*ssa.Const); ok && c.IsNil() {
							walk(nl, b, e)
							return
						}
						if madeAfter(w, br) {
							walk(nn, b, e)
							return
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, b, e)
		}
	}
	walk(br, sel.Block(), env{})
}

// madeAfter: the error is made in the branch, or is one that always exists.
func madeAfter(v ssa.Value, br *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.Global, *ssa.Phi:
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return true
		}
		if _, ok := x.X.(*ssa.FieldAddr); ok {
			return true
		}
	case *ssa.Call:
		if isErrorConstructor(calleeName(x)) {
			return true
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.Const:
		return !x.IsNil()
	}
	in, ok := v.(ssa.Instruction)
	return ok && (in.Block() == br || br.Dominates(in.Block()))
}

// caseBlock is the block executed when the select takes case k.
func caseBlock(sel *ssa.Select, k int) *ssa.BasicBlock {
	var idx ssa.Value
	for _, ref := range *sel.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
			idx = e
		}
	}
	if idx == nil {
		return nil
	}
	tested := 0
	var last *ssa.BasicBlock
	for _, ref := range *idx.Referrers() {
		bo, ok := ref.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL {
			continue
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok {
			continue
		}
		for _, rr := range *bo.Referrers() {
			if iff, ok := rr.(*ssa.If); ok {
				tested++
				if int(c.Int64()) == k {
					return iff.Block().Succs[0]
				}
				last = iff.Block().Succs[1]
			}
		}
	}
	if last != nil && !deadExit(last) {
		return last
	}
	return nil
}

// checkTimeoutDecl: the package-level limit is a positive finite duration.
func checkTimeoutDecl(p *Prog, r *Report) {
	for _, f := range p.Funcs {
		if !inScope(f, "lib", "protocols", "services") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() != "TIMEOUT" {
					continue
				}
				r.ob("limit", fnKey(f))
				if d := badDuration(st.Val); d != "" {
					r.bad("bound", fnKey(f)+":TIMEOUT", p.pos(st.Pos()), "TIMEOUT: %s", d)
				}
			}
		}
	}
}
