package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "every Lock in lib, protocols, services: released on every way out of the function that took it, never taken twice, never released when not held, not held across channel operations, waits or callbacks that take it again; every access to the decryption table state and to the response tables of a Store inside their packages happens with the declared mutex held (or in a function only called with it held)", checkLocks)
}

// guarded shared state: location suffix -> mutex suffix (same root).
var guardedGlobals = map[string]string{
	"/lib.PointToInt":         "/lib.mutex",
	"/lib.currentGreatestM":   "/lib.mutex",
	"/lib.currentGreatestInt": "/lib.mutex",
}

var guardedFields = map[string]bool{ // fields of lib/store.Store guarded by its Mutex
	"DpResponses": true, "DpResponsesAggr": true,
	"LocAggregatedProcessResponse":          true,
	"GroupedDeterministicFilteredResponses": true,
}

func checkLocks(p *Prog, r *Report, thorough bool) {
	for _, f := range p.Funcs {
		if !inScope(f, libScope...) || len(f.Blocks) == 0 {
			continue
		}
		checkLockBalance(p, r, f)
	}
	checkGuarded(p, r)
	r.min("balance", 15)
	r.min("guard", 20)
}

type lockCall struct {
	c    ssa.CallInstruction
	op   string
	key  string
	path apath
}

func lockCalls(f *ssa.Function) []lockCall {
	var out []lockCall
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if op, k, p := lockOp(c); op != "" {
					out = append(out, lockCall{c, op, k, p})
				}
			}
		}
	}
	return out
}

func checkLockBalance(p *Prog, r *Report, f *ssa.Function) {
	keys := map[string]apath{}
	for _, lc := range lockCalls(f) {
		keys[lc.key] = lc.path
	}
	// a deferred closure may release
	for k, kp := range keys {
		r.ob("balance", fnKey(f)+": "+kp.nice())
		type st struct {
			b    *ssa.BasicBlock
			held int
			def  int
		}
		seen := map[st]bool{}
		start := st{f.Blocks[0], 0, 0}
		seen[start] = true
		work := []st{start}
		report := func(in ssa.Instruction, what string) {
			r.bad("balance", fmt.Sprintf("%s:%s:%s", fnKey(f), kp.nice(), what), p.pos(in.Pos()), "%s: mutex %s %s", fnKey(f), kp.nice(), what)
		}
		entryHeld := releasesOnly(f, k)
		for len(work) > 0 {
			q := work[len(work)-1]
			work = work[:len(work)-1]
			held, def := q.held, q.def
			bad := false
			for _, in := range q.b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					op, kk, _ := lockOp(c)
					_, isDefer := c.(*ssa.Defer)
					_, isGo := c.(*ssa.Go)
					if isGo {
						continue
					}
					if op != "" && kk == k {
						switch {
						case op == "lock" && isDefer:
							report(in, "is locked by a deferred call")
							bad = true
						case op == "lock":
							held++
							if held > 1 {
								report(in, "is locked while already held")
								bad = true
							}
						case isDefer:
							def++
						default:
							held--
							if held < 0 && !entryHeld {
								report(in, "is released without being held")
								bad = true
							}
						}
						continue
					}
					if isDefer {
						if g := staticCallee(c); g != nil && g.Parent() != nil {
							for _, lc := range lockCalls(g) {
								if lc.key == k && lc.op == "unlock" {
									def++
								}
							}
						}
						continue
					}
					if held > 0 {
						if n := wgMethod(c); n == "Wait" {
							report(in, "is held while waiting for goroutines")
						}
						if g := staticCallee(c); g != nil && inRepoFn(g) && relocks(g, c, k, 0) {
							report(in, "is held while calling "+fnKey(g)+", which takes it again")
						}
					}
				}
				if held > 0 {
					switch x := in.(type) {
					case *ssa.Send:
						report(in, "is held while sending on a channel")
					case *ssa.UnOp:
						if x.Op.String() == "<-" {
							report(in, "is held while receiving from a channel")
						}
					case *ssa.Select:
						if x.Blocking {
							report(in, "is held while waiting in a select")
						}
					}
				}
				if ret, ok := in.(*ssa.Return); ok {
					if held-def > 0 {
						report(ret, "is still held when the function returns")
					}
					if held-def < 0 && !entryHeld {
						report(ret, "is released more often than it was taken")
					}
				}
			}
			if bad || deadExit(q.b) || held > 2 || held < -2 || def > 2 {
				continue
			}
			for _, s := range q.b.Succs {
				n := st{s, held, def}
				if !seen[n] {
					seen[n] = true
					work = append(work, n)
				}
			}
		}
	}
}

// releasesOnly: an unlock helper (its caller holds the lock).
func releasesOnly(f *ssa.Function, k string) bool {
	for _, lc := range lockCalls(f) {
		if lc.key == k && lc.op == "lock" {
			return false
		}
	}
	return true
}

// relocks: the callee may take the mutex that the caller holds.
func relocks(g *ssa.Function, c ssa.CallInstruction, key string, d int) bool {
	if d > 5 || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if op, _, p := lockOp(ci); op == "lock" {
				// held mutex re-acquired, unless the callee released it before (helpers that unlock first are not used here)
				if p.at(g, c).key() == key {
					return true
				}
				continue
			}
			if h := staticCallee(ci); h != nil && inRepoFn(h) {
				if _, isGo := ci.(*ssa.Go); isGo {
					continue
				}
				// compose the parameter binding by hand: only receiver/globals matter
				for _, q := range relockPaths(h, 0, map[*ssa.Function]bool{}) {
					if q.at(h, ci).at(g, c).key() == key {
						return true
					}
				}
			}
		}
	}
	return false
}

func relockPaths(g *ssa.Function, d int, seen map[*ssa.Function]bool) []apath {
	if d > 4 || seen[g] || len(g.Blocks) == 0 {
		return nil
	}
	seen[g] = true
	var out []apath
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if op, _, p := lockOp(ci); op == "lock" {
				out = append(out, p)
			} else if h := staticCallee(ci); h != nil && inRepoFn(h) {
				if _, isGo := ci.(*ssa.Go); isGo {
					continue
				}
				for _, q := range relockPaths(h, d+1, seen) {
					out = append(out, q.at(h, ci))
				}
			}
		}
	}
	return out
}

// guardOf: which mutex guards this location ("" if none).
func guardOf(a apath, storePkg bool) string {
	if g, ok := a.root.(*ssa.Global); ok {
		k := apath{root: g}.key()
		if m := guardedGlobals[k]; m != "" {
			return m
		}
	}
	if !storePkg {
		return ""
	}
	t := a.root.Type()
	for i, s := range a.segs {
		if s.kind == 'f' && guardedFields[s.name] && strings.HasSuffix(strings.TrimPrefix(t.String(), "*"), "lib/store.Store") {
			base := apath{a.root, a.segs[:i]}
			return base.key() + ".Mutex"
		}
		if s.kind == '*' {
			continue
		}
		if s.kind == 'f' {
			if st, ok := deref(t).Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == s.name {
						t = st.Field(j).Type()
					}
				}
			}
			continue
		}
		return ""
	}
	return ""
}

func checkGuarded(p *Prog, r *Report) {
	memo := map[*ssa.Function]int{}
	callers := callerIndex(p)
	for _, f := range p.Funcs {
		pk := pkgOf(f)
		if !inScope(f, libScope...) || f.Name() == "init" {
			continue
		}
		storePkg := pk == "lib/store"
		held := locksAfter(f, map[string]bool{})
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var paths []apath
				switch x := in.(type) {
				case *ssa.Store:
					paths = append(paths, resolve(x.Addr))
				case *ssa.UnOp:
					if x.Op.String() == "*" {
						paths = append(paths, resolve(x.X))
					}
				case *ssa.MapUpdate:
					paths = append(paths, resolve(x.Map).with(aseg{kind: 'm'}))
				case *ssa.Lookup:
					paths = append(paths, resolve(x))
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok {
						paths = append(paths, resolve(rg.X))
					}
				case ssa.CallInstruction:
					if g := staticCallee(x); g != nil && inRepoFn(g) && len(g.Blocks) > 0 {
						for _, m := range mutatedParams(g) {
							paths = append(paths, m.at(g, x))
						}
					}
				}
				for _, a := range paths {
					m := guardOf(a, storePkg)
					if m == "" || freshRoot(a.root) {
						continue
					}
					r.ob("guard", fnKey(f)+": "+a.nice())
					if held[in][m] {
						continue
					}
					if heldByCallers(f, m, callers, memo, 0) {
						continue
					}
					mn := m[strings.LastIndexAny(m, "/.")+1:]
					r.bad("guard", fmt.Sprintf("%s:%s", fnKey(f), a.nice()), p.pos(in.Pos()), "%s accesses %s without holding %s", fnKey(f), a.nice(), mn)
				}
			}
		}
	}
}

// freshRoot: an object this function has just created is not shared yet.
func freshRoot(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc:
		return true
	}
	return false
}

type callSite struct {
	c  ssa.CallInstruction
	fn *ssa.Function
}

func callerIndex(p *Prog) map[*ssa.Function][]callSite {
	out := map[*ssa.Function][]callSite{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(c); g != nil {
						out[g] = append(out[g], callSite{c, f})
					}
				}
			}
		}
	}
	return out
}

// heldByCallers: f is an internal helper (unexported or closure) and every call
// site holds the mutex.
func heldByCallers(f *ssa.Function, m string, callers map[*ssa.Function][]callSite, memo map[*ssa.Function]int, d int) bool {
	if d > 4 || (f.Parent() == nil && f.Object() != nil && f.Object().Exported()) {
		return false
	}
	sites := callers[f]
	if len(sites) == 0 {
		return f.Parent() != nil && heldByRunner(f, m)
	}
	for _, s := range sites {
		if _, isGo := s.c.(*ssa.Go); isGo {
			return false
		}
		// translate the mutex name into the caller's terms
		want := m
		for i, q := range f.Params {
			pk := resolve(q).key()
			if strings.HasPrefix(m, pk+".") && i < len(s.c.Common().Args) {
				want = resolve(s.c.Common().Args[i]).key() + m[len(pk):]
			}
		}
		held := locksAfter(s.fn, map[string]bool{})
		if held[s.c][want] {
			continue
		}
		if !heldByCallers(s.fn, want, callers, memo, d+1) {
			return false
		}
	}
	return true
}

// heldByRunner: a function literal that is only handed to functions which run it
// while they hold the mutex.
func heldByRunner(f *ssa.Function, m string) bool {
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for _, u := range *mc.Referrers() {
				if _, ok := u.(*ssa.DebugRef); ok {
					continue
				}
				c, ok := u.(*ssa.Call)
				if !ok {
					return false
				}
				h := staticCallee(c)
				if h == nil || !inRepoFn(h) || len(h.Blocks) == 0 {
					return false
				}
				want := ""
				for i, q := range h.Params {
					if i >= len(c.Call.Args) {
						return false
					}
					if k := resolve(c.Call.Args[i]).key(); strings.HasPrefix(m, k+".") {
						want = resolve(q).key() + m[len(k):]
					}
				}
				held := locksAfter(h, map[string]bool{})
				for i, q := range h.Params {
					if c.Call.Args[i] != ssa.Value(mc) {
						continue
					}
					for _, v := range *q.Referrers() {
						if _, ok := v.(*ssa.DebugRef); ok {
							continue
						}
						run, ok := v.(*ssa.Call)
						if !ok || run.Call.Value != ssa.Value(q) || want == "" || !held[run][want] {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}
