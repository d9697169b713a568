package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "every goroutine spawned in lib, protocols, services and cmd: announced to its wait group before it starts, signals completion exactly once on every exit, and is waited for on every path of the spawning function before it returns and before shared results are read; two goroutines (or a goroutine and its spawner) never access the same location unordered unless both hold the same mutex or address elements selected by a per-goroutine index", checkWorkers)
}

var libScope = []string{"lib", "protocols", "services", "cmd", "data"}

func wgMethod(c ssa.CallInstruction) string {
	switch calleeName(c) {
	case "(*sync.WaitGroup).Add":
		return "Add"
	case "(*sync.WaitGroup).Done":
		return "Done"
	case "(*sync.WaitGroup).Wait":
		return "Wait"
	}
	return ""
}

func isWG(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem().String() == "sync.WaitGroup"
	}
	return false
}

// at lifts a path rooted in a parameter of a called function to the caller's argument.
func (a apath) at(f *ssa.Function, c ssa.CallInstruction) apath {
	if p, ok := a.root.(*ssa.Parameter); ok && p.Parent() == f {
		for i, q := range f.Params {
			if q == p && i < len(c.Common().Args) {
				b := resolve(c.Common().Args[i])
				b.segs = append(append([]aseg{}, b.segs...), a.segs...)
				return b
			}
		}
	}
	return a
}

type counts map[int]bool

func (c counts) add(n int) counts {
	o := counts{}
	for k := range c {
		v := k + n
		if v > 12 {
			v = 12
		}
		if v < -2 {
			v = -2
		}
		o[v] = true
	}
	return o
}

func (c counts) String() string {
	var ks []int
	for k := range c {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return strings.Trim(fmt.Sprint(ks), "[]")
}

// doneCounts is the set of numbers of Done calls on the wait group over all
// ways out of f (deferred calls included).
func doneCounts(f *ssa.Function, key string, depth int) counts {
	if len(f.Blocks) == 0 || depth > 6 {
		return counts{0: true}
	}
	in := map[*ssa.BasicBlock]counts{f.Blocks[0]: {0: true}}
	out := counts{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := in[b]
		dead := false
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case ssa.CallInstruction:
				if _, isGo := x.(*ssa.Go); isGo {
					continue
				}
				if d := callDone(x, key, depth); len(d) > 0 {
					n := counts{}
					for k := range d {
						for q := range st.add(k) {
							n[q] = true
						}
					}
					st = n
				}
			case *ssa.Return:
				for k := range st {
					out[k] = true
				}
			case *ssa.Panic:
				dead = true
			}
		}
		if dead || deadExit(b) {
			continue
		}
		for _, s := range b.Succs {
			m := in[s]
			ch := m == nil
			if ch {
				m = counts{}
				in[s] = m
			}
			for k := range st {
				if !m[k] {
					m[k] = true
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return out
}

// callDone is the effect of one call on the wait group's Done count (nil: none).
func callDone(c ssa.CallInstruction, key string, depth int) counts {
	if wgMethod(c) == "Done" && resolve(c.Common().Args[0]).key() == key {
		return counts{1: true}
	}
	g := staticCallee(c)
	if g == nil || len(g.Blocks) == 0 {
		return nil
	}
	if g.Parent() != nil { // closure: captured wait group keeps its key
		if d := doneCounts(g, key, depth+1); !(len(d) == 1 && d[0]) {
			return d
		}
	}
	for i, a := range c.Common().Args {
		if isWG(a.Type()) && resolve(a).key() == key && i < len(g.Params) {
			if wgMethod(c) != "" {
				return nil
			}
			return doneCounts(g, resolve(g.Params[i]).key(), depth+1)
		}
	}
	return nil
}

// waitsOn reports whether the call waits for the wait group on every exit of the callee.
func waitsOn(c ssa.CallInstruction, key string, depth int) bool {
	if wgMethod(c) == "Wait" {
		return resolve(c.Common().Args[0]).key() == key
	}
	g := staticCallee(c)
	if g == nil || len(g.Blocks) == 0 || depth > 4 {
		return false
	}
	k := ""
	for i, a := range c.Common().Args {
		if isWG(a.Type()) && resolve(a).key() == key && i < len(g.Params) {
			k = resolve(g.Params[i]).key()
		}
	}
	if g.Parent() != nil {
		k = key
	}
	if k == "" {
		return false
	}
	return !reachReturn(g.Blocks[0], 0, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := ci.(*ssa.Go); isGo {
			return false
		}
		return waitsOn(ci, k, depth+1)
	})
}

// walkFrom visits the instructions reachable after position idx of b until stop
// holds; visit may return false to cut the path too.
func walkFrom(b *ssa.BasicBlock, idx int, stop func(ssa.Instruction) bool) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	work := []pt{{b, idx}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		cut := false
		for i := p.i; i < len(p.b.Instrs); i++ {
			in := p.b.Instrs[i]
			if stop(in) {
				cut = true
				break
			}
			out = append(out, in)
		}
		if cut || deadExit(p.b) {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return out
}

func reachReturn(b *ssa.BasicBlock, idx int, stop func(ssa.Instruction) bool) bool {
	for _, in := range walkFrom(b, idx, stop) {
		if _, ok := in.(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// ---- locks held -------------------------------------------------------------

func lockOp(c ssa.CallInstruction) (op, key string, p apath) {
	n := calleeName(c)
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).TryLock":
		op = "lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		op = "unlock"
	default:
		return "", "", p
	}
	p = resolve(c.Common().Args[0])
	return op, p.key(), p
}

// lockEffect of a call on the set of held locks: locks acquired/released by the
// call itself or by an in-repo callee on every exit.
func locksAfter(f *ssa.Function, entry map[string]bool) map[ssa.Instruction]map[string]bool {
	res := map[ssa.Instruction]map[string]bool{}
	if len(f.Blocks) == 0 {
		return res
	}
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := map[string]bool{}
		for k := range in[b] {
			st[k] = true
		}
		for _, ins := range b.Instrs {
			cp := map[string]bool{}
			for k := range st {
				cp[k] = true
			}
			res[ins] = cp // locks held before ins
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			if op, k, _ := lockOp(c); op == "lock" {
				st[k] = true
			} else if op == "unlock" {
				delete(st, k)
			} else if g := staticCallee(c); g != nil && len(g.Blocks) > 0 && inRepoFn(g) && callsLocks(g, 0) {
				a, r := lockDelta(g, c)
				for k := range a {
					st[k] = true
				}
				for k := range r {
					delete(st, k)
				}
			}
		}
		for _, s := range b.Succs {
			m, ok := in[s]
			if !ok {
				cp := map[string]bool{}
				for k := range st {
					cp[k] = true
				}
				in[s] = cp
				work = append(work, s)
				continue
			}
			ch := false
			for k := range m {
				if !st[k] {
					delete(m, k)
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return res
}

func callsLocks(g *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if op, _, _ := lockOp(c); op != "" {
					return true
				}
			}
		}
	}
	return false
}

// lockDelta: locks held at every exit of g that it acquired, and those it may release without acquiring.
func lockDelta(g *ssa.Function, c ssa.CallInstruction) (acq, rel map[string]bool) {
	acq, rel = map[string]bool{}, map[string]bool{}
	deferred := map[string]bool{}
	held := map[string]map[string]bool{}
	_ = held
	la := map[string]apath{}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				op, k, p := lockOp(ci)
				if op == "" {
					continue
				}
				la[k] = p
				if _, isDefer := ci.(*ssa.Defer); isDefer && op == "unlock" {
					deferred[k] = true
				}
			}
		}
	}
	for k, p := range la {
		lift := p.at(g, c).key()
		exits := lockExits(g, k)
		all := true
		for _, e := range exits {
			if e.state != 1 || deferred[k] {
				all = false
			}
			if e.state == -1 {
				rel[lift] = true
			}
		}
		if all && len(exits) > 0 {
			acq[lift] = true
		}
	}
	return
}

type lockExit struct {
	in    ssa.Instruction
	state int // +1 locked since entry, 0 unchanged, -1 released a lock it did not take
}

// lockExits tracks one mutex through f and lists its state at every return.
func lockExits(f *ssa.Function, key string) []lockExit {
	type st struct {
		b *ssa.BasicBlock
		s int
	}
	var out []lockExit
	seen := map[st]bool{}
	work := []st{{f.Blocks[0], 0}}
	seen[work[0]] = true
	done := map[lockExit]bool{}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		s := p.s
		for _, in := range p.b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if op, k, _ := lockOp(x); k == key {
					if op == "lock" {
						s++
					} else {
						s--
					}
				}
			case *ssa.Return:
				e := lockExit{x, s}
				if !done[e] {
					done[e] = true
					out = append(out, e)
				}
			}
		}
		if deadExit(p.b) || s > 2 || s < -2 {
			continue
		}
		for _, q := range p.b.Succs {
			n := st{q, s}
			if !seen[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return out
}

// ---- shared accesses --------------------------------------------------------

type access struct {
	path  apath // in the spawning function's terms
	local apath // as seen inside the worker
	in    ssa.Instruction
	write bool
	locks map[string]bool
	fn    *ssa.Function
}

var mutatesMemo = map[*ssa.Function][]apath{}

// mutatedParams lists the parameter-rooted locations a function writes.
func mutatedParams(f *ssa.Function) []apath {
	if v, ok := mutatesMemo[f]; ok {
		return v
	}
	mutatesMemo[f] = nil
	var out []apath
	seen := map[string]bool{}
	add := func(a apath) {
		if p, ok := a.root.(*ssa.Parameter); ok && p.Parent() == f && len(a.segs) > 0 || ok && isPtr(a.root.Type()) {
			// a store into the parameter's own (copied) struct is invisible outside
			if !isPtr(a.root.Type()) && len(a.segs) > 0 && a.segs[0].kind == 'f' {
				vis := false
				for _, s := range a.segs {
					if s.kind == '*' || s.kind == 'i' || s.kind == 'm' {
						vis = true
					}
				}
				if !vis {
					return
				}
			}
			if !seen[a.key()] {
				seen[a.key()] = true
				out = append(out, a)
			}
		}
	}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					add(resolve(x.Addr))
				case *ssa.MapUpdate:
					add(resolve(x.Map).with(aseg{kind: 'm'}))
				case ssa.CallInstruction:
					if h := staticCallee(x); h != nil && len(h.Blocks) > 0 && inRepoFn(h) {
						for _, m := range mutatedParams(h) {
							add(m.at(h, x))
						}
					} else if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
						add(resolve(x.Common().Args[0]).with(aseg{kind: 'i'}))
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	mutatesMemo[f] = out
	return out
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// accesses lists the memory accesses of a worker that reach memory it did not create.
func accesses(w *ssa.Function, c ssa.CallInstruction) []access {
	var out []access
	var visit func(g *ssa.Function, depth int)
	visit = func(g *ssa.Function, depth int) {
		held := locksAfter(g, map[string]bool{})
		add := func(p apath, in ssa.Instruction, write bool) {
			l := p
			p = p.at(w, c)
			if p.root.Parent() == g || p.root.Parent() == w {
				if _, par := p.root.(*ssa.Parameter); !par {
					return // created by the worker
				}
				return // by-value parameter copy
			}
			out = append(out, access{p, l, in, write, held[in], g})
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					add(resolve(x.Addr), in, true)
				case *ssa.MapUpdate:
					add(resolve(x.Map).with(aseg{kind: 'm', idx: x.Key}), in, true)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						add(resolve(x.X), in, false)
					}
				case *ssa.Lookup:
					add(resolve(x), in, false)
				case ssa.CallInstruction:
					if _, isGo := x.(*ssa.Go); isGo {
						continue
					}
					h := staticCallee(x)
					if h == nil || len(h.Blocks) == 0 || !inRepoFn(h) {
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
							add(resolve(x.Common().Args[0]).with(aseg{kind: 'i'}), in, true)
						}
						continue
					}
					if h.Parent() != nil && depth < 3 {
						visit(h, depth+1)
						continue
					}
					for _, m := range mutatedParams(h) {
						add(m.at(h, x), in, true)
					}
				}
			}
		}
	}
	visit(w, 0)
	return out
}

// rootValue of an address inside the worker: parameter-rooted paths belong to the worker alone
// only when the argument differs per goroutine; element selectors count when they
// depend on a parameter or on a variable created per goroutine.
func perWorker(a access, w *ssa.Function, g *ssa.Go, loops []*loopInfo) bool {
	variant := func(v ssa.Value) bool { return variesPerSpawn(v, w, g, loops, 0, map[ssa.Value]bool{}) }
	// the path in the worker's own terms
	for _, s := range a.local.segs {
		if (s.kind == 'i') && s.idx != nil && variant(s.idx) {
			return true
		}
	}
	for _, s := range a.path.segs {
		if (s.kind == 'i') && s.idx != nil && variant(s.idx) {
			return true
		}
	}
	if st, ok := a.in.(*ssa.Store); ok && addrVariant(st.Addr, variant) {
		return true
	}
	if u, ok := a.in.(*ssa.UnOp); ok && addrVariant(u.X, variant) {
		return true
	}
	if c, ok := a.in.(ssa.CallInstruction); ok {
		for _, x := range c.Common().Args {
			if addrVariant(x, variant) && strings.HasPrefix(a.path.key(), resolve(x).at(w, g).key()) {
				return true
			}
		}
	}
	return false
}

// addrVariant walks an address expression and tests its selectors.
func addrVariant(v ssa.Value, variant func(ssa.Value) bool) bool {
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if variant(x.Index) {
				return true
			}
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			if x.Low != nil && variant(x.Low) {
				return true
			}
			v = x.X
		case *ssa.Parameter, *ssa.FreeVar:
			return variant(v)
		default:
			return false
		}
	}
	return false
}

// variesPerSpawn: the value differs between goroutines spawned at g (depends on
// a loop-variant argument or on a captured variable created in the spawning loop).
func variesPerSpawn(v ssa.Value, w *ssa.Function, g *ssa.Go, loops []*loopInfo, d int, seen map[ssa.Value]bool) bool {
	if d > 60 || seen[v] {
		return false
	}
	seen[v] = true
	inLoop := func(x ssa.Value) bool {
		in, ok := x.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, l := range loops {
			if l.body[in.Block()] {
				return true
			}
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return distinctSends(x.X)
		}
	case *ssa.Parameter:
		if x.Parent() == w {
			for i, p := range w.Params {
				if p == x && i < len(g.Call.Args) {
					return inLoop(g.Call.Args[i]) && !isConstVal(g.Call.Args[i])
				}
			}
		}
		if c := soleCall(x.Parent()); c != nil {
			for i, p := range x.Parent().Params {
				if p == x && i < len(c.Common().Args) {
					return variesPerSpawn(c.Common().Args[i], w, g, loops, d+1, seen)
				}
			}
			return false
		}
		// a named function called by the worker
		for _, b := range w.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || staticCallee(c) != x.Parent() {
					continue
				}
				for i, p := range x.Parent().Params {
					if p == x && i < len(c.Common().Args) && variesPerSpawn(c.Common().Args[i], w, g, loops, d+1, seen) {
						return true
					}
				}
			}
		}
		return false
	case *ssa.FreeVar:
		b := bindingOf(x)
		if b != ssa.Value(x) {
			if al, ok := b.(*ssa.Alloc); ok && al.Parent() == g.Parent() {
				return inLoop(al)
			}
			return variesPerSpawn(b, w, g, loops, d+1, seen)
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if in.Parent() == g.Parent() {
		return inLoop(v)
	}
	if al, ok := v.(*ssa.Alloc); ok { // a local of the worker: what is stored in it
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == al && variesPerSpawn(st.Val, w, g, loops, d+1, seen) {
				return true
			}
		}
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && variesPerSpawn(*op, w, g, loops, d+1, seen) {
			return true
		}
	}
	return false
}

// distinctSends: every value received from the channel is different, and is
// received once: the channel is made locally, and what is sent on it, at one
// place, is the counter of a loop that is run once.
func distinctSends(ch ssa.Value) bool {
	q := resolve(ch)
	mc, ok := q.root.(*ssa.MakeChan)
	if !ok || len(q.segs) > 0 {
		return false
	}
	f := mc.Parent()
	var sends []*ssa.Send
	bad := false
	walkFuncs(f, func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if resolve(x.Chan).root == ssa.Value(mc) {
						sends = append(sends, x)
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && resolve(s.Chan).root == ssa.Value(mc) {
							bad = true
						}
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if _, isChan := a.Type().Underlying().(*types.Chan); !isChan || resolve(a).root != ssa.Value(mc) {
							continue
						}
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "close" || bi.Name() == "len" || bi.Name() == "cap") {
							continue
						}
						if t, ok := a.Type().Underlying().(*types.Chan); ok && t.Dir() == types.RecvOnly {
							continue
						}
						bad = true
					}
				}
			}
		}
	})
	if bad || len(sends) != 1 {
		return false
	}
	s := sends[0]
	g := s.Parent()
	lps := loopsOf(naturalLoops(g), s.Block())
	if len(lps) != 1 || len(loopsOf(naturalLoops(f), mc.Block())) > 0 && g != f {
		return false
	}
	if g != f { // a goroutine that feeds the channel: started once
		if g.Parent() != f {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && calledLit(c) == g {
					n++
					if len(loopsOf(naturalLoops(f), b)) > 0 {
						return false
					}
				}
			}
		}
		if n != 1 {
			return false
		}
	}
	return steppedCounter(s.X, lps[0])
}

// calledLit is the function a call or go statement runs, literals included.
func calledLit(c ssa.CallInstruction) *ssa.Function {
	switch x := c.Common().Value.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}

func walkFuncs(f *ssa.Function, do func(*ssa.Function)) {
	do(f)
	for _, a := range f.AnonFuncs {
		walkFuncs(a, do)
	}
}

// steppedCounter: a variable of the loop that grows by a constant in each iteration.
func steppedCounter(v ssa.Value, l *loopInfo) bool {
	phi := func(x ssa.Value) *ssa.Phi {
		if ph, ok := x.(*ssa.Phi); ok && ph.Block() == l.head {
			return ph
		}
		return nil
	}
	ph := phi(v)
	if ph == nil {
		b, ok := v.(*ssa.BinOp) // range loops step before the body
		if !ok || b.Op != token.ADD || phi(b.X) == nil || !isConstVal(b.Y) {
			return false
		}
		ph = phi(b.X)
	}
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Int64() <= 0 {
			return false
		}
	}
	return true
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// conflict: do two locations overlap? (an element and the header of its container do not)
func conflict(a, b apath) bool {
	x, y := a.key(), b.key()
	if x == y {
		return true
	}
	if len(x) > len(y) {
		x, y = y, x
	}
	if !strings.HasPrefix(y, x) {
		return false
	}
	rest := y[len(x):]
	if rest == "" || (rest[0] != '.' && rest[0] != '[' && rest[0] != '{') {
		return false
	}
	return !strings.ContainsAny(rest, "[{")
}

func common(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func checkWorkers(p *Prog, r *Report, thorough bool) {
	for _, f := range p.Funcs {
		if !inScope(f, libScope...) {
			continue
		}
		checkSpawns(p, r, f)
	}
	r.min("join", 25)
	r.min("done", 25)
}

func checkSpawns(p *Prog, r *Report, f *ssa.Function) {
	var gos []*ssa.Go
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				gos = append(gos, g)
			}
		}
	}
	if len(gos) == 0 {
		return
	}
	loops := naturalLoops(f)
	held := locksAfter(f, map[string]bool{})
	type worker struct {
		g    *ssa.Go
		fn   *ssa.Function
		wg   string
		accs []access
	}
	var ws []worker
	started := map[string][]*ssa.Go{}
	groups := map[string]apath{}
	for i, g := range gos {
		w := staticCallee(g)
		id := fmt.Sprintf("%s:go#%d", fnKey(f), i)
		if w == nil {
			r.skip("%s: target of go statement is not statically known", id)
			continue
		}
		// the wait group(s) the worker signals
		keys := map[string]apath{}
		collectWG(w, g, keys, 0)
		if len(keys) == 0 {
			if runsProtocol(w, g.Call.Args, 0) {
				r.ob("detached", id+" runs a protocol instance")
				continue
			}
			if sendsOnChannel(w) {
				r.skip("%s: goroutine joined through a channel", id)
				continue
			}
			r.bad("join", id, p.pos(g.Pos()), "goroutine started in %s is never waited for: it signals no wait group", fnKey(f))
			continue
		}
		var wk worker
		for k, kp := range keys {
			d := workerDone(w, g, kp)
			r.ob("done", id)
			if !(len(d) == 1 && d[1]) {
				r.bad("done", id, p.pos(g.Pos()), "goroutine of %s signals its wait group %s time(s) depending on the way it ends, must be exactly once", fnKey(f), d)
			}
			// waited for before every return
			stop := func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				if _, isGo := c.(*ssa.Go); isGo {
					return false
				}
				return waitsOn(c, k, 0)
			}
			r.ob("join", id)
			if reachReturn(g.Block(), instrIndex(g)+1, stop) {
				if !passedOut(kp, f) {
					r.bad("join", id, p.pos(g.Pos()), "%s can return without waiting for the goroutine it started", fnKey(f))
				} else {
					r.skip("%s: wait group handed to the caller", id)
				}
			}
			checkBalance(p, r, f, k, kp, id)
			started[k] = append(started[k], g)
			groups[k] = kp
			wk = worker{g, w, k, accesses(w, g)}
		}
		ws = append(ws, wk)
	}
	for k, kp := range groups {
		checkCount(p, r, f, kp, started[k], loops, fnKey(f)+":"+kp.nice())
	}
	for i, w := range ws {
		if w.fn != nil {
			checkBlocks(p, r, f, w.fn, w.g, fmt.Sprintf("%s:go#%d", fnKey(f), i))
		}
	}
	// unordered accesses
	reported := map[string]bool{}
	race := func(w worker, a access, what string) {
		k := fmt.Sprintf("%s:%s:%s", fnKey(f), a.path.nice(), what)
		if reported[k] {
			return
		}
		reported[k] = true
		r.bad("race", k, p.pos(a.in.Pos()), "%s of %s in a goroutine of %s is not ordered with %s", map[bool]string{true: "write", false: "read"}[a.write], a.path.nice(), fnKey(f), what)
	}
	for _, w := range ws {
		lp := loopsOf(loops, w.g.Block())
		for _, a := range w.accs {
			if _, glob := a.path.root.(*ssa.Global); glob {
				continue
			}
			r.ob("race", fnKey(f)+": "+a.path.nice())
			if syncType(a.path, a.in) {
				continue
			}
			// with other goroutines from the same statement
			if a.write && !perWorker(a, w.fn, w.g, lp) && spawnedAgain(w.g, a.path.root) {
				locked := len(a.locks) > 0
				if !locked {
					race(w, a, "the other goroutines started there")
				} else {
					// readers of the same location without the lock
					for _, o := range w.accs {
						if !o.write && conflict(o.path, a.path) && !common(o.locks, a.locks) && !perWorker(o, w.fn, w.g, lp) {
							race(w, o, "the locked write of the other goroutines")
						}
					}
				}
			}
			// with the spawning function
			stop := func(in ssa.Instruction) bool {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := c.(*ssa.Go); !isGo && waitsOn(c, w.wg, 0) {
						return true
					}
				}
				v, ok := in.(ssa.Value)
				return ok && v == a.path.root
			}
			// accesses to the own element before the next iteration starts
			own := map[ssa.Instruction]bool{}
			mine := perWorker(a, w.fn, w.g, lp)
			if mine && len(lp) > 0 {
				h := lp[0].head
				for _, in := range walkFrom(w.g.Block(), instrIndex(w.g)+1, func(in ssa.Instruction) bool { return in.Block() == h || stop(in) }) {
					own[in] = true
				}
			}
			for _, in := range walkFrom(w.g.Block(), instrIndex(w.g)+1, stop) {
				if mine && len(lp) > 0 && lp[0].body[in.Block()] && !own[in] {
					continue // another iteration: another element
				}
				var q apath
				var wr bool
				switch x := in.(type) {
				case *ssa.Store:
					q, wr = resolve(x.Addr), true
				case *ssa.UnOp:
					if x.Op != token.MUL {
						continue
					}
					q = resolve(x.X)
				case *ssa.MapUpdate:
					q, wr = resolve(x.Map).with(aseg{kind: 'm'}), true
				default:
					continue
				}
				if (wr || a.write) && conflict(q, a.path) && !common(held[in], a.locks) {
					race(w, a, "an access of the spawning function before it waits")
				}
			}
		}
	}
	for i, w := range ws {
		for j, o := range ws {
			if i == j {
				continue
			}
			stop := func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				if _, isGo := c.(*ssa.Go); isGo {
					return false
				}
				return waitsOn(c, w.wg, 0)
			}
			reach := false
			for _, in := range walkFrom(w.g.Block(), instrIndex(w.g)+1, stop) {
				if in == ssa.Instruction(o.g) {
					reach = true
				}
			}
			if !reach {
				continue
			}
			for _, a := range w.accs {
				for _, b := range o.accs {
					if (a.write || b.write) && conflict(a.path, b.path) && !common(a.locks, b.locks) && !syncType(a.path, a.in) && !strings.ContainsAny(a.path.key(), "[{") {
						race(w, a, "another goroutine started there")
					}
				}
			}
		}
	}
}

// syncType: wait groups, mutexes and channels synchronise themselves.
func syncType(p apath, in ssa.Instruction) bool {
	var t types.Type
	switch x := in.(type) {
	case *ssa.UnOp:
		t = x.Type()
	case *ssa.Store:
		t = x.Val.Type()
	default:
		return false
	}
	s := t.String()
	return strings.Contains(s, "sync.WaitGroup") || strings.Contains(s, "sync.Mutex") || strings.Contains(s, "sync.RWMutex")
}

// spawnedAgain: the go statement can run again without the location being created anew.
func spawnedAgain(g *ssa.Go, root ssa.Value) bool {
	for _, in := range walkFrom(g.Block(), instrIndex(g)+1, func(in ssa.Instruction) bool {
		v, ok := in.(ssa.Value)
		return ok && v == root
	}) {
		if in == ssa.Instruction(g) {
			return true
		}
	}
	return false
}

func collectWG(w *ssa.Function, g ssa.CallInstruction, keys map[string]apath, depth int) {
	if depth > 4 {
		return
	}
	var visit func(h *ssa.Function)
	visit = func(h *ssa.Function) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if wgMethod(c) == "Done" {
					q := resolve(c.Common().Args[0]).at(w, g)
					keys[q.key()] = q
					continue
				}
				t := staticCallee(c)
				if t == nil || len(t.Blocks) == 0 {
					continue
				}
				if t.Parent() != nil {
					visit(t)
					continue
				}
				for _, a := range c.Common().Args {
					if isWG(a.Type()) {
						sub := map[string]apath{}
						collectWG(t, c, sub, depth+1)
						for _, q := range sub {
							q = q.at(w, g)
							keys[q.key()] = q
						}
					}
				}
			}
		}
	}
	visit(w)
}

// workerDone: Done counts of a worker for a wait group named in the spawner's terms.
func workerDone(w *ssa.Function, g *ssa.Go, kp apath) counts {
	// find the worker's own name for it
	for i, a := range g.Call.Args {
		if isWG(a.Type()) && resolve(a).key() == kp.key() && i < len(w.Params) {
			k := resolve(w.Params[i]).key()
			return doneCounts(w, k, 0)
		}
	}
	return doneCounts(w, kp.key(), 0)
}

// runsProtocol: the goroutine is the run of a protocol instance, which ends on its own.
func runsProtocol(w *ssa.Function, args []ssa.Value, d int) bool {
	for _, a := range args {
		if mc, ok := a.(*ssa.MakeClosure); ok && protocolMethod(mc.Fn.Name()) {
			return true
		}
	}
	if d > 3 || w == nil {
		return false
	}
	if w.Synthetic != "" && protocolMethod(w.Name()) {
		return true
	}
	for _, b := range w.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().IsInvoke() {
				switch c.Common().Method.Name() {
				case "Dispatch", "Start":
					return true
				}
			} else if g := staticCallee(c); g != nil && inRepoFn(g) && runsProtocol(g, c.Common().Args, d+1) {
				return true
			}
		}
	}
	return false
}

func protocolMethod(n string) bool { return n == "Dispatch$bound" || n == "Start$bound" }

func sendsOnChannel(w *ssa.Function) bool {
	for _, b := range w.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return true
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					return true
				}
			}
		}
	}
	return false
}

func passedOut(kp apath, f *ssa.Function) bool {
	_, par := kp.root.(*ssa.Parameter)
	return par && kp.root.Parent() == f
}

// checkBalance: goroutines announced with constant increments are announced
// before they start and all announced ones are started before the wait.
func checkBalance(p *Prog, r *Report, f *ssa.Function, key string, kp apath, id string) {
	init := 0
	known := true
	addOf := func(c ssa.CallInstruction) (int, bool, bool) { // amount, constant, is an add
		if wgMethod(c) == "Add" && resolve(c.Common().Args[0]).key() == key {
			if k, ok := c.Common().Args[1].(*ssa.Const); ok {
				return int(k.Int64()), true, true
			}
			return 0, false, true
		}
		return 0, true, false
	}
	if c, ok := kp.root.(*ssa.Call); ok { // made by StartParallelize(n) or a like helper
		if g := staticCallee(c); g != nil && len(g.Params) == 1 && len(c.Call.Args) == 1 {
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				init = int(k.Int64())
			} else {
				known = false
			}
		} else {
			known = false
		}
	}
	type st struct {
		b *ssa.BasicBlock
		n int
	}
	seen := map[st]bool{}
	work := []st{{f.Blocks[0], 0}}
	active := func(in ssa.Instruction) bool { v, ok := in.(ssa.Value); return ok && v == kp.root }
	for len(work) > 0 && known {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		n := q.n
		for _, in := range q.b.Instrs {
			if active(in) {
				n = init
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g, isGo := c.(*ssa.Go); isGo {
				if w := staticCallee(g); w != nil {
					ks := map[string]apath{}
					collectWG(w, g, ks, 0)
					if _, mine := ks[key]; mine {
						n--
						if n < 0 {
							r.bad("announce", id, p.pos(g.Pos()), "%s starts a goroutine that was not announced to its wait group first: waiting can end before it has run", fnKey(f))
							return
						}
					}
				}
				continue
			}
			if a, isConst, isAdd := addOf(c); isAdd {
				if !isConst {
					known = false
					break
				}
				n += a
			} else if waitsOn(c, key, 0) {
				if n != 0 {
					r.bad("announce", id, p.pos(c.Pos()), "%s waits for %d goroutine(s) it announced but did not start", fnKey(f), n)
					return
				}
			}
		}
		if n > 4 || deadExit(q.b) {
			continue
		}
		for _, s := range q.b.Succs {
			x := st{s, n}
			if !seen[x] {
				seen[x] = true
				work = append(work, x)
			}
		}
	}
	if known {
		r.ob("announce", id)
	}
}
