package main

import (
	"fmt"
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Blocks of work: a goroutine started for i writes elements i+j (or j counted
// from i) for j below a bound, and i advances by a stride. The block must not be
// longer than the stride, or two goroutines write the same element; and a wait
// group made for n goroutines must be signalled n times.

// lin is a linear form: symbol -> coefficient, "" is the constant.
type lin map[interface{}]int64

func (a lin) plus(b lin, k int64) lin {
	out := lin{}
	for s, c := range a {
		out[s] = c
	}
	for s, c := range b {
		if out[s] += k * c; out[s] == 0 {
			delete(out, s)
		}
	}
	return out
}

// constant: the form is a plain number.
func (a lin) constant() (int64, bool) {
	for s, c := range a {
		if s != "" && c != 0 {
			return 0, false
		}
	}
	return a[""], true
}

// linOf is the linear form of an integer; loads of package variables and lengths
// of places that are filled once are symbols of their own.
func linOf(v ssa.Value, d int) lin {
	if d > 8 {
		return lin{v: 1}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if k, ok := constant.Int64Val(x.Value); ok {
				if k == 0 {
					return lin{}
				}
				return lin{"": k}
			}
		}
	case *ssa.Convert:
		return linOf(x.X, d+1)
	case *ssa.ChangeType:
		return linOf(x.X, d+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return linOf(x.X, d+1).plus(linOf(x.Y, d+1), 1)
		case token.SUB:
			return linOf(x.X, d+1).plus(linOf(x.Y, d+1), -1)
		case token.MUL:
			for _, q := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, ok := linOf(q[1], d+1).constant(); ok {
					return lin{}.plus(linOf(q[0], d+1), k)
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return lin{g: 1}
			}
			if w := soleStore(x.X); w != nil {
				return linOf(w, d+1)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return lenOf(x.Call.Args[0], d+1)
		}
	}
	return lin{v: 1}
}

func lenOf(v ssa.Value, d int) lin {
	if d > 8 {
		return lin{v: 1}
	}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return linOf(x.Len, d+1)
	case *ssa.ChangeType:
		return lenOf(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w := soleStore(x.X); w != nil {
				return lenOf(w, d+1)
			}
			p := resolve(x.X)
			if m := soleMake(x.Parent(), p.key()); m != nil {
				return linOf(m.Len, d+1)
			}
			return lin{"len " + p.key(): 1}
		}
	}
	return lin{"len " + resolve(v).key(): 1}
}

// soleStore: the value of a local variable that is set once.
func soleStore(addr ssa.Value) ssa.Value {
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		if fv, ok := addr.(*ssa.FreeVar); ok {
			if al, ok = bindingOf(fv).(*ssa.Alloc); !ok {
				return nil
			}
		} else {
			return nil
		}
	}
	var out ssa.Value
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				if out != nil {
					return nil
				}
				out = x.Val
			} else {
				return nil
			}
		case *ssa.MakeClosure, *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if al.Heap { // captured: no closure may set it either
		for _, f := range al.Parent().AnonFuncs {
			if storesTo(f, al) {
				return nil
			}
		}
	}
	return out
}

func storesTo(f *ssa.Function, al *ssa.Alloc) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fv, ok := st.Addr.(*ssa.FreeVar); ok && bindingOf(fv) == ssa.Value(al) {
					return true
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if storesTo(g, al) {
			return true
		}
	}
	return false
}

// soleMake: the place is only ever set to one slice made in the function.
func soleMake(f *ssa.Function, key string) *ssa.MakeSlice {
	var out *ssa.MakeSlice
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && resolve(st.Addr).key() == key {
				n++
				out, _ = st.Val.(*ssa.MakeSlice)
			}
		}
	}
	if n == 1 {
		return out
	}
	return nil
}

// bindSpawn rewrites symbols of the worker (its parameters) to the spawner's values.
func bindSpawn(a lin, w *ssa.Function, g *ssa.Go) lin {
	out := lin{}
	for s, c := range a {
		q := lin{s: 1}
		if p, ok := s.(*ssa.Parameter); ok && p.Parent() == w {
			for i, x := range w.Params {
				if x == p && i < len(g.Call.Args) {
					q = linOf(g.Call.Args[i], 0)
				}
			}
		}
		out = out.plus(q, c)
	}
	return out
}

// stepOf: the value is a loop counter of the function and advances by the form.
func stepOf(v ssa.Value) (lin, bool) {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return nil, false
	}
	for i, e := range ph.Edges {
		if !ph.Block().Dominates(ph.Block().Preds[i]) {
			continue
		}
		d := linOf(e, 0).plus(lin{ph: 1}, -1)
		if d[ph] != 0 {
			return nil, false
		}
		return d, true
	}
	return nil, false
}

// upperBounds of a loop counter: forms the counter stays below while the loop goes on.
func upperBounds(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) []lin {
	var out []lin
	for b := range body {
		if len(b.Instrs) == 0 || len(b.Succs) != 2 {
			continue
		}
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, ok := c.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, l, r := x.Op, linOf(x.X, 0), linOf(x.Y, 0)
		if !body[b.Succs[0]] && body[b.Succs[1]] { // the loop goes on when it does not hold
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			default:
				continue
			}
		} else if body[b.Succs[1]] || !body[b.Succs[0]] {
			continue
		}
		switch op {
		case token.GTR:
			op, l, r = token.LSS, r, l
		case token.GEQ:
			op, l, r = token.LEQ, r, l
		}
		if op == token.NEQ {
			op = token.LSS
			if l[ph] == 0 {
				l, r = r, l
			}
		}
		k := l[ph] - r[ph]
		if k != 1 || op != token.LSS && op != token.LEQ {
			continue
		}
		bd := r.plus(l, -1).plus(lin{ph: 1}, 1)
		if op == token.LEQ {
			bd = bd.plus(lin{"": 1}, 1)
		}
		out = append(out, bd)
	}
	return out
}

func checkBlocks(p *Prog, r *Report, f *ssa.Function, w *ssa.Function, g *ssa.Go, id string) {
	wl := naturalLoops(w)
	for _, b := range w.Blocks {
		for _, in := range b.Instrs {
			if sl, ok := in.(*ssa.Slice); ok {
				checkSliceBlock(p, r, f, w, g, id, sl)
				continue
			}
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !writtenThrough(ia) {
				continue
			}
			idx := linOf(ia.Index, 0)
			for s, c := range idx {
				ph, ok := s.(*ssa.Phi)
				if !ok || c != 1 || ph.Parent() != w {
					continue
				}
				var body map[*ssa.BasicBlock]bool
				for _, l := range wl {
					if l.head == ph.Block() {
						body = l.body
					}
				}
				if body == nil {
					continue
				}
				var start lin
				for i, e := range ph.Edges {
					if !ph.Block().Dominates(ph.Block().Preds[i]) {
						start = linOf(e, 0)
					}
				}
				if start == nil {
					continue
				}
				base := bindSpawn(idx.plus(lin{ph: 1}, -1).plus(start, 1), w, g)
				for t, k := range base {
					v, ok := t.(ssa.Value)
					if !ok || k != 1 || v.Parent() != f {
						continue
					}
					step, ok := stepOf(v)
					if !ok {
						continue
					}
					bad, good, known := int64(0), false, false
					for _, bd := range upperBounds(ph, body) {
						span := bindSpawn(bd.plus(start, -1), w, g)
						if d, ok := span.plus(step, -1).constant(); ok {
							known = true
							if d > 0 {
								bad = d
							} else {
								good = true
							}
						}
					}
					if !known {
						continue
					}
					r.ob("block", fmt.Sprintf("%s: elements written at %s", id, p.pos(ia.Pos())))
					if bad > 0 && !good {
						r.bad("block", id, p.pos(ia.Pos()), "the block of elements a goroutine of %s writes is %d longer than the distance between blocks: two goroutines write the same element", fnKey(f), bad)
					}
				}
			}
		}
	}
}

// checkSliceBlock: the block a goroutine writes is cut out as a slice.
func checkSliceBlock(p *Prog, r *Report, f *ssa.Function, w *ssa.Function, g *ssa.Go, id string, sl *ssa.Slice) {
	if sl.Low == nil || sl.High == nil || !writtenThrough(sl) {
		return
	}
	low := bindSpawn(linOf(sl.Low, 0), w, g)
	for t, k := range low {
		v, ok := t.(ssa.Value)
		if !ok || k != 1 || v.Parent() != f {
			continue
		}
		step, ok := stepOf(v)
		if !ok {
			continue
		}
		highs := []ssa.Value{sl.High}
		if ph, ok := sl.High.(*ssa.Phi); ok {
			highs = ph.Edges
		}
		bad, known := int64(0), false
		for _, h := range highs {
			span := bindSpawn(linOf(h, 0), w, g).plus(low, -1)
			if d, ok := span.plus(step, -1).constant(); ok {
				known = true
				if d > 0 {
					bad = d
				}
			}
		}
		if known {
			r.ob("block", fmt.Sprintf("%s: elements written at %s", id, p.pos(sl.Pos())))
			if bad > 0 {
				r.bad("block", id, p.pos(sl.Pos()), "the block of elements a goroutine of %s writes is %d longer than the distance between blocks: two goroutines write the same element", fnKey(f), bad)
			}
		}
	}
}

// writtenThrough: something is stored at the element, in a field of it or in
// what it refers to.
func writtenThrough(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if writtenThrough(x) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == v && writtenThrough(x) {
				return true
			}
		case *ssa.Slice:
			if x.X == v && writtenThrough(x) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isRefLike(x.Type()) && kyberKind(x.Type()) == "" && writtenThrough(x) {
				return true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && cc.Args[0] == v {
					return true
				}
				continue
			}
			h := staticCallee(x)
			if h == nil || len(h.Blocks) == 0 || !inRepoFn(h) {
				continue
			}
			for i, q := range h.Params {
				if i >= len(cc.Args) || cc.Args[i] != v {
					continue
				}
				for _, m := range mutatedParams(h) {
					if m.root == ssa.Value(q) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkCount: a wait group made for n goroutines that are started in one loop.
func checkCount(p *Prog, r *Report, f *ssa.Function, kp apath, gos []*ssa.Go, loops []*loopInfo, id string) {
	c, ok := kp.root.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 || len(gos) != 1 {
		return
	}
	if h := staticCallee(c); h == nil || !inRepoFn(h) {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && wgMethod(c) == "Add" {
				return
			}
		}
	}
	n := linOf(c.Call.Args[0], 0)
	g := gos[0]
	lp := loopsOf(loops, g.Block())
	if len(lp) != 1 || lp[0].body[c.Block()] {
		return
	}
	// once per iteration
	for b := range lp[0].body {
		for _, s := range b.Succs {
			if s == lp[0].head && !g.Block().Dominates(b) {
				return
			}
		}
	}
	for _, in := range lp[0].head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		step, ok := stepOf(ph)
		if !ok {
			continue
		}
		if k, ok := step.constant(); !ok || k != 1 {
			continue
		}
		var start lin
		for i, e := range ph.Edges {
			if !ph.Block().Dominates(ph.Block().Preds[i]) {
				start = linOf(e, 0)
			}
		}
		bds := upperBounds(ph, lp[0].body)
		if start == nil || len(bds) != 1 {
			continue
		}
		trips := bds[0].plus(start, -1)
		if d, ok := trips.plus(n, -1).constant(); ok {
			r.ob("count", id)
			if d != 0 {
				r.bad("count", id, p.pos(c.Pos()), "the wait group of %s is made for %d more goroutine(s) than are started", fnKey(f), -d)
			}
		}
	}
}
