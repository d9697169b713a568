package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unknown is a value that changes from one iteration of a loop to the next.
type unknown struct {
	atom *T // its value at the start of the iteration
	init *T
	upd  *T // its value at the end of the iteration
	typ  types.Type
	sol  func(i *T) *T // value after i iterations
	key  *T            // memory cell it belongs to (nil for registers)
	phi  int
	ref  bool // a reference to a kyber value, solved for its content
}

// splitUnknown builds the symbolic value of a cell of type t, one unknown per
// scalar field, and records the unknowns.
func splitUnknown(name string, c *T, t types.Type, init *T, add func(u *unknown)) *T {
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && kyberKind(t) == "" && st.NumFields() > 0 {
			var fs []*T
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, splitUnknown(name+"."+st.Field(i).Name(), c, st.Field(i).Type(), mkField(init, i, fldName(st, i)), add))
			}
			return mkStruct(structSig(t), fs)
		}
	}
	a := mkRaw("it", name, c)
	add(&unknown{atom: a, init: init, typ: t})
	return a
}

// leaves reads the values of the unknowns back from a value of the same shape.
func leaves(v *T, t types.Type, f func(x *T)) {
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && kyberKind(t) == "" && st.NumFields() > 0 {
			for i := 0; i < st.NumFields(); i++ {
				leaves(mkField(v, i, fldName(st, i)), st.Field(i).Type(), f)
			}
			return
		}
	}
	f(v)
}

func (ev *Ev) cellDefault(k *T) (seq bool) {
	t := ev.cellTyp[k]
	if k.op == "obj" {
		return true
	}
	return t == nil || kyberKind(t) != "" || isSlice(t) || isMap(t)
}

func (ev *Ev) evalLoop(fr *frame, l *loopInfo, ins []edge) (outs []edge, rets []ret) {
	return ev.evalLoopFrom(fr, l, ins, map[int]func(i *T) *T{}, map[cellLeaf]bool{})
}

// cellLeaf is one of the parts of what a memory cell holds.
type cellLeaf struct {
	cell *T
	i    int
}

func isStructT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func replaceT(t, old, new *T) *T {
	return substM(t, func(x *T) *T {
		if x == old {
			return new
		}
		return nil
	}, func(*T) bool { return true }, map[int]*T{})
}

// evalLoopFrom summarises a loop; known are the phis whose closed form is
// already known, same the parts of memory that hold the same reference throughout.
func (ev *Ev) evalLoopFrom(fr *frame, l *loopInfo, ins []edge, known map[int]func(i *T) *T, same map[cellLeaf]bool) (outs []edge, rets []ret) {
	phis := phisOf(l.head)
	m := ev.joinEdges(fr, l.head, ins)
	st0 := new(state)
	*st0 = *m.st
	st0.over = without(st0.over, l)
	m.st = st0
	c := freshCtr()
	lost0 := ev.lost
	ctrs0 := ev.ctrs
	ev.ctrs = append(append([]*T{}, ctrs0...), c)
	defer func() { ev.ctrs = ctrs0 }()
	base := len(st0.pc)
	ev0 := len(ev.events)
	fail0 := len(ev.failing)
	var changed []*T
	isCh := map[*T]bool{}
	var unks []*unknown
	var es []edge
	var rs []ret
	start := map[*T]*T{}
	for pass := 0; ; pass++ {
		st := st0.clone()
		unks = nil
		add := func(u *unknown) { unks = append(unks, u) }
		for i, ph := range phis {
			n := len(unks)
			if step := ev.stepOf(fr, l, ph); step != nil {
				fr.env[ph] = padd(m.vals[i], pmul(step, c))
				continue
			}
			if f := known[i]; f != nil {
				fr.env[ph] = f(c)
				continue
			}
			fr.env[ph] = splitUnknown(fmt.Sprintf("%s.%s", c.s, ph.Name()), c, ph.Type(), m.vals[i], add)
			for _, u := range unks[n:] {
				u.phi = i
			}
		}
		for i, k := range changed {
			n := len(unks)
			old := ev.content(st0, k, ev.cellDefault(k))
			t := ev.cellTyp[k]
			if k.op != "obj" && t == nil {
				t = nil
			}
			st.mem[k] = splitUnknown(fmt.Sprintf("%s.m%d", c.s, i), c, t, old, add)
			for j, u := range unks[n:] {
				if same[cellLeaf{k, j}] {
					st.mem[k] = replaceT(st.mem[k], u.atom, u.init)
				}
			}
			start[k] = st.mem[k]
			if t := leafTypes["param:"+k.s]; k.op == "param" && t != nil && isSlice(t) && start[k].op == "it" {
				itLen[start[k]] = mkLen(old) // writing elements keeps the length
			}
			for _, u := range unks[n:] {
				u.key = k
			}
		}
		ev.events = ev.events[:ev0]
		ev.failing = ev.failing[:fail0]
		es, rs = ev.evalRegion(fr, l.body, l.head, st, nil)
		if ev.overrun {
			return nil, nil
		}
		n := len(changed)
		var all []*state
		for _, e := range es {
			all = append(all, e.st)
		}
		for _, r := range rs {
			all = append(all, r.st)
		}
		for _, s := range all {
			var ks []*T
			for k, v := range s.mem {
				if k.has(c) || isCh[k] {
					continue
				}
				o, ok := st.mem[k]
				if ok && o == v {
					continue
				}
				if !ok && k.op == "obj" && ev.content(st, k, true).op == "uninit" {
					continue
				}
				if !ok && ev.content(st, k, ev.cellDefault(k)) == v {
					continue
				}
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			for _, k := range ks {
				if !isCh[k] {
					isCh[k] = true
					changed = append(changed, k)
				}
			}
		}
		if len(changed) == n || pass > 5 {
			break
		}
	}
	var backs, exits []edge
	for _, e := range es {
		if e.to == l.head {
			backs = append(backs, e)
		} else {
			exits = append(exits, e)
		}
	}
	if len(backs) == 0 {
		// never repeats: the body runs once
		s := ev.sigma(unks, func(u *unknown) *T { return u.init }, c, tZero)
		return ev.applyOnce(fr, l, es, rs, s, base, ev0)
	}
	var its []item
	for _, e := range backs {
		fr.st = e.st
		its = append(its, item{e.st, ev.phiVals(fr, phis, l.head, e.from)})
	}
	back := ev.merge(its)

	// a register that refers to the same element throughout
	again := false
	byCell := map[*T][]*unknown{}
	for i, ph := range phis {
		if known[i] == nil && kyberKind(ph.Type()) != "" && fr.env[ph].op == "it" && back.vals[i] == fr.env[ph] {
			v := m.vals[i]
			known[i] = func(*T) *T { return v }
			again = true
		}
	}
	for _, u := range unks {
		if u.key != nil {
			byCell[u.key] = append(byCell[u.key], u)
		}
	}
	for _, k := range changed {
		if k.op != "obj" && ev.cellTyp[k] == nil || !ev.isRefCell(k) && !isStructT(ev.cellTyp[k]) {
			continue
		}
		j := 0
		leaves(ev.content(back.st, k, ev.cellDefault(k)), ev.cellTyp[k], func(x *T) {
			if us := byCell[k]; j < len(us) && x == us[j].atom && us[j].typ != nil && kyberKind(us[j].typ) != "" && !same[cellLeaf{k, j}] {
				same[cellLeaf{k, j}], again = true, true
			}
			j++
		})
	}
	if again {
		ev.events, ev.failing = ev.events[:ev0], ev.failing[:fail0]
		ev.lost, ev.ctrs = lost0, ctrs0
		return ev.evalLoopFrom(fr, l, ins, known, same)
	}

	// updates of the unknowns
	byPhi := map[int][]*unknown{}
	byKey := map[*T][]*unknown{}
	for _, u := range unks {
		if u.key != nil {
			byKey[u.key] = append(byKey[u.key], u)
		} else {
			byPhi[u.phi] = append(byPhi[u.phi], u)
		}
	}
	for i, ph := range phis {
		j := 0
		us := byPhi[i]
		leaves(back.vals[i], ph.Type(), func(x *T) {
			if j < len(us) {
				us[j].upd = x
				j++
			}
		})
	}
	for _, k := range changed {
		j := 0
		us := byKey[k]
		leaves(ev.content(back.st, k, ev.cellDefault(k)), ev.cellTyp[k], func(x *T) {
			if j < len(us) {
				us[j].upd = x
				j++
			}
		})
	}
	for _, u := range unks {
		if u.upd == nil {
			u.upd = u.atom
		}
		u.ref = u.typ != nil && kyberKind(u.typ) != "" || u.key != nil && kyberCell(u.key) != ""
		if u.ref && u.key == nil || u.ref && u.key != nil && kyberKind(u.typ) != "" && ev.isRefCell(u.key) {
			// a register or cell holding a reference: solve for the content
			u.upd = ev.kc(back.st, u.upd)
			u.init = ev.kc(st0, u.init)
		}
		if u.typ != nil && isSlice(u.typ) && (u.key == nil || u.key.op != "obj" || objKind(u.key) != "arr") && !ev.isSeqCell(u.key) {
			u.upd = ev.seqAfter(back.st, u.upd)
			u.init = ev.seqval(st0, u.init)
		}
	}
	pc0, pc1 := ev.cur0, ev.cur
	ev.cur0, ev.cur = st0, back.st
	ev.solveAll(unks, c)
	ev.cur0, ev.cur = pc0, pc1

	fallback := func() {
		ev.cur0, ev.cur, ev.anyFold = st0, back.st, true
		ev.solveAll(unks, c)
		ev.cur0, ev.cur, ev.anyFold = pc0, pc1, false
	}

	// counters found on the way can make the rest of the body clearer
	stuck, more := false, false
	for _, u := range unks {
		switch {
		case u.sol == nil:
			stuck = true
		case u.key == nil && isInt(phis[u.phi].Type()) && known[u.phi] == nil:
			x := u.sol(c)
			if !containsT(x, func(y *T) bool { return y.op == "it" && strings.HasPrefix(y.s, c.s+".") }) {
				known[u.phi] = u.sol
				more = true
			}
		}
	}
	if stuck && more {
		ev.events, ev.failing = ev.events[:ev0], ev.failing[:fail0]
		ev.lost, ev.ctrs = lost0, ctrs0
		return ev.evalLoopFrom(fr, l, ins, known, same)
	}
	if stuck {
		fallback()
	}

	// trip count
	sol := func(u *unknown) *T {
		if u.sol == nil {
			if dbgLoop {
				fmt.Println("UNSOLVED", fnKey(fr.f), u.key, "c=", c, "\n   upd:", u.upd, "\n   atom", u.atom)
			}
			return ev.opaque("loop value without closed form in "+fnKey(fr.f), u.init, c)
		}
		return u.sol(c)
	}
	sg := ev.sigma(unks, sol, c, c)
	n := ev.tripCount(fr, l, exits, st0, start, changed, sg, base, c)
	ctrRange[c.s] = n.n
	if dbgLoop {
		fmt.Println("TRIP", fnKey(fr.f), l.head.Index, n.n, len(n.breaks))
	}
	k, few := litInt(n.n)
	few = few && k >= 1 && k <= 10
	if n.n == nil || n.n.op == "opaque" {
		k, few = -1, true
	}
	if few {
		e, f := append([]event{}, ev.events[ev0:]...), append([]event{}, ev.failing[fail0:]...)
		env := map[ssa.Value]*T{}
		for k, v := range fr.env {
			env[k] = v
		}
		ev.events, ev.failing = ev.events[:ev0], ev.failing[:fail0]
		lost := ev.lost
		ev.lost = lost0
		if outs, rets, ok := ev.unroll(fr, l, m, int(k)); ok {
			return outs, rets
		}
		ev.lost = lost
		ev.events, ev.failing = append(ev.events[:ev0], e...), append(ev.failing[:fail0], f...)
		for k := range fr.env {
			delete(fr.env, k)
		}
		for k, v := range env {
			fr.env[k] = v
		}
	}
	if n.n == nil {
		n.n = ev.opaque("number of iterations unknown in "+fnKey(fr.f), c)
	}
	sg = ev.sigma(unks, sol, c, c)

	lc := loopCtx{ctr: c, n: n.n}
	apply := func(t *T) *T {
		if t == nil {
			return nil
		}
		r := sg(t)
		if r != t {
			r = ev.derefValues(st0, r)
		}
		return r
	}
	for i := ev0; i < len(ev.events); i++ {
		e := &ev.events[i]
		for j := range e.args {
			e.args[j] = apply(e.args[j])
		}
		pc := append([]*T{}, e.pc[:min(base, len(e.pc))]...)
		for j := base; j < len(e.pc); j++ {
			x := apply(e.pc[j])
			if n.stay[x] {
				continue
			}
			pc = append(pc, x)
		}
		e.pc = pc
		e.loops = append(e.loops, lc)
	}
	for i := fail0; i < len(ev.failing); i++ {
		e := &ev.failing[i]
		var pc []*T
		for _, x := range e.pc {
			pc = append(pc, apply(x))
		}
		e.pc = pc
		e.loops = append(e.loops, lc)
	}
	// state after the loop
	after := st0.clone()
	fin := func(u *unknown) *T {
		if u.sol == nil {
			return ev.opaque("loop value without closed form in "+fnKey(fr.f), u.init, n.n)
		}
		return ev.derefValues(st0, u.sol(n.n))
	}
	for _, k := range changed {
		us := byKey[k]
		j := 0
		var build func(t types.Type) *T
		build = func(t types.Type) *T {
			if t != nil {
				if s, ok := t.Underlying().(*types.Struct); ok && kyberKind(t) == "" && s.NumFields() > 0 {
					var fs []*T
					for i := 0; i < s.NumFields(); i++ {
						fs = append(fs, build(s.Field(i).Type()))
					}
					return mkStruct(structSig(t), fs)
				}
			}
			u := us[j]
			j++
			return fin(u)
		}
		after.mem[k] = build(ev.cellTyp[k])
	}
	// cells that exist once per iteration
	var fk []*T
	for k := range back.st.mem {
		if k.has(c) && k.op != "it" {
			fk = append(fk, k)
		}
	}
	sort.Slice(fk, func(i, j int) bool { return fk[i].id < fk[j].id })
	for i := len(st0.fams); i < len(back.st.fams); i++ {
		f := back.st.fams[i]
		if f.pat.has(c) || f.val.has(c) {
			f = fam{apply(f.pat), f.ctrs, apply(f.val)}
			if f.pat.has(c) {
				f.ctrs = append(append([]*T{}, f.ctrs...), c)
				f = flattenFam(f, c, n.n)
			}
		}
		after.fams = append(after.fams, f)
	}
	for _, k := range fk {
		p := apply(k)
		after.fams = append(after.fams, fam{p, []*T{c}, apply(back.st.mem[k])})
		if t, ok := ev.objType[k]; ok {
			ev.objType[p] = t
		}
	}
	if dbgLoop {
		for _, f := range after.fams {
			fmt.Println("FAM", fnKey(fr.f), f.pat, f.ctrs, "=", f.val)
		}
	}
	// leaving the loop before its end
	brk := tFalse
	brkCond := make([]*T, len(n.breaks))
	for i, e := range n.breaks {
		var conj []*T
		for _, x := range e.st.pc[base:] {
			x = apply(x)
			if n.stay[x] || x == tTrue {
				continue
			}
			conj = append(conj, x)
		}
		brkCond[i] = and(conj...)
		brk = or(brk, brkCond[i])
	}
	for i := ev0; i < len(ev.events); i++ {
		ls := ev.events[i].loops
		ls[len(ls)-1].stop = brk
	}
	any := quant("exists", c, n.n, brk)
	first := tZero
	if brk != tTrue && brk != tFalse {
		first = firstIx(c, n.n, brk)
		for _, p := range st0.pc {
			if p.op == "not" {
				first = assume(first, p.args[0], false)
			} else {
				first = assume(first, p, true)
			}
		}
	}
	over := map[ssa.Value]*T{} // at the regular end
	overB := map[ssa.Value]*T{}
	// registers defined in the loop and used after it
	for b := range l.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || fr.env[v] == nil {
				continue
			}
			t := apply(fr.env[v])
			x, y := subst(t, c, n.n), t
			if len(n.breaks) > 0 {
				y = subst(t, c, first)
			}
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
				for i, q := range phis {
					if q == ph && len(byPhi[i]) == 1 {
						x = fin(byPhi[i][0])
					}
				}
			}
			fr.env[v] = x
			if len(n.breaks) > 0 && x != y {
				over[v], overB[v] = x, y
				fr.env[v] = ite(any, y, x)
			}
		}
	}
	_ = rs // a return never lies inside a natural loop
	seen := map[*ssa.BasicBlock]bool{}
	for _, e := range n.ends {
		if seen[e.to] {
			continue
		}
		seen[e.to] = true
		s := after.clone()
		if any != tFalse {
			s.pc = append(s.pc, not(any))
		}
		s.over = withOver(st0.over, over)
		outs = append(outs, edge{e.from, e.to, s})
	}
	if len(outs) > 1 {
		// which exit is taken is not decided
		for i := range outs {
			outs[i].st.pc = append(outs[i].st.pc, mkRaw("exit", fmt.Sprintf("%s.%d", c.s, i)))
		}
	}
	at := func(t *T) *T { return subst(apply(t), c, first) }
	for i, e := range n.breaks {
		s := after.clone()
		s.mem = map[*T]*T{}
		for k, v := range e.st.mem {
			nk := at(k)
			s.mem[nk] = at(v)
			if t := ev.objType[k]; t != nil {
				ev.objType[nk] = t
			}
			if t := ev.cellTyp[k]; t != nil {
				ev.cellTyp[nk] = t
			}
		}
		s.pc = append(s.pc, any)
		for j, o := range brkCond {
			if j < i {
				s.pc = append(s.pc, not(subst(o, c, first)))
			}
		}
		s.over = withOver(st0.over, overB)
		outs = append(outs, edge{e.from, e.to, s})
	}
	return outs, nil
}

// derefValues replaces references by what they refer to where a value is meant:
// an element of a sequence that was unknown before may turn out to be one.
func (ev *Ev) derefValues(st *state, t *T) *T {
	isRef := func(x *T) bool { return x.op == "obj" && (objKind(x) == "pt" || objKind(x) == "sc") }
	if !containsT(t, isRef) {
		return t
	}
	all := func(x *T) *T {
		return substM(x, func(y *T) *T {
			if isRef(y) {
				if v := ev.content(st, y, true); v.op != "uninit" {
					return v
				}
			}
			return nil
		}, func(*T) bool { return true }, map[int]*T{})
	}
	return substM(t, func(x *T) *T {
		switch {
		case x.op == "pt", x.op == "poly", x.op == "pteq0", x.op == "eq0", x.op == "lt0",
			strings.HasPrefix(x.op, "marshal"), strings.HasPrefix(x.op, "call"), strings.HasPrefix(x.op, "ext"):
			if containsT(x, isRef) {
				return all(x)
			}
			return x
		}
		return nil
	}, func(*T) bool { return true }, map[int]*T{})
}

// stepOf is what an induction variable grows by in every iteration.
func (ev *Ev) stepOf(fr *frame, l *loopInfo, ph *ssa.Phi) *T {
	if !isInt(ph.Type()) {
		return nil
	}
	var step *T
	for i, p := range ph.Block().Preds {
		if !l.body[p] {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return nil
		}
		y := b.Y
		if b.X != ph {
			if b.Y != ph || b.Op == token.SUB {
				return nil
			}
			y = b.X
		}
		if d, ok := y.(ssa.Instruction); ok && l.body[d.Block()] {
			return nil
		}
		t := ev.val(fr, y)
		if b.Op == token.SUB {
			t = pscale(t, -1)
		}
		if step != nil && step != t {
			return nil
		}
		step = t
	}
	return step
}

// unroll evaluates a loop with a small constant number of iterations one by
// one; n is negative if their number is not known beforehand.
func (ev *Ev) unroll(fr *frame, l *loopInfo, m item, n int) (exits []edge, rets []ret, done bool) {
	ctrs := ev.ctrs
	defer func() { ev.ctrs = ctrs }()
	phis := phisOf(l.head)
	st, vals := m.st, m.vals
	for i := 0; i <= n || n < 0 && i < 6; i++ {
		ev.ctrs = append(append([]*T{}, ctrs[:len(ctrs)-1]...), mkInt(int64(i)))
		for j, ph := range phis {
			fr.env[ph] = vals[j]
		}
		es, rs := ev.evalRegion(fr, l.body, l.head, st.clone(), nil)
		if ev.overrun {
			return nil, nil, false
		}
		rets = append(rets, rs...)
		var backs []edge
		for _, e := range es {
			if e.to == l.head {
				backs = append(backs, e)
			} else {
				e.st = e.st.clone()
				e.st.over = withOver(e.st.over, usedAfter(fr, l))
				exits = append(exits, e)
			}
		}
		if len(backs) == 0 {
			return exits, rets, len(exits)+len(rets) > 0
		}
		if i == n {
			return nil, nil, false
		}
		var its []item
		for _, e := range backs {
			fr.st = e.st
			its = append(its, item{e.st, ev.phiVals(fr, phis, l.head, e.from)})
		}
		b := ev.merge(its)
		st, vals = b.st, b.vals
	}
	return nil, nil, false
}

// usedAfter are the registers of a loop, as they are now, that are used outside it.
func usedAfter(fr *frame, l *loopInfo) map[ssa.Value]*T {
	out := map[ssa.Value]*T{}
	for b := range l.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || fr.env[v] == nil || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if ph, isPhi := r.(*ssa.Phi); !l.body[r.Block()] || isPhi && !l.body[ph.Block()] {
					out[v] = fr.env[v]
					break
				}
			}
		}
	}
	return out
}

// without: what an earlier run of the loop left in its registers is forgotten.
func without(over map[ssa.Value]*T, l *loopInfo) map[ssa.Value]*T {
	if len(over) == 0 {
		return over
	}
	m := map[ssa.Value]*T{}
	for k, v := range over {
		if in, ok := k.(ssa.Instruction); !ok || !l.body[in.Block()] {
			m[k] = v
		}
	}
	return m
}

func withOver(a, b map[ssa.Value]*T) map[ssa.Value]*T {
	if len(b) == 0 {
		return a
	}
	m := map[ssa.Value]*T{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

// isRefCell: the cell holds a reference to a kyber value (a field or variable),
// rather than being the kyber value's own content.
func (ev *Ev) isRefCell(k *T) bool {
	t := ev.cellTyp[k]
	return t != nil && objKind(k) != "pt" && objKind(k) != "sc" && k.op == "obj" || t != nil && kyberKind(t) == ""
}

// isSeqCell: the cell is the backing store of a slice.
func (ev *Ev) isSeqCell(k *T) bool {
	if k == nil {
		return false
	}
	switch k.op {
	case "obj":
		return objKind(k) == "arr"
	case "global", "fa": // variables that hold a slice
		return false
	}
	t := ev.cellTyp[k]
	return t != nil && isSlice(t)
}

// seqAfter is the sequence of a slice value at the end of an iteration; a slice
// appended to stands for its elements.
func (ev *Ev) seqAfter(st *state, v *T) *T {
	if v.op == "it" {
		return v
	}
	if v.op == "ite" {
		return ite(v.args[0], ev.seqAfter(st, v.args[1]), ev.seqAfter(st, v.args[2]))
	}
	return ev.seqval(st, v)
}

func (ev *Ev) applyOnce(fr *frame, l *loopInfo, es []edge, rs []ret, s func(*T) *T, base, ev0 int) ([]edge, []ret) {
	fix := func(st *state) *state {
		o := &state{mem: map[*T]*T{}}
		for k, v := range st.mem {
			o.mem[s(k)] = s(v)
			if t := ev.objType[k]; t != nil {
				ev.objType[s(k)] = t
			}
			if t := ev.cellTyp[k]; t != nil {
				ev.cellTyp[s(k)] = t
			}
		}
		for _, f := range st.fams {
			o.fams = append(o.fams, fam{s(f.pat), f.ctrs, s(f.val)})
		}
		for _, p := range st.pc {
			o.pc = append(o.pc, s(p))
		}
		return o
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && fr.env[v] != nil {
				fr.env[v] = s(fr.env[v])
			}
		}
	}
	for i := ev0; i < len(ev.events); i++ {
		for j := range ev.events[i].args {
			ev.events[i].args[j] = s(ev.events[i].args[j])
		}
	}
	var outs []edge
	for _, e := range es {
		outs = append(outs, edge{e.from, e.to, fix(e.st)})
	}
	var rets []ret
	for _, r := range rs {
		vals := make([]*T, len(r.vals))
		for i := range vals {
			vals[i] = s(r.vals[i])
		}
		rets = append(rets, ret{fix(r.st), vals})
	}
	return outs, rets
}

// sigma is the substitution of the unknowns by the given values (and of c by ci).
func (ev *Ev) sigma(unks []*unknown, val func(u *unknown) *T, c, ci *T) func(*T) *T {
	m := map[*T]*T{}
	for _, u := range unks {
		m[u.atom] = val(u)
	}
	if c != ci {
		m[c] = ci
	}
	memo := map[int]*T{}
	return func(t *T) *T {
		r := substM(t, func(x *T) *T { return m[x] }, func(x *T) bool { return x.ctrs[c.s] }, memo)
		return r
	}
}

// solveAll finds closed forms for the unknowns, those that depend on no other first.
func (ev *Ev) solveAll(unks []*unknown, c *T) {
	for again := true; again; {
		again = false
		sg := ev.sigma(unks, func(u *unknown) *T {
			if u.sol != nil {
				return u.sol(c)
			}
			return u.atom
		}, c, c)
		ev.sg = sg
		for _, u := range unks {
			if u.sol != nil {
				continue
			}
			U := sg(u.upd)
			other := false
			for _, w := range unks {
				if w != u && w.sol == nil && containsT(U, func(x *T) bool { return x == w.atom }) {
					other = true
				}
			}
			if other {
				continue
			}
			if s := ev.solve(u, U, c); s != nil {
				u.sol = s
				again = true
				break
			}
		}
	}
}

func mentions(t, x *T) bool { return containsT(t, func(y *T) bool { return y == x }) }

func (ev *Ev) solve(u *unknown, U *T, c *T) func(i *T) *T {
	X := u.atom
	inst := func(t *T) (*T, *T) { // rename the counter for use under a binder
		f := freshCtr()
		return f, subst(t, c, f)
	}
	if U == X {
		return func(i *T) *T { return u.init }
	}
	if !mentions(U, X) && !U.has(c) && U == u.init {
		return func(i *T) *T { return u.init }
	}
	// numbers
	if u.typ != nil && isInt(u.typ) || u.ref && kindOf(u) == "sc" {
		if d := numDelta(U, X); d != nil && !mentions(d, X) {
			return func(i *T) *T {
				f, e := inst(d)
				return padd(u.init, mkPrefix(f, i, e))
			}
		}
	}
	// group elements
	if u.ref && kindOf(u) == "pt" {
		if d := ptDelta(U, X); d != nil && !mentions(d, X) {
			return func(i *T) *T {
				f, e := inst(d)
				return ptAdd(u.init, mkPtSum(f, i, e))
			}
		}
	}
	// truth values
	if u.typ != nil && isBoolTy(u.typ) {
		t, e := assumeDeep(U, X, true), assumeDeep(U, X, false)
		if !mentions(t, X) && !mentions(e, X) {
			switch {
			case e == tFalse: // U = X and t
				return func(i *T) *T {
					f, b := inst(t)
					return and(u.init, quant("forall", f, i, b))
				}
			case t == tTrue: // U = X or e
				return func(i *T) *T {
					f, b := inst(e)
					return or(u.init, quant("exists", f, i, b))
				}
			}
		}
	}
	// errors: some step failed
	if u.typ != nil && isErrorType(u.typ) {
		if g, E := errUpd(U, X); g != nil && !mentions(g, X) {
			if !E.has(c) || E.op == "newerr" {
				return func(i *T) *T {
					f, b := inst(g)
					return ite(quant("exists", f, i, b), mkRaw("newerr", E.s), u.init)
				}
			}
		}
		if U == tNil && u.init == tNil {
			return func(i *T) *T { return tNil }
		}
	}
	// sequences that grow
	if u.typ != nil && (isSlice(u.typ) || isStr(u.typ)) && !ev.isSeqCell(u.key) {
		if d := seqDelta(U, X); d != nil && !mentions(d, X) {
			d = ev.ownParts(d, c)
			return func(i *T) *T {
				f, e := inst(d)
				return mkCat(u.init, mkCatMap(f, i, e))
			}
		}
	}
	// elements exchanged pairwise
	if i, j := swapOf(U, X); i != nil && !mentions(i, X) && !mentions(j, X) {
		return func(n *T) *T {
			f := freshCtr()
			return mkBind("swaps", "", f, n, subst(i, c, f), subst(j, c, f), u.init)
		}
	}
	// one element changed again and again
	if s := ev.solveCell(u, U, c); s != nil {
		return s
	}
	// sequences whose elements are replaced
	if s := ev.solveUpd(u, U, c); s != nil {
		return s
	}
	// maps
	if g, k, v := mapDelta(U, X); k != nil && !mentions(k, X) && !mentions(v, X) && g == tTrue {
		return func(i *T) *T {
			f := freshCtr()
			return mkMapFam(f, i, subst(k, c, f), subst(v, c, f), u.init)
		}
	}
	// overwritten in every iteration: the last value written
	if u.typ != nil && !u.ref && !mentions(U, X) && (isInt(u.typ) || isStr(u.typ) || isBoolTy(u.typ) || kyberKind(u.typ) != "") && !containsT(U, func(y *T) bool { return y.op == "obj" || y.op == "fa" || y.op == "opaque" }) {
		return func(i *T) *T {
			return ite(eq0(i), u.init, subst(U, c, psub(i, tOne)))
		}
	}
	// a fold over one unknown keeps its meaning as a term, but nothing is known about it
	if u.typ != nil && (isMap(u.typ) || !u.ref && (isInt(u.typ) || isStr(u.typ) || isBoolTy(u.typ)) || kyberKind(u.typ) != "") && !containsT(U, func(y *T) bool { return y.op == "obj" && y.has(c) || y.op == "opaque" }) {
		return func(i *T) *T {
			f := freshCtr()
			return mkFold(f, i, subst(subst(U, X, mkRaw("acc", "", c)), c, f), u.init)
		}
	}
	if u.typ != nil && isSlice(u.typ) && U != X && ev.anyFold {
		if s := ev.seqFold(u, U, c); s != nil {
			return s
		}
	}
	// loop-invariant replacement: after at least one iteration the value is that of the last one
	return nil
}

// ownParts replaces the slices made in an iteration by their elements.
func (ev *Ev) ownParts(d, c *T) *T {
	if ev.cur == nil {
		return d
	}
	return substM(d, func(x *T) *T {
		if x.op == "slc" && x.args[0].op == "obj" && objKind(x.args[0]) == "st" && x.args[0].has(c) {
			if v := ev.seqval(ev.cur, x); !containsT(v, func(y *T) bool { return y.op == "obj" || y.op == "opaque" || y.op == "it" }) {
				ev.freeze(ev.cur, x.args[0], 0)
				return v
			}
		}
		return nil
	}, func(*T) bool { return true }, map[int]*T{})
}

// swapOf recognises the exchange of two elements of X (or of none).
func swapOf(U, X *T) (i, j *T) {
	if U.op == "ite" {
		// exchanged unless the indices are the same
		for _, k := range []int{1, 2} {
			if U.args[3-k] != X {
				continue
			}
			i, j := swapOf(U.args[k], X)
			if i == nil {
				continue
			}
			e := eq0(psub(i, j))
			if k == 2 && U.args[0] == e || k == 1 && U.args[0] == not(e) {
				return i, j
			}
		}
		return nil, nil
	}
	if U.op != "upd" || U.args[0].op != "upd" || U.args[0].args[0] != X {
		return nil, nil
	}
	i, j = U.args[0].args[1], U.args[1]
	if U.args[0].args[2] == mkRaw("ix", "", X, j) && U.args[2] == mkRaw("ix", "", X, i) {
		if i.id > j.id {
			i, j = j, i
		}
		return i, j
	}
	return nil, nil
}

// solveCell handles the repeated change of the same element of a sequence.
func (ev *Ev) solveCell(u *unknown, U, c *T) func(i *T) *T {
	X := u.atom
	n := U
	if n.op == "ite" {
		n = pushUpd(n, X)
	}
	if n == nil || n.op != "upd" || n.args[0] != X || n.args[1].has(c) || mentions(n.args[1], X) {
		return nil
	}
	idx := n.args[1]
	atom := mkRaw("it", u.atom.s+"[]", c)
	v := n.args[2]
	var et types.Type
	switch t := u.typ; {
	case t == nil:
		return nil
	default:
		switch y := t.Underlying().(type) {
		case *types.Slice:
			et = y.Elem()
		case *types.Array:
			et = y.Elem()
		default:
			return nil
		}
	}
	w := &unknown{atom: atom, init: mkIx(u.init, idx), upd: v, typ: et}
	if kyberKind(et) != "" {
		if ev.cur == nil {
			return nil
		}
		w.ref = true
		w.init = ev.kc(ev.cur0, w.init)
		w.upd = ev.sg(ev.kc(ev.cur, v))
	}
	w.upd = substM(w.upd, func(x *T) *T {
		if x.op == "ix" && x.args[0] == X && x.args[1] == idx {
			return atom
		}
		return nil
	}, func(x *T) bool { return true }, map[int]*T{})
	if mentions(w.upd, X) {
		return nil
	}
	if !mentions(w.upd, atom) && w.upd.has(c) {
		return nil
	}
	s := ev.solve(w, w.upd, c)
	if s == nil {
		return nil
	}
	return func(i *T) *T { return mkUpd(u.init, idx, s(i)) }
}

func kindOf(u *unknown) string {
	if u.typ != nil {
		if k := kyberKind(u.typ); k != "" {
			return k
		}
	}
	if u.key != nil {
		return kyberCell(u.key)
	}
	return ""
}

// elemOf tells for the places that are changed in place, apart from objects, what is in them.
var elemOf = map[*T]string{}

// kyberCell: the cell is itself a group element or a scalar.
func kyberCell(k *T) string {
	if o := objKind(k); o == "pt" || o == "sc" {
		return o
	}
	return elemOf[k]
}

func numDelta(U, X *T) *T {
	if U.op == "ite" {
		a, b := numDelta(U.args[1], X), numDelta(U.args[2], X)
		if a == nil || b == nil {
			return nil
		}
		return ite(U.args[0], a, b)
	}
	return psub(U, X)
}

func ptDelta(U, X *T) *T {
	if U.op == "ite" {
		a, b := ptDelta(U.args[1], X), ptDelta(U.args[2], X)
		if a == nil || b == nil {
			return nil
		}
		return ite(U.args[0], a, b)
	}
	return ptSub(U, X)
}

func seqDelta(U, X *T) *T {
	empty := mkRaw("list", "")
	switch {
	case U == X:
		return empty
	case U.op == "cat" && U.args[0] == X:
		return mkCat(U.args[1:]...)
	case U.op == "ite":
		a, b := seqDelta(U.args[1], X), seqDelta(U.args[2], X)
		if a == nil || b == nil {
			return nil
		}
		return ite(U.args[0], a, b)
	}
	return nil
}

func errUpd(U, X *T) (g, e *T) {
	if U == X {
		return tFalse, nil
	}
	if U.op == "newerr" {
		return tTrue, U
	}
	if U.op == "ite" {
		g1, e1 := errUpd(U.args[1], X)
		g2, e2 := errUpd(U.args[2], X)
		if g1 == nil || g2 == nil {
			return nil, nil
		}
		e = e1
		if e == nil {
			e = e2
		}
		if e == nil {
			return nil, nil
		}
		return ite(U.args[0], g1, g2), e
	}
	return nil, nil
}

func mapDelta(U, X *T) (g, k, v *T) {
	if U.op == "mapset" && U.args[0] == X {
		return tTrue, U.args[1], U.args[2]
	}
	return nil, nil, nil
}

// assumeDeep replaces a boolean atom by a truth value.
func assumeDeep(t, x *T, val bool) *T {
	return substM(t, func(y *T) *T {
		if y == x {
			return mkBool(val)
		}
		return nil
	}, func(y *T) bool { return true }, map[int]*T{})
}

// injective: different values of c give different indices.
func injective(idx, c *T) bool {
	k, _, ok := linIn(idx, c)
	if !ok {
		return false
	}
	n, isC := k.constInt()
	if isC {
		return n != 0
	}
	return len(monos(k)) == 1 // a positive size
}

func (ev *Ev) solveUpd(u *unknown, U, c *T) func(i *T) *T {
	X := u.atom
	// selfRead replaces reads of the element about to be written by its initial value.
	selfRead := func(v, idx *T) *T {
		return substM(v, func(x *T) *T {
			if x.op == "ix" && x.args[0] == X && x.args[1] == idx {
				return mkIx(u.init, idx)
			}
			return nil
		}, func(x *T) bool { return true }, map[int]*T{})
	}
	norm := U
	// conditional replacement: ite(g, upd(X,i,v), X)
	if norm.op == "ite" {
		norm = pushUpd(norm, X)
		if norm == nil {
			return nil
		}
	}
	switch norm.op {
	case "upd":
		if norm.args[0] != X {
			return nil
		}
		idx, v := norm.args[1], norm.args[2]
		if mentions(idx, X) || !injective(idx, c) {
			return nil
		}
		v = selfRead(v, idx)
		if mentions(v, X) {
			return nil
		}
		return func(i *T) *T {
			f := freshCtr()
			return mkUpdFam(u.init, i, f, subst(idx, c, f), subst(v, c, f))
		}
	case "mapseq":
		// the whole sequence was replaced in one iteration (single element loops)
		return nil
	case "updfam":
		if norm.args[4] != X {
			return nil
		}
		c2, n2, idx, val := openBinder(norm)
		if mentions(idx, X) || mentions(n2, X) {
			return nil
		}
		val = selfRead(val, idx)
		if mentions(val, X) {
			return nil
		}
		fold := ev.seqFold(u, U, c)
		if f := flatten(u.init, c, c, c2, n2, idx, val); f.op == "opaque" && (fold == nil || !ev.anyFold) {
			return nil
		}
		return func(i *T) *T {
			f := flatten(u.init, c, i, c2, n2, idx, val)
			if f.op == "opaque" && fold != nil {
				return fold(i)
			}
			return f
		}
	}
	return nil
}

// seqFold keeps the element writes of a loop that are in no recognised order as
// the fold they are.
func (ev *Ev) seqFold(u *unknown, U, c *T) func(i *T) *T {
	if ev.cur == nil {
		return nil
	}
	v, init := ev.valuesOf(ev.cur, U), ev.valuesOf(ev.cur0, u.init)
	if v == nil || init == nil {
		return nil
	}
	return func(i *T) *T {
		f := freshCtr()
		return mkFold(f, i, subst(subst(v, u.atom, mkRaw("acc", "", c)), c, f), init)
	}
}

// valuesOf replaces the references to group elements and scalars in t by what
// they refer to; nil if something else is left that exists once per iteration.
func (ev *Ev) valuesOf(st *state, t *T) *T {
	bad := false
	r := substM(t, func(y *T) *T {
		if y.op != "obj" {
			return nil
		}
		if k := objKind(y); k == "pt" || k == "sc" {
			if v := ev.content(st, y, true); v.op != "uninit" {
				return v
			}
		}
		bad = true
		return nil
	}, func(*T) bool { return true }, map[int]*T{})
	if bad || containsT(r, func(y *T) bool { return y.op == "opaque" || y.op == "uninit" }) {
		return nil
	}
	return r
}

// pushUpd turns ite(g, upd(X,i,v), X) into upd(X, i, ite(g, v, X[i])).
func pushUpd(U, X *T) *T {
	if U.op != "ite" {
		return U
	}
	a, b := pushUpd(U.args[1], X), pushUpd(U.args[2], X)
	if a == nil || b == nil {
		return nil
	}
	g := U.args[0]
	switch {
	case a.op == "upd" && a.args[0] == X && b == X:
		return mkRaw("upd", "", X, a.args[1], ite(g, a.args[2], mkIx(X, a.args[1])))
	case b.op == "upd" && b.args[0] == X && a == X:
		return mkRaw("upd", "", X, b.args[1], ite(g, mkIx(X, b.args[1]), b.args[2]))
	case a.op == "upd" && b.op == "upd" && a.args[0] == X && b.args[0] == X && a.args[1] == b.args[1]:
		return mkRaw("upd", "", X, a.args[1], ite(g, a.args[2], b.args[2]))
	}
	return nil
}

// flatten merges two nested traversals of a sequence into one: blocks of a
// fixed size K (the last one cut off at N), or consecutive blocks of any size.
func flatten(init, c, n, c2, n2, idx, val *T) *T {
	K, N := blockSize(c, n, c2, n2, idx)
	f := freshCtr()
	if K != nil {
		val = subst(val, c2, psub(f, pmul(K, c)))
		val = subst(val, c, mkRaw("cdiv", "", f, K))
		return mkUpdFam(init, N, f, f, val)
	}
	start := psub(idx, c2)
	// a part of each block of a constant size
	if k, rest, ok := linIn(start, c); ok && rest == tZero && !start.has(c2) {
		if kc, isC := k.constInt(); isC && kc > 1 && belowConst(n2, kc) {
			N := mkLen(init)
			ctrRange[f.s] = N
			c0 := mkRaw("cdiv", "", f, k)
			one := func(t *T) *T { return subst(subst(t, c2, psub(f, pmul(k, c))), c, c0) }
			in := and(inRange(c0, n), inRange(psub(f, pmul(k, c0)), subst(n2, c, c0)))
			return mkMapSeq(f, N, ite(in, one(val), mkIx(init, f)))
		}
	}
	// consecutive blocks
	if !start.has(c2) && start == mkPrefix(f, c, subst(n2, c, f)) {
		total := mkPrefix(f, n, subst(n2, c, f))
		if total == mkLen(init) {
			g := freshCtr()
			return mkCatMap(f, n, mkMapSeq(g, subst(n2, c, f), subst(subst(val, c, f), c2, g)))
		}
	}
	if os.Getenv("UC_LOOP") != "" {
		fmt.Println("NESTED", init, "N", n, "C2", c2, n2, "IDX", idx, "VAL", val)
	}
	return mkRaw("opaque", "nested element writes", init, n, idx, val)
}

// flattenFam names the cells of two nested traversals in blocks by one counter.
func flattenFam(f fam, c, n *T) fam {
	at, parts := -1, cellParts(f.pat)
	for i, a := range parts {
		if a.has(c) {
			if at >= 0 {
				return f
			}
			at = i
		}
	}
	if at < 0 {
		return f
	}
	for i, c2 := range f.ctrs {
		idx := parts[at]
		if c2 == c || c2.op != "ctr" || !idx.has(c2) || ctrRange[c2.s] == nil {
			continue
		}
		for j, a := range parts {
			if j != at && a.has(c2) {
				return f
			}
		}
		K, N := blockSize(c, n, c2, ctrRange[c2.s], idx)
		if K == nil {
			continue
		}
		g := freshCtr()
		ctrRange[g.s] = N
		one := func(t *T) *T {
			t = subst(t, c2, psub(g, pmul(K, c)))
			return subst(t, c, mkRaw("cdiv", "", g, K))
		}
		out := fam{replaceT(f.pat, idx, g), []*T{g}, one(f.val)}
		for j, x := range f.ctrs {
			if j != i && x != c {
				out.ctrs = append(out.ctrs, x)
			}
		}
		return out
	}
	return f
}

// blockSize recognises idx = K*c + c2 with c2 < min(K, N-K*c) and enough blocks to cover N.
func blockSize(c, n, c2, n2, idx *T) (K, N *T) {
	start := psub(idx, c2)
	if start.has(c2) {
		return nil, nil
	}
	k, rest, ok := linIn(start, c)
	if !ok || rest != tZero {
		return nil, nil
	}
	if n2.op == "min" {
		var bs, xs []*T
		for _, b := range n2.args {
			if b == k {
				continue
			}
			bs, xs = append(bs, b), append(xs, padd(b, start))
		}
		if len(bs) > 0 && len(bs) < len(n2.args) {
			x := mkMin(xs...)
			if !x.has(c) && mkMin(append(bs, k)...) == n2 {
				if n == c { // within the loop, c blocks are whole
					return k, pmul(k, c)
				}
				if n == mkCeilDiv(x, k) {
					return k, x
				}
				if n.op == "ceildiv" && n.args[0] == x {
					return k, x
				}
			}
		}
	}
	if n2 == k { // whole blocks
		return k, pmul(n, k)
	}
	return nil, nil
}

type trip struct {
	n      *T
	stay   map[*T]bool
	ends   []edge // exits when the range is exhausted
	breaks []edge // exits before that
}

// tripCount finds how often the loop body runs.
func (ev *Ev) tripCount(fr *frame, l *loopInfo, exits []edge, st0 *state, start map[*T]*T, changed []*T, sg func(*T) *T, base int, c *T) trip {
	t := trip{stay: map[*T]bool{}}
	var bounds []*T
	for _, e := range exits {
		suffix := e.st.pc[base:]
		if len(suffix) == 0 {
			t.breaks = append(t.breaks, e)
			continue
		}
		last := sg(suffix[len(suffix)-1])
		st := not(last)
		bs, ok := boundsOf(st, c)
		clean := true
		for _, k := range changed {
			if v, has := e.st.mem[k]; has && v != start[k] {
				clean = false
			}
		}
		if !ok || !clean {
			t.breaks = append(t.breaks, e)
			continue
		}
		t.ends = append(t.ends, e)
		bounds = append(bounds, bs...)
		t.stay[st] = true
		if st.op == "and" {
			for _, x := range st.args {
				t.stay[x] = true
			}
		}
	}
	if len(bounds) > 0 {
		t.n = mkMin(bounds...)
		if c, ok := t.n.constInt(); ok && c < 0 {
			t.n = tZero
		}
	}
	return t
}

// boundsOf turns a condition to stay in the loop into upper bounds of its counter.
func boundsOf(s, c *T) ([]*T, bool) {
	switch s.op {
	case "and":
		var out []*T
		for _, x := range s.args {
			b, ok := boundsOf(x, c)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case "lt0": // k*c + rest < 0
		return ltBound(s.args[0], c)
	case "not":
		x := s.args[0]
		if x.op == "eq0" {
			k, rest, ok := linIn(x.args[0], c)
			if ok {
				if n, isC := k.constInt(); isC && (n == 1 || n == -1) {
					return []*T{pscale(rest, -n)}, true
				}
			}
		}
	case "rangeok":
		if s.args[1] == c {
			return []*T{mkLen(s.args[0])}, true
		}
	}
	return nil, false
}

func ltBound(p, c *T) ([]*T, bool) {
	// a merged bound: c - ite(a<b, a, b) ...
	for i, m := range monos(p) {
		for _, a := range m.atoms {
			if len(m.atoms) == 1 && m.coef < 0 && (a.op == "ite" || a.op == "min") {
				alts := minAlts(a)
				if alts == nil {
					continue
				}
				var out []*T
				for _, x := range alts {
					rest := append([]monomial{}, monos(p)[:i]...)
					rest = append(rest, monos(p)[i+1:]...)
					b, ok := ltBound(polyOf(append(rest, monos(pscale(x, m.coef))...)), c)
					if !ok {
						return nil, false
					}
					out = append(out, b...)
				}
				return out, true
			}
		}
	}
	k, rest, ok := linIn(p, c)
	if !ok {
		return nil, false
	}
	if n, isC := k.constInt(); isC {
		if n <= 0 {
			return nil, false
		}
	} else if len(monos(k)) != 1 || monos(k)[0].coef < 0 {
		return nil, false
	}
	return []*T{mkCeilDiv(pscale(rest, -1), k)}, true
}

// minAlts recognises min(a,b), also written as a conditional.
func minAlts(t *T) []*T {
	if t.op == "min" {
		return t.args
	}
	g, a, b := t.args[0], t.args[1], t.args[2]
	d := psub(a, b)
	// g true selects a: a<=b or a<b
	if g == lt0(d) || g == lt0(psub(d, tOne)) {
		return []*T{a, b}
	}
	if g == not(lt0(psub(b, a))) {
		return []*T{a, b}
	}
	return nil
}

func litInt(t *T) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.constInt()
}
