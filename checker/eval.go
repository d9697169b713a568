package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file computes, for a function, the value of every SSA register and
// memory cell at every program point as a term over the function's inputs
// (gated value numbering): values are merged at joins, loops are summarised by
// closed forms of their recurrences, callees of the module are analysed in the
// context of the call. Nothing is enumerated path by path and nothing is run.
// What has no closed form becomes an "opaque" term, about which no rule
// concludes anything.
//
// The values describe executions in which no step fails: results of type error
// of calls outside the module are nil, and paths that panic, end the process or
// return a newly made error are left out (C04 covers failing steps).

type state struct {
	mem  map[*T]*T
	fams []fam
	pc   []*T
	dead bool
	over map[ssa.Value]*T // registers whose value depends on how a loop was left
}

// fam: the content of every memory cell matching pat (for all values of ctrs) is val.
type fam struct {
	pat  *T
	ctrs []*T
	val  *T
}

func (s *state) clone() *state {
	m := make(map[*T]*T, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &state{mem: m, fams: s.fams[:len(s.fams):len(s.fams)], pc: s.pc[:len(s.pc):len(s.pc)], over: s.over}
}

// event is something the function does besides computing values.
type event struct {
	kind  string // "send", "call", "dyncall", "write", "go"
	name  string
	args  []*T
	types []types.Type
	pc    []*T
	loops []loopCtx // innermost first
	full  []*T      // of failing returns outside of loops: the condition from the start of the law
	in    ssa.Instruction
	fn    *ssa.Function
}

type loopCtx struct{ ctr, n, stop *T } // stop: the condition to leave the loop in an iteration

type edge struct {
	from, to *ssa.BasicBlock
	st       *state
}

type ret struct {
	st   *state
	vals []*T
}

type frame struct {
	f      *ssa.Function
	env    map[ssa.Value]*T
	ctx    string
	loops  []*loopInfo
	rpo    []*ssa.BasicBlock
	defers []*ssa.Defer
	st     *state // state in which operands are read
}

// Ev is one analysis of an entry function.
// lostInfo is why a write may have been lost, and under which conditions.
type lostInfo struct {
	why string
	at  []*T
}

func (l lostInfo) add(why string, pc []*T) lostInfo {
	return lostInfo{why, append(l.at[:len(l.at):len(l.at)], and(pc...))}
}

type Ev struct {
	p       *Prog
	events  []event
	ctrs    []*T
	stack   []*ssa.Function
	steps   int
	objType map[*T]types.Type
	cellTyp map[*T]types.Type
	faType  map[*T]*types.Struct
	closure map[*T]*ssa.Function
	notes   map[string]bool
	failing []event // error returns: condition in pc
	keepErr bool    // laws about failures: the paths on which an error is made are kept
	ext     map[string]func(ev *Ev, fr *frame, st *state, args []*T, in ssa.CallInstruction) *T
	overrun bool
	visited map[*ssa.Function]bool
	frozen  map[*T]bool // objects copied into a map by value
	models  map[string]*ssa.Function
	lost    lostInfo
	cur0    *state // states at the start and the end of the iteration being solved
	cur     *state
	sg      func(*T) *T
	noIndex bool // indices are not looked at
	anyFold bool // element writes in no recognised order may become folds
}

func newEv(p *Prog) *Ev {
	elemOf = map[*T]string{}
	return &Ev{p: p, objType: map[*T]types.Type{}, cellTyp: map[*T]types.Type{}, faType: map[*T]*types.Struct{}, closure: map[*T]*ssa.Function{}, notes: map[string]bool{}, visited: map[*ssa.Function]bool{}, frozen: map[*T]bool{}}
}

const maxSteps = 120000

func (ev *Ev) opaque(why string, args ...*T) *T {
	ev.notes[why] = true
	return mkRaw("opaque", why, args...)
}

// indexed notes that an index has to be in range where it is used.
func (ev *Ev) indexed(fr *frame, st *state, i *T, n func() *T, in ssa.Instruction) {
	if ev.noIndex || st.dead {
		return
	}
	cond := inRange(i, n())
	if cond == tTrue {
		return
	}
	if cond.op == "and" {
		var left []*T
		for _, x := range cond.args {
			if !slices.Contains(st.pc, x) {
				left = append(left, x)
			}
		}
		cond = and(left...)
	}
	if cond == tTrue || slices.Contains(st.pc, cond) {
		return
	}
	ev.events = append(ev.events, event{kind: "index", args: []*T{cond}, pc: st.pc, in: in, fn: fr.f})
}

// overruns are the conditions under which an index is out of range.
func (ev *Ev) overruns() (out []overrun, open int) {
	seen := map[*T]bool{}
	for _, e := range ev.events {
		if e.kind != "index" {
			continue
		}
		bad := and(append([]*T{not(e.args[0])}, e.pc...)...)
		unknown := false
		for _, l := range e.loops {
			if l.n == nil {
				unknown = true
				break
			}
			if l.stop != nil && l.stop != tFalse {
				j := freshCtr()
				bad = and(bad, not(quant("exists", j, l.ctr, subst(l.stop, l.ctr, j))))
			}
			bad = quant("exists", l.ctr, l.n, bad)
		}
		if bad == tFalse || seen[bad] {
			continue
		}
		seen[bad] = true
		if unknown || isOpaque(bad) {
			open++
			continue
		}
		out = append(out, overrun{bad, e.in, e.fn})
	}
	return
}

type overrun struct {
	bad *T
	in  ssa.Instruction
	fn  *ssa.Function
}

func isOpaque(t *T) bool {
	return containsT(t, func(x *T) bool { return x.op == "opaque" || x.op == "it" || x.op == "uninit" })
}

// Result of analysing a function.
type Result struct {
	ev   *Ev
	f    *ssa.Function
	st   *state
	in   *state
	args []*T
	vals []*T
	ok   bool
}

// Run analyses f with symbolic parameters named after the source's.
func Run(p *Prog, f *ssa.Function, prep func(ev *Ev, st *state, args []*T)) *Result {
	ev := newEv(p)
	ev.keepErr = strings.HasSuffix(f.Name(), "Fails")
	st := &state{mem: map[*T]*T{}}
	var args []*T
	for _, q := range f.Params {
		args = append(args, mkRaw("param", q.Name()))
		leafTypes["param:"+q.Name()] = q.Type()
	}
	if prep != nil {
		prep(ev, st, args)
	}
	in := st.clone()
	r := &Result{ev: ev, f: f, args: args, in: in}
	vals := ev.inline(nil, f, args, nil, st, "")
	r.st = st
	r.vals = vals
	r.ok = !st.dead && !ev.overrun
	return r
}

// ---- types ------------------------------------------------------------------

func kyberKind(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), "go.dedis.ch/kyber/v3") {
		switch n.Obj().Name() {
		case "Point":
			return "pt"
		case "Scalar":
			return "sc"
		}
	}
	return ""
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolTy(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isMap(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }

func (ev *Ev) zero(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkRaw("list", "")
		}
		return mkRaw("const", "zero:"+u.Name())
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ev.zero(u.Field(i).Type()))
		}
		return mkStruct(structSig(t), fs)
	case *types.Array:
		return mkMapSeq(freshCtr(), mkInt(u.Len()), ev.zero(u.Elem()))
	}
	return tNil
}

// ---- memory -----------------------------------------------------------------

type step struct {
	idx  *T
	fld  int
	name string
	st   *types.Struct
}

// resolveAddr splits an address into its cell and the path inside it.
func (ev *Ev) resolveAddr(a *T) (cell *T, seq bool, path []step) {
	switch a.op {
	case "fa":
		c, s, p := ev.resolveAddr(a.args[0])
		i := strings.IndexByte(a.s, '_')
		var n int
		fmt.Sscanf(a.s[:i], "%d", &n)
		return c, s, append(p, step{fld: n, name: a.s[i+1:], st: ev.faType[a]})
	case "ea":
		v, i := a.args[0], a.args[1]
		off := tZero
		if v.op == "slc" {
			off = v.args[1]
			v = v.args[0]
		}
		i = padd(i, off)
		if v.op == "fa" || v.op == "ea" || v.op == "ea2" {
			c, s, p := ev.resolveAddr(v)
			return c, s, append(p, step{idx: i})
		}
		return v, true, []step{{idx: i}}
	case "ea2":
		c, s, p := ev.resolveAddr(a.args[0])
		return c, s, append(p, step{idx: a.args[1]})
	}
	return a, false, nil
}

func (ev *Ev) content(st *state, cell *T, seq bool) *T {
	if v, ok := st.mem[cell]; ok {
		return v
	}
	// a family of cells (one per iteration of a loop) may have been written
	// again at single instances, or by another loop
	type alt struct{ c, v *T }
	var alts []alt
	var old *T
	if cell.op == "obj" && len(cell.args) > 0 || cell.op == "ix" || cell.op == "field" {
		var same []*T
		for k := range st.mem {
			if k.op == cell.op && k.s == cell.s && len(k.args) == len(cell.args) {
				if sameCell(k, cell) != tFalse {
					same = append(same, k)
				}
			}
		}
		sort.Slice(same, func(i, j int) bool { return same[i].id < same[j].id })
		for i, k := range same {
			for _, q := range same[:i] {
				if sameCell(k, q) != tFalse {
					return ev.opaque("cells that may be the same", cell)
				}
			}
			alts = append(alts, alt{sameCell(k, cell), st.mem[k]})
		}
	}
	for i := len(st.fams) - 1; i >= 0; i-- {
		f := st.fams[i]
		if f.pat.op != cell.op || f.pat.s != cell.s {
			continue
		}
		m := unify(f.pat, cell, f.ctrs)
		if m == nil {
			if mayMatch(f.pat, cell, f.ctrs) {
				return ev.opaque("a cell that may belong to a family", f.pat, cell)
			}
			continue
		}
		v := substAll(f.val, m)
		old = v
		in := tTrue
		for c, x := range m {
			if n := ctrRange[c.s]; n != nil {
				in = and(in, inRange(x, substAll(n, m)))
			} else {
				in = tFalse
			}
		}
		alts = append(alts, alt{in, v})
		if in == tTrue {
			break
		}
	}
	if len(alts) > 0 {
		n := len(alts) - 1
		v := alts[n].v
		if old == nil || cell.op != "obj" && alts[n].c != tTrue {
			// only single instances were written
			v, n = mkRaw("uninit", cell.s, cell), n+1
			if cell.op != "obj" {
				v = mkRaw("star", "", cell)
				if seq {
					v = cell
				}
			}
		}
		for i := n - 1; i >= 0; i-- {
			v = ite(alts[i].c, alts[i].v, v)
		}
		return v
	}
	if cell.op == "obj" {
		if dbgContent != nil {
			dbgContent(ev, st, cell)
		}
		return mkRaw("uninit", cell.s, cell)
	}
	if seq {
		return cell
	}
	if cell.op == "global" {
		return mkRaw("gval", cell.s)
	}
	return mkRaw("star", "", cell)
}

// sameCell is the condition under which two cells of a family are the same.
func sameCell(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.op != b.op || a.s != b.s || len(a.args) != len(b.args) {
		return tFalse
	}
	switch a.op {
	case "ix":
		return and(sameCell(a.args[0], b.args[0]), eq0(psub(a.args[1], b.args[1])))
	case "field":
		return sameCell(a.args[0], b.args[0])
	case "obj":
		c := tTrue
		for i := range a.args {
			c = and(c, eq0(psub(a.args[i], b.args[i])))
		}
		return c
	}
	return tFalse
}

// mayMatch: some values of the counters may turn the pattern into the key.
func mayMatch(pat, key *T, ctrs []*T) bool {
	if pat == key {
		return true
	}
	for _, c := range ctrs {
		if pat.has(c) && (pat == c || pat.op == "poly") {
			return true
		}
	}
	if pat.op == "poly" || key.op == "poly" {
		return eq0(psub(pat, key)) != tFalse
	}
	if pat.op == "ctr" || key.op == "ctr" {
		return true
	}
	if pat.op != key.op || pat.s != key.s || len(pat.args) != len(key.args) {
		return false
	}
	for i := range pat.args {
		if !mayMatch(pat.args[i], key.args[i], ctrs) {
			return false
		}
	}
	return true
}

// unify matches a pattern against a key, binding the counters.
func unify(pat, key *T, ctrs []*T) map[*T]*T {
	m := map[*T]*T{}
	isC := map[*T]bool{}
	for _, c := range ctrs {
		isC[c] = true
	}
	// bind plain counters first, then check the rest by substitution
	var rec func(p, k *T) bool
	rec = func(p, k *T) bool {
		if isC[p] {
			if o, ok := m[p]; ok {
				return o == k
			}
			m[p] = k
			return true
		}
		if p == k {
			has := false
			for c := range isC {
				if p.has(c) {
					has = true
				}
			}
			if !has {
				return true
			}
		}
		if p.op == "poly" || p.op == "pt" {
			return true // checked below
		}
		if p.op != k.op || p.s != k.s || len(p.args) != len(k.args) {
			return false
		}
		for i := range p.args {
			if !rec(p.args[i], k.args[i]) {
				return false
			}
		}
		return true
	}
	if !rec(pat, key) {
		return nil
	}
	ps, ks := cellParts(pat), cellParts(key)
	// an index in blocks of a constant size, K*c + c2 with c2 < K
	for _, c := range ctrs {
		for _, c2 := range ctrs {
			if c == c2 || m[c] != nil || m[c2] != nil || c2.op != "ctr" || ctrRange[c2.s] == nil {
				continue
			}
			for i := range ps {
				if i >= len(ks) || !ps[i].has(c2) || ps[i].op != "poly" {
					continue
				}
				one, start, ok := linIn(ps[i], c2)
				if !ok || one != tOne {
					continue
				}
				k, rest, ok := linIn(start, c)
				if !ok || rest.has(c) || rest.has(c2) {
					continue
				}
				K, ok := k.constInt()
				if !ok || K < 2 || !belowConst(ctrRange[c2.s], K) {
					continue
				}
				d := psub(ks[i], rest)
				m[c] = mkRaw("cdiv", "", d, k)
				m[c2] = psub(d, pmul(k, m[c]))
				break
			}
		}
	}
	for _, c := range ctrs {
		if m[c] == nil {
			// bind through a linear argument
			for i := range ps {
				if i < len(ks) {
					if k, rest, ok := linIn(ps[i], c); ok && (k == tOne || k == mkInt(-1)) {
						kk, _ := k.constInt()
						m[c] = pscale(psub(ks[i], rest), kk)
						break
					}
				}
			}
		}
		if m[c] == nil {
			return nil
		}
	}
	if substAll(pat, m) != key {
		return nil
	}
	return m
}

// cellParts are the indices that tell the cells of one kind apart.
func cellParts(x *T) []*T {
	switch x.op {
	case "field":
		return cellParts(x.args[0])
	case "ix":
		return append(append([]*T{}, cellParts(x.args[0])...), x.args[1])
	}
	return x.args
}

// belowConst: the number of iterations n is at most k.
func belowConst(n *T, k int64) bool {
	if v, ok := n.constInt(); ok {
		return v <= k
	}
	if n.op == "min" {
		for _, b := range n.args {
			if belowConst(b, k) {
				return true
			}
		}
	}
	return false
}

// substAll substitutes several atoms at once.
func substAll(t *T, m map[*T]*T) *T {
	return substM(t, func(x *T) *T { return m[x] }, func(x *T) bool {
		for c := range m {
			if c.op != "ctr" || x.ctrs[c.s] {
				return true
			}
		}
		return false
	}, map[int]*T{})
}

func (ev *Ev) load(st *state, a *T) *T {
	if a.op == "ite" {
		return ite(a.args[0], ev.load(st, a.args[1]), ev.load(st, a.args[2]))
	}
	if c, x, y, ok := ev.splitAddr(a); ok {
		return ite(c, ev.load(st, x), ev.load(st, y))
	}
	cell, seq, path := ev.resolveAddr(a)
	if cell.op == "ite" {
		return ev.opaque("load through a merged pointer", a)
	}
	return project(ev.content(st, cell, seq), path)
}

// splitAddr splits an address below a conditional reference.
func (ev *Ev) splitAddr(a *T) (c, x, y *T, ok bool) {
	switch a.op {
	case "fa":
		if b := a.args[0]; b.op == "ite" {
			return b.args[0], ev.mkFa(b.args[1], a.s, ev.faType[a]), ev.mkFa(b.args[2], a.s, ev.faType[a]), true
		}
		if c, x, y, ok = ev.splitAddr(a.args[0]); ok {
			return c, ev.mkFa(x, a.s, ev.faType[a]), ev.mkFa(y, a.s, ev.faType[a]), true
		}
	case "ea", "ea2", "slc":
		with := func(v *T) *T { return mkRaw(a.op, a.s, append([]*T{v}, a.args[1:]...)...) }
		if b := a.args[0]; b.op == "ite" {
			return b.args[0], with(b.args[1]), with(b.args[2]), true
		}
		if c, x, y, ok = ev.splitAddr(a.args[0]); ok {
			return c, with(x), with(y), true
		}
	}
	return nil, nil, nil, false
}

func (ev *Ev) mkFa(base *T, s string, st *types.Struct) *T {
	a := mkRaw("fa", s, base)
	ev.faType[a] = st
	return a
}

func project(v *T, path []step) *T {
	for _, s := range path {
		if s.idx != nil {
			v = mkIx(v, s.idx)
		} else {
			v = mkField(v, s.fld, s.name)
		}
	}
	return v
}

func (ev *Ev) updPath(v *T, path []step, nv *T) *T {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		return mkUpd(v, s.idx, ev.updPath(mkIx(v, s.idx), path[1:], nv))
	}
	if v.op == "ite" {
		return ite(v.args[0], ev.updPath(v.args[1], path, nv), ev.updPath(v.args[2], path, nv))
	}
	if s.st == nil {
		return ev.opaque("field of unknown type", v, nv)
	}
	var fs []*T
	for i := 0; i < s.st.NumFields(); i++ {
		x := mkField(v, i, fldName(s.st, i))
		if i == s.fld {
			x = ev.updPath(x, path[1:], nv)
		}
		fs = append(fs, x)
	}
	return mkStruct(structSig(s.st), fs)
}

func (ev *Ev) store(st *state, a, v *T, in ssa.Instruction, fn *ssa.Function) {
	if a.op == "ite" {
		x, y := st.clone(), st.clone()
		ev.store(x, a.args[1], v, in, fn)
		ev.store(y, a.args[2], v, in, fn)
		m := ev.iteMem(a.args[0], x, y)
		st.mem, st.fams = m.mem, m.fams
		return
	}
	if c, x, y, ok := ev.splitAddr(a); ok {
		ev.store(st, ite(c, x, y), v, in, fn)
		return
	}
	cell, seq, path := ev.resolveAddr(a)
	ev.written(st, cell)
	old := ev.content(st, cell, seq)
	st.mem[cell] = ev.updPath(old, path, v)
	if cell.op != "obj" {
		ev.events = append(ev.events, event{kind: "write", name: "store", args: []*T{cell}, pc: st.pc, in: in, fn: fn})
	}
}

// written notes writes whose effect value analysis may not see everywhere: to
// objects copied by value, and to places that are not named by a path from a
// parameter or global.
func (ev *Ev) written(st *state, cell *T) {
	if cell.op == "obj" {
		if ev.frozen[cell] {
			ev.lost = ev.lost.add("write to shared data", st.pc)
		}
		return
	}
	if cell == tNil {
		return // panics instead
	}
	x := cell
	for {
		switch x.op {
		case "field", "ix", "star", "fa", "ea", "ea2", "mapget":
			x = x.args[0]
			continue
		case "param", "global", "gval", "obj", "free":
			return
		}
		break
	}
	ev.lost = ev.lost.add("write through "+cell.String(), st.pc)
}

// mapped: the sequence with address a is held by one entry of one map only.
func (ev *Ev) mapped(st *state, a *T) bool {
	cell, seq, _ := ev.resolveAddr(a)
	if !seq {
		return false
	}
	n := 0
	for _, m := range st.mem {
		for m.op == "mapset" {
			if m.args[2] == cell {
				n++
			}
			m = m.args[0]
		}
	}
	return n == 1
}

// seqval is the sequence a slice, string or array value stands for.
func (ev *Ev) seqval(st *state, v *T) *T {
	switch v.op {
	case "nil":
		return mkRaw("list", "")
	case "ite":
		return ite(v.args[0], ev.seqval(st, v.args[1]), ev.seqval(st, v.args[2]))
	case "slc":
		b := v.args[0]
		var c *T
		if b.op == "fa" || b.op == "ea" || b.op == "ea2" {
			c = ev.load(st, b)
		} else {
			c = ev.content(st, b, true)
		}
		return mkSub(c, v.args[1], padd(v.args[1], v.args[2]))
	}
	if c, ok := st.mem[v]; ok {
		return c
	}
	return v
}

// kc is the content (group element or scalar) of a kyber reference.
func (ev *Ev) kc(st *state, r *T) *T {
	if r.op == "ite" {
		return ite(r.args[0], ev.kc(st, r.args[1]), ev.kc(st, r.args[2]))
	}
	if v, ok := st.mem[r]; ok {
		return v
	}
	if r.op == "obj" {
		return ev.content(st, r, true)
	}
	if (r.op == "ix" || r.op == "field") && hasObj(r) {
		if v := ev.derefVal(st, r); v != r {
			return v
		}
	}
	if len(st.fams) > 0 || r.op == "ix" || r.op == "field" {
		return ev.content(st, r, true)
	}
	return r
}

func (ev *Ev) setK(st *state, r, v *T, in ssa.Instruction, fn *ssa.Function) {
	if r.op == "ite" {
		x, y := st.clone(), st.clone()
		ev.setK(x, r.args[1], v, in, fn)
		ev.setK(y, r.args[2], v, in, fn)
		m := ev.iteMem(r.args[0], x, y)
		st.mem, st.fams = m.mem, m.fams
		return
	}
	ev.written(st, r)
	st.mem[r] = v
	if r.op != "obj" {
		ev.events = append(ev.events, event{kind: "write", name: "kyber", args: []*T{r}, pc: st.pc, in: in, fn: fn})
	}
}

func (ev *Ev) newObj(kind, ctx string, in ssa.Instruction, t types.Type) *T {
	o := mkRaw("obj", fmt.Sprintf("%s@%s%s", kind, ctx, siteName(in)), ev.ctrs...)
	ev.objType[o] = t
	delete(ev.frozen, o)
	return o
}

func siteName(in ssa.Instruction) string {
	return fmt.Sprintf("%s:%d.%d", in.Parent().RelString(nil), in.Block().Index, instrIndex(in))
}

// ---- merging -----------------------------------------------------------------

type item struct {
	st   *state
	vals []*T
}

func (ev *Ev) iteMem(c *T, a, b *state) *state {
	m := map[*T]*T{}
	for k, va := range a.mem {
		vb, ok := b.mem[k]
		if !ok {
			if k.op == "obj" {
				if fv := ev.content(b, k, true); fv.op != "uninit" {
					vb = fv
				} else {
					vb = va
				}
			} else if t := ev.cellTyp[k]; t != nil && kyberKind(t) == "" {
				vb = ev.content(b, k, isSlice(t))
			} else {
				vb = ev.content(b, k, true)
			}
		}
		if va == vb {
			m[k] = va
		} else {
			m[k] = ite(c, va, vb)
		}
	}
	for k, vb := range b.mem {
		if _, ok := a.mem[k]; ok {
			continue
		}
		va := vb
		if k.op != "obj" {
			if t := ev.cellTyp[k]; t != nil && kyberKind(t) == "" {
				va = ev.content(a, k, isSlice(t))
			} else {
				va = ev.content(a, k, true)
			}
		} else if fv := ev.content(a, k, true); fv.op != "uninit" {
			va = fv
		}
		if va == vb {
			m[k] = va
		} else {
			m[k] = ite(c, va, vb)
		}
	}
	fs := a.fams
	if len(b.fams) > len(fs) {
		fs = b.fams
	}
	common := 0
	for common < len(a.fams) && common < len(b.fams) && a.fams[common].pat == b.fams[common].pat && a.fams[common].val == b.fams[common].val {
		common++
	}
	if common < len(a.fams) && common < len(b.fams) {
		fs = append(a.fams[:len(a.fams):len(a.fams)], b.fams[common:]...)
	}
	var over map[ssa.Value]*T
	for k, x := range a.over {
		if y, ok := b.over[k]; ok {
			if over == nil {
				over = map[ssa.Value]*T{}
			}
			over[k] = ite(c, x, y)
		}
	}
	return &state{mem: m, fams: fs, pc: a.pc, over: over}
}

func (ev *Ev) iteItem(c *T, a, b item) item {
	st := ev.iteMem(c, a.st, b.st)
	vals := make([]*T, len(a.vals))
	for i := range vals {
		switch {
		case a.vals[i] == nil:
			vals[i] = b.vals[i]
		case b.vals[i] == nil:
			vals[i] = a.vals[i]
		default:
			vals[i] = ite(c, a.vals[i], b.vals[i])
		}
	}
	return item{st, vals}
}

// merge joins control-flow states; each state's path condition says when it is the current one.
func (ev *Ev) merge(items []item) item {
	if len(items) == 1 {
		return items[0]
	}
	k := 0
	for {
		ok := len(items[0].st.pc) > k
		for _, it := range items {
			if !ok || len(it.st.pc) <= k || it.st.pc[k] != items[0].st.pc[k] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		k++
	}
	prefix := items[0].st.pc[:k:k]
	if len(items[0].st.pc) > k {
		c := items[0].st.pc[k]
		nc := not(c)
		var A, B []item
		other := false
		for _, it := range items {
			switch {
			case len(it.st.pc) > k && it.st.pc[k] == c:
				A = append(A, it)
			case len(it.st.pc) > k && it.st.pc[k] == nc:
				B = append(B, it)
			default:
				other = true
			}
		}
		if !other && len(A) > 0 && len(B) > 0 {
			a, b := ev.merge(A), ev.merge(B)
			ra, rb := a.st.pc[k+1:], b.st.pc[k+1:]
			r := ev.iteItem(c, a, b)
			r.st.pc = withCond(prefix, ite(c, and(ra...), and(rb...)))
			return r
		}
	}
	// general case
	items = append([]item(nil), items...)
	sort.SliceStable(items, func(i, j int) bool { return len(items[i].st.pc) > k && len(items[j].st.pc) <= k })
	r := items[len(items)-1]
	for i := len(items) - 2; i >= 0; i-- {
		r = ev.iteItem(and(items[i].st.pc[k:]...), items[i], r)
	}
	var alts []*T
	for _, it := range items {
		alts = append(alts, and(it.st.pc[k:]...))
	}
	r.st.pc = withCond(prefix, or(alts...))
	return r
}

// withCond adds a condition that does not hold in general to a path condition.
func withCond(pc []*T, c *T) []*T {
	if c == tTrue {
		return pc
	}
	return append(pc[:len(pc):len(pc)], c)
}

// ---- functions ----------------------------------------------------------------

func rpoOf(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		out = append(out, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (ev *Ev) inline(_ *frame, f *ssa.Function, args, bindings []*T, st *state, ctx string) []*T {
	fr := &frame{f: f, env: map[ssa.Value]*T{}, ctx: ctx, loops: naturalLoops(f), rpo: rpoOf(f)}
	for i, q := range f.Params {
		if i < len(args) {
			fr.env[q] = args[i]
		}
	}
	for i, q := range f.FreeVars {
		if i < len(bindings) {
			fr.env[q] = bindings[i]
		}
	}
	ev.stack = append(ev.stack, f)
	ev.visited[f] = true
	base := st.pc
	nctr := len(ev.ctrs)
	_, rets := ev.evalRegion(fr, nil, f.Blocks[0], st.clone(), nil)
	ev.ctrs = ev.ctrs[:nctr]
	ev.stack = ev.stack[:len(ev.stack)-1]
	var its []item
	n := f.Signature.Results().Len()
	for _, r := range rets {
		if n > 0 && isErrorType(f.Signature.Results().At(n-1).Type()) && !ev.keepErr && certainErr(r.vals[n-1]) {
			e := event{kind: "fail", name: fnKey(f), pc: r.st.pc[len(base):], fn: f}
			if nctr == 0 {
				e.full = append([]*T{tTrue}, r.st.pc...)
			}
			ev.failing = append(ev.failing, e)
			continue
		}
		its = append(its, item{r.st, r.vals})
	}
	if len(its) == 0 {
		st.dead = true
		return nil
	}
	m := ev.merge(its)
	st.mem, st.fams = m.st.mem, m.st.fams
	st.pc = base
	vals := m.vals
	if n > 0 && !ev.keepErr && isErrorType(f.Signature.Results().At(n-1).Type()) {
		vals[n-1] = noErr(vals[n-1])
	}
	return vals
}

func certainErr(t *T) bool { return t.op == "newerr" }

// noErr drops the failing alternatives of a merged error value.
func noErr(t *T) *T {
	if t.op == "ite" {
		a, b := noErr(t.args[1]), noErr(t.args[2])
		if a.op == "newerr" {
			return b
		}
		if b.op == "newerr" {
			return a
		}
		return ite(t.args[0], a, b)
	}
	return t
}

func (ev *Ev) evalRegion(fr *frame, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *state, _ []*T) (outs []edge, rets []ret) {
	pending := map[*ssa.BasicBlock][]edge{}
	in := func(b *ssa.BasicBlock) bool { return region == nil || region[b] }
	push := func(e edge) {
		if e.to == entry || !in(e.to) {
			outs = append(outs, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	// loops nested directly in the region
	inner := map[*ssa.BasicBlock]*loopInfo{}
	skip := map[*ssa.BasicBlock]bool{}
	for i := len(fr.loops) - 1; i >= 0; i-- { // outer first
		l := fr.loops[i]
		if l.head == entry && region != nil {
			continue
		}
		if !in(l.head) || skip[l.head] {
			continue
		}
		if region != nil && len(l.body) >= len(region) {
			continue
		}
		inner[l.head] = l
		for b := range l.body {
			if b != l.head {
				skip[b] = true
			}
		}
	}
	for _, b := range fr.rpo {
		if !in(b) || skip[b] {
			continue
		}
		if ev.steps > maxSteps {
			ev.overrun = true
			return
		}
		if l := inner[b]; l != nil {
			ins := pending[b]
			if b == entry {
				ins = []edge{{nil, b, st}}
			}
			if len(ins) == 0 {
				continue
			}
			os, rs := ev.evalLoop(fr, l, ins)
			rets = append(rets, rs...)
			for _, e := range os {
				push(e)
			}
			continue
		}
		var cur *state
		if b == entry {
			cur = st
		} else {
			ins := pending[b]
			if len(ins) == 0 {
				continue
			}
			m := ev.joinEdges(fr, b, ins)
			cur = m.st.clone()
			for i, ph := range phisOf(b) {
				fr.env[ph] = m.vals[i]
			}
		}
		es, r := ev.evalBlock(fr, b, cur)
		if r != nil {
			rets = append(rets, *r)
		}
		for _, e := range es {
			push(e)
		}
	}
	return
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		}
	}
	return out
}

func (ev *Ev) joinEdges(fr *frame, b *ssa.BasicBlock, ins []edge) item {
	phis := phisOf(b)
	var its []item
	for _, e := range ins {
		fr.st = e.st
		its = append(its, item{e.st, ev.phiVals(fr, phis, b, e.from)})
	}
	return ev.merge(its)
}

func (ev *Ev) phiVals(fr *frame, phis []*ssa.Phi, b, from *ssa.BasicBlock) []*T {
	vals := make([]*T, len(phis))
	for pi, q := range b.Preds {
		if q == from {
			for i, ph := range phis {
				vals[i] = ev.val(fr, ph.Edges[pi])
			}
		}
	}
	return vals
}

// typeOK: the interface value is of the type.
func (ev *Ev) typeOK(t types.Type, a *T) *T {
	if a.op == "ite" {
		x, y := ev.typeOK(t, a.args[1]), ev.typeOK(t, a.args[2])
		if x.op != "typeok" || y.op != "typeok" {
			return ite(a.args[0], x, y)
		}
	}
	if o := ev.objType[a]; a.op == "obj" && o != nil && !types.IsInterface(t) && strings.HasPrefix(a.s, "st@") {
		return mkBool(types.Identical(t, types.NewPointer(o)))
	}
	if su := ev.faType[a]; a.op == "fa" && su != nil && !types.IsInterface(t) {
		if i, err := strconv.Atoi(strings.SplitN(a.s, "_", 2)[0]); err == nil && i < su.NumFields() {
			return mkBool(types.Identical(t, types.NewPointer(su.Field(i).Type())))
		}
	}
	return mkRaw("typeok", t.String(), a)
}

// val is the term of an SSA operand.
func (ev *Ev) val(fr *frame, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return ev.constant(x)
	case *ssa.Global:
		return mkRaw("global", x.RelString(nil))
	case *ssa.Function:
		t := mkRaw("closure", fnKey(x))
		ev.closure[t] = x
		return t
	case *ssa.Builtin:
		return mkRaw("builtin", x.Name())
	}
	if fr.st != nil {
		if t, ok := fr.st.over[v]; ok {
			return t
		}
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return ev.opaque("value of an unreached instruction: " + v.Name())
}

func (ev *Ev) constant(c *ssa.Const) *T {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return ev.zero(c.Type())
		}
		return ev.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return mkInt(n)
		}
	case constant.String:
		s := constant.StringVal(c.Value)
		if s == "" {
			return mkRaw("list", "")
		}
		return mkRaw("const", fmt.Sprintf("%q", s))
	}
	return mkRaw("const", "num:"+c.Value.ExactString())
}

func (ev *Ev) evalBlock(fr *frame, b *ssa.BasicBlock, st *state) (outs []edge, r *ret) {
	fr.st = st
	for _, in := range b.Instrs {
		ev.steps++
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ev.val(fr, x.Cond)
			c = ev.underPC(st, c)
			switch c {
			case tTrue:
				return []edge{{b, b.Succs[0], st}}, nil
			case tFalse:
				return []edge{{b, b.Succs[1], st}}, nil
			}
			a, d := st.clone(), st.clone()
			a.pc = append(a.pc, c)
			d.pc = append(d.pc, not(c))
			return []edge{{b, b.Succs[0], a}, {b, b.Succs[1], d}}, nil
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}, nil
		case *ssa.Return:
			var vals []*T
			for _, v := range x.Results {
				vals = append(vals, ev.val(fr, v))
			}
			return nil, &ret{st, vals}
		case *ssa.Panic:
			return nil, nil
		default:
			ev.instr(fr, st, in)
			if st.dead {
				return nil, nil
			}
		}
	}
	return nil, nil
}

// underPC decides a condition that already holds (or fails) on this path.
func (ev *Ev) underPC(st *state, c *T) *T {
	for _, l := range st.pc {
		if l == c {
			return tTrue
		}
		if l == not(c) {
			return tFalse
		}
		if l.op == "and" {
			for _, x := range l.args {
				if x == c {
					return tTrue
				}
				if x == not(c) {
					return tFalse
				}
			}
		}
	}
	return c
}

func (ev *Ev) instr(fr *frame, st *state, in ssa.Instruction) {
	set := func(v *T) { fr.env[in.(ssa.Value)] = v }
	v := func(x ssa.Value) *T { return ev.val(fr, x) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		kind := "st"
		o := ev.newObj(kind, fr.ctx, in, t)
		ev.cellTyp[o] = t
		st.mem[o] = ev.zero(t)
		set(o)
	case *ssa.UnOp:
		a := v(x.X)
		switch x.Op {
		case token.MUL:
			if a.op == "param" || a.op == "field" || a.op == "star" || a.op == "ix" {
				ev.cellTyp[a] = deref(x.X.Type())
			}
			set(ev.load(st, a))
		case token.NOT:
			set(not(a))
		case token.SUB:
			if isInt(x.Type()) {
				set(pscale(a, -1))
			} else {
				set(mkRaw("fop", "neg", a))
			}
		case token.ARROW:
			r := ev.recv(st, a)
			if r == nil {
				r = mkRaw("recv", siteName(in), append([]*T{a}, ev.ctrs...)...)
			}
			if x.CommaOk {
				set(mkTuple(r, mkRaw("recvok", siteName(in), append([]*T{a}, ev.ctrs...)...)))
			} else {
				set(r)
			}
		default:
			set(mkRaw("uop", x.Op.String(), a))
		}
	case *ssa.BinOp:
		set(ev.binop(fr, st, x, v(x.X), v(x.Y)))
	case *ssa.Store:
		a := v(x.Addr)
		ev.cellTypeOf(a, deref(x.Addr.Type()))
		lost := ev.lost
		ev.store(st, a, v(x.Val), in, fr.f)
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && len(ev.lost.at) != len(lost.at) && strings.HasPrefix(ev.lost.why, "write through ") {
			// an element of a slice that a map holds: followed as long as
			// nothing else shows what the map holds
			y := ia.X
			if e, ok := y.(*ssa.Extract); ok {
				y = e.Tuple
			}
			if _, ok := y.(*ssa.Lookup); ok && ev.mapped(st, a) {
				ev.lost = lost
			}
		}
	case *ssa.FieldAddr:
		sty := deref(x.X.Type()).Underlying().(*types.Struct)
		base := v(x.X)
		ev.cellTypeOf(base, deref(x.X.Type()))
		set(ev.mkFa(base, fmt.Sprintf("%d_%s", x.Field, fldName(sty, x.Field)), sty))
	case *ssa.Field:
		sty := x.X.Type().Underlying().(*types.Struct)
		set(mkField(v(x.X), x.Field, fldName(sty, x.Field)))
	case *ssa.IndexAddr:
		base := v(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			set(mkRaw("ea2", "", base, v(x.Index)))
		} else {
			b := base
			if b.op == "slc" {
				b = b.args[0]
			}
			if b.op != "fa" && b.op != "ea2" {
				ev.cellTyp[b] = x.X.Type()
			}
			ev.indexed(fr, st, v(x.Index), func() *T { return mkLen(ev.seqval(st, base)) }, in)
			set(mkRaw("ea", "", base, v(x.Index)))
		}
	case *ssa.Index:
		set(mkIx(v(x.X), v(x.Index)))
	case *ssa.Lookup:
		if !isMap(x.X.Type()) {
			set(mkIx(v(x.X), v(x.Index)))
			return
		}
		m := ev.mapval(st, v(x.X))
		k := ev.deep(st, v(x.Index), x.Index.Type(), 0)
		g := ev.mapget(m, k, x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			set(mkTuple(g, maphas(m, k)))
		} else {
			set(g)
		}
	case *ssa.MapUpdate:
		r := v(x.Map)
		k := ev.deep(st, v(x.Key), x.Key.Type(), 0)
		nv := v(x.Value)
		if iterObj(nv) && plainData(x.Value.Type(), 0) {
			ev.freeze(st, nv, 0)
			nv = ev.deep(st, nv, x.Value.Type(), 0)
		}
		st.mem[r] = mapset(ev.mapval(st, r), k, nv)
		ev.cellTyp[r] = x.Map.Type()
		if r.op != "obj" {
			ev.events = append(ev.events, event{kind: "write", name: "map", args: []*T{r}, pc: st.pc, in: in, fn: fr.f})
		}
	case *ssa.MakeMap:
		o := ev.newObj("map", fr.ctx, in, x.Type())
		st.mem[o] = mkRaw("emptymap", "")
		ev.cellTyp[o] = x.Type()
		set(o)
	case *ssa.MakeSlice:
		n := v(x.Len)
		o := ev.newObj("arr", fr.ctx, in, x.Type())
		st.mem[o] = mkMapSeq(freshCtr(), n, ev.zero(x.Type().Underlying().(*types.Slice).Elem()))
		if n == tZero {
			st.mem[o] = mkRaw("list", "")
		}
		ev.cellTyp[o] = x.Type()
		set(mkRaw("slc", "", o, tZero, n))
	case *ssa.MakeChan:
		o := ev.newObj("chan", fr.ctx, in, x.Type())
		st.mem[o] = mkRaw("list", "") // the values sent and not yet received
		ev.cellTyp[o] = types.NewSlice(x.Type().Underlying().(*types.Chan).Elem())
		set(o)
	case *ssa.MakeClosure:
		var bs []*T
		for _, b := range x.Bindings {
			bs = append(bs, v(b))
		}
		t := mkRaw("closure", fnKey(x.Fn.(*ssa.Function)), bs...)
		ev.closure[t] = x.Fn.(*ssa.Function)
		set(t)
	case *ssa.Slice:
		a := v(x.X)
		lo := tZero
		if x.Low != nil {
			lo = v(x.Low)
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			arr := deref(x.X.Type()).Underlying().(*types.Array)
			hi := mkInt(arr.Len())
			if x.High != nil {
				hi = v(x.High)
			}
			set(mkRaw("slc", "", a, lo, psub(hi, lo)))
			return
		}
		hi := mkLen(a)
		if x.High != nil {
			hi = v(x.High)
		}
		if isStr(x.X.Type()) {
			set(mkSub(a, lo, hi))
			return
		}
		if x.Low != nil && x.High != nil {
			ev.indexed(fr, st, lo, func() *T { return padd(hi, tOne) }, in) // the bounds are in order
		}
		if a.op == "ite" {
			set(ite(a.args[0], mkSlc(a.args[1], lo, psub(hi, lo)), mkSlc(a.args[2], lo, psub(hi, lo))))
			return
		}
		if a == tNil {
			set(tNil)
			return
		}
		set(mkSlc(a, lo, psub(hi, lo)))
	case *ssa.Convert:
		set(ev.convert(st, x, v(x.X)))
	case *ssa.ChangeType:
		a := v(x.X)
		set(a)
	case *ssa.ChangeInterface, *ssa.MakeInterface:
		var a *T
		if y, ok := x.(*ssa.ChangeInterface); ok {
			a = v(y.X)
		} else {
			a = v(x.(*ssa.MakeInterface).X)
		}
		set(a)
	case *ssa.TypeAssert:
		a := v(x.X)
		if x.CommaOk {
			set(mkTuple(a, ev.typeOK(x.AssertedType, a)))
		} else {
			set(a)
		}
	case *ssa.Extract:
		set(mkProj(v(x.Tuple), x.Index))
	case *ssa.Range:
		a := v(x.X)
		if isMap(x.X.Type()) {
			set(mkRaw("iter", "map", ev.mapval(st, a)))
		} else {
			set(mkRaw("iter", "str", a))
		}
	case *ssa.Next:
		it := v(x.Iter)
		if it.op != "iter" || len(ev.ctrs) == 0 {
			set(ev.opaque("iterator", it))
			return
		}
		c := ev.ctrs[len(ev.ctrs)-1]
		m := it.args[0]
		ok := mkRaw("rangeok", it.s, m, c)
		if it.s == "map" {
			k := mkMapKey(m, c)
			set(mkTuple(ok, k, ev.mapget(m, k, x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Elem())))
		} else {
			set(mkTuple(ok, c, mkIx(m, c)))
		}
	case *ssa.Send:
		if ch := v(x.Chan); ch.op == "obj" && st.mem[ch] != nil {
			st.mem[ch] = mkCat(st.mem[ch], mkRaw("list", "", v(x.X)))
		}
		ev.events = append(ev.events, event{kind: "send", name: "chan", args: []*T{v(x.Chan), ev.deep(st, v(x.X), x.X.Type(), 0)}, types: []types.Type{x.Chan.Type(), x.X.Type()}, pc: st.pc, in: in, fn: fr.f})
	case *ssa.Select:
		ev.selectInstr(fr, st, x, set)
	case *ssa.Call:
		r := ev.call(fr, st, x)
		if r != nil {
			set(r)
		} else {
			set(mkTuple())
		}
	case *ssa.Go:
		ev.call(fr, st, x)
	case *ssa.Defer:
		fr.defers = append(fr.defers, x)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if noopCallee(calleeName(d)) {
				continue
			}
			ev.call(fr, st, d)
		}
	default:
		if val, ok := in.(ssa.Value); ok {
			fr.env[val] = ev.opaque(fmt.Sprintf("%T", in))
		}
	}
}

func (ev *Ev) cellTypeOf(a *T, t types.Type) {
	switch a.op {
	case "fa", "ea", "ea2", "ite":
		return
	}
	if ev.cellTyp[a] == nil {
		ev.cellTyp[a] = t
	}
}

// recv takes the first of the values sent over a channel made in the analysed
// code; nil if they are not known.
func (ev *Ev) recv(st *state, ch *T) *T {
	q := st.mem[ch]
	if ch.op != "obj" || q == nil {
		return nil
	}
	v, rest := ev.popQueue(q)
	if v != nil {
		st.mem[ch] = rest
	} else {
		st.mem[ch] = ev.opaque("values left in a channel", q)
	}
	return v
}

func (ev *Ev) popQueue(q *T) (v, rest *T) {
	switch q.op {
	case "list":
		if len(q.args) == 0 {
			return ev.opaque("receive from an empty channel"), q
		}
		return q.args[0], mkRaw("list", "", q.args[1:]...)
	case "cat":
		if p := q.args[0]; p.op == "list" && len(p.args) > 0 {
			return p.args[0], mkCat(append([]*T{mkRaw("list", "", p.args[1:]...)}, q.args[1:]...)...)
		}
	case "ite":
		a, ra := ev.popQueue(q.args[1])
		b, rb := ev.popQueue(q.args[2])
		if a != nil && b != nil {
			return ite(q.args[0], a, b), ite(q.args[0], ra, rb)
		}
	}
	return nil, nil
}

func (ev *Ev) selectInstr(fr *frame, st *state, x *ssa.Select, set func(*T)) {
	// the success path: a message arrives rather than the time running out
	var live []int
	for i, s := range x.States {
		if c, ok := s.Chan.(*ssa.Call); ok && calleeName(c) == "time.After" {
			continue
		}
		live = append(live, i)
	}
	n := 2
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			n++
		}
	}
	vals := make([]*T, n)
	for i := range vals {
		vals[i] = ev.opaque("select")
	}
	vals[1] = tTrue
	// a value that was sent before is received
	ready := -1
	for _, i := range live {
		if s := x.States[i]; s.Dir == types.RecvOnly && ready < 0 {
			if q := st.mem[ev.val(fr, s.Chan)]; q != nil && q.op != "opaque" && mkLen(q) != tZero && len(live) > 1 {
				ready = i
			}
		}
	}
	if ready >= 0 {
		vals[0] = mkInt(int64(ready))
	} else if len(live) == 1 {
		vals[0] = mkInt(int64(live[0]))
	} else {
		vals[0] = mkRaw("choice", siteName(x), ev.ctrs...)
	}
	k := 2
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			ch := ev.val(fr, s.Chan)
			if ready < 0 || i == ready {
				if vals[k] = ev.recv(st, ch); vals[k] == nil {
					vals[k] = mkRaw("recv", siteName(x)+fmt.Sprint(i), append([]*T{ch}, ev.ctrs...)...)
				}
			}
			k++
		}
	}
	set(mkTuple(vals...))
}

func (ev *Ev) convert(st *state, x *ssa.Convert, a *T) *T {
	from, to := x.X.Type(), x.Type()
	switch {
	case isInt(from) && isInt(to):
		return a
	case isStr(to) && isSlice(from):
		return ev.seqval(st, a)
	case isSlice(to) && isStr(from):
		return a
	case isStr(to) && isStr(from):
		return a
	case isStr(to) && isInt(from):
		return mkRaw("list", "", a)
	}
	return mkRaw("conv", to.Underlying().String(), a)
}

func (ev *Ev) binop(fr *frame, st *state, x *ssa.BinOp, a, b *T) *T {
	t := x.X.Type()
	in := isInt(t)
	switch x.Op {
	case token.ADD:
		if in {
			return iteLift2(a, b, padd)
		}
		if isStr(t) {
			return mkCat(a, b)
		}
	case token.SUB:
		if in {
			return iteLift2(a, b, psub)
		}
	case token.MUL:
		if in {
			return pmul(a, b)
		}
	case token.QUO:
		if in {
			return mkDiv(a, b)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if in {
			switch x.Op {
			case token.LSS:
				return lt0(psub(a, b))
			case token.GTR:
				return lt0(psub(b, a))
			case token.LEQ:
				return not(lt0(psub(b, a)))
			default:
				return not(lt0(psub(a, b)))
			}
		}
		switch x.Op {
		case token.GTR:
			return mkRaw("flt", "", b, a)
		case token.LEQ:
			return not(mkRaw("flt", "", b, a))
		case token.GEQ:
			return not(mkRaw("flt", "", a, b))
		}
		return mkRaw("flt", "", a, b)
	case token.EQL, token.NEQ:
		var e *T
		switch {
		case in:
			e = eq0(psub(a, b))
		case isSlice(t) || isMap(t):
			if b == tNil || a == tNil {
				q := a
				if a == tNil {
					q = b
				}
				e = sliceNil(q)
			} else {
				e = eqT(a, b)
			}
		case isErrorType(t):
			e = eqT(errNorm(a), errNorm(b))
		case isPtr(t) && a.op == "obj" && b.op == "obj" && objKind(a) == "st" && objKind(b) == "st" && a.s != b.s:
			e = tFalse // made at different places
		case isStr(t):
			if a.op == "const" && b.op == "list" && len(b.args) == 0 || b.op == "const" && a.op == "list" && len(a.args) == 0 {
				e = tFalse
			} else {
				e = eqT(a, b)
			}
		default:
			e = eqT(a, b)
		}
		if x.Op == token.NEQ {
			return not(e)
		}
		return e
	case token.LAND, token.LOR:
	}
	return mkRaw("bop", x.Op.String(), a, b)
}

func errNorm(t *T) *T { return t }

func sliceNil(q *T) *T {
	switch q.op {
	case "nil":
		return tTrue
	case "slc", "cat", "mapseq", "catmap", "obj", "marshal":
		return tFalse
	case "ite":
		return ite(q.args[0], sliceNil(q.args[1]), sliceNil(q.args[2]))
	}
	return eqT(q, tNil)
}

func iteLift2(a, b *T, f func(x, y *T) *T) *T { return f(a, b) }

// ---- maps -------------------------------------------------------------------

func (ev *Ev) mapval(st *state, r *T) *T {
	if r == tNil {
		return mkRaw("emptymap", "")
	}
	if r.op == "ite" {
		return ite(r.args[0], ev.mapval(st, r.args[1]), ev.mapval(st, r.args[2]))
	}
	return ev.content(st, r, true)
}

func (ev *Ev) mapget(m, k *T, elem types.Type) *T {
	z := tNil
	if elem != nil {
		z = ev.zero(elem)
	}
	return mapgetT(m, k, z)
}

// mapgetT is the value of a key in a map, z if it has none.
func mapgetT(m, k, z *T) *T {
	switch m.op {
	case "emptymap", "nil":
		return z
	case "mapset":
		if m.args[1] == k {
			return m.args[2]
		}
		if m.args[1].op == "const" && k.op == "const" {
			return mapgetT(m.args[0], k, z)
		}
	case "ite":
		return ite(m.args[0], mapgetT(m.args[1], k, z), mapgetT(m.args[2], k, z))
	}
	return mkRaw("mapget", "", m, k, z)
}

// plainData: the values of the type hold no pointers other than slices and
// group elements or scalars, so a value can be replaced by what it refers to.
func plainData(t types.Type, d int) bool {
	if kyberKind(t) != "" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return d < 6 && plainData(u.Elem(), d+1)
	case *types.Array:
		return d < 6 && plainData(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if d > 6 || !plainData(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// freeze notes that what a value refers to has been copied by value analysis
// although the program shares it: a later write to it is not followed.
func (ev *Ev) freeze(st *state, v *T, d int) {
	walkT(v, func(x *T) bool {
		if x.op == "obj" && !ev.frozen[x] {
			ev.frozen[x] = true
			if c := st.mem[x]; c != nil && d < 8 {
				ev.freeze(st, c, d+1)
			}
		}
		return true
	})
}

// mkMapKey is the i-th key of a map in the order of one range loop over it.
func mkMapKey(m, i *T) *T {
	m = keysOnly(m)
	if m.op == "mapset" && m.args[0].op == "emptymap" {
		return m.args[1]
	}
	return mkRaw("mapkey", "", m, i)
}

func maphas(m, k *T) *T {
	switch m.op {
	case "emptymap":
		return tFalse
	case "mapset":
		if m.args[1] == k {
			return tTrue
		}
		if m.args[1].op == "const" && k.op == "const" {
			return maphas(m.args[0], k)
		}
	}
	if m.op == "nil" {
		return tFalse
	}
	if m.op == "mapset" && k != m.args[1] {
		if e := eqT(k, m.args[1]); e == tFalse {
			return maphas(m.args[0], k)
		}
	}
	if k.op == "mapkey" && k.args[0] == keysOnly(m) {
		return tTrue
	}
	return mkRaw("maphas", "", keysOnly(m), k)
}

func mapset(m, k, v *T) *T {
	if m.op == "mapset" && m.args[1] == k {
		return mkRaw("mapset", "", m.args[0], k, v)
	}
	// constant keys commute
	if m.op == "mapset" && m.args[1].op == "const" && k.op == "const" && k.s < m.args[1].s {
		return mkRaw("mapset", "", mapset(m.args[0], k, v), m.args[1], m.args[2])
	}
	return mkRaw("mapset", "", m, k, v)
}

// ---- deep values --------------------------------------------------------------

// deep replaces the references in a value by what they refer to.
func (ev *Ev) deep(st *state, v *T, t types.Type, d int) *T {
	if d > 8 || v == nil {
		return v
	}
	if v.op == "ite" {
		return ite(v.args[0], ev.deep(st, v.args[1], t, d), ev.deep(st, v.args[2], t, d))
	}
	if t == nil {
		t = ev.objType[v]
		if v.op == "obj" && t != nil && strings.HasPrefix(v.s, "st@") {
			t = types.NewPointer(t)
		}
		if t == nil {
			return v
		}
	}
	if kyberKind(t) != "" {
		if v == tNil {
			return v
		}
		return ev.kc(st, v)
	}
	if v.op == "closure" {
		g := ev.closure[v]
		if g == nil || len(g.FreeVars) != len(v.args) {
			return v
		}
		var bs []*T
		for i, b := range v.args {
			bs = append(bs, ev.deep(st, b, g.FreeVars[i].Type(), d+2))
		}
		return mkRaw("closure", v.s, bs...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ev.deep(st, mkField(v, i, fldName(u, i)), u.Field(i).Type(), d+1))
		}
		if len(fs) == 0 {
			return v
		}
		return mkStruct(structSig(t), fs)
	case *types.Slice:
		return ev.deepSeq(st, ev.seqval(st, v), u.Elem(), d+1)
	case *types.Array:
		return ev.deepSeq(st, v, u.Elem(), d+1)
	case *types.Pointer:
		if v == tNil {
			return v
		}
		if v.op != "obj" && st.mem[v] == nil {
			switch u.Elem().Underlying().(type) {
			case *types.Slice, *types.Map:
				s := ev.content(st, v, false)
				if x := ev.deep(st, s, u.Elem(), d+1); x != s {
					return mkRaw("ref", "", x)
				}
			}
			return v
		}
		var c *T
		switch v.op {
		case "fa", "ea", "ea2":
			c = ev.load(st, v)
		default:
			c = ev.content(st, v, false)
		}
		return mkRaw("ref", "", ev.deep(st, c, u.Elem(), d+1))
	case *types.Map:
		if v == tNil {
			return v
		}
		return ev.deepMap(st, ev.mapval(st, v), u, d+1)
	case *types.Interface:
		if v.op == "obj" || v.op == "slc" {
			if v.op == "slc" {
				if v.args[0].op == "obj" {
					if ot := ev.objType[v.args[0]]; ot != nil && isSlice(ot) {
						return ev.deep(st, v, ot, d)
					}
				}
				return v
			}
			if k := objKind(v); k == "pt" || k == "sc" {
				return ev.kc(st, v)
			}
			return ev.deep(st, v, nil, d)
		}
		if v.op == "struct" {
			if q := ev.p.namedType(v.s); q != nil {
				return ev.deep(st, v, q, d)
			}
		}
	}
	return v
}

func objKind(o *T) string {
	if i := strings.IndexByte(o.s, '@'); i > 0 {
		return o.s[:i]
	}
	return ""
}

func (ev *Ev) deepMap(st *state, m *T, u *types.Map, d int) *T {
	switch m.op {
	case "mapset":
		return mkRaw("mapset", "", ev.deepMap(st, m.args[0], u, d), m.args[1], ev.deep(st, m.args[2], u.Elem(), d))
	case "ite":
		return ite(m.args[0], ev.deepMap(st, m.args[1], u, d), ev.deepMap(st, m.args[2], u, d))
	case "mapfam":
		f := freshCtr()
		k, v := rename(m.args[2], m.args[0], f), rename(m.args[3], m.args[0], f)
		return mkMapFam(f, m.args[1], k, ev.deep(st, v, u.Elem(), d), ev.deepMap(st, m.args[4], u, d))
	}
	return m
}

func mkMapFam(ctr, n, k, v, m *T) *T {
	c, bs := bindCtr(ctr, k, v)
	return mkRaw("mapfam", "", c, n, bs[0], bs[1], m)
}

func (ev *Ev) deepSeq(st *state, s *T, elem types.Type, d int) *T {
	if _, ok := elem.Underlying().(*types.Basic); ok || d > 10 {
		return s
	}
	f := func(x *T) *T { return ev.deep(st, x, elem, d) }
	if s.op == "param" || s.op == "field" || s.op == "ix" {
		// elements of what the caller gave, some of which were changed in place
		in := func(k *T) bool {
			return containsT(k, func(y *T) bool { return y.op == "ix" && y.args[0] == s })
		}
		for k := range st.mem {
			if in(k) {
				return expandSeq(s, f)
			}
		}
		for _, m := range st.fams {
			if m.pat.op != "obj" && in(m.pat) {
				return expandSeq(s, f)
			}
		}
	}
	return mapElems(s, f)
}

func expandSeq(s *T, f func(x *T) *T) *T {
	c := freshCtr()
	ctrRange[c.s] = mkLen(s)
	return mkMapSeq(c, mkLen(s), f(mkIx(s, c)))
}

// mapElems applies f to the elements of a sequence expression.
func mapElems(s *T, f func(x *T) *T) *T {
	rec := func(x *T) *T { return mapElems(x, f) }
	switch s.op {
	case "list":
		a := make([]*T, len(s.args))
		for i, x := range s.args {
			a[i] = f(x)
		}
		return mkRaw("list", "", a...)
	case "cat":
		a := make([]*T, len(s.args))
		for i, x := range s.args {
			a[i] = rec(x)
		}
		return mkCat(a...)
	case "mapseq":
		c := freshCtr()
		ctrRange[c.s] = s.args[1]
		return mkMapSeq(c, s.args[1], f(rename(s.args[2], s.args[0], c)))
	case "catmap":
		c := freshCtr()
		ctrRange[c.s] = s.args[1]
		return mkCatMap(c, s.args[1], rec(rename(s.args[2], s.args[0], c)))
	case "updfam":
		c, n, idx, val := openBinder(s)
		ctrRange[c.s] = n
		return mkUpdFam(rec(s.args[4]), n, c, idx, f(val))
	case "swaps":
		return mkRaw("swaps", s.s, append(append([]*T{}, s.args[:4]...), rec(s.args[4]))...)
	case "upd":
		return mkUpd(rec(s.args[0]), s.args[1], f(s.args[2]))
	case "ite":
		return ite(s.args[0], rec(s.args[1]), rec(s.args[2]))
	case "slice":
		return mkSub(rec(s.args[0]), s.args[1], s.args[2])
	}
	return s
}

// derefVal replaces the group elements and scalars a value expression selects
// by what they currently contain.
func (ev *Ev) derefVal(st *state, r *T) *T {
	switch r.op {
	case "obj":
		if k := objKind(r); k == "pt" || k == "sc" {
			return ev.content(st, r, true)
		}
	case "ite":
		return ite(r.args[0], ev.derefVal(st, r.args[1]), ev.derefVal(st, r.args[2]))
	case "ix":
		if s := mapElems(r.args[0], func(x *T) *T { return ev.derefVal(st, x) }); s != r.args[0] {
			return mkIx(s, r.args[1])
		}
		if v := r.args[0]; v.op == "field" || v.op == "ix" {
			if s := ev.derefVal(st, v); s != v {
				return mkIx(s, r.args[1])
			}
		}
	case "list", "cat", "mapseq", "catmap", "updfam", "swaps", "upd", "slice":
		return mapElems(r, func(x *T) *T { return ev.derefVal(st, x) })
	case "field":
		if v := ev.derefVal(st, r.args[0]); v != r.args[0] {
			i := strings.IndexByte(r.s, '_')
			n, _ := strconv.Atoi(r.s[:i])
			return mkField(v, n, r.s[i+1:])
		}
	case "struct":
		fs := make([]*T, len(r.args))
		for i, x := range r.args {
			fs[i] = ev.derefVal(st, x)
		}
		return mkStruct(r.s, fs)
	}
	return r
}

func hasObj(t *T) bool { return containsT(t, func(x *T) bool { return x.op == "obj" }) }

func (p *Prog) namedType(name string) types.Type {
	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && typeName(tn.Type()) == name {
				return tn.Type()
			}
		}
	}
	return nil
}

// sortedNotes lists why parts of the analysis were left undecided.
func (ev *Ev) sortedNotes() []string {
	var out []string
	for n := range ev.notes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// iterObj: the value refers to an object allocated in each iteration of a loop.
func iterObj(t *T) bool {
	return containsT(t, func(x *T) bool { return x.op == "obj" && len(x.ctrs) > 0 })
}
