package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// T is a hash-consed symbolic term. Terms denote values (integers, booleans,
// byte strings, group elements, references). Integers and scalars share one
// polynomial normal form; group elements are linear combinations of atoms with
// polynomial coefficients, so algebraically equal expressions are one term.
type T struct {
	op   string
	s    string
	args []*T
	mono []monomial // op "poly"
	pts  []ptTerm   // op "pt"
	k    string
	id   int
	ctrs map[string]bool // loop counters occurring in the term
	bd   int             // depth of the deepest binder inside
}

type monomial struct {
	coef  int64
	atoms []*T // sorted by key
}

type ptTerm struct {
	atom *T
	coef *T // polynomial
}

var internTab = map[string]*T{}

// work counts the terms made for a law; a law that needs far more of them than
// any law needs on code it can follow is left undecided.
var work int

const maxWork = 6000000

func intern(t *T) *T {
	work++
	if work > maxWork {
		panic("the terms grow too large")
	}
	var sb strings.Builder
	sb.WriteString(t.op)
	if t.s != "" {
		sb.WriteByte(':')
		sb.WriteString(t.s)
	}
	sb.WriteByte('(')
	for i, a := range t.args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, m := range t.mono {
		fmt.Fprintf(&sb, "+%d", m.coef)
		for _, a := range m.atoms {
			fmt.Fprintf(&sb, "*%d", a.id)
		}
	}
	for _, p := range t.pts {
		fmt.Fprintf(&sb, "+%d.%d", p.coef.id, p.atom.id)
	}
	sb.WriteByte(')')
	k := sb.String()
	if o, ok := internTab[k]; ok {
		return o
	}
	t.id = len(internTab)
	t.args = append([]*T(nil), t.args...)
	t.k = k
	t.ctrs = map[string]bool{}
	if t.op == "ctr" {
		t.ctrs[t.s] = true
	}
	add := func(a *T) {
		if a.bd > t.bd {
			t.bd = a.bd
		}
		for c := range a.ctrs {
			t.ctrs[c] = true
		}
	}
	if isBinder(t.op) && strings.HasPrefix(t.args[0].s, "#") {
		t.bd, _ = strconv.Atoi(t.args[0].s[1:])
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.mono {
		for _, a := range m.atoms {
			add(a)
		}
	}
	for _, p := range t.pts {
		add(p.atom)
		add(p.coef)
	}
	internTab[k] = t
	return t
}

func mkRaw(op, s string, args ...*T) *T { return intern(&T{op: op, s: s, args: args}) }

// Binders: the first argument is the bound counter, which occurs in the
// arguments from bodyAt on. Bound counters are named #k, k being one more than
// the depth of the binders inside, so equal terms are the same up to renaming.
func isBinder(op string) bool { return bodyAt(op) > 0 }

func bodyAt(op string) int {
	switch op {
	case "mapseq", "catmap", "sum", "prefix", "forall", "exists", "ptsum", "updfam", "mapfam", "fold", "swaps", "firstix":
		return 2
	}
	return 0
}

var ctrCount int

func freshCtr() *T {
	ctrCount++
	return mkRaw("ctr", "L"+strconv.Itoa(ctrCount))
}

// bindCtr renames the counter of a binder canonically.
func bindCtr(ctr *T, bodies ...*T) (*T, []*T) {
	d := 0
	for _, b := range bodies {
		if b.bd > d {
			d = b.bd
		}
	}
	c := mkRaw("ctr", "#"+strconv.Itoa(d+1))
	if c == ctr {
		return ctr, bodies
	}
	out := make([]*T, len(bodies))
	for i, b := range bodies {
		out[i] = rename(b, ctr, c)
	}
	return c, out
}

// mkBind builds a binder term with a canonical counter.
func mkBind(op, s string, ctr, n *T, bodies ...*T) *T {
	c, bs := bindCtr(ctr, bodies...)
	return mkRaw(op, s, append([]*T{c, n}, bs...)...)
}

func (t *T) has(ctr *T) bool { return t.ctrs[ctr.s] }

// ---- printing -------------------------------------------------------------

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.op {
	case "poly":
		if len(t.mono) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.mono {
			var f []string
			if m.coef != 1 || len(m.atoms) == 0 {
				f = append(f, strconv.FormatInt(m.coef, 10))
			}
			for _, a := range m.atoms {
				f = append(f, a.str(d+1))
			}
			parts = append(parts, strings.Join(f, "*"))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, "+") + ")"
	case "pt":
		if len(t.pts) == 0 {
			return "O"
		}
		var parts []string
		for _, p := range t.pts {
			c := p.coef.str(d + 1)
			if c == "1" {
				parts = append(parts, p.atom.str(d+1))
			} else {
				parts = append(parts, c+"·"+p.atom.str(d+1))
			}
		}
		return "[" + strings.Join(parts, " + ") + "]"
	case "const":
		return t.s
	case "param", "global", "obj", "ctr", "nil", "rand":
		if t.op == "rand" {
			var a []string
			for _, x := range t.args {
				a = append(a, x.str(d+1))
			}
			return "rand" + "<" + t.s + ">" + "(" + strings.Join(a, ",") + ")"
		}
		if t.op == "nil" {
			return "nil"
		}
		return t.s
	case "field":
		return t.args[0].str(d+1) + "." + t.s
	}
	var a []string
	for _, x := range t.args {
		a = append(a, x.str(d+1))
	}
	h := t.op
	if t.s != "" {
		h += ":" + t.s
	}
	return h + "(" + strings.Join(a, ", ") + ")"
}

// ---- constants ------------------------------------------------------------

var (
	tTrue  = mkRaw("const", "true")
	tFalse = mkRaw("const", "false")
	tNil   = mkRaw("nil", "")
	tZero  = mkInt(0)
	tOne   = mkInt(1)
	tNullP = intern(&T{op: "pt"})
	tBase  = mkRaw("param", "B")
)

func mkBool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(n int64) *T {
	if n == 0 {
		return intern(&T{op: "poly"})
	}
	return intern(&T{op: "poly", mono: []monomial{{coef: n}}})
}

func (t *T) constInt() (int64, bool) {
	if t.op != "poly" {
		return 0, false
	}
	if len(t.mono) == 0 {
		return 0, true
	}
	if len(t.mono) == 1 && len(t.mono[0].atoms) == 0 {
		return t.mono[0].coef, true
	}
	return 0, false
}

// ---- polynomials ----------------------------------------------------------

func monos(t *T) []monomial {
	if t.op == "poly" {
		return t.mono
	}
	return []monomial{{coef: 1, atoms: []*T{t}}}
}

func monoKey(m monomial) string {
	var sb strings.Builder
	for _, a := range m.atoms {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	return sb.String()
}

func polyOf(ms []monomial) *T {
	acc := map[string]monomial{}
	for _, m := range ms {
		sort.Slice(m.atoms, func(i, j int) bool { return m.atoms[i].id < m.atoms[j].id })
		k := monoKey(m)
		o := acc[k]
		o.coef += m.coef
		o.atoms = m.atoms
		acc[k] = o
	}
	var keys []string
	for k, m := range acc {
		if m.coef != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []monomial
	for _, k := range keys {
		out = append(out, acc[k])
	}
	if len(out) == 1 && out[0].coef == 1 && len(out[0].atoms) == 1 {
		return out[0].atoms[0]
	}
	// min(a,b)+x = min(a+x,b+x)
	var m *T
	var rest []monomial
	mins := 0
	for _, x := range out {
		for _, a := range x.atoms {
			if a.op == "min" {
				mins++
			}
		}
		if x.coef == 1 && len(x.atoms) == 1 && x.atoms[0].op == "min" {
			m = x.atoms[0]
		} else {
			rest = append(rest, x)
		}
	}
	if m != nil && mins == 1 {
		var ys []*T
		for _, y := range m.args {
			ys = append(ys, polyOf(append(append([]monomial{}, monos(y)...), rest...)))
		}
		return mkMin(ys...)
	}
	return intern(&T{op: "poly", mono: out})
}

func padd(a, b *T) *T { return polyOf(append(append([]monomial{}, monos(a)...), monos(b)...)) }

func pscale(a *T, c int64) *T {
	var ms []monomial
	for _, m := range monos(a) {
		ms = append(ms, monomial{m.coef * c, append([]*T{}, m.atoms...)})
	}
	return polyOf(ms)
}

func psub(a, b *T) *T { return padd(a, pscale(b, -1)) }

func pmul(a, b *T) *T {
	var ms []monomial
	for _, x := range monos(a) {
		for _, y := range monos(b) {
			ms = append(ms, monomial{x.coef * y.coef, append(append([]*T{}, x.atoms...), y.atoms...)})
		}
	}
	// x * inv(x) = 1
	for i := range ms {
		ms[i].atoms = cancelInv(ms[i].atoms)
	}
	return polyOf(ms)
}

func cancelInv(as []*T) []*T {
	for i := 0; i < len(as); i++ {
		for j := 0; j < len(as); j++ {
			if i != j && as[i].op == "inv" && as[i].args[0] == as[j] {
				var out []*T
				for k, x := range as {
					if k != i && k != j {
						out = append(out, x)
					}
				}
				return cancelInv(out)
			}
		}
	}
	return as
}

// coefOf splits the polynomial as c*atom + rest when atom occurs linearly.
func linIn(p *T, atom *T) (c *T, rest *T, ok bool) {
	var cm, rm []monomial
	for _, m := range monos(p) {
		n := 0
		var others []*T
		for _, a := range m.atoms {
			if a == atom {
				n++
			} else {
				if a.ctrs[atom.s] && atom.op == "ctr" {
					return nil, nil, false
				}
				others = append(others, a)
			}
		}
		switch n {
		case 0:
			rm = append(rm, m)
		case 1:
			cm = append(cm, monomial{m.coef, others})
		default:
			return nil, nil, false
		}
	}
	return polyOf(cm), polyOf(rm), true
}

// ---- points ---------------------------------------------------------------

func ptsOf(t *T) []ptTerm {
	if t.op == "pt" {
		return t.pts
	}
	return []ptTerm{{t, tOne}}
}

func mkPt(ps []ptTerm) *T {
	acc := map[int]ptTerm{}
	for _, p := range ps {
		o, ok := acc[p.atom.id]
		if ok {
			acc[p.atom.id] = ptTerm{p.atom, padd(o.coef, p.coef)}
		} else {
			acc[p.atom.id] = p
		}
	}
	var out []ptTerm
	for _, p := range acc {
		if c, ok := p.coef.constInt(); ok && c == 0 {
			continue
		}
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].atom.id < out[j].atom.id })
	if len(out) == 1 {
		if c, ok := out[0].coef.constInt(); ok && c == 1 {
			return out[0].atom
		}
	}
	return intern(&T{op: "pt", pts: out})
}

func isIteOp(t *T) bool { return t.op == "ite" }

func ptAdd(a, b *T) *T {
	if isIteOp(a) && isIteOp(b) && a.args[0] == b.args[0] {
		return ite(a.args[0], ptAdd(a.args[1], b.args[1]), ptAdd(a.args[2], b.args[2]))
	}
	return mkPt(append(append([]ptTerm{}, ptsOf(a)...), ptsOf(b)...))
}

func ptMul(s, p *T) *T {
	if p.op == "ite" {
		return ite(p.args[0], ptMul(s, p.args[1]), ptMul(s, p.args[2]))
	}
	var out []ptTerm
	for _, x := range ptsOf(p) {
		out = append(out, ptTerm{x.atom, pmul(s, x.coef)})
	}
	return mkPt(out)
}

func ptNeg(p *T) *T    { return ptMul(mkInt(-1), p) }
func ptSub(a, b *T) *T { return ptAdd(a, ptNeg(b)) }

// coefficient of a point atom
func ptCoef(p, atom *T) *T {
	for _, x := range ptsOf(p) {
		if x.atom == atom {
			return x.coef
		}
	}
	return tZero
}

// ---- booleans -------------------------------------------------------------

func not(t *T) *T {
	switch t.op {
	case "const":
		if t == tTrue {
			return tFalse
		}
		if t == tFalse {
			return tTrue
		}
	case "not":
		return t.args[0]
	case "and":
		var a []*T
		for _, x := range t.args {
			a = append(a, not(x))
		}
		return or(a...)
	case "or":
		var a []*T
		for _, x := range t.args {
			a = append(a, not(x))
		}
		return and(a...)
	case "lt0": // not(p<0) = -p-1<0
		return lt0(psub(mkInt(-1), t.args[0]))
	case "forall":
		return quant("exists", t.args[0], t.args[1], not(t.args[2]))
	case "exists":
		return quant("forall", t.args[0], t.args[1], not(t.args[2]))
	}
	return mkRaw("not", "", t)
}

// quant: forall or exists ctr in [0,n): body.
func quant(op string, ctr, n, body *T) *T {
	if body == tTrue && op == "forall" || body == tFalse && op == "exists" {
		return body
	}
	if n == tZero {
		return mkBool(op == "forall")
	}
	if !body.has(ctr) && op == "forall" { // vacuous ranges aside
		return or(eq0(n), body)
	}
	if xs := unfolded(ctr, n, body); xs != nil {
		if op == "forall" {
			return and(xs...)
		}
		return or(xs...)
	}
	return mkBind(op, "", ctr, n, body)
}

// firstIx is the first index in range at which the body holds (where there is one).
func firstIx(ctr, n, body *T) *T {
	if xs := unfolded(ctr, n, body); xs != nil {
		r := mkInt(int64(len(xs) - 1))
		for i := len(xs) - 2; i >= 0; i-- {
			r = ite(xs[i], mkInt(int64(i)), r)
		}
		return r
	}
	return mkBind("firstix", "", ctr, n, body)
}

// unfolded lists the instances of a body over a range of two or three.
func unfolded(ctr, n, body *T) []*T {
	k, ok := n.constInt()
	if !ok || k < 1 || k > 3 {
		return nil
	}
	var xs []*T
	for i := int64(0); i < k; i++ {
		xs = append(xs, subst(body, ctr, mkInt(i)))
	}
	return xs
}

func flat(op string, in []*T) []*T {
	var out []*T
	seen := map[int]bool{}
	var rec func(xs []*T)
	rec = func(xs []*T) {
		for _, x := range xs {
			if x.op == op {
				rec(x.args)
				continue
			}
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	rec(in)
	return out
}

func and(in ...*T) *T { return andor("and", "or", tTrue, tFalse, in) }
func or(in ...*T) *T  { return andor("or", "and", tFalse, tTrue, in) }

func andor(op, dual string, unit, zero *T, in []*T) *T {
	xs := flat(op, in)
	for changed := true; changed; {
		changed = false
		set := map[int]bool{}
		for _, x := range xs {
			set[x.id] = true
		}
		var out []*T
		for _, x := range xs {
			if x == zero {
				return zero
			}
			if x == unit {
				changed = true
				continue
			}
			if set[not1(x).id] {
				return zero
			}
			if x.op == dual { // absorption: x ∨ (¬x ∧ y) = x ∨ y ; x ∨ (x ∧ y) = x
				var keep []*T
				drop := false
				for _, y := range x.args {
					if set[y.id] {
						drop = true
					}
					if set[not1(y).id] {
						changed = true
						continue
					}
					keep = append(keep, y)
				}
				if drop {
					changed = true
					continue
				}
				if len(keep) != len(x.args) {
					if dual == "and" {
						x = and(keep...)
					} else {
						x = or(keep...)
					}
				}
			}
			out = append(out, x)
		}
		xs = flat(op, out)
	}
	switch len(xs) {
	case 0:
		return unit
	case 1:
		return xs[0]
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	return mkRaw(op, "", xs...)
}

// not1 is not() for the purpose of set lookups.
func not1(t *T) *T { return not(t) }

func lt0(p *T) *T {
	if c, ok := p.constInt(); ok {
		return mkBool(c < 0)
	}
	if atLeast(p, 0, 0) {
		return tFalse
	}
	if atLeast(padd(pscale(p, -1), mkInt(-1)), 0, 0) {
		return tTrue
	}
	return mkRaw("lt0", "", p)
}

// atLeast: p is certainly at least k, the atoms of all but its constant being sizes.
func atLeast(p *T, k int64, d int) bool {
	b, ok := lowerBound(p, d)
	return ok && b >= k
}

func lowerBound(p *T, d int) (int64, bool) {
	if d > 6 {
		return 0, false
	}
	var s int64
	for _, m := range monos(p) {
		if len(m.atoms) == 0 {
			s += m.coef
			continue
		}
		if m.coef < 0 || m.coef > 1<<20 {
			return 0, false
		}
		f := m.coef
		for _, a := range m.atoms {
			b, ok := atomBound(a, d)
			if !ok {
				return 0, false
			}
			f *= b
		}
		s += f
	}
	return s, true
}

// atomBound is a lower bound, not below zero, of a size.
func atomBound(a *T, d int) (int64, bool) {
	nonNeg := func(ts ...*T) (int64, bool) {
		for _, t := range ts {
			if b, ok := lowerBound(t, d+1); !ok || b < 0 {
				return 0, false
			}
		}
		return 0, true
	}
	switch a.op {
	case "len", "ctr":
		return 0, true
	case "param":
		if positiveSize(a) {
			return 1, true
		}
	case "sum", "prefix":
		return nonNeg(a.args[2])
	case "ite":
		x, ok := lowerBound(a.args[1], d+1)
		y, ok2 := lowerBound(a.args[2], d+1)
		if y < x {
			x = y
		}
		return x, ok && ok2 && x >= 0 && x < 1<<20
	case "div", "ceildiv":
		return nonNeg(a.args...)
	}
	return 0, false
}

func eq0(p *T) *T {
	if c, ok := p.constInt(); ok {
		return mkBool(c == 0)
	}
	if atLeast(p, 1, 0) || atLeast(pscale(p, -1), 1, 0) {
		return tFalse
	}
	// sign normalisation
	q := pscale(p, -1)
	if q.id < p.id {
		p = q
	}
	return mkRaw("eq0", "", p)
}

func eqT(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.op == "const" && b.op == "const" {
		return tFalse
	}
	if nonNil(a) && b == tNil || nonNil(b) && a == tNil {
		return tFalse
	}
	if a.op == "ite" && (b.op == "const" || b == tNil) {
		return ite(a.args[0], eqT(a.args[1], b), eqT(a.args[2], b))
	}
	if b.op == "ite" && (a.op == "const" || a == tNil) {
		return ite(b.args[0], eqT(b.args[1], a), eqT(b.args[2], a))
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return not(b)
	}
	if b == tFalse {
		return not(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw("eq", "", a, b)
}

// nonNil: references that are certainly not nil.
func nonNil(t *T) bool {
	switch t.op {
	case "obj", "fa", "ea", "newerr", "closure", "struct", "slice", "cat", "list", "mapseq", "pt", "make":
		return true
	}
	return false
}

func ite(c, a, b *T) *T {
	if a == b {
		return a
	}
	switch c {
	case tTrue:
		return a
	case tFalse:
		return b
	}
	if c.op == "not" {
		return ite(c.args[0], b, a)
	}
	if isBoolT(a) || isBoolT(b) {
		switch {
		case a == tTrue && b == tFalse:
			return c
		case a == tFalse && b == tTrue:
			return not(c)
		case a == tTrue:
			return or(c, b)
		case a == tFalse:
			return and(not(c), b)
		case b == tTrue:
			return or(not(c), a)
		case b == tFalse:
			return and(c, a)
		}
	}
	a = assume(a, c, true)
	b = assume(b, c, false)
	if a == b {
		return a
	}
	if c.op == "lt0" {
		if d := psub(a, b); d == c.args[0] || psub(d, tOne) == c.args[0] {
			return mkMin(a, b)
		}
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) && a.s == b.s {
		var fs []*T
		for i := range a.args {
			fs = append(fs, ite(c, a.args[i], b.args[i]))
		}
		return mkStruct(a.s, fs)
	}
	if c.op == "eq" && (c.args[0] == tNil || c.args[1] == tNil) {
		// without elements if nil
		x := c.args[0]
		if x == tNil {
			x = c.args[1]
		}
		if l := mkLen(x); l.op == "len" || l.op == "poly" {
			if _, isC := l.constInt(); !isC && subst(b, l, tZero) == a {
				return b
			}
		}
	}
	return mkRaw("ite", "", c, a, b)
}

func isBoolT(t *T) bool {
	switch t.op {
	case "const":
		return t == tTrue || t == tFalse
	case "and", "or", "not", "lt0", "eq0", "eq", "forall", "exists", "pteq0", "typeok", "maphas":
		return true
	}
	return false
}

// assume simplifies t under the knowledge that c has the given truth value
// (only at the top levels of ite).
func assume(t, c *T, val bool) *T {
	if t.op == "ite" {
		if t.args[0] == c {
			if val {
				return assume(t.args[1], c, val)
			}
			return assume(t.args[2], c, val)
		}
		if t.args[0] == not1(c) {
			if val {
				return assume(t.args[2], c, val)
			}
			return assume(t.args[1], c, val)
		}
	}
	return t
}

// ---- structures and sequences ----------------------------------------------

// sig names its fields.
func mkStruct(sig string, fs []*T) *T {
	// struct{x.0, x.1, ...} is x
	if len(fs) > 0 && fs[0].op == "field" && fs[0].args[0].op != "struct" {
		x := fs[0].args[0]
		var names []string
		for _, f := range fs {
			if f.op != "field" || f.args[0] != x {
				break
			}
			names = append(names, f.s)
		}
		if len(names) == len(fs) && strings.Join(names, " ") == sig {
			return x
		}
	}
	return mkRaw("struct", sig, fs...)
}

// structSig is the list of the fields of a structure, as mkField names them.
func structSig(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	var names []string
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, strconv.Itoa(i)+"_"+fldName(st, i))
	}
	return strings.Join(names, " ")
}

// mkField selects field i (named n) of a structure value.
func mkField(x *T, i int, n string) *T {
	if x.op == "struct" && i < len(x.args) {
		return x.args[i]
	}
	if x.op == "ite" {
		return ite(x.args[0], mkField(x.args[1], i, n), mkField(x.args[2], i, n))
	}
	return mkRaw("field", strconv.Itoa(i)+"_"+n, x)
}

func mkTuple(xs ...*T) *T { return mkRaw("tuple", "", xs...) }

func mkProj(t *T, i int) *T {
	if t.op == "tuple" {
		return t.args[i]
	}
	if t.op == "ite" {
		return ite(t.args[0], mkProj(t.args[1], i), mkProj(t.args[2], i))
	}
	return mkRaw("proj", strconv.Itoa(i), t)
}

// mapseq(ctr, n, e): the sequence e[ctr:=0], ..., e[ctr:=n-1].
func mkMapSeq(ctr, n, e *T) *T {
	// eta: mapseq(c, len x, x[c]) = x
	if e.op == "ix" && e.args[1] == ctr && !e.args[0].has(ctr) && mkLen(e.args[0]) == n {
		return e.args[0]
	}
	if k, ok := n.constInt(); ok && k <= 16 {
		var xs []*T
		for i := int64(0); i < k; i++ {
			xs = append(xs, subst(e, ctr, mkInt(i)))
		}
		return mkRaw("list", "", xs...)
	}
	return mkBind("mapseq", "", ctr, n, e)
}

// mkItoa is the decimal form of a number.
func mkItoa(n *T) *T {
	if k, ok := n.constInt(); ok {
		return mkRaw("const", strconv.Quote(strconv.FormatInt(k, 10)))
	}
	return mkRaw("itoa", "", n)
}

// unquoted is the text of a constant string, "" for anything else.
func unquoted(t *T) string {
	if t.op == "const" && strings.HasPrefix(t.s, "\"") {
		if s, err := strconv.Unquote(t.s); err == nil {
			return s
		}
	}
	return ""
}

func mkCat(parts ...*T) *T {
	var out []*T
	for _, p := range parts {
		switch {
		case p.op == "cat":
			out = append(out, p.args...)
		case p == tNil || p.op == "list" && len(p.args) == 0:
		case p.op == "const" && p.s == `""`:
		case p.op == "slice" && mkLen(p) == tZero:
		default:
			out = append(out, p)
		}
	}
	// merge adjacent lists
	var m []*T
	for _, p := range out {
		if p.op == "list" && len(m) > 0 && m[len(m)-1].op == "list" {
			m[len(m)-1] = mkRaw("list", "", append(append([]*T{}, m[len(m)-1].args...), p.args...)...)
			continue
		}
		if len(m) > 0 {
			if a, b := unquoted(m[len(m)-1]), unquoted(p); a != "" && b != "" {
				m[len(m)-1] = mkRaw("const", fmt.Sprintf("%q", a+b))
				continue
			}
		}
		m = append(m, p)
	}
	switch len(m) {
	case 0:
		return mkRaw("list", "")
	case 1:
		return m[0]
	}
	return mkRaw("cat", "", m...)
}

func mapOp(op string) bool {
	switch op {
	case "emptymap", "mapset", "mapfam", "mapdel":
		return true
	}
	return false
}

// mkFold is the value of acc after n iterations of acc = body, starting with init.
func mkFold(ctr, n, body, init *T) *T {
	if k, ok := n.constInt(); ok && k <= 2 {
		v := init
		for i := int64(0); i < k; i++ {
			v = subst(subst(body, mkRaw("acc", "", ctr), v), ctr, mkInt(i))
		}
		return v
	}
	return mkBind("fold", "", ctr, n, body, init)
}

// keysOnly forgets the values of a map expression of which only the keys matter.
func keysOnly(m *T) *T {
	switch m.op {
	case "mapset":
		return mkRaw("mapset", "", keysOnly(m.args[0]), m.args[1], tTrue)
	case "mapfam":
		return mkRaw("mapfam", "", m.args[0], m.args[1], m.args[2], tTrue, keysOnly(m.args[4]))
	case "mapdel":
		return mkRaw("mapdel", "", keysOnly(m.args[0]), m.args[1])
	case "ite":
		return ite(m.args[0], keysOnly(m.args[1]), keysOnly(m.args[2]))
	case "fold":
		b := keysOnly(m.args[2])
		if !containsT(b, func(x *T) bool {
			return x.op == "mapget" && containsT(x.args[0], func(y *T) bool { return y.op == "acc" })
		}) {
			return mkFold(m.args[0], m.args[1], b, keysOnly(m.args[3]))
		}
	}
	return m
}

// lenRules gives lengths of opaque byte strings, e.g. encoded points.
var lenRules func(t *T) *T

// itLen are the lengths of sequences known before their elements are.
var itLen = map[*T]*T{}

func mkLen(t *T) *T {
	switch t.op {
	case "it":
		if l := itLen[t]; l != nil {
			return l
		}
	case "nil":
		return tZero
	case "slice":
		return psub(t.args[2], t.args[1])
	case "list":
		return mkInt(int64(len(t.args)))
	case "mapseq":
		return t.args[1]
	case "cat":
		s := tZero
		for _, a := range t.args {
			s = padd(s, mkLen(a))
		}
		return s
	case "catmap":
		l := mkLen(t.args[2])
		return mkSum(t.args[0], t.args[1], l)
	case "const":
		if len(t.s) >= 2 && t.s[0] == '"' {
			if u, err := strconv.Unquote(t.s); err == nil {
				return mkInt(int64(len(u)))
			}
		}
	case "ite":
		return ite(t.args[0], mkLen(t.args[1]), mkLen(t.args[2]))
	case "bytes", "string":
		return mkLen(t.args[0])
	case "upd":
		return mkLen(t.args[0])
	case "updfam":
		return mkLen(t.args[4])
	case "slc":
		return t.args[2]
	case "swaps":
		return mkLen(t.args[4])
	case "fold":
		if writesOnly(t.args[2], mkRaw("acc", "", t.args[0])) {
			return mkLen(t.args[3])
		}
	}
	if mapOp(t.op) {
		return mapLen(t)
	}
	if lenRules != nil {
		if l := lenRules(t); l != nil {
			return l
		}
	}
	return mkRaw("len", "", t)
}

// writesOnly: b is a with some elements replaced.
func writesOnly(b, a *T) bool {
	switch {
	case b == a:
		return true
	case b.op == "upd":
		return writesOnly(b.args[0], a)
	case b.op == "updfam":
		return writesOnly(b.args[4], a)
	case b.op == "ite":
		return writesOnly(b.args[1], a) && writesOnly(b.args[2], a)
	case b.op == "fold":
		return writesOnly(b.args[2], mkRaw("acc", "", b.args[0])) && writesOnly(b.args[3], a)
	}
	return false
}

// sum over ctr in [0,n) of e, distributed over the monomials of e.
func mkSum(ctr, n, e *T) *T { return sumOver("sum", ctr, n, e) }

// prefix(ctr, i, e): sum over ctr in [0,i) of e
func mkPrefix(ctr, i, e *T) *T { return sumOver("prefix", ctr, i, e) }

func sumOver(op string, ctr, n, e *T) *T {
	op = "sum"
	if n == tZero {
		return tZero
	}
	acc := tZero
	for _, m := range monos(e) {
		out := mkInt(m.coef)
		in := tOne
		for _, a := range m.atoms {
			if a.has(ctr) {
				in = pmul(in, a)
			} else {
				out = pmul(out, a)
			}
		}
		if in == tOne {
			acc = padd(acc, pmul(out, n))
		} else {
			acc = padd(acc, pmul(out, mkBind(op, "", ctr, n, in)))
		}
	}
	return acc
}

// mkPtSum is the group sum over ctr in [0,n) of e.
func mkPtSum(ctr, n, e *T) *T {
	acc := tNullP
	if n == tZero {
		return acc
	}
	for _, p := range ptsOf(e) {
		if !p.atom.has(ctr) {
			acc = ptAdd(acc, ptMul(mkSum(ctr, n, p.coef), p.atom))
			continue
		}
		for _, m := range monos(p.coef) {
			out, in := mkInt(m.coef), tOne
			for _, a := range m.atoms {
				if a.has(ctr) {
					in = pmul(in, a)
				} else {
					out = pmul(out, a)
				}
			}
			acc = ptAdd(acc, ptMul(out, mkBind("ptsum", "", ctr, n, ptMul(in, p.atom))))
		}
	}
	return acc
}

func mkInv(x *T) *T {
	if x.op == "inv" {
		return x.args[0]
	}
	if c, ok := x.constInt(); ok && c == 1 {
		return x
	}
	return mkRaw("inv", "", x)
}

func mkMin(xs ...*T) *T {
	ys := flat("min", xs)
	if len(ys) == 1 {
		return ys[0]
	}
	var best *T
	var rest []*T
	for _, y := range ys {
		if c, ok := y.constInt(); ok {
			if best != nil {
				if d, _ := best.constInt(); d < c {
					continue
				}
			}
			best = y
			continue
		}
		rest = append(rest, y)
	}
	if best != nil {
		rest = append(rest, best)
	}
	if len(rest) == 1 {
		return rest[0]
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	return mkRaw("min", "", rest...)
}

func mkCeilDiv(a, k *T) *T {
	if k == tOne {
		return a
	}
	if a.op == "min" {
		var ys []*T
		for _, y := range a.args {
			ys = append(ys, mkCeilDiv(y, k))
		}
		return mkMin(ys...)
	}
	if a == k && atLeast(a, 1, 0) {
		return tOne
	}
	if q := divides(a, k); q != nil {
		return q
	}
	a, k = reduceFrac(a, k)
	if q := divides(a, k); q != nil {
		return q
	}
	return mkRaw("ceildiv", "", a, k)
}

// mkSlc is the slice value base[off:off+n].
func mkSlc(base, off, n *T) *T {
	if base.op == "slc" {
		return mkSlc(base.args[0], padd(base.args[1], off), n)
	}
	if off == tZero && base.op != "obj" && base.op != "fa" && n == mkLen(base) {
		return base
	}
	return mkRaw("slc", "", base, off, n)
}

// mkUpd replaces one element of a sequence.
func mkUpd(s, i, v *T) *T {
	if s.op == "upd" && s.args[1] == i {
		return mkUpd(s.args[0], i, v)
	}
	if mkIx(s, i) == v {
		return s
	}
	if s.op == "list" {
		if c, ok := i.constInt(); ok && c >= 0 && int(c) < len(s.args) {
			a := append([]*T{}, s.args...)
			a[c] = v
			return mkRaw("list", "", a...)
		}
	}
	if n, ok := mkLen(s).constInt(); ok && s.op == "mapseq" && n <= 64 {
		if c, ok := i.constInt(); ok && c >= 0 && c < n {
			a := make([]*T, n)
			for k := range a {
				a[k] = mkIx(s, mkInt(int64(k)))
			}
			a[c] = v
			return mkRaw("list", "", a...)
		}
	}
	return mkRaw("upd", "", s, i, v)
}

// mkUpdFam replaces the elements idx(ctr) by val(ctr) for every ctr in [0,n).
func mkUpdFam(s, n, ctr, idx, val *T) *T {
	// argument order is normalised below: (ctr, n, ...) is bound
	if ctr.op != "ctr" { // called from rebuild with (ctr, n, s, idx, val)
		return mkRaw("opaque", "updfam", s, n, ctr, idx, val)
	}
	if n == tZero {
		return s
	}
	if idx == ctr && n == mkLen(s) {
		return mkMapSeq(ctr, n, val)
	}
	// descending or shifted traversal of the whole sequence
	if c, rest, ok := linIn(idx, ctr); ok {
		if k, isC := c.constInt(); isC && (k == 1 || k == -1) && n == mkLen(s) {
			// ctr = k*(j-rest)
			if k == 1 && rest == tZero || k == -1 && rest == psub(n, tOne) {
				j := freshCtr()
				return mkMapSeq(j, n, subst(val, ctr, pscale(psub(j, rest), k)))
			}
		}
	}
	cc, bs := bindCtr(ctr, idx, val)
	return mkRaw("updfam", "", cc, n, bs[0], bs[1], s)
}

// catmap(ctr, n, e): concatenation of the sequences e[ctr:=0] ... e[ctr:=n-1].
func mkCatMap(ctr, n, e *T) *T {
	if e.op == "list" && len(e.args) == 1 {
		return mkMapSeq(ctr, n, e.args[0])
	}
	if k, ok := n.constInt(); ok && k <= 16 {
		var xs []*T
		for i := int64(0); i < k; i++ {
			xs = append(xs, subst(e, ctr, mkInt(i)))
		}
		return mkCat(xs...)
	}
	if e.op == "list" && len(e.args) == 0 {
		return e
	}
	return mkBind("catmap", "", ctr, n, e)
}

// mkIx reads element i of a sequence value.
func mkIx(s, i *T) *T {
	switch s.op {
	case "slice":
		return mkIx(s.args[0], padd(i, s.args[1]))
	case "list":
		if c, ok := i.constInt(); ok && c >= 0 && int(c) < len(s.args) {
			return s.args[c]
		}
		if _, c := i.constInt(); len(s.args) == 1 && !c {
			return s.args[0] // the only index that does not panic
		}
		if _, c := i.constInt(); !c && len(s.args) > 1 && len(s.args) <= 8 && hasObj(s) {
			// what is selected is a reference: one case for each
			n := len(s.args) - 1
			v := s.args[n]
			for k := n - 1; k >= 0; k-- {
				v = ite(eq0(padd(i, mkInt(int64(-k)))), s.args[k], v)
			}
			return v
		}
	case "mapseq":
		return subst(s.args[2], s.args[0], i)
	case "cat":
		off := tZero
		for _, p := range s.args {
			l := mkLen(p)
			rel := psub(i, off)
			if p.op == "list" {
				if c, ok := rel.constInt(); ok && c >= 0 && int(c) < len(p.args) {
					return p.args[c]
				}
			}
			// rel certainly inside p?
			if c, ok := rel.constInt(); ok && c >= 0 {
				if n, ok2 := l.constInt(); ok2 {
					if c < n {
						return mkIx(p, rel)
					}
					off = padd(off, l)
					continue
				}
			}
			break
		}
		// index relative to a suffix start: i - off_k where i = off_k + ctr
		off = tZero
		for _, p := range s.args {
			rel := psub(i, off)
			if rel.op == "ctr" && p.op == "mapseq" && inRange(rel, p.args[1]) == tTrue {
				return mkIx(p, rel)
			}
			off = padd(off, mkLen(p))
		}
	case "ite":
		return ite(s.args[0], mkIx(s.args[1], i), mkIx(s.args[2], i))
	case "upd":
		if s.args[1] == i {
			return s.args[2]
		}
		if d, ok := psub(i, s.args[1]).constInt(); ok && d != 0 {
			return mkIx(s.args[0], i)
		}
		if hasObj(s.args[2]) {
			// what is selected is a reference: one case for each
			return ite(eq0(psub(i, s.args[1])), s.args[2], mkIx(s.args[0], i))
		}
	case "updfam":
		ctr, n, idx, val := openBinder(s)
		if c, rest, ok := linIn(idx, ctr); ok {
			if k, isC := c.constInt(); isC && (k == 1 || k == -1) {
				j := pscale(psub(i, rest), k)
				in := inRange(j, n)
				if in == tTrue {
					return subst(val, ctr, j)
				}
				if in == tFalse {
					return mkIx(s.args[4], i)
				}
				return ite(in, subst(val, ctr, j), mkIx(s.args[4], i))
			}
		}
	}
	return mkRaw("ix", "", s, i)
}

// openBinder instantiates a two-body binder (updfam) with a fresh counter.
func openBinder(s *T) (ctr, n, b1, b2 *T) {
	f := freshCtr()
	ctr, n = f, s.args[1]
	b1 = rename(s.args[2], s.args[0], f)
	if len(s.args) > 3 {
		b2 = rename(s.args[3], s.args[0], f)
	}
	return
}

// ctrRange gives the known ranges of open loop counters.
var ctrRange = map[string]*T{}

// inRange is the condition 0 <= j < n, decided where a loop range settles it.
func inRange(j, n *T) *T {
	if c, ok := j.constInt(); ok {
		if c < 0 {
			return tFalse
		}
		if m, ok := n.constInt(); ok {
			return mkBool(c < m)
		}
	}
	if j.op == "ctr" {
		if r := ctrRange[j.s]; r != nil && r == n {
			return tTrue
		}
	}
	return and(not(lt0(j)), lt0(psub(j, n)))
}

// mkSub is the sub-sequence [a,b) of a sequence value.
func mkSub(s, a, b *T) *T {
	if a == tZero && b == mkLen(s) {
		return s
	}
	switch s.op {
	case "slice":
		return mkSub(s.args[0], padd(s.args[1], a), padd(s.args[1], b))
	case "cat":
		// find parts that make up exactly [a,b)
		off := tZero
		start := -1
		for i, p := range s.args {
			if off == a {
				start = i
			}
			off2 := padd(off, mkLen(p))
			if start >= 0 && off2 == b {
				return mkCat(s.args[start : i+1]...)
			}
			off = off2
		}
		// inside one part
		off = tZero
		for _, p := range s.args {
			ra, rb := psub(a, off), psub(b, off)
			if p.op == "catmap" {
				if r := subCatMap(p, ra, rb, true); r != nil {
					return r
				}
			}
			if p.op == "mapseq" && ra == tZero {
				break
			}
			off = padd(off, mkLen(p))
		}
		if a == b {
			return mkRaw("list", "")
		}
	case "catmap":
		if r := subCatMap(s, a, b, false); r != nil {
			return r
		}
	case "list":
		x, ok1 := a.constInt()
		y, ok2 := b.constInt()
		if ok1 && ok2 && x >= 0 && x <= y && int(y) <= len(s.args) {
			return mkRaw("list", "", s.args[x:y]...)
		}
		if ok1 && b == mkLen(s) && int(x) <= len(s.args) {
			return mkRaw("list", "", s.args[x:]...)
		}
	case "ite":
		return ite(s.args[0], mkSub(s.args[1], a, b), mkSub(s.args[2], a, b))
	}
	if a == b {
		return mkRaw("list", "")
	}
	if x, ok := a.constInt(); ok && s.op == "mapseq" && b == mkLen(s) && x > 0 {
		return mkMapSeq(s.args[0], psub(b, a), subst(s.args[2], s.args[0], padd(s.args[0], a)))
	}
	return mkRaw("slice", "", s, a, b)
}

// subCatMap recognises (a part of) the i-th block of a concatenation.
// With strict, the block has to be known to exist (otherwise the position may
// lie behind the concatenation).
func subCatMap(s, a, b *T, strict bool) *T {
	if a == b {
		return nil
	}
	f := freshCtr()
	e := rename(s.args[2], s.args[0], f)
	l := mkLen(e)
	inBlock := func(i, off *T) *T {
		if strict && inRange(i, s.args[1]) != tTrue {
			return nil
		}
		l2 := psub(b, psub(a, off))
		if off == tZero && l2 == subst(l, f, i) {
			return subst(e, f, i)
		}
		r := mkSub(subst(e, f, i), off, l2)
		if r.op == "slice" {
			return nil
		}
		return r
	}
	if !l.has(f) {
		// fixed block length: a = l*i + off
		if q := divides(a, l); q != nil {
			if r := inBlock(q, tZero); r != nil {
				return r
			}
		}
		var div, rest []monomial
		for _, m := range monos(a) {
			if divides(polyOf([]monomial{m}), l) != nil {
				div = append(div, m)
			} else {
				rest = append(rest, m)
			}
		}
		if len(div) > 0 && len(rest) > 0 {
			return inBlock(divides(polyOf(div), l), polyOf(rest))
		}
		return nil
	}
	// variable length: a = (sum of the lengths of the first i blocks) + off
	for _, m := range monos(l) {
		_ = m
	}
	i := prefixIndex(a, f, l)
	if i != nil {
		if r := inBlock(i, psub(a, mkPrefix(f, i, l))); r != nil {
			return r
		}
	}
	return inBlock(tZero, a)
}

// prefixIndex finds i such that a contains the sum over [0,i) of l.
func prefixIndex(a, ctr, l *T) *T {
	var cands []*T
	for _, m := range monos(a) {
		for _, x := range m.atoms {
			if x.op == "sum" {
				cands = append(cands, x.args[1])
			}
		}
	}
	for _, i := range cands {
		p := mkPrefix(ctr, i, l)
		rest := psub(a, p)
		bad := false
		for _, m := range monos(rest) {
			for _, x := range m.atoms {
				if x.op == "sum" {
					bad = true
				}
			}
		}
		if !bad {
			return i
		}
	}
	return nil
}

func alphaEq(c1, e1, c2, e2 *T) bool {
	f := freshCtr()
	return subst(e1, c1, f) == subst(e2, c2, f)
}

// divides returns a/l for polynomials when l is a single monomial.
// mkDiv is Go's integer division.
func mkDiv(a, b *T) *T {
	if a == b && atLeast(a, 1, 0) {
		return tOne
	}
	if x, ok := a.constInt(); ok {
		if y, ok := b.constInt(); ok && y != 0 {
			return mkInt(x / y)
		}
	}
	a, b = reduceFrac(a, b)
	if q := divides(a, b); q != nil {
		return q
	}
	return mkRaw("div", "", a, b)
}

// reduceFrac cancels the common positive factors (sizes) of a and the single monomial k.
func reduceFrac(a, k *T) (*T, *T) {
	km := monos(k)
	if len(km) != 1 || km[0].coef <= 0 {
		return a, k
	}
	g := km[0].coef
	for _, m := range monos(a) {
		x := m.coef
		for x != 0 {
			g, x = x, g%x
		}
		if g < 0 {
			g = -g
		}
	}
	if a == tZero || g == 0 {
		return a, k
	}
	f := mkInt(g)
	for _, x := range km[0].atoms {
		if !positiveSize(x) {
			continue
		}
		y := pmul(f, x)
		if divides(a, y) != nil && divides(k, y) != nil {
			f = y
		}
	}
	return divides(a, f), divides(k, f)
}

// positiveSize: a size that is never zero.
func positiveSize(x *T) bool {
	return x.op == "param" && (x.s == "PL" || x.s == "SL")
}

func divides(a, l *T) *T {
	lm := monos(l)
	if len(lm) != 1 || lm[0].coef == 0 {
		return nil
	}
	var out []monomial
	for _, m := range monos(a) {
		if m.coef%lm[0].coef != 0 {
			return nil
		}
		rest := append([]*T{}, m.atoms...)
		for _, x := range lm[0].atoms {
			found := false
			for i, y := range rest {
				if x == y {
					rest = append(rest[:i:i], rest[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		}
		out = append(out, monomial{m.coef / lm[0].coef, rest})
	}
	return polyOf(out)
}

// ---- substitution -----------------------------------------------------------

func subst(t, from, to *T) *T {
	if from == to {
		return t
	}
	memo := map[int]*T{}
	return substM(t, func(x *T) *T {
		if x == from {
			return to
		}
		return nil
	}, func(x *T) bool {
		if from.op == "ctr" {
			return x.ctrs[from.s]
		}
		return true
	}, memo)
}

// rename substitutes one counter for another without opening binders (the new
// counter is fresh, or the old one is).
func rename(t, from, to *T) *T {
	if from == to {
		return t
	}
	return renameM(t, from, to, map[int]*T{})
}

func renameM(t, from, to *T, memo map[int]*T) *T {
	if t == from {
		return to
	}
	if !t.ctrs[from.s] {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *T
	switch t.op {
	case "poly":
		acc := tZero
		for _, m := range t.mono {
			x := mkInt(m.coef)
			for _, a := range m.atoms {
				x = pmul(x, renameM(a, from, to, memo))
			}
			acc = padd(acc, x)
		}
		r = acc
	case "pt":
		acc := tNullP
		for _, p := range t.pts {
			acc = ptAdd(acc, ptMul(renameM(p.coef, from, to, memo), renameM(p.atom, from, to, memo)))
		}
		r = acc
	default:
		args := make([]*T, len(t.args))
		for i, a := range t.args {
			args[i] = renameM(a, from, to, memo)
		}
		if isBinder(t.op) || t.op == "ix" || t.op == "slice" || t.op == "len" || t.op == "ite" || t.op == "field" {
			r = mkRaw(t.op, t.s, args...)
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t.id] = r
	return r
}

func substM(t *T, f func(*T) *T, may func(*T) bool, memo map[int]*T) *T {
	if r := f(t); r != nil {
		return r
	}
	if !may(t) {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	if at := bodyAt(t.op); at > 0 {
		// open the binder with a fresh counter so that nothing is captured
		fc := freshCtr()
		na := make([]*T, len(t.args))
		for i, a := range t.args {
			if i >= at {
				a = rename(a, t.args[0], fc)
			} else if i == 0 {
				na[0] = fc
				continue
			}
			na[i] = substM(a, f, may, memo)
		}
		r := rebuild(t, na)
		memo[t.id] = r
		return r
	}
	args := make([]*T, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substM(a, f, may, memo)
		if args[i] != a {
			ch = true
		}
	}
	var r *T
	switch t.op {
	case "poly":
		acc := tZero
		for _, m := range t.mono {
			x := mkInt(m.coef)
			for _, a := range m.atoms {
				x = pmul(x, substM(a, f, may, memo))
			}
			acc = padd(acc, x)
		}
		r = acc
	case "pt":
		acc := tNullP
		for _, p := range t.pts {
			acc = ptAdd(acc, ptMul(substM(p.coef, f, may, memo), substM(p.atom, f, may, memo)))
		}
		r = acc
	default:
		if !ch {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t.id] = r
	return r
}

// rebuild re-applies the smart constructor of t's operator.
func rebuild(t *T, a []*T) *T {
	switch t.op {
	case "not":
		return not(a[0])
	case "and":
		return and(a...)
	case "or":
		return or(a...)
	case "lt0":
		return lt0(a[0])
	case "eq0":
		return eq0(a[0])
	case "eq":
		return eqT(a[0], a[1])
	case "ite":
		return ite(a[0], a[1], a[2])
	case "struct":
		return mkStruct(t.s, a)
	case "field":
		i := strings.IndexByte(t.s, '_')
		n, _ := strconv.Atoi(t.s[:i])
		return mkField(a[0], n, t.s[i+1:])
	case "proj":
		n, _ := strconv.Atoi(t.s)
		return mkProj(a[0], n)
	case "len":
		return mkLen(a[0])
	case "sum":
		return mkSum(a[0], a[1], a[2])
	case "prefix":
		return mkPrefix(a[0], a[1], a[2])
	case "mapseq":
		return mkMapSeq(a[0], a[1], a[2])
	case "catmap":
		return mkCatMap(a[0], a[1], a[2])
	case "cat":
		return mkCat(a...)
	case "ix":
		return mkIx(a[0], a[1])
	case "slice":
		return mkSub(a[0], a[1], a[2])
	case "forall", "exists":
		return quant(t.op, a[0], a[1], a[2])
	case "marshal":
		return mkMarshalK(t.s, a[0])
	case "pteq0":
		return ptEq(a[0], tNullP)
	case "join":
		return mkJoin(a[0], a[1])
	case "split":
		return mkSplit(a[0], a[1])
	case "itoa":
		return mkItoa(a[0])
	case "mapkey":
		return mkMapKey(a[0], a[1])
	case "mapget":
		return mapgetT(a[0], a[1], a[2])
	case "maphas":
		return maphas(a[0], a[1])
	case "mapset":
		return mapset(a[0], a[1], a[2])
	case "unmarshal":
		return mkUnmarshal(t.s, a[0])
	case "bytes", "string":
		return mkConvStr(t.op, a[0])
	case "ptsum":
		return mkPtSum(a[0], a[1], a[2])
	case "updfam":
		return mkUpdFam(a[4], a[1], a[0], a[2], a[3])
	case "fold":
		return mkFold(a[0], a[1], a[2], a[3])
	case "mapfam", "swaps", "firstix":
		return mkBind(t.op, t.s, a[0], a[1], a[2:]...)
	case "upd":
		return mkUpd(a[0], a[1], a[2])
	case "slc":
		return mkSlc(a[0], a[1], a[2])
	case "min":
		return mkMin(a...)
	case "ceildiv":
		return mkCeilDiv(a[0], a[1])
	case "inv":
		return mkInv(a[0])
	case "div":
		return mkDiv(a[0], a[1])
	}
	return mkRaw(t.op, t.s, a...)
}

func mkUnmarshal(kind string, b *T) *T {
	if b.op == "marshal" {
		return b.args[0]
	}
	return mkRaw("unmarshal", kind, b)
}

// bytes(string(x)) = x and string(bytes(x)) = x
func mkConvStr(op string, x *T) *T {
	if op == "bytes" && x.op == "string" || op == "string" && x.op == "bytes" {
		return x.args[0]
	}
	return mkRaw(op, "", x)
}

// walkT visits every sub-term once.
func walkT(t *T, f func(*T) bool) {
	seen := map[int]bool{}
	var rec func(*T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, m := range x.mono {
			for _, a := range m.atoms {
				rec(a)
			}
		}
		for _, p := range x.pts {
			rec(p.atom)
			rec(p.coef)
		}
	}
	rec(t)
}

func containsT(t *T, f func(*T) bool) bool {
	found := false
	walkT(t, func(x *T) bool {
		if f(x) {
			found = true
		}
		return !found
	})
	return found
}

// fldName names a field; the number of fields tells structures with a common
// beginning apart.
func fldName(st *types.Struct, i int) string {
	return st.Field(i).Name() + "/" + strconv.Itoa(st.NumFields())
}
