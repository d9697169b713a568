package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Random interpretation (Gulwani and Necula, "Discovering affine equalities
// using random interpretation", POPL 2003) decides whether two value-numbering
// terms whose normal forms differ are nevertheless equal: every term is given a
// meaning in a model - integers and scalars modulo a prime, the group as the
// additive group of that field, lengths small numbers, everything uninterpreted
// a value chosen at random for its (structural) identity. Terms that are equal
// by the laws of the group, of sequences and of maps evaluate alike in every
// model; terms that differ are told apart by some model with overwhelming
// probability. Only terms are evaluated, no code of the repository runs.

const prime = (1 << 61) - 1

type V struct {
	k    byte // 'n' number, 'b' bool, 's' sequence, 't' struct, 'a' atom, '0' nil, 'm' map, 'f' float
	n    uint64
	f    float64
	xs   []*V // elements, fields; args of an atom
	op   string
	typ  types.Type
	h    uint64
	keys []*V // maps: keys (xs are the values), base in m
	base *V
}

type undecided struct {
	why string
	oob bool // an index outside of what it indexes
}

type Interp struct {
	preHolds   bool // the precondition was decided, and holds
	seed       uint64
	fav        int64 // preferred length (0: none)
	tall, wide bool  // many short lines, or a few long ones
	big        bool  // a long sequence somewhere
	steps      int
	memo       map[memoKey]*V
	accs       map[string]*V // values of the accumulators of the folds being evaluated
	env        map[string]int64
	over       map[string]*V // leaves with a given value
	inst       map[*T]*V
	given      map[uint64]*V // atoms chosen so that the precondition holds
}

type memoKey struct {
	id int
	h  uint64
}

func newInterp(seed uint64) *Interp {
	return &Interp{seed: mix(seed + 0x9e3779b97f4a7c15), memo: map[memoKey]*V{}, env: map[string]int64{}, over: map[string]*V{}, accs: map[string]*V{}}
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func combine(h uint64, xs ...uint64) uint64 {
	for _, x := range xs {
		h = mix(h*31 + x + 0x51ed270b)
	}
	return h
}

func mulmod(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi, lo, prime)
	return r
}

func addmod(a, b uint64) uint64 { return (a + b) % prime }
func subm(a, b uint64) uint64   { return (a + prime - b%prime) % prime }

func powmod(a, e uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulmod(r, a)
		}
		a = mulmod(a, a)
	}
	return r
}

func fromInt(n int64) uint64 {
	n %= prime
	if n < 0 {
		n += prime
	}
	return uint64(n)
}

func vNum(n uint64) *V { return &V{k: 'n', n: n, h: n} }
func vInt(n int64) *V  { return vNum(fromInt(n)) }
func vBool(b bool) *V {
	if b {
		return &V{k: 'b', n: 1, h: 0xb001}
	}
	return &V{k: 'b', n: 0, h: 0xb000}
}
func vFloat(f float64) *V { return &V{k: 'f', f: f, h: mix(math.Float64bits(f))} }

var vNil = &V{k: '0', h: 0x717}

func (it *Interp) fail(format string, a ...interface{}) {
	panic(undecided{why: fmt.Sprintf(format, a...)})
}

// oob: an index outside of what it indexes.
func (it *Interp) oob(format string, a ...interface{}) {
	panic(undecided{why: fmt.Sprintf(format, a...), oob: true})
}

func cloneMap[K comparable, E any](m map[K]E) map[K]E {
	out := make(map[K]E, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

// some tells whether one of n conditions holds. Their order carries no meaning,
// so one that cannot be evaluated only counts when no other one holds.
func (it *Interp) some(n int, f func(int) bool) bool {
	var bad *undecided
	try := func(i int) (res bool) {
		env, accs, over := cloneMap(it.env), cloneMap(it.accs), cloneMap(it.over)
		defer func() {
			if e := recover(); e != nil {
				u, is := e.(undecided)
				if !is {
					panic(e)
				}
				it.env, it.accs, it.over = env, accs, over
				if bad == nil {
					bad = &u
				}
			}
		}()
		return f(i)
	}
	for i := 0; i < n; i++ {
		if try(i) {
			return true
		}
	}
	if bad != nil {
		panic(*bad)
	}
	return false
}

// atom is an uninterpreted value, known by its operator and its arguments.
func (it *Interp) atom(op string, typ types.Type, args ...*V) *V {
	h := combine(it.seed, hashStr(op))
	for _, a := range args {
		h = combine(h, it.hv(a))
	}
	if v := it.given[h%prime]; v != nil {
		return v
	}
	if _, ok := under(typ).(*types.Map); ok && h%3 == 0 {
		return vNil
	}
	return &V{k: 'a', op: op, xs: args, typ: typ, h: h % prime}
}

// hv is the hash of a value: integer atoms that stand for the same number are
// the same value to every function.
func (it *Interp) hv(v *V) uint64 {
	if v.k == 'a' && isIntTyp(v.typ) {
		return fromInt(it.small(v))
	}
	return v.h
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isIntTyp(t types.Type) bool { return t != nil && isInt(t) }

func (it *Interp) num(v *V) uint64 {
	switch v.k {
	case 'n':
		return v.n
	case 'a':
		if isIntTyp(v.typ) {
			return fromInt(it.small(v))
		}
		return v.h
	case 'f':
		return fromInt(int64(v.f))
	case 'b':
		return v.n
	case 's':
		// a fixed-width encoding used as a number cannot be interpreted
	}
	if v.k == '0' {
		it.oob("nil is used as a value")
	}
	it.fail("number expected, have %c %s", v.k, v.op)
	return 0
}

// small is the value of an integer atom.
func (it *Interp) small(v *V) int64 {
	x := combine(v.h, 77)
	if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return int64(x % 256)
	}
	if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int && it.fav > 0 && (x/13%2 == 0 || (it.tall || it.wide) && x/13%8 != 1) {
		return it.fav
	}
	if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int64 && x%5 == 0 {
		return -int64(x / 5 % 9)
	}
	return int64(x % 7)
}

func (it *Interp) int(v *V) int64 {
	n := it.num(v)
	if n > prime/2 {
		return -int64(prime - n)
	}
	return int64(n)
}

// assume chooses atoms so that the conjuncts of a precondition hold; where it
// cannot, the sample is dropped later.
func (it *Interp) assume(pre *T) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
		}
		it.memo = map[memoKey]*V{}
	}()
	set := func(v, to *V) {
		if it.given == nil {
			it.given = map[uint64]*V{}
		}
		it.given[v.h] = to
		it.memo = map[memoKey]*V{}
	}
	lit := func(t *T, val bool) {
		if len(t.ctrs) > 0 || t.op != "call" && t.op != "param" && t.op != "field" {
			return
		}
		if v := it.eval(t); v.k == 'a' {
			set(v, vBool(val))
		}
	}
	switch pre.op {
	case "and":
		for _, x := range pre.args {
			it.assume(x)
		}
	case "or":
		// the first alternative that is a conjunction, else the first
		for _, x := range pre.args {
			if x.op == "and" {
				it.assume(x)
				return
			}
		}
		it.assume(pre.args[0])
	case "not":
		lit(pre.args[0], false)
	case "call", "param", "field":
		lit(pre, true)
	case "pteq0":
		for _, p := range ptsOf(pre.args[0]) {
			k, ok := p.coef.constInt()
			if !ok || k != 1 && k != -1 || p.atom.op != "call" && p.atom.op != "param" || len(p.atom.ctrs) > 0 {
				continue
			}
			v := it.eval(p.atom)
			if v.k != 'a' {
				continue
			}
			s := it.num(it.eval(pre.args[0]))
			n := it.num(v)
			if k == 1 {
				n = subm(n, s)
			} else {
				n = addmod(n, s)
			}
			set(v, vNum(n))
			return
		}
	}
}

func (it *Interp) bool(v *V) bool {
	switch v.k {
	case 'b':
		return v.n == 1
	case 'a':
		return combine(v.h, 5)&1 == 1
	}
	it.fail("boolean expected, have %c %s", v.k, v.op)
	return false
}

// depth of an atom below its leaf
func atomDepth(v *V) int {
	d := 0
	for v.k == 'a' && len(v.xs) > 0 && (v.op == "ix" || v.op == "mapget") {
		d++
		v = v.xs[0]
	}
	return d
}

func (it *Interp) len(v *V) int64 {
	switch v.k {
	case 's':
		return int64(len(v.xs))
	case '0':
		return 0
	case 'm':
		if v.base == nil {
			return int64(len(v.xs))
		}
		n := it.len(v.base)
		for _, k := range v.keys {
			if !it.mapHas(v.base, k) {
				n++
			}
		}
		return n
	case 'a':
		switch {
		case v.op == "marshal:pt" || v.op == "marshal:sc":
			return 32
		case v.op == "be32":
			return 4
		}
		if ar, ok := under(v.typ).(*types.Array); ok {
			return ar.Len()
		}
		x := combine(v.h, 99)
		if it.tall && atomDepth(v) == 0 {
			return []int64{203, 100, 101, 205}[x/60%4]
		}
		if it.wide && atomDepth(v) == 0 {
			return 2
		}
		if it.fav > 0 && (x/11%8 != 0 || it.tall) {
			return it.fav
		}
		if it.big && (atomDepth(v) == 0 && (it.fav < 0 || x/5%2 == 0) || atomDepth(v) == 1 && x/5%12 == 0) {
			return []int64{203, 100, 101, 205}[x/60%4]
		}
		switch x % 8 {
		case 0:
			return 1
		case 1:
			return 3
		case 2, 3:
			return 2
		case 4:
			return 4
		case 5:
			return 0
		}
		return int64(x / 8 % 5)
	}
	it.fail("sequence expected, have %c %s", v.k, v.op)
	return 0
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

func (it *Interp) ix(v *V, i int64) *V {
	switch v.k {
	case 's':
		if i >= 0 && i < int64(len(v.xs)) {
			return v.xs[i]
		}
		it.oob("index %d out of range %d", i, len(v.xs))
	case 'a':
		if i < 0 || i >= it.len(v) {
			it.oob("index %d out of range of %s", i, v.op)
		}
		return it.atom("ix", elemType(v.typ), v, vInt(i))
	}
	it.fail("indexed value expected, have %c %s", v.k, v.op)
	return nil
}

func (it *Interp) elems(v *V) []*V {
	if v.k == 's' {
		return v.xs
	}
	n := it.len(v)
	if n > 5000 {
		it.fail("too long")
	}
	out := make([]*V, n)
	for i := range out {
		out[i] = it.ix(v, int64(i))
	}
	return out
}

// seq builds a sequence; the elements of an atom in order are the atom.
func (it *Interp) seq(xs []*V) *V {
	if len(xs) > 0 {
		if x := xs[0]; x.k == 'a' && x.op == "ix" {
			b := x.xs[0]
			if it.len(b) == int64(len(xs)) {
				all := true
				for i, y := range xs {
					if y.k != 'a' || y.op != "ix" || y.xs[0].h != b.h || y.xs[1].n != uint64(i) {
						all = false
						break
					}
				}
				if all {
					return b
				}
			}
		}
	}
	h := combine(0x5e9, uint64(len(xs)))
	for _, x := range xs {
		h = combine(h, it.hv(x))
	}
	return &V{k: 's', xs: xs, h: h % prime}
}

func (it *Interp) fieldOf(v *V, i int) *V {
	switch v.k {
	case 't':
		if i < len(v.xs) {
			return v.xs[i]
		}
	case 'a':
		var ft types.Type
		if s, ok := under(v.typ).(*types.Struct); ok && i < s.NumFields() {
			ft = s.Field(i).Type()
		}
		return it.atom("f"+strconv.Itoa(i), ft, v)
	}
	it.fail("structure expected, have %c %s", v.k, v.op)
	return nil
}

func (it *Interp) strct(fs []*V) *V {
	if x := fs[0]; x.k == 'a' && x.op == "f0" {
		b := x.xs[0]
		if s, ok := under(b.typ).(*types.Struct); !ok || s.NumFields() == len(fs) {
			all := true
			for i, y := range fs {
				if y.k != 'a' || y.op != "f"+strconv.Itoa(i) || y.xs[0].h != b.h {
					all = false
				}
			}
			if all {
				return b
			}
		}
	}
	h := uint64(0x57)
	for _, x := range fs {
		h = combine(h, it.hv(x))
	}
	return &V{k: 't', xs: fs, h: h % prime}
}

// ---- maps ---------------------------------------------------------------------

func (it *Interp) mapHas(m, k *V) bool {
	switch m.k {
	case '0':
		return false
	case 'm':
		for _, x := range m.keys {
			if it.equal(x, k) {
				return true
			}
		}
		if m.base != nil {
			return it.mapHas(m.base, k)
		}
		return false
	case 'a':
		for i := int64(0); i < it.len(m); i++ {
			if it.equal(it.mapKey(m, i), k) {
				return true
			}
		}
		return false
	}
	it.fail("map expected, have %c", m.k)
	return false
}

func (it *Interp) mapKey(m *V, i int64) *V {
	switch m.k {
	case 'm':
		ks := it.mapKeys(m)
		if i < int64(len(ks)) {
			return ks[i]
		}
	case 'a':
		var kt types.Type
		if u, ok := under(m.typ).(*types.Map); ok {
			kt = u.Key()
			if isInt(kt) { // distinct keys
				return vInt(i*3 + int64(combine(m.h, 3)%3))
			}
		}
		return it.atom("mapkey", kt, m, vInt(i))
	}
	it.fail("map key")
	return nil
}

func (it *Interp) mapKeys(m *V) []*V {
	var out []*V
	switch m.k {
	case 'm':
		if m.base != nil {
			out = append(out, it.mapKeys(m.base)...)
		}
		for _, k := range m.keys {
			if m.base == nil || !it.mapHas(m.base, k) {
				out = append(out, k)
			}
		}
	case 'a':
		for i := int64(0); i < it.len(m); i++ {
			out = append(out, it.mapKey(m, i))
		}
	}
	return out
}

func (it *Interp) mapGet(m, k *V) *V {
	switch m.k {
	case '0':
		return vNil
	case 'm':
		for i, x := range m.keys {
			if it.equal(x, k) {
				return m.xs[i]
			}
		}
		if m.base != nil {
			return it.mapGet(m.base, k)
		}
		return vNil
	case 'a':
		if !it.mapHas(m, k) {
			return vNil
		}
		for i := int64(0); i < it.len(m); i++ { // canonical key
			if x := it.mapKey(m, i); it.equal(x, k) {
				k = x
			}
		}
		return it.atom("mapget", elemType(m.typ), m, k)
	}
	it.fail("map expected, have %c", m.k)
	return nil
}

func (it *Interp) mapWith(m, k, v *V) *V {
	out := &V{k: 'm'}
	switch m.k {
	case 'm':
		out.base = m.base
		out.keys = append([]*V{}, m.keys...)
		out.xs = append([]*V{}, m.xs...)
	case 'a':
		out.base = m
	case '0':
	default:
		it.fail("map expected")
	}
	done := false
	for i, x := range out.keys {
		if it.equal(x, k) {
			out.xs[i] = v
			done = true
		}
	}
	if !done {
		out.keys = append(out.keys, k)
		out.xs = append(out.xs, v)
	}
	it.hashMap(out)
	return out
}

func (it *Interp) hashMap(m *V) {
	h := uint64(0x3a9)
	if m.base != nil {
		h = m.base.h
	}
	var s uint64
	for i := range m.keys {
		s += combine(it.hv(m.keys[i]), it.hv(m.xs[i]))
	}
	m.h = combine(h, s) % prime
}

// ---- equality -------------------------------------------------------------------

func (it *Interp) equal(a, b *V) bool {
	if a == b || a.k == b.k && a.h == b.h && (a.k == 'a' || a.k == 's' || a.k == 't' || a.k == 'm') {
		return true
	}
	empty := func(x *V) bool {
		return x.k == 's' && len(x.xs) == 0 || x.k == 'm' && x.base == nil && len(x.keys) == 0
	}
	if a.k == '0' || b.k == '0' {
		if a.k == b.k {
			return true
		}
		if a.k == '0' {
			a, b = b, a
		}
		if empty(a) {
			return true
		}
		if a.k == 'a' {
			switch under(a.typ).(type) {
			case *types.Slice, *types.Map:
				return it.len(a) == 0
			}
		}
		return false
	}
	switch {
	case a.k == 'n' || b.k == 'n':
		if a.k == 's' || b.k == 's' || a.k == 't' || b.k == 't' || a.k == 'm' || b.k == 'm' || a.k == 'b' || b.k == 'b' {
			return false
		}
		return it.num(a) == it.num(b)
	case a.k == 'b' || b.k == 'b':
		return it.bool(a) == it.bool(b)
	case a.k == 'f' && b.k == 'f':
		return a.f == b.f
	case a.k == 's' || b.k == 's':
		if a.k != 's' && a.k != 'a' || b.k != 's' && b.k != 'a' {
			return false
		}
		if it.len(a) != it.len(b) {
			return false
		}
		x, y := it.elems(a), it.elems(b)
		for i := range x {
			if !it.equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case a.k == 't' || b.k == 't':
		if a.k != 't' {
			a, b = b, a
		}
		if b.k != 't' && b.k != 'a' || b.k == 't' && len(b.xs) != len(a.xs) {
			return false
		}
		for i := range a.xs {
			if !it.equal(a.xs[i], it.fieldOf(b, i)) {
				return false
			}
		}
		return true
	case a.k == 'm' || b.k == 'm':
		if it.len(a) != it.len(b) {
			return false
		}
		for _, k := range it.mapKeys(a) {
			if !it.mapHas(b, k) || !it.equal(it.mapGet(a, k), it.mapGet(b, k)) {
				return false
			}
		}
		return true
	case a.k == 'a' && b.k == 'a':
		if isIntTyp(a.typ) || isIntTyp(b.typ) {
			return it.num(a) == it.num(b)
		}
		if bt, ok := under(a.typ).(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			return it.bool(a) == it.bool(b)
		}
		if a.op == b.op && len(a.xs) == len(b.xs) && len(a.xs) > 0 {
			for i := range a.xs {
				if !it.equal(a.xs[i], b.xs[i]) {
					return false
				}
			}
			return true
		}
		switch under(a.typ).(type) {
		case *types.Slice:
			if it.len(a) == 0 && it.len(b) == 0 {
				return true
			}
		}
		return false
	}
	return false
}

// ---- evaluation -------------------------------------------------------------------

func (it *Interp) ctrHash(t *T) uint64 {
	var h uint64
	for c := range t.ctrs {
		if v, ok := it.env[c]; ok {
			h += combine(hashStr(c), uint64(v))
		}
		if a := it.accs[c]; a != nil {
			h += combine(hashStr(c)+1, a.h)
		}
	}
	return h
}

func (it *Interp) eval(t *T) *V {
	mk := memoKey{t.id, 0}
	if len(t.ctrs) > 0 {
		mk.h = it.ctrHash(t)
	}
	if v, ok := it.memo[mk]; ok {
		return v
	}
	it.steps++
	if it.steps > 3000000 {
		it.fail("too many steps")
	}
	v := it.eval1(t)
	it.memo[mk] = v
	return v
}

func (it *Interp) bind(c *T, i int64, f func()) {
	old, had := it.env[c.s]
	it.env[c.s] = i
	f()
	if had {
		it.env[c.s] = old
	} else {
		delete(it.env, c.s)
	}
}

func (it *Interp) each(t *T, f func(i int64)) {
	n := it.int(it.eval(t.args[1]))
	if n > 5000 {
		it.fail("range %d too long", n)
	}
	for i := int64(0); i < n; i++ {
		it.bind(t.args[0], i, func() { f(i) })
	}
}

func (it *Interp) eval1(t *T) *V {
	ev := func(i int) *V { return it.eval(t.args[i]) }
	num := func(i int) uint64 { return it.num(ev(i)) }
	evs := func() []*V {
		out := make([]*V, len(t.args))
		for i := range out {
			out[i] = ev(i)
		}
		return out
	}
	switch t.op {
	case "poly":
		if len(t.mono) == 1 && t.mono[0].coef == 1 && len(t.mono[0].atoms) == 1 {
			return it.eval(t.mono[0].atoms[0])
		}
		var s uint64
		var fl float64
		isF := false
		for _, m := range t.mono {
			x := fromInt(m.coef)
			fx := float64(m.coef)
			for _, a := range m.atoms {
				v := it.eval(a)
				if v.k == 'f' {
					isF = true
					fx *= v.f
					continue
				}
				n := it.num(v)
				x = mulmod(x, n)
				fx *= float64(it.int(v))
			}
			s = addmod(s, x)
			fl += fx
		}
		if isF {
			return vFloat(fl)
		}
		return vNum(s)
	case "pt":
		var s uint64
		for _, p := range t.pts {
			s = addmod(s, mulmod(it.num(it.eval(p.coef)), it.num(it.eval(p.atom))))
		}
		return vNum(s)
	case "const":
		switch {
		case t == tTrue:
			return vBool(true)
		case t == tFalse:
			return vBool(false)
		case strings.HasPrefix(t.s, "num:"):
			if r, ok := new(big.Rat).SetString(t.s[4:]); ok {
				f, _ := r.Float64()
				return vFloat(f)
			}
		case strings.HasPrefix(t.s, `"`):
			if s, err := strconv.Unquote(t.s); err == nil {
				xs := make([]*V, len(s))
				for i := range xs {
					xs[i] = vInt(int64(s[i]))
				}
				return it.seq(xs)
			}
		case t.s == "zero:float64":
			return vFloat(0)
		}
		return it.atom("const:"+t.s, nil)
	case "nil":
		return vNil
	case "ctr":
		if v, ok := it.env[t.s]; ok {
			return vInt(v)
		}
		it.fail("free counter")
	case "obj", "fa", "ea", "ea2", "iter":
		it.fail("reference %s", t.s)
	case "opaque", "it", "uninit", "exit", "choice":
		it.fail("%s %s", t.op, t.s)
	case "param", "global", "gval":
		if v, ok := it.over[t.s]; ok {
			return v
		}
		switch t.s {
		case "PL", "SL":
			return vInt(32)
		}
		typ := leafTypes[t.op+":"+t.s]
		return it.atom(t.op+":"+t.s, typ)
	case "star":
		v := ev(0)
		if v.k == 'a' && v.op == "ref" {
			return v.xs[0]
		}
		var pt types.Type
		if p, ok := under(v.typ).(*types.Pointer); ok {
			pt = p.Elem()
		}
		return it.atom("star", pt, v)
	case "ref":
		v := ev(0)
		if v.k == 'a' && v.op == "star" {
			return v.xs[0]
		}
		return it.atom("ref", nil, v)
	case "field":
		i := strings.IndexByte(t.s, '_')
		n, _ := strconv.Atoi(t.s[:i])
		return it.fieldOf(ev(0), n)
	case "struct", "tuple":
		fs := evs()
		if len(fs) == 0 {
			return it.atom("unit", nil)
		}
		return it.strct(fs)
	case "proj":
		n, _ := strconv.Atoi(t.s)
		return it.fieldOf(ev(0), n)
	case "list":
		return it.seq(evs())
	case "mapseq":
		var xs []*V
		it.each(t, func(int64) { xs = append(xs, ev(2)) })
		return it.seq(xs)
	case "catmap":
		var xs []*V
		it.each(t, func(int64) { xs = append(xs, it.elems(ev(2))...) })
		return it.seq(xs)
	case "cat":
		var xs []*V
		for i := range t.args {
			xs = append(xs, it.elems(ev(i))...)
		}
		return it.seq(xs)
	case "slice":
		xs := it.elems(ev(0))
		a, b := it.int(ev(1)), it.int(ev(2))
		if a < 0 || b < a || b > int64(len(xs)) {
			it.oob("slice [%d:%d] of %d", a, b, len(xs))
		}
		return it.seq(xs[a:b:b])
	case "slc":
		xs := it.elems(ev(0))
		a, n := it.int(ev(1)), it.int(ev(2))
		if a < 0 || n < 0 || a+n > int64(len(xs)) {
			it.oob("slice [%d:+%d] of %d", a, n, len(xs))
		}
		return it.seq(xs[a : a+n : a+n])
	case "upd":
		xs := append([]*V{}, it.elems(ev(0))...)
		i := it.int(ev(1))
		if i < 0 || i >= int64(len(xs)) {
			it.oob("update out of range")
		}
		xs[i] = ev(2)
		return it.seq(xs)
	case "updfam":
		xs := append([]*V{}, it.elems(ev(4))...)
		it.each(t, func(int64) {
			i := it.int(ev(2))
			if i < 0 || i >= int64(len(xs)) {
				it.oob("update out of range")
			}
			xs[i] = ev(3)
		})
		return it.seq(xs)
	case "swaps":
		xs := append([]*V{}, it.elems(ev(4))...)
		it.each(t, func(int64) {
			i, j := it.int(ev(2)), it.int(ev(3))
			if i < 0 || j < 0 || i >= int64(len(xs)) || j >= int64(len(xs)) {
				it.oob("swap out of range")
			}
			xs[i], xs[j] = xs[j], xs[i]
		})
		return it.seq(xs)
	case "ix":
		return it.ix(ev(0), it.int(ev(1)))
	case "len":
		return vInt(it.len(ev(0)))
	case "sum", "ptsum", "prefix":
		var s uint64
		it.each(t, func(int64) { s = addmod(s, num(2)) })
		return vNum(s)
	case "ite":
		if it.bool(ev(0)) {
			return ev(1)
		}
		return ev(2)
	case "and":
		return vBool(!it.some(len(t.args), func(i int) bool { return !it.bool(ev(i)) }))
	case "or":
		return vBool(it.some(len(t.args), func(i int) bool { return it.bool(ev(i)) }))
	case "not":
		return vBool(!it.bool(ev(0)))
	case "lt0":
		return vBool(it.int(ev(0)) < 0)
	case "eq0", "pteq0":
		return vBool(num(0) == 0)
	case "eq":
		a, b := ev(0), ev(1)
		if a.k == '0' || b.k == '0' {
			if a.k == '0' {
				a, b = b, a
			}
			return vBool(a.k == '0')
		}
		return vBool(it.equal(a, b))
	case "forall", "exists":
		r := t.op == "forall"
		n := it.int(ev(1))
		if n > 5000 {
			it.fail("range too long")
		}
		for i := int64(0); i < n; i++ {
			var x bool
			it.bind(t.args[0], i, func() { x = it.bool(ev(2)) })
			if x != r {
				return vBool(!r)
			}
		}
		return vBool(r)
	case "firstix":
		n := it.int(ev(1))
		if n > 5000 {
			it.fail("range too long")
		}
		for i := int64(0); i < n; i++ {
			var x bool
			it.bind(t.args[0], i, func() { x = it.bool(ev(2)) })
			if x {
				return vInt(i)
			}
		}
		return vInt(n)
	case "min":
		m := it.int(ev(0))
		for i := range t.args {
			if x := it.int(ev(i)); x < m {
				m = x
			}
		}
		return vInt(m)
	case "ceildiv":
		a, k := it.int(ev(0)), it.int(ev(1))
		if k <= 0 {
			it.fail("ceildiv")
		}
		if a <= 0 {
			return vInt(0)
		}
		return vInt((a + k - 1) / k)
	case "div", "cdiv":
		x, y := ev(0), ev(1)
		if x.k == 'f' || y.k == 'f' {
			return vFloat(it.float(x) / it.float(y))
		}
		k := it.int(y)
		if k == 0 {
			it.fail("division by zero")
		}
		return vInt(it.int(x) / k)
	case "inv":
		return vNum(powmod(num(0), prime-2))
	case "bop":
		return it.bop(t.s, ev(0), ev(1))
	case "flt":
		a, b := ev(0), ev(1)
		if a.k == 'f' || b.k == 'f' {
			return vBool(it.float(a) < it.float(b))
		}
		return vBool(it.order(a, b))
	case "conv":
		return it.conv(t.s, ev(0))
	case "bytes", "string":
		return ev(0)
	case "marshal":
		v := ev(0)
		if v.k == 'a' && v.op == "unmarshal:"+t.s {
			return v.xs[0]
		}
		if v.k == 'a' && !isIntTyp(v.typ) {
			v = vNum(v.h) // the canonical form of a group element or scalar
		}
		return it.atom("marshal:"+t.s, types.NewSlice(types.Typ[types.Uint8]), v)
	case "unmarshal":
		v := ev(0)
		if v.k == 'a' && v.op == "marshal:"+t.s {
			return v.xs[0]
		}
		return it.atom("unmarshal:"+t.s, nil, v)
	case "be32":
		return it.atom("be32", types.NewSlice(types.Typ[types.Uint8]), ev(0))
	case "unbe32":
		v := ev(0)
		if v.k == 'a' && v.op == "be32" {
			return v.xs[0]
		}
		return it.atom("unbe32", types.Typ[types.Int], v)
	case "b64":
		v := ev(0)
		if v.k == 'a' && v.op == "unb64" {
			return v.xs[0]
		}
		return it.atom("b64", types.Typ[types.String], v)
	case "unb64":
		v := ev(0)
		if v.k == 'a' && v.op == "b64" {
			return v.xs[0]
		}
		return it.atom("unb64", types.NewSlice(types.Typ[types.Uint8]), v)
	case "itoa":
		return it.strV(strconv.FormatInt(it.int(ev(0)), 10))
	case "join":
		// without separator, a text is what it spells, however it was put together
		if sep, ok := it.text(ev(1)); ok && sep == "" && ev(0).k == 's' {
			var b strings.Builder
			all := true
			for _, x := range ev(0).xs {
				w, ok := it.text(x)
				all = all && ok
				b.WriteString(w)
			}
			if all {
				return it.strV(b.String())
			}
		}
		return it.atom("join", types.Typ[types.String], ev(0), ev(1))
	case "split":
		v := ev(0)
		if v.k == 'a' && v.op == "join" && it.equal(v.xs[1], ev(1)) {
			return v.xs[0]
		}
		if a, ok := it.text(v); ok {
			if b, ok := it.text(ev(1)); ok {
				var xs []*V
				for _, x := range strings.Split(a, b) {
					xs = append(xs, it.strV(x))
				}
				return it.seq(xs)
			}
		}
		return it.atom("split", types.NewSlice(types.Typ[types.String]), v, ev(1))
	case "emptymap":
		m := &V{k: 'm'}
		it.hashMap(m)
		return m
	case "mapset":
		return it.mapWith(ev(0), ev(1), ev(2))
	case "mapfam":
		m := ev(4)
		it.each(t, func(int64) { m = it.mapWith(m, ev(2), ev(3)) })
		return m
	case "fold":
		a := ev(3)
		it.each(t, func(int64) {
			old := it.accs[t.args[0].s]
			it.accs[t.args[0].s] = a
			v := ev(2)
			it.accs[t.args[0].s] = old
			a = v
		})
		return a
	case "acc":
		if a := it.accs[t.args[0].s]; a != nil {
			return a
		}
		it.fail("free accumulator")
	case "mapdel":
		m, k := ev(0), ev(1)
		out := &V{k: 'm'}
		for _, x := range it.mapKeys(m) {
			if !it.equal(x, k) {
				out.keys = append(out.keys, x)
				out.xs = append(out.xs, it.mapGet(m, x))
			}
		}
		it.hashMap(out)
		return out
	case "mapget":
		if m, k := ev(0), ev(1); it.mapHas(m, k) {
			return it.mapGet(m, k)
		}
		return ev(2)
	case "maphas":
		return vBool(it.mapHas(ev(0), ev(1)))
	case "mapkey":
		return it.mapKey(ev(0), it.int(ev(1)))
	case "typeok":
		if containsT(t.args[0], func(y *T) bool { return y.op == "obj" }) {
			it.fail("the type of %s", t.args[0].op)
		}
		return vBool(true)
	case "newerr":
		return it.atom("newerr:"+t.s, nil)
	case "verr":
		return it.verify(evs())
	case "rep", "pand":
		return it.atom(t.op, nil, evs()...)
	case "call":
		switch {
		case strings.HasPrefix(t.s, "math.Ceil"):
			return vFloat(math.Ceil(it.float(ev(0))))
		case strings.HasPrefix(t.s, "math.Floor"):
			return vFloat(math.Floor(it.float(ev(0))))
		case strings.HasPrefix(t.s, "math.Abs"):
			return vFloat(math.Abs(it.float(ev(0))))
		case t.s == "strconv.Atoi#0" || t.s == "strconv.ParseInt#0":
			if v := ev(0); v.k == 's' {
				var sb strings.Builder
				for _, x := range v.xs {
					sb.WriteByte(byte(it.int(x)))
				}
				if n, err := strconv.ParseInt(sb.String(), 10, 64); err == nil {
					return vInt(n)
				}
			}
		case t.s == "math/big.NewInt":
			return it.atom("call:"+t.s, nil, vNum(7)) // only a bound for a random number, see below
		case t.s == "(*math/big.Int).Int64" && strings.HasPrefix(t.args[0].s, "go.dedis.ch/kyber/v3/util/random.Int@"):
			return vInt(int64(ev(0).h % 1000003)) // some number from 0 to the bound
		case t.s == "String" && len(t.args) == 1:
			v := ev(0)
			return it.atom("call:String", types.Typ[types.String], vNum(it.num(v)))
		}
		return it.atom("call:"+t.s, leafTypes["call:"+t.s], evs()...)
	}
	return it.atom(t.op+":"+t.s, leafTypes[t.op+":"+t.s], evs()...)
}

func (it *Interp) float(v *V) float64 {
	switch v.k {
	case 'f':
		return v.f
	case 'n':
		return float64(it.int(v))
	case 'a':
		if isIntTyp(v.typ) {
			return float64(it.int(v))
		}
		return float64(combine(v.h, 1234)%1000) / 1000
	}
	it.fail("float expected")
	return 0
}

func (it *Interp) order(a, b *V) bool {
	if a.k == 's' || b.k == 's' {
		x, y := it.elems(a), it.elems(b)
		for i := range x {
			if i >= len(y) {
				return false
			}
			if n, m := it.int(x[i]), it.int(y[i]); n != m {
				return n < m
			}
		}
		return len(x) < len(y)
	}
	return a.h < b.h
}

func (it *Interp) bop(op string, a, b *V) *V {
	if a.k == 'f' || b.k == 'f' {
		x, y := it.float(a), it.float(b)
		switch op {
		case "+":
			return vFloat(x + y)
		case "-":
			return vFloat(x - y)
		case "*":
			return vFloat(x * y)
		case "/":
			return vFloat(x / y)
		}
		it.fail("float operator %s", op)
	}
	isF := func(v *V) bool {
		b, ok := under(v.typ).(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	}
	if isF(a) || isF(b) {
		return it.bop(op, vFloat(it.float(a)), vFloat(it.float(b)))
	}
	x, y := it.int(a), it.int(b)
	switch op {
	case "%":
		if y == 0 {
			it.fail("modulo zero")
		}
		return vInt(x % y)
	case "/":
		if y == 0 {
			it.fail("division by zero")
		}
		return vInt(x / y)
	case "+":
		return vInt(x + y)
	case "-":
		return vInt(x - y)
	case "*":
		return vInt(x * y)
	case "&":
		return vInt(x & y)
	case "|":
		return vInt(x | y)
	case "^":
		return vInt(x ^ y)
	case "<<":
		if y >= 0 && y < 40 && x < 1<<20 {
			return vInt(x << uint(y))
		}
	case ">>":
		if y >= 0 {
			return vInt(x >> uint(y))
		}
	}
	it.fail("operator %s", op)
	return nil
}

func (it *Interp) conv(to string, v *V) *V {
	switch to {
	case "float64", "float32":
		return vFloat(it.float(v))
	case "int", "int64", "int32", "uint32", "uint64", "uint", "uint8", "byte":
		if v.k == 'f' {
			return vInt(int64(v.f))
		}
		if v.k == 'a' && !isIntTyp(v.typ) {
			if b, ok := under(v.typ).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return vInt(int64(it.float(v)))
			}
		}
	}
	return v
}

// verify models the non-interactive proofs of the cryptographic library: the
// verification of a proof made by the prover itself succeeds exactly if the
// protocol names, the predicates and the public values they mention agree and
// the secrets satisfy the predicate; a proof of unknown origin may be accepted
// exactly if some secrets satisfy the verifier's predicate (the proofs are
// sound, and whoever knows such secrets can produce one).
func (it *Interp) verify(args []*V) *V {
	rej := it.atom("rejected", nil)
	if len(args) != 4 {
		it.fail("verify")
	}
	name, ver, prf := args[1], args[2], args[3]
	if ver.k != 'a' {
		it.fail("verifier %c", ver.k)
	}
	if strings.Contains(ver.op, "kyber/v3/shuffle.Verifier") { // (suite, g, h, X, Y, Xbar, Ybar)
		return it.verifyShuffle(name, ver, prf, rej)
	}
	if !strings.Contains(ver.op, "proof.Predicate).Verifier") || len(ver.xs) < 3 {
		it.fail("verifier %s", ver.op)
	}
	pred, pub := ver.xs[0], ver.xs[2]
	if prf.k == 'a' && prf.op == "proof:" {
		pr := prf.xs[2]
		if pr.k != 'a' || !strings.Contains(pr.op, "proof.Predicate).Prover") {
			return rej // a proof made for another kind of statement
		}
		ppred, psec, ppub := pr.xs[0], pr.xs[2], pr.xs[3]
		if !it.equal(prf.xs[1], name) || !it.equal(ppred, pred) {
			return rej
		}
		for _, c := range it.clauses(pred) {
			lhs, rhs := c.xs[0], c.xs[1:]
			l := it.pubVal(pub, lhs)
			if l != it.pubVal(ppub, lhs) && it.mapHas(ppub, lhs) {
				return rej
			}
			var s uint64
			for i := 0; i+1 < len(rhs); i += 2 {
				b := it.pubVal(pub, rhs[i+1])
				if b != it.pubVal(ppub, rhs[i+1]) {
					return rej
				}
				s = addmod(s, mulmod(it.num(it.mapGet(psec, rhs[i])), b))
			}
			if s != l {
				return rej
			}
		}
		return vNil
	}
	// unknown proof: is there a solution?
	idx := map[string]int{}
	var rows [][]uint64
	var rhs []uint64
	key := func(v *V) string { return fmt.Sprint(v.h) }
	cs := it.clauses(pred)
	for _, c := range cs {
		for i := 1; i+1 < len(c.xs); i += 2 {
			if k := key(c.xs[i]); idx[k] == 0 {
				idx[k] = len(idx) + 1
			}
		}
	}
	for _, c := range cs {
		row := make([]uint64, len(idx))
		for i := 1; i+1 < len(c.xs); i += 2 {
			j := idx[key(c.xs[i])] - 1
			row[j] = addmod(row[j], it.pubVal(pub, c.xs[i+1]))
		}
		rows = append(rows, row)
		rhs = append(rhs, it.pubVal(pub, c.xs[0]))
	}
	if solvable(rows, rhs) {
		return vNil
	}
	return rej
}

func (it *Interp) clauses(pred *V) []*V {
	if pred.k == 'a' {
		switch pred.op {
		case "rep":
			return []*V{pred}
		case "pand":
			var out []*V
			for _, x := range pred.xs {
				out = append(out, it.clauses(x)...)
			}
			return out
		}
	}
	it.fail("predicate")
	return nil
}

// pubVal: a point that is not given is the base point.
func (it *Interp) pubVal(m, k *V) uint64 {
	if !it.mapHas(m, k) {
		return it.num(it.eval(tBase))
	}
	return it.num(it.mapGet(m, k))
}

func solvable(rows [][]uint64, rhs []uint64) bool {
	n := len(rows)
	if n == 0 {
		return true
	}
	m := len(rows[0])
	r := 0
	for c := 0; c < m && r < n; c++ {
		p := -1
		for i := r; i < n; i++ {
			if rows[i][c] != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		rhs[r], rhs[p] = rhs[p], rhs[r]
		inv := powmod(rows[r][c], prime-2)
		for i := 0; i < n; i++ {
			if i == r || rows[i][c] == 0 {
				continue
			}
			f := mulmod(rows[i][c], inv)
			for j := c; j < m; j++ {
				rows[i][j] = subm(rows[i][j], mulmod(f, rows[r][j]))
			}
			rhs[i] = subm(rhs[i], mulmod(f, rhs[r]))
		}
		r++
	}
	for i := r; i < n; i++ {
		if rhs[i] != 0 {
			return false
		}
	}
	return true
}

// verifyShuffle: Neff's shuffle proof (g, h, X, Y, Xbar, Ybar) accepts the
// prover's (pi, beta, X, Y) iff Xbar[i] = X[pi i] + beta[pi i]*g and the same
// for Y and h.
func (it *Interp) verifyShuffle(name, ver, prf, rej *V) *V {
	if prf.k != 'a' || prf.op != "proof:" {
		it.fail("shuffle proof of unknown origin")
	}
	pr := prf.xs[2]
	if pr.k != 'a' || pr.op != "shprove:" || !it.equal(prf.xs[1], name) {
		return rej
	}
	pi, pg, ph, beta, PX, PY := it.elems(pr.xs[0]), pr.xs[1], pr.xs[2], it.elems(pr.xs[3]), it.elems(pr.xs[4]), it.elems(pr.xs[5])
	pt := func(v *V) uint64 {
		if v.k == '0' {
			return it.num(it.eval(tBase))
		}
		return it.num(v)
	}
	g, h := pt(ver.xs[1]), pt(ver.xs[2])
	X, Y, XB, YB := it.elems(ver.xs[3]), it.elems(ver.xs[4]), it.elems(ver.xs[5]), it.elems(ver.xs[6])
	n := len(PX)
	if n <= 1 {
		it.fail("shuffle of one element")
	}
	if len(X) != n || len(Y) != n || len(XB) != n || len(YB) != n || len(pi) != n || len(beta) != n || len(PY) != n || g != pt(pg) || h != pt(ph) {
		return rej
	}
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		j := it.int(pi[i])
		if j < 0 || j >= int64(n) || seen[j] {
			return rej
		}
		seen[j] = true
		if it.num(X[i]) != it.num(PX[i]) || it.num(Y[i]) != it.num(PY[i]) {
			return rej
		}
		b := it.num(beta[j])
		if it.num(XB[i]) != addmod(it.num(X[j]), mulmod(b, g)) || it.num(YB[i]) != addmod(it.num(Y[j]), mulmod(b, h)) {
			return rej
		}
	}
	return vNil
}

// leafTypes are the types of the parameters and of uninterpreted results.
var leafTypes = map[string]types.Type{}

func (it *Interp) strV(s string) *V {
	xs := make([]*V, len(s))
	for i := range xs {
		xs[i] = vInt(int64(s[i]))
	}
	return it.seq(xs)
}

// text is the string a sequence of known bytes stands for.
func (it *Interp) text(v *V) (string, bool) {
	if v.k != 's' {
		return "", false
	}
	b := make([]byte, len(v.xs))
	for i, x := range v.xs {
		n := it.int(x)
		if n < 0 || n > 255 {
			return "", false
		}
		b[i] = byte(n)
	}
	return string(b), true
}
