package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 16

// noopCallee: calls that have no effect on the values computed.
func noopCallee(n string) bool {
	switch {
	case strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync."):
		return true
	case isLogCall(n) && !fatalCall(n), strings.HasPrefix(n, "go.dedis.ch/onet/v3/log.ErrFatal"):
		return true
	case strings.HasPrefix(n, "time.Sleep"), strings.HasPrefix(n, "math/rand.Seed"):
		return true
	case strings.Contains(n, "simul/monitor"):
		return true
	}
	return false
}

func isNamed(t types.Type, pkgSuffix, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkgSuffix)
}

// timing or joining helpers of the module
func helperNoop(f *ssa.Function) (noop bool, res string) {
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if isNamed(sig.Results().At(i).Type(), "simul/monitor", "TimeMeasure") {
			return true, "nil"
		}
		if isNamed(sig.Results().At(i).Type(), "sync", "WaitGroup") && sig.Results().Len() == 1 {
			return true, "wg"
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isNamed(sig.Params().At(i).Type(), "simul/monitor", "TimeMeasure") && sig.Results().Len() == 0 {
			return true, ""
		}
		if isNamed(sig.Params().At(i).Type(), "sync", "WaitGroup") && sig.Params().Len() == 1 && sig.Results().Len() == 0 {
			return true, ""
		}
	}
	return false, ""
}

// usesSharedTable: the function consults process-wide lookup tables; its value is
// left uninterpreted (what it may depend on is C18's business).
func usesSharedTable(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !strings.Contains(calleeName(c), "ConcurrentMap).") || len(c.Common().Args) == 0 {
				continue
			}
			if u, ok := c.Common().Args[0].(*ssa.UnOp); ok {
				if _, global := u.X.(*ssa.Global); global {
					return true
				}
			}
		}
	}
	return false
}

func (ev *Ev) call(fr *frame, st *state, c ssa.CallInstruction) *T {
	if st.dead {
		return nil
	}
	ev.steps++
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ev.builtin(fr, st, c, b.Name())
	}
	name := calleeName(c)
	if fatalCall(name) && !strings.Contains(name, "ErrFatal") {
		st.dead = true
		return nil
	}
	if noopCallee(name) {
		return ev.zeroResult(c)
	}
	if cc.IsInvoke() {
		recv := ev.val(fr, cc.Value)
		var args []*T
		for _, a := range cc.Args {
			args = append(args, ev.val(fr, a))
		}
		return ev.invoke(fr, st, c, recv, args)
	}
	// function values
	var f *ssa.Function
	var binds []*T
	if sc := cc.StaticCallee(); sc != nil {
		f = sc
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, ev.val(fr, b))
			}
		}
	} else {
		t := ev.val(fr, cc.Value)
		if g := ev.closure[t]; g != nil {
			f, binds = g, t.args
		}
	}
	var args []*T
	for _, a := range cc.Args {
		args = append(args, ev.val(fr, a))
	}
	if f == nil {
		return ev.unknownCall(fr, st, c, "dyn", append([]*T{ev.val(fr, cc.Value)}, args...))
	}
	return ev.callFn(fr, st, c, f, args, binds)
}

func (ev *Ev) callFn(fr *frame, st *state, c ssa.CallInstruction, f *ssa.Function, args, binds []*T) *T {
	own := f.Blocks != nil && (f.Pkg == nil || strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Parent() != nil)
	if f.Pkg == nil && f.Blocks != nil && f.Synthetic != "" { // wrappers of foreign methods
		if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil && !strings.HasPrefix(o.Pkg().Path(), modPath) {
			own = strings.HasPrefix(f.Synthetic, "bound method") || strings.HasPrefix(f.Synthetic, "thunk") // a call of the method
		}
	}
	if g := ev.model(f); g != nil {
		return packResults(f.Signature.Results().Len(), ev.inline(fr, g, args, nil, st, fr.ctx+siteName(c)+"/"))
	}
	if s := ev.p.stub(f); s != nil && !own {
		return packResults(f.Signature.Results().Len(), ev.inline(fr, s, args, nil, st, fr.ctx+siteName(c)+"/"))
	}
	if !own {
		return ev.external(fr, st, c, f, args)
	}
	if ok, res := helperNoop(f); ok {
		switch res {
		case "nil":
			return tNil
		case "wg":
			o := ev.newObj("st", fr.ctx, c, types.Typ[types.Int])
			st.mem[o] = tZero
			return o
		}
		return nil
	}
	for _, g := range ev.stack {
		if g == f {
			return ev.unknownCall(fr, st, c, "recursive "+fnKey(f), args)
		}
	}
	if fnKey(f) == "zznet.Frozen" {
		return ev.deep(st, args[0], f.Signature.Params().At(0).Type(), 0)
	}
	if usesSharedTable(f) {
		return ev.pureCall(fr, st, c, fnKey(f), args)
	}
	if len(ev.stack) > maxInline {
		return ev.unknownCall(fr, st, c, "deep "+fnKey(f), args)
	}
	vals := ev.inline(fr, f, args, binds, st, fr.ctx+siteName(c)+"/")
	if st.dead {
		return nil
	}
	return packResults(f.Signature.Results().Len(), vals)
}

// stub is the function that replaces a method of the network layer in laws.
func (p *Prog) stub(f *ssa.Function) *ssa.Function {
	if p.stubs == nil {
		p.stubs = map[string]*ssa.Function{}
		for _, g := range p.Funcs {
			if g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/zznet") && strings.Contains(g.Name(), "_") {
				p.stubs[g.Name()] = g
			}
		}
	}
	r := f.Signature.Recv()
	if r == nil || len(p.stubs) == 0 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), "go.dedis.ch/onet") && !strings.HasSuffix(f.Pkg.Pkg.Path(), "go-concurrentMap") {
		return nil
	}
	n, ok := deref(r.Type()).(*types.Named)
	if !ok {
		return nil
	}
	return p.stubs[n.Obj().Name()+"_"+f.Name()]
}

// model is what a law puts in the place of a function of the repository that
// other laws are about: zzmodel_Recv_Name in the file of the law.
func (ev *Ev) model(f *ssa.Function) *ssa.Function {
	if len(ev.stack) == 0 || ev.stack[0].Pkg == nil || !isLaw(ev.p, ev.stack[0]) || f.Parent() != nil {
		return nil
	}
	if ev.models == nil {
		ev.models = map[string]*ssa.Function{}
		file := ev.p.Fset.Position(ev.stack[0].Pos()).Filename
		for n, m := range ev.stack[0].Pkg.Members {
			if g, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "zzmodel_") && ev.p.Fset.Position(g.Pos()).Filename == file {
				ev.models[strings.TrimPrefix(n, "zzmodel_")] = g
			}
		}
	}
	if len(ev.models) == 0 {
		return nil
	}
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		if t, ok := deref(r.Type()).(*types.Named); ok {
			n = t.Obj().Name() + "_" + n
		}
	}
	return ev.models[n]
}

func packResults(n int, vals []*T) *T {
	switch n {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return mkTuple(vals...)
}

func (ev *Ev) zeroResult(c ssa.CallInstruction) *T {
	v := c.Value()
	if v == nil {
		return nil
	}
	if tp, ok := v.Type().(*types.Tuple); ok {
		var xs []*T
		for i := 0; i < tp.Len(); i++ {
			xs = append(xs, ev.zero(tp.At(i).Type()))
		}
		return mkTuple(xs...)
	}
	return ev.zero(v.Type())
}

// unknownCall: nothing is known about the results, and what the arguments point
// to may have changed.
func (ev *Ev) unknownCall(fr *frame, st *state, c ssa.CallInstruction, why string, args []*T) *T {
	ev.notes["call: "+why] = true
	ev.record(fr, st, c, "call", why, args)
	for i, a := range args {
		_ = i
		ev.havoc(st, a, why)
	}
	return ev.results(c, func(i int, t types.Type) *T {
		// two calls need not give the same
		return ev.opaque("result of "+why+"@"+fr.ctx+siteName(c), append([]*T{mkInt(int64(i))}, ev.ctrs...)...)
	})
}

// textBuffer is the cell holding what was written to a strings.Builder or a
// bytes.Buffer that the evaluated code declares itself.
func (ev *Ev) textBuffer(a *T, c ssa.CallInstruction) *T {
	if a.op != "obj" {
		return nil
	}
	t := deref(c.Common().Args[0].Type())
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == "buf" {
			ev.cellTypeOf(a, t)
			return ev.mkFa(a, fmt.Sprintf("%d_buf", i), su)
		}
	}
	return nil
}

func (ev *Ev) havoc(st *state, a *T, why string) {
	switch a.op {
	case "fa", "ea", "ea2":
		ev.store(st, a, ev.opaque("written by "+why, a), nil, nil)
	case "obj":
		st.mem[a] = ev.opaque("written by "+why, a)
	case "slc":
		if a.args[0].op == "obj" {
			st.mem[a.args[0]] = ev.opaque("written by "+why, a)
		}
	case "ite":
		ev.havoc(st, a.args[1], why)
		ev.havoc(st, a.args[2], why)
	case "closure":
		for _, b := range a.args {
			ev.havoc(st, b, why)
		}
	}
}

// results builds the result value of a call; errors are nil.
func (ev *Ev) results(c ssa.CallInstruction, f func(i int, t types.Type) *T) *T {
	v := c.Value()
	if v == nil {
		return nil
	}
	if tp, ok := v.Type().(*types.Tuple); ok {
		var xs []*T
		for i := 0; i < tp.Len(); i++ {
			if isErrorType(tp.At(i).Type()) {
				xs = append(xs, tNil)
				continue
			}
			xs = append(xs, f(i, tp.At(i).Type()))
		}
		return mkTuple(xs...)
	}
	if isErrorType(v.Type()) {
		return tNil
	}
	return f(0, v.Type())
}

func (ev *Ev) deepArgs(st *state, c ssa.CallInstruction, args []*T) ([]*T, []types.Type) {
	cc := c.Common()
	var tys []types.Type
	var vs []ssa.Value
	if cc.IsInvoke() && len(args) == len(cc.Args)+1 {
		vs = append(vs, cc.Value)
	}
	vs = append(vs, cc.Args...)
	out := make([]*T, len(args))
	for i, a := range args {
		var t types.Type
		if i < len(vs) {
			t = ifaceType(vs[i])
		}
		tys = append(tys, t)
		if a != nil && t != nil {
			out[i] = ev.deep(st, a, t, 0)
		} else {
			out[i] = a
		}
	}
	return out, tys
}

// ifaceType is the concrete type of a value converted to an interface.
func ifaceType(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return ifaceType(x.X)
	case *ssa.ChangeInterface:
		return ifaceType(x.X)
	}
	return v.Type()
}

func (ev *Ev) record(fr *frame, st *state, c ssa.CallInstruction, kind, name string, args []*T) {
	ds, tys := ev.deepArgs(st, c, args)
	ev.events = append(ev.events, event{kind: kind, name: name, args: ds, types: tys, pc: st.pc, in: c, fn: fr.f})
}

// pureCall is an uninterpreted function of the (deep) arguments.
func (ev *Ev) pureCall(fr *frame, st *state, c ssa.CallInstruction, name string, args []*T) *T {
	ds, _ := ev.deepArgs(st, c, args)
	for i, d := range ds {
		if d == nil {
			ds[i] = tNil
		}
	}
	tup := c.Value() != nil && isTuple(c.Value().Type())
	return ev.results(c, func(i int, t types.Type) *T {
		n := name
		if tup {
			n += "#" + strconv.Itoa(i)
		}
		leafTypes["call:"+n] = t
		return ev.wrapRes(fr, st, c, mkRaw("call", n, ds...), t)
	})
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// wrapRes turns a group element into a reference to a fresh one, so that it can be changed in place.
func (ev *Ev) wrapRes(fr *frame, st *state, c ssa.CallInstruction, v *T, t types.Type) *T {
	return v
}

func (ev *Ev) impure(fr *frame, st *state, c ssa.CallInstruction, name string, args []*T) *T {
	return ev.results(c, func(i int, t types.Type) *T {
		leafTypes["ext:"+name+"@"+fr.ctx+siteName(c)+"#"+strconv.Itoa(i)] = t
		return mkRaw("ext", name+"@"+fr.ctx+siteName(c)+"#"+strconv.Itoa(i), append(append([]*T{}, args...), ev.ctrs...)...)
	})
}

func (ev *Ev) fresh(fr *frame, st *state, c ssa.CallInstruction, kind string, content *T) *T {
	var t types.Type
	if c.Value() != nil {
		t = c.Value().Type()
	}
	o := ev.newObj(kind, fr.ctx, c, t)
	ev.cellTyp[o] = t
	st.mem[o] = content
	return o
}

func (ev *Ev) randTerm(fr *frame, c ssa.CallInstruction, stream *T) *T {
	switch {
	case stream == nil:
	case stream.op == "stream":
		return mkRaw("rand", fr.ctx+siteName(c), ev.ctrs...)
	}
	if stream == nil {
		return mkRaw("rand", fr.ctx+siteName(c), ev.ctrs...)
	}
	return mkRaw("prf", "", stream)
}

// streamOf is the state of a randomness source.
func (ev *Ev) streamOf(st *state, s *T) *T {
	if s.op == "obj" {
		return ev.content(st, s, true)
	}
	if s.op == "ext" || s.op == "call" {
		return mkRaw("stream", "")
	}
	return s
}

func (ev *Ev) invoke(fr *frame, st *state, c ssa.CallInstruction, recv *T, args []*T) *T {
	cc := c.Common()
	m := cc.Method.Name()
	kind := kyberKind(cc.Value.Type())
	if kind == "" && recv.op == "obj" {
		if k := objKind(recv); k == "pt" || k == "sc" {
			kind = k
		}
	}
	if kind == "" && (recv.op == "param" || recv.op == "ext") {
		if t := leafTypes[recv.op+":"+recv.s]; t != nil {
			kind = kyberKind(t)
		}
	}
	if kind == "" && recv.op == "ite" && (cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "encoding") {
		kind = "pt"
	}
	if kind != "" {
		if r, ok := ev.kyberOp(fr, st, c, kind, m, recv, args); ok {
			return r
		}
	}
	full := calleeName(c)
	switch {
	case strings.HasPrefix(full, "(go.dedis.ch/kyber/v3.Group)."):
		switch m {
		case "Point":
			return ev.fresh(fr, st, c, "pt", mkRaw("uninit", "pt"))
		case "Scalar":
			return ev.fresh(fr, st, c, "sc", tZero)
		case "PointLen":
			return mkRaw("param", "PL")
		case "ScalarLen":
			return mkRaw("param", "SL")
		}
	case m == "RandomStream" && strings.Contains(full, "kyber"):
		return mkRaw("stream", "")
	case m == "XOF" && strings.Contains(full, "kyber"):
		ds, _ := ev.deepArgs(st, c, args)
		return ev.fresh(fr, st, c, "xof", mkRaw("xof", "", ds...))
	case m == "Error" && cc.Method.Pkg() == nil:
		return mkRaw("call", "Error", recv)
	}
	if recv.op == "obj" && objKind(recv) == "xof" {
		switch m {
		case "Write", "Reseed":
			ds, _ := ev.deepArgs(st, c, args)
			cur := ev.content(st, recv, true)
			if len(ds) == 1 && m == "Write" && cur.op == "xof" {
				// absorbing a then b is absorbing their concatenation
				if len(cur.args) == 2 {
					st.mem[recv] = mkRaw("xof", "", cur.args[0], mkCat(cur.args[1], ds[0]))
				} else {
					st.mem[recv] = mkRaw("xof", "", cur.args[0], ds[0])
				}
			} else {
				st.mem[recv] = mkRaw("xof", m, append([]*T{cur}, ds...)...)
			}
			return ev.results(c, func(i int, t types.Type) *T { return ev.opaque("count written") })
		}
	}
	// methods of module types called through an interface
	if recv.op == "obj" && strings.HasPrefix(recv.s, "st@") {
		if t := ev.objType[recv]; t != nil {
			if f := ev.methodOf(types.NewPointer(t), cc.Method); f != nil {
				return ev.callFn(fr, st, c, f, append([]*T{recv}, args...), nil)
			}
		}
	}
	if pureMethod(full) {
		return ev.pureCall(fr, st, c, full, append([]*T{recv}, args...))
	}
	return ev.unknownCall(fr, st, c, full, append([]*T{recv}, args...))
}

func (ev *Ev) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := ev.p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ev.p.SSA.MethodValue(sel)
}

func pureMethod(full string) bool {
	switch {
	case strings.Contains(full, "kyber/v3/proof.Predicate)."), strings.HasSuffix(full, ").String"), strings.Contains(full, "kyber/v3.") && strings.HasSuffix(full, "Len"):
		return true
	case strings.Contains(full, "onet/v3/network."):
		return true
	case strings.Contains(full, "crypto/cipher"):
		return false
	}
	return false
}

// kyberOp interprets the operations on group elements and scalars.
func (ev *Ev) kyberOp(fr *frame, st *state, c ssa.CallInstruction, kind, m string, recv *T, args []*T) (*T, bool) {
	k := func(i int) *T { return ev.kc(st, args[i]) }
	if recv.op == "param" || recv.op == "ix" || recv.op == "field" {
		elemOf[recv] = kind
	}
	set := func(v *T) (*T, bool) {
		ev.setK(st, recv, v, c, fr.f)
		return recv, true
	}
	cur := func() *T { return ev.kc(st, recv) }
	if kind == "pt" {
		switch m {
		case "Null":
			return set(tNullP)
		case "Base":
			return set(tBase)
		case "Set":
			return set(k(0))
		case "Clone":
			o := ev.fresh(fr, st, c, "pt", cur())
			return o, true
		case "Add":
			return set(ptAdd(k(0), k(1)))
		case "Sub":
			return set(ptSub(k(0), k(1)))
		case "Neg":
			return set(ptNeg(k(0)))
		case "Mul":
			p := tBase
			if args[1] != tNil {
				p = k(1)
			}
			return set(ptMul(k(0), p))
		case "Pick":
			return set(ev.randTerm(fr, c, ev.streamOf(st, args[0])))
		case "Equal":
			return ptEq(cur(), k(0)), true
		case "MarshalBinary":
			return mkTuple(mkMarshalK("pt", cur()), tNil), true
		case "UnmarshalBinary":
			b := ev.seqval(st, args[0])
			ev.setK(st, recv, mkUnmarshal("pt", b), c, fr.f)
			return tNil, true
		case "String":
			return mkRaw("call", "String", cur()), true
		}
		return nil, false
	}
	switch m {
	case "Zero":
		return set(tZero)
	case "One":
		return set(tOne)
	case "SetInt64":
		return set(args[0])
	case "Set":
		return set(k(0))
	case "Clone":
		return ev.fresh(fr, st, c, "sc", cur()), true
	case "Add":
		return set(padd(k(0), k(1)))
	case "Sub":
		return set(psub(k(0), k(1)))
	case "Neg":
		return set(pscale(k(0), -1))
	case "Mul":
		return set(pmul(k(0), k(1)))
	case "Inv":
		return set(mkInv(k(0)))
	case "Div":
		return set(pmul(k(0), mkInv(k(1))))
	case "Pick":
		return set(ev.randTerm(fr, c, ev.streamOf(st, args[0])))
	case "Equal":
		return eq0(psub(cur(), k(0))), true
	case "MarshalBinary":
		return mkTuple(mkMarshalK("sc", cur()), tNil), true
	case "UnmarshalBinary":
		b := ev.seqval(st, args[0])
		ev.setK(st, recv, mkUnmarshal("sc", b), c, fr.f)
		return tNil, true
	case "String":
		return mkRaw("call", "String", cur()), true
	}
	return nil, false
}

// ptEq: equality of group elements.
func ptEq(a, b *T) *T {
	d := ptSub(a, b)
	if d == tNullP {
		return tTrue
	}
	n := ptNeg(d)
	if n.id < d.id {
		d = n
	}
	return mkRaw("pteq0", "", d)
}

func (ev *Ev) builtin(fr *frame, st *state, c ssa.CallInstruction, name string) *T {
	cc := c.Common()
	v := func(i int) *T { return ev.val(fr, cc.Args[i]) }
	switch name {
	case "append":
		a := ev.seqval(st, v(0))
		b := a
		if len(cc.Args) > 1 {
			b = ev.seqval(st, v(1))
			if x := v(1); x == tNil {
				b = mkRaw("list", "")
			}
			return mkCat(a, b)
		}
		return a
	case "len":
		x := v(0)
		t := cc.Args[0].Type()
		if isMap(t) {
			return mapLen(ev.mapval(st, x))
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(ar.Len())
			}
		}
		return mkLen(ev.seqval(st, x))
	case "cap":
		return mkRaw("cap", "", v(0))
	case "copy":
		dst, src := v(0), ev.seqval(st, v(1))
		n := mkMin(mkLen(dst), mkLen(src))
		if mkLen(dst) == mkLen(src) {
			n = mkLen(src)
		}
		ev.storeRange(st, dst, n, mkSub(src, tZero, n), c, fr.f)
		return n
	case "delete":
		r := v(0)
		k := ev.deep(st, v(1), cc.Args[1].Type(), 0)
		st.mem[r] = mapdel(ev.mapval(st, r), k)
		ev.cellTyp[r] = cc.Args[0].Type()
		if r.op != "obj" {
			ev.events = append(ev.events, event{kind: "write", name: "map", args: []*T{r}, pc: st.pc, in: c, fn: fr.f})
		}
		return nil
	case "panic":
		st.dead = true
		return nil
	case "close", "print", "println", "recover":
		return tNil
	case "min":
		return mkMin(v(0), v(1))
	}
	return ev.opaque("builtin " + name)
}

func mapdel(m, k *T) *T {
	if m.op == "mapset" && m.args[1] == k {
		return mapdel(m.args[0], k)
	}
	if m.op == "emptymap" {
		return m
	}
	return mkRaw("mapdel", "", m, k)
}

func mapLen(m *T) *T {
	m = keysOnly(m)
	switch m.op {
	case "emptymap", "nil":
		return tZero
	case "mapset":
		return padd(mapLen(m.args[0]), ite(maphas(m.args[0], m.args[1]), tZero, tOne))
	case "ite":
		return ite(m.args[0], mapLen(m.args[1]), mapLen(m.args[2]))
	}
	return mkRaw("len", "", m)
}

// storeRange overwrites the first n elements of a slice.
func (ev *Ev) storeRange(st *state, dst, n, src *T, in ssa.Instruction, fn *ssa.Function) {
	if dst.op == "ite" {
		x, y := st.clone(), st.clone()
		ev.storeRange(x, dst.args[1], n, src, in, fn)
		ev.storeRange(y, dst.args[2], n, src, in, fn)
		m := ev.iteMem(dst.args[0], x, y)
		st.mem, st.fams = m.mem, m.fams
		return
	}
	base, off := dst, tZero
	if dst.op == "slc" {
		base, off = dst.args[0], dst.args[1]
	}
	var old *T
	nested := base.op == "fa" || base.op == "ea" || base.op == "ea2"
	if nested {
		old = ev.load(st, base)
	} else {
		old = ev.content(st, base, true)
	}
	c := freshCtr()
	var nv *T
	if off == tZero && n == mkLen(old) {
		nv = src
	} else {
		nv = mkUpdFam(old, n, c, padd(off, c), mkIx(src, c))
	}
	if nested {
		ev.store(st, base, nv, in, fn)
		return
	}
	st.mem[base] = nv
	if base.op != "obj" {
		ev.events = append(ev.events, event{kind: "write", name: "copy", args: []*T{base}, pc: st.pc, in: in, fn: fn})
	}
}

// external interprets calls to functions and methods outside the module.
func (ev *Ev) external(fr *frame, st *state, c ssa.CallInstruction, f *ssa.Function, args []*T) *T {
	name := calleeName(c)
	arg := func(i int) *T { return args[i] }
	seq := func(i int) *T { return ev.seqval(st, args[i]) }
	switch name {
	case "fmt.Errorf", "errors.New", "golang.org/x/xerrors.Errorf", "golang.org/x/xerrors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return mkRaw("newerr", siteName(c))
	case "go.dedis.ch/kyber/v3/util/random.New":
		return mkRaw("stream", "")
	case "go.dedis.ch/kyber/v3/util/key.NewKeyPair":
		r := mkRaw("rand", fr.ctx+siteName(c), ev.ctrs...)
		sc := ev.newObj("sc", fr.ctx, c, nil)
		pt := ev.newObj("pt", fr.ctx, c, nil)
		st.mem[sc], st.mem[pt] = r, ptMul(r, tBase)
		t := deref(c.Value().Type())
		o := ev.newObj("st", fr.ctx, c, t)
		ev.cellTyp[o] = t
		su := t.Underlying().(*types.Struct)
		var fs []*T
		for i := 0; i < su.NumFields(); i++ {
			switch su.Field(i).Name() {
			case "Public":
				fs = append(fs, pt)
			case "Private":
				fs = append(fs, sc)
			default:
				fs = append(fs, ev.opaque("key pair field"))
			}
		}
		st.mem[o] = mkStruct(structSig(t), fs)
		return o
	case "go.dedis.ch/kyber/v3/util/random.Int", "math/rand.Intn", "github.com/satori/go.uuid.NewV4":
		return ev.impure(fr, st, c, name, args)
	case "go.dedis.ch/kyber/v3/proof.Rep":
		ds := []*T{arg(0)}
		l := seq(1)
		if l.op == "list" {
			ds = append(ds, l.args...)
			return mkRaw("rep", "", ds...)
		}
	case "go.dedis.ch/kyber/v3/proof.And":
		l := seq(0)
		if l.op == "list" {
			var out []*T
			for _, x := range l.args {
				if x.op == "pand" {
					out = append(out, x.args...)
				} else {
					out = append(out, x)
				}
			}
			return mkRaw("pand", "", out...)
		}
	case "go.dedis.ch/kyber/v3/proof.HashVerify":
		ev.record(fr, st, c, "verify", name, args)
		ds, _ := ev.deepArgs(st, c, args)
		return mkRaw("verr", "", ds...)
	case "go.dedis.ch/kyber/v3/proof.HashProve":
		ds, _ := ev.deepArgs(st, c, args)
		ev.record(fr, st, c, "prove", name, args)
		if g := ev.closure[args[2]]; g != nil { // what the prover does
			s2 := st.clone()
			e0 := len(ev.events)
			ev.callFn(fr, s2, c, g, []*T{mkRaw("param", "proverctx")}, args[2].args)
			for _, e := range ev.events[e0:] {
				if e.kind == "shprove" && len(e.args) > 6 {
					ds[2] = mkRaw("shprove", "", e.args[1:7]...)
				}
			}
		}
		return mkTuple(mkRaw("proof", "", ds...), tNil)
	case "(*go.dedis.ch/kyber/v3/shuffle.PairShuffle).Prove":
		ev.record(fr, st, c, "shprove", name, args)
		return tNil
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Grow", "(*strings.Builder).String":
		buf := ev.textBuffer(arg(0), c)
		if buf == nil {
			break
		}
		old := ev.load(st, buf)
		if old == tNil {
			old = mkRaw("const", `""`)
		}
		switch f.Name() {
		case "String":
			return old
		case "Grow":
			return nil
		case "WriteString":
			ev.store(st, buf, mkCat(old, arg(1)), c, fr.f)
			return mkTuple(mkLen(arg(1)), tNil)
		}
		n, ok := arg(1).constInt()
		if !ok || n >= 128 {
			break
		}
		ev.store(st, buf, mkCat(old, mkRaw("const", fmt.Sprintf("%q", string(rune(n))))), c, fr.f)
		if f.Name() == "WriteByte" {
			return tNil
		}
		return mkTuple(tOne, tNil)
	case "strings.Join":
		ds, _ := ev.deepArgs(st, c, args)
		return mkJoin(ds[0], ds[1])
	case "strings.Split":
		return mkSplit(arg(0), arg(1))
	case "(encoding/binary.bigEndian).PutUint32":
		ev.storeRange(st, args[1], mkInt(4), mkRaw("be32", "", args[2]), c, fr.f)
		return nil
	case "(encoding/binary.bigEndian).Uint32":
		b := mkSub(seq(1), tZero, mkInt(4))
		if b.op == "be32" {
			return b.args[0]
		}
		return mkRaw("unbe32", "", b)
	case "(*encoding/base64.Encoding).EncodeToString":
		return mkConvStr("string", mkRaw("b64", "", seq(1)))
	case "(*encoding/base64.Encoding).DecodeString":
		x := arg(1)
		if x.op == "string" && x.args[0].op == "b64" {
			return mkTuple(x.args[0].args[0], tNil)
		}
		return mkTuple(mkRaw("unb64", "", x), tNil)
	case "time.Now", "time.Since", "time.After", "os.Getenv":
		return ev.impure(fr, st, c, name, nil)
	case "strconv.Itoa":
		return mkItoa(arg(0))
	case "strconv.FormatInt":
		if n, ok := arg(1).constInt(); ok && n == 10 {
			return mkItoa(arg(0))
		}
	case "strconv.Atoi":
		if n, err := strconv.ParseInt(unquoted(arg(0)), 10, 64); err == nil {
			return mkTuple(mkInt(n), tNil)
		}
		if arg(0).op == "itoa" {
			return mkTuple(arg(0).args[0], tNil)
		}
	case "strconv.ParseInt":
		if n, err := strconv.ParseInt(unquoted(arg(0)), 10, 64); err == nil && arg(1) == mkInt(10) {
			return mkTuple(mkInt(n), tNil)
		}
		if arg(0).op == "itoa" && arg(1) == mkInt(10) {
			return mkTuple(arg(0).args[0], tNil)
		}
	case "fmt.Sprintf":
		if r := ev.sprintf(c, arg(0), seq(1)); r != nil {
			return r
		}
	case "fmt.Sprint":
		// the decimal form of a number
		l := seq(0)
		if l.op == "list" && len(l.args) == 1 {
			if t := soleVariadicType(c, 0); t != nil && isInt(t) {
				return mkItoa(l.args[0])
			}
		}
	}
	m := f.Name()
	if strings.Contains(name, "go.dedis.ch/onet/v3.TreeNodeInstance)") || strings.Contains(name, "go.dedis.ch/onet/v3.Context)") || strings.Contains(name, "go.dedis.ch/onet/v3.Client)") || strings.Contains(name, "go.dedis.ch/onet/v3.ServiceProcessor)") {
		switch {
		case strings.HasPrefix(m, "Send") || m == "Broadcast" || m == "Multicast":
			ev.record(fr, st, c, "send", m, args)
			return ev.results(c, func(i int, t types.Type) *T {
				return mkRaw("ext", "reply@"+siteName(c)+fmt.Sprint(i), ev.ctrs...)
			})
		case m == "RegisterChannel" || strings.HasPrefix(m, "RegisterChannel"):
			ev.record(fr, st, c, "register", m, nil)
			return ev.zeroResult(c)
		case m == "Done" || m == "SetConfig" || strings.HasPrefix(m, "Register") || strings.HasPrefix(m, "Create") || strings.HasPrefix(m, "New"):
			ev.record(fr, st, c, "call", m, args)
			return ev.impure(fr, st, c, name, nil)
		default:
			return ev.pureCall(fr, st, c, "tn."+m, args)
		}
	}
	if pureExternal(name) {
		return ev.pureCall(fr, st, c, name, args)
	}
	return ev.unknownCall(fr, st, c, name, args)
}

// sprintf is the text written by a constant format over numbers and strings.
func (ev *Ev) sprintf(c ssa.CallInstruction, format, l *T) *T {
	if len(c.Common().Args) != 2 || l.op != "list" {
		return nil
	}
	k, ok := c.Common().Args[0].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return nil
	}
	vs := ifaceValues(c.Common().Args[1])
	if len(vs) != len(l.args) {
		return nil
	}
	var parts []*T
	f, n := constant.StringVal(k.Value), 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			i = len(f)
		}
		if i > 0 {
			parts = append(parts, mkRaw("const", fmt.Sprintf("%q", f[:i])))
		}
		f = f[i:]
		if f == "" {
			break
		}
		if len(f) < 2 || n >= len(vs) {
			return nil
		}
		t := ifaceType(vs[n])
		if t == nil {
			return nil
		}
		_, named := t.(*types.Named)
		b, basic := t.(*types.Basic)
		switch {
		case named || !basic:
			return nil
		case isInt(t) && (f[1] == 'd' || f[1] == 'v'):
			parts = append(parts, mkItoa(l.args[n]))
		case b.Info()&types.IsString != 0 && (f[1] == 's' || f[1] == 'v'):
			parts = append(parts, l.args[n])
		default:
			return nil
		}
		n++
		f = f[2:]
	}
	if n != len(vs) || len(parts) == 0 {
		return nil
	}
	return mkCat(parts...)
}

func soleVariadicType(c ssa.CallInstruction, i int) types.Type {
	ts := ifaceValues(c.Common().Args[i])
	if len(ts) == 1 {
		return ifaceType(ts[0])
	}
	return nil
}

// pureExternal: functions outside the module whose result depends on the
// arguments only and which change nothing.
func pureExternal(n string) bool {
	for _, p := range []string{"math.", "strings.", "strconv.", "fmt.Sprint", "reflect.DeepEqual", "go.dedis.ch/kyber/v3/proof.", "go.dedis.ch/kyber/v3/shuffle.Verifier",
		"(time.", "(*go.dedis.ch/onet/v3.Tree)",
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).TreeNode", "(*go.dedis.ch/onet/v3.TreeNodeInstance).ServerIdentity", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Parent", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Children",
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).Root", "(*go.dedis.ch/onet/v3.TreeNodeInstance).IsRoot", "(*go.dedis.ch/onet/v3.TreeNodeInstance).IsLeaf", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Tree", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Roster",
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).Private", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Public", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Aggregate", "(*go.dedis.ch/onet/v3.TreeNodeInstance).List", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Index",
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).Name", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Info", "(*go.dedis.ch/onet/v3.TreeNodeInstance).Token", "(*go.dedis.ch/onet/v3.TreeNode)", "(*go.dedis.ch/onet/v3.Roster)", "(go.dedis.ch/onet/v3", "(*go.dedis.ch/onet/v3/network.", "go.dedis.ch/onet/v3/network.", "math/big.", "(*math/big.Int).Int64",
		"(github.com/r0fls/gostats", "github.com/r0fls/gostats", "github.com/Knetic/govaluate.New", "(github.com/Knetic/govaluate", "(github.com/satori/go.uuid.UUID).String", "(*bufio", "bufio.", "os.", "(*os."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func mkJoin(l, sep *T) *T { return mkRaw("join", "", l, sep) }

func mkSplit(s, sep *T) *T {
	if s.op == "join" && s.args[1] == sep {
		return s.args[0]
	}
	return mkRaw("split", "", s, sep)
}

func mkMarshalK(kind string, p *T) *T {
	if p.op == "unmarshal" {
		return p.args[0]
	}
	return mkRaw("marshal", kind, p)
}

func init() {
	lenRules = func(t *T) *T {
		switch t.op {
		case "marshal":
			if t.s == "sc" {
				return mkRaw("param", "SL")
			}
			return mkRaw("param", "PL")
		case "be32":
			return mkInt(4)
		}
		return nil
	}
}
