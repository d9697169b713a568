package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Confinement of secrets: an interprocedural forward flow of labels over SSA,
// with two levels of call sites as context for values and one cell per field
// of a struct type.
//
//	lSecret  a scalar (or stream, or permutation) only its owner may know
//	lPlain   a value a data provider marked as sensitive
//	lBlind   a group element multiplied by a secret scalar
//
// A product of a secret scalar and a group element no longer shows the scalar
// (discrete logarithm); a sum with a blinded element no longer shows the plain one
// (ElGamal). Only explicit flows are followed: choosing an element by a secret
// index is no flow of the index.
type label uint8

const (
	lSecret label = 1 << iota
	lPlain
	lBlind
)

func init() {
	register("C14", "every place in lib, protocols, services and cmd where data leaves its owner (network sends, handler replies, fields of published proofs, logs and error texts): none of the values there carries a private key, a survey secret, an ephemeral scalar, a blinding factor or a permutation (interprocedural label propagation; a product of a scalar with a group element and a proof made by the proof library do not show the scalar)", func(p *Prog, r *Report, thorough bool) {
		checkConfined(p, r, lSecret)
	})
	register("C15", "every place in lib, protocols and services where data leaves its owner (network sends, handler replies, published proofs, logs and error texts): none of the values there carries an attribute that a data provider marked as sensitive unless it was added to a group element blinded with a secret scalar (interprocedural label propagation)", func(p *Prog, r *Report, thorough bool) {
		checkConfined(p, r, lPlain)
	})
}

type tctx struct{ c1, c2 ssa.Instruction } // innermost call site first

type tnode struct {
	ctx tctx
	v   interface{} // ssa.Value, retKey or a string for a field
}

type retKey struct {
	f *ssa.Function
	i int
}

type taint struct {
	p       *Prog
	lab     map[tnode]label
	from    map[tnode]string
	changed bool
	on      label // labels followed: blinding is settled before sensitive data is
	callers map[*ssa.Function][]callSite
	funcs   map[string][]*ssa.Function // functions stored in a field
	active  map[*ssa.Function]map[tctx]bool
	params  map[tnode][]tnode // arguments bound to a parameter
	free    map[tnode][]tnode
	clo     map[*ssa.Function][]tctx // contexts of the function that makes the closure
	handler map[*ssa.Function]bool
}

func fieldKey(t types.Type, i int) string {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	return "field " + types.TypeString(t, nil) + "." + fieldName(t, i)
}

func fieldName(t types.Type, i int) string {
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (a *taint) get(n tnode) label { return a.lab[n] }

func (a *taint) add(n tnode, l label, from string) {
	if k, ok := n.v.(string); ok && strings.HasPrefix(k, "field "+modPath+"/lib.DpClearResponse.") {
		// what a provider hands in is marked by its fields: a sum over clear and
		// marked attributes is handed back under the names they came with
		l &^= lPlain
	}
	if l &= a.on; l&^a.lab[n] == 0 {
		return
	}
	switch v := n.v.(type) { // error texts are looked at where they are made
	case ssa.Value:
		if isErrorType(v.Type()) {
			return
		}
	case retKey:
		if isErrorType(v.f.Signature.Results().At(v.i).Type()) {
			return
		}
	}
	if _, ok := a.from[n]; !ok && l&(lSecret|lPlain) != 0 {
		a.from[n] = from
	}
	if os.Getenv("UC_TAINT") != "" {
		if v, ok := n.v.(ssa.Value); ok && v.Parent() != nil {
			fmt.Println("TAINT", l, fnKey(v.Parent()), v.Name(), v, a.p.pos(v.Pos()))
		} else {
			fmt.Println("TAINT", l, n.v)
		}
	}
	a.lab[n] |= l
	a.changed = true
}

func (a *taint) node(ctx tctx, v ssa.Value) tnode {
	switch x := v.(type) {
	case *ssa.Global:
		return tnode{tctx{}, x}
	case *ssa.FreeVar:
		return tnode{ctx, x}
	}
	return tnode{ctx, v}
}

// val is the label of a value; sources are labelled here.
func (a *taint) val(ctx tctx, v ssa.Value) label {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return 0
	case *ssa.Global:
		return a.get(tnode{tctx{}, x})
	}
	return a.get(a.node(ctx, v))
}

func (a *taint) why(ctx tctx, v ssa.Value) string { return a.from[a.node(ctx, v)] }

// loc is the node of the memory an address refers to.
func (a *taint) loc(ctx tctx, addr ssa.Value) tnode {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return tnode{tctx{}, fieldKey(x.X.Type(), x.Field)}
	case *ssa.IndexAddr:
		if q, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if _, ok := q.Elem().Underlying().(*types.Array); ok {
				return a.loc(ctx, x.X)
			}
		}
		return a.node(ctx, x.X)
	}
	return a.node(ctx, addr)
}

// put labels memory reached through a value, and whatever else refers to it.
func (a *taint) put(ctx tctx, v ssa.Value, l label, from string, d int) {
	if l == 0 || d > 12 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function:
		return
	case *ssa.FieldAddr:
		a.add(tnode{tctx{}, fieldKey(x.X.Type(), x.Field)}, l, from)
		return
	case *ssa.IndexAddr:
		a.put(ctx, x.X, l, from, d+1)
		return
	}
	n := a.node(ctx, v)
	if l&^a.lab[n] == 0 && d > 0 {
		return
	}
	a.add(n, l, from)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.put(ctx, x.X, l, from, d+1)
		}
	case *ssa.Field:
		a.add(tnode{tctx{}, fieldKey(x.X.Type(), x.Field)}, l, from)
	case *ssa.Slice:
		a.put(ctx, x.X, l, from, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.put(ctx, e, l, from, d+1)
		}
	case *ssa.ChangeType:
		a.put(ctx, x.X, l, from, d+1)
	case *ssa.ChangeInterface:
		a.put(ctx, x.X, l, from, d+1)
	case *ssa.MakeInterface:
		a.put(ctx, x.X, l, from, d+1)
	case *ssa.TypeAssert:
		a.put(ctx, x.X, l, from, d+1)
	case *ssa.Lookup:
		a.put(ctx, x.X, l, from, d+1)
	case *ssa.Parameter, *ssa.FreeVar:
		for _, m := range a.params[n] {
			if w, ok := m.v.(ssa.Value); ok {
				if isRefLike(w.Type()) {
					a.put(m.ctx, w, l, from, d+1)
				}
			}
		}
	}
}

func isRefLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func push(c ssa.Instruction, ctx tctx) tctx { return tctx{c, ctx.c1} }

func (a *taint) run() {
	for round := 0; round < 60; round++ {
		a.changed = false
		for _, f := range a.p.Funcs {
			var cs []tctx
			for c := range a.active[f] {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return ctxKey(cs[i]) < ctxKey(cs[j]) })
			for _, c := range cs {
				a.function(f, c)
			}
		}
		if !a.changed {
			return
		}
	}
}

func ctxKey(c tctx) string {
	k := ""
	for _, x := range []ssa.Instruction{c.c1, c.c2} {
		if x != nil {
			k += fmt.Sprintf("%d.", x.Pos())
		}
	}
	return k
}

func (a *taint) enter(f *ssa.Function, c tctx) {
	if a.active[f] == nil {
		a.active[f] = map[tctx]bool{}
	}
	if !a.active[f][c] {
		a.active[f][c] = true
		a.changed = true
	}
}

func (a *taint) bind(to, from tnode) {
	for _, m := range a.params[to] {
		if m == from {
			return
		}
	}
	a.params[to] = append(a.params[to], from)
	a.changed = true
}

func (a *taint) function(f *ssa.Function, ctx tctx) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			a.instr(f, ctx, in)
		}
	}
}

func (a *taint) set(ctx tctx, v ssa.Value, l label, from string) { a.add(a.node(ctx, v), l, from) }

func (a *taint) copyTo(ctx tctx, v ssa.Value, xs ...ssa.Value) {
	for _, x := range xs {
		if l := a.val(ctx, x); l != 0 {
			a.set(ctx, v, l, a.why(ctx, x))
		}
	}
}

// sourceField: fields that hold secrets or sensitive data from the start.
func (a *taint) sourceField(t types.Type, i int) label {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	switch typeFull(t) + "." + fieldName(t, i) {
	case "go.dedis.ch/kyber/v3/util/key.Pair.Private":
		return lSecret
	case modPath + "/lib.DpClearResponse.GroupByEnc", modPath + "/lib.DpClearResponse.WhereEnc", modPath + "/lib.DpClearResponse.AggregatingAttributesEnc":
		return lPlain
	}
	return 0
}

func typeFull(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (a *taint) instr(f *ssa.Function, ctx tctx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			n := a.loc(ctx, x.X)
			a.set(ctx, x, a.get(n), a.from[n])
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				// an index picked at a secret place is a secret index (permutations)
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && a.val(ctx, ia.Index)&lSecret != 0 {
					a.set(ctx, x, lSecret, a.why(ctx, ia.Index))
				}
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if l := a.sourceField(fa.X.Type(), fa.Field); l != 0 {
					a.set(ctx, x, l, a.p.pos(x.Pos())+" "+fieldName(deref(fa.X.Type()), fa.Field))
				}
			}
		case token.ARROW:
			n := a.loc(ctx, x.X)
			a.set(ctx, x, a.get(n), a.from[n])
		default:
			a.copyTo(ctx, x, x.X)
		}
	case *ssa.Field:
		n := tnode{tctx{}, fieldKey(x.X.Type(), x.Field)}
		a.set(ctx, x, a.get(n), a.from[n])
		if l := a.sourceField(x.X.Type(), x.Field); l != 0 {
			a.set(ctx, x, l, a.p.pos(x.Pos())+" "+fieldName(x.X.Type(), x.Field))
		}
	case *ssa.FieldAddr:
		// labelled by location
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		ops := in.Operands(nil)
		a.copyTo(ctx, in.(ssa.Value), *ops[0])
	case *ssa.Store:
		l := a.val(ctx, x.Val)
		if l != 0 {
			a.put(ctx, x.Addr, l, a.why(ctx, x.Val), 0)
		}
		if g := funcValue(x.Val); g != nil {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				a.funcAt(fieldKey(fa.X.Type(), fa.Field), g)
			}
		}
	case *ssa.MapUpdate:
		if l := a.val(ctx, x.Value); l != 0 {
			a.put(ctx, x.Map, l, a.why(ctx, x.Value), 0)
		}
	case *ssa.Send:
		if l := a.val(ctx, x.X); l != 0 {
			a.put(ctx, x.Chan, l, a.why(ctx, x.X), 0)
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				if l := a.val(ctx, s.Send); l != 0 {
					a.put(ctx, s.Chan, l, a.why(ctx, s.Send), 0)
				}
			} else {
				a.copyTo(ctx, x, s.Chan)
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			a.copyTo(ctx, x, x.X, x.Y)
		}
	case *ssa.Phi:
		a.copyTo(ctx, x, x.Edges...)
	case *ssa.Convert:
		a.copyTo(ctx, x, x.X)
	case *ssa.ChangeType:
		a.copyTo(ctx, x, x.X)
	case *ssa.ChangeInterface:
		a.copyTo(ctx, x, x.X)
	case *ssa.MakeInterface:
		a.copyTo(ctx, x, x.X)
	case *ssa.SliceToArrayPointer:
		a.copyTo(ctx, x, x.X)
	case *ssa.TypeAssert:
		a.copyTo(ctx, x, x.X)
	case *ssa.Slice:
		n := a.loc(ctx, x.X)
		a.set(ctx, x, a.get(n), a.from[n])
		a.copyTo(ctx, x, x.X)
	case *ssa.Range:
		a.copyTo(ctx, x, x.X)
	case *ssa.Next:
		a.copyTo(ctx, x, x.Iter)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok && x.Index != 2 {
			return // the key, or whether there is one
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			n := tnode{ctx, retAt{c, x.Index}}
			a.set(ctx, x, a.get(n), a.from[n])
			return
		}
		if _, ok := x.Type().Underlying().(*types.Basic); ok && x.Index > 0 {
			if b := x.Type().Underlying().(*types.Basic); b.Kind() == types.Bool {
				return
			}
		}
		a.copyTo(ctx, x, x.Tuple)
	case *ssa.Return:
		for i, v := range x.Results {
			if l := a.val(ctx, v); l != 0 {
				a.add(tnode{ctx, retKey{f, i}}, l, a.why(ctx, v))
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			// every context the closure is called in sees what it captures
			for c := range a.active[g] {
				to := tnode{c, g.FreeVars[i]}
				a.bind(to, a.node(ctx, b))
				n := a.loc(ctx, b)
				a.add(to, a.get(n), a.from[n])
			}
		}
		if a.active[g] == nil { // passed on: analysed on its own
			a.enter(g, tctx{})
		}
	case ssa.CallInstruction:
		a.call(f, ctx, x)
	}
}

type retAt struct {
	c *ssa.Call
	i int
}

func (a *taint) funcAt(k string, g *ssa.Function) {
	for _, h := range a.funcs[k] {
		if h == g {
			return
		}
	}
	a.funcs[k] = append(a.funcs[k], g)
	a.changed = true
}

// targets are the functions of the repository a call may run.
func (a *taint) targets(c ssa.CallInstruction) []*ssa.Function {
	if g := staticCallee(c); g != nil {
		if g.Blocks != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return []*ssa.Function{g}
		}
		return nil
	}
	if c.Common().IsInvoke() {
		return nil
	}
	if u, ok := c.Common().Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return a.funcs[fieldKey(fa.X.Type(), fa.Field)]
		}
	}
	if g := funcValue(c.Common().Value); g != nil {
		return []*ssa.Function{g}
	}
	return nil
}

func (a *taint) result(ctx tctx, c ssa.CallInstruction, i int, l label, from string) {
	v, ok := c.(*ssa.Call)
	if !ok || l == 0 {
		return
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		a.add(tnode{ctx, retAt{v, i}}, l, from)
		return
	}
	a.set(ctx, v, l, from)
}

func (a *taint) call(f *ssa.Function, ctx tctx, c ssa.CallInstruction) {
	cc := c.Common()
	if ts := a.targets(c); len(ts) > 0 {
		for _, g := range ts {
			nc := push(c, ctx)
			a.enter(g, nc)
			for i, v := range cc.Args {
				if i < len(g.Params) {
					to := tnode{nc, g.Params[i]}
					a.bind(to, a.node(ctx, v))
					a.add(to, a.val(ctx, v), a.why(ctx, v))
				}
			}
			n := g.Signature.Results().Len()
			for i := 0; i < n; i++ {
				q := tnode{nc, retKey{g, i}}
				a.result(ctx, c, i, a.get(q), a.from[q])
			}
		}
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v, ok := c.(*ssa.Call); ok {
				a.copyTo(ctx, v, cc.Args...)
			}
			if len(cc.Args) > 1 {
				if l := a.val(ctx, cc.Args[1]); l != 0 {
					a.put(ctx, cc.Args[0], l, a.why(ctx, cc.Args[1]), 0)
				}
			}
		case "copy":
			if l := a.val(ctx, cc.Args[1]); l != 0 {
				a.put(ctx, cc.Args[0], l, a.why(ctx, cc.Args[1]), 0)
			}
		}
		return
	}
	name := calleeName(c)
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	} else {
		args = cc.Args
	}
	kind := ""
	if cc.IsInvoke() {
		kind = kyberKind(cc.Value.Type())
	}
	if kind != "" {
		a.kyber(ctx, c, kind, cc.Method.Name(), args)
		return
	}
	here := a.p.pos(c.Pos())
	switch {
	case name == "go.dedis.ch/kyber/v3/util/random.New" || strings.HasSuffix(name, ").RandomStream"):
		a.result(ctx, c, 0, lSecret, here+" random stream")
		return
	case strings.HasPrefix(name, "(*go.dedis.ch/onet/v3.TreeNodeInstance).Private"), strings.HasSuffix(name, ").GetPrivate"), strings.HasSuffix(name, "go.dedis.ch/onet/v3.TreeNodeInstance).Private"):
		a.result(ctx, c, 0, lSecret, here+" private key")
		return
	case strings.HasPrefix(name, "go.dedis.ch/kyber/v3/proof."), strings.HasPrefix(name, "(go.dedis.ch/kyber/v3/proof."),
		strings.HasPrefix(name, "go.dedis.ch/kyber/v3/shuffle."), strings.HasPrefix(name, "crypto/sha"), strings.HasPrefix(name, "(hash."):
		return // proofs and hashes do not show what they are made from
	}
	if strings.HasPrefix(name, "(go.dedis.ch/kyber/v3.Group).") || strings.HasPrefix(name, "(go.dedis.ch/kyber/v3.XOFFactory).") {
		if cc.Method.Name() == "XOF" {
			for _, v := range cc.Args {
				a.result(ctx, c, 0, a.val(ctx, v)&lSecret, a.why(ctx, v))
			}
		}
		return
	}
	// other code outside the repository: the results, and what the receiver
	// and pointers among the arguments refer to, may hold any of the arguments
	var l label
	from := ""
	for _, v := range args {
		if k := a.val(ctx, v); k != 0 {
			l |= k
			if from == "" {
				from = a.why(ctx, v)
			}
		}
	}
	l &^= lBlind
	if l == 0 || isLogCall(name) {
		return
	}
	if rs := cc.Signature().Results(); rs != nil {
		for i := 0; i < rs.Len(); i++ {
			if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				continue
			}
			a.result(ctx, c, i, l, from)
		}
	}
	if isSendCall(name) {
		return
	}
	if len(args) > 1 && (cc.IsInvoke() || cc.Signature().Recv() != nil) && isRefLike(args[0].Type()) && !strings.Contains(name, "onet") {
		a.put(ctx, args[0], l, from, 0)
	}
}

func isSendCall(name string) bool {
	i := strings.LastIndexByte(name, '.')
	if !strings.Contains(name, "go.dedis.ch/onet") {
		return false
	}
	switch name[i+1:] {
	case "SendTo", "SendToParent", "SendToChildren", "SendToChildrenInParallel", "Broadcast", "Multicast", "SendRaw", "SendProtobuf", "SendProtobufParallel", "Send", "Marshal":
		return true
	}
	return false
}

func (a *taint) kyber(ctx tctx, c ssa.CallInstruction, kind, m string, args []ssa.Value) {
	set := func(l label, from string) {
		a.result(ctx, c, 0, l, from)
		if l != 0 {
			a.put(ctx, args[0], l, from, 0)
		}
	}
	var l label
	from := ""
	take := func(vs ...ssa.Value) {
		for _, v := range vs {
			if k := a.val(ctx, v); k != 0 {
				l |= k
				if w := a.why(ctx, v); from == "" && w != "" {
					from = w
				}
			}
		}
	}
	switch m {
	case "Equal", "MarshalSize", "EmbedLen", "Zero", "One", "Null", "Base":
		return
	case "MarshalBinary", "String", "Clone", "Data":
		take(args[0])
		if m != "Clone" {
			l &^= lBlind
		}
		a.result(ctx, c, 0, l, from)
		return
	case "MarshalTo":
		take(args[0])
		if len(args) > 1 {
			a.put(ctx, args[1], l&^lBlind, from, 0)
		}
		return
	case "UnmarshalBinary", "UnmarshalFrom", "SetBytes":
		take(args[1:]...)
		set(l, from)
		return
	case "Pick", "Embed":
		take(args[1:]...)
		set(l&(lSecret|lPlain), from)
		return
	}
	if kind == "sc" {
		take(args[1:]...)
		set(l&^lBlind, from)
		return
	}
	switch m {
	case "Mul":
		take(args[1:]...)
		if a.val(ctx, args[1])&lSecret != 0 {
			l |= lBlind
		}
		set(l&^lSecret, from)
	case "Add", "Sub":
		take(args[1:]...)
		if len(args) == 3 {
			x, y := a.val(ctx, args[1]), a.val(ctx, args[2])
			if x&lPlain != 0 && y&(lBlind|lPlain) == lBlind || y&lPlain != 0 && x&(lBlind|lPlain) == lBlind {
				l &^= lPlain
			}
		}
		set(l, from)
	default:
		take(args[1:]...)
		set(l, from)
	}
}

func (a *taint) leak(ctx tctx, v ssa.Value, want label) (string, bool) {
	if a.val(ctx, v)&want != 0 {
		return a.why(ctx, v), true
	}
	// the elements of a variadic argument
	for _, w := range ifaceValues(v) {
		if a.val(ctx, w)&want != 0 {
			return a.why(ctx, w), true
		}
	}
	return "", false
}

// leakType: a field reachable in a value of the type holds a labelled value.
func (a *taint) leakType(t types.Type, want label, seen map[string]bool) (string, string, bool) {
	text := seen[asText] // printing stops at pointers inside, and at types that print themselves
	if text && (len(seen) > 1 && isPtr(t) || printsItself(t)) {
		return "", "", false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return a.leakType(u.Elem(), want, seen)
	case *types.Slice:
		return a.leakType(u.Elem(), want, seen)
	case *types.Array:
		return a.leakType(u.Elem(), want, seen)
	case *types.Map:
		return a.leakType(u.Elem(), want, seen)
	case *types.Struct:
		s := types.TypeString(t, nil)
		if seen[s] {
			return "", "", false
		}
		seen[s] = true
		if n := typeFull(t); n != "" && !strings.HasPrefix(n, modPath) {
			return "", "", false
		}
		for i := 0; i < u.NumFields(); i++ {
			if text && (isPtr(u.Field(i).Type()) || !u.Field(i).Exported() && kyberKind(u.Field(i).Type()) != "") {
				continue // printed as an address
			}
			n := tnode{tctx{}, fieldKey(t, i)}
			if a.get(n)&want != 0 {
				return u.Field(i).Name(), a.from[n], true
			}
			if a.sourceField(t, i)&want != 0 {
				return u.Field(i).Name(), "the field itself", true
			}
			if f, w, ok := a.leakType(u.Field(i).Type(), want, seen); ok {
				return f, w, true
			}
		}
	}
	return "", "", false
}

func holdsScalar(t types.Type) bool {
	switch u := t.(type) {
	case *types.Slice:
		return holdsScalar(u.Elem())
	case *types.Pointer:
		return holdsScalar(u.Elem())
	}
	return kyberKind(t) == "sc"
}

const asText = "as text"

// printsItself: package fmt calls a method of the type.
func printsItself(t types.Type) bool {
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		if o, _, _ := types.LookupFieldOrMethod(t, false, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func checkConfined(p *Prog, r *Report, want label) {
	a := &taint{p: p, lab: map[tnode]label{}, from: map[tnode]string{}, callers: callerIndex(p), funcs: map[string][]*ssa.Function{}, active: map[*ssa.Function]map[tctx]bool{}, params: map[tnode][]tnode{}}
	pkgs := []string{"lib", "protocols", "services", "cmd"}
	var scalars []tnode
	for _, f := range p.Funcs {
		if inScope(f, pkgs...) && f.Parent() == nil {
			a.enter(f, tctx{})
			// scalars a caller outside the repository passes in are its secrets
			if pkgOf(f) == "lib" || strings.HasPrefix(pkgOf(f), "lib/") {
				if f.Object() != nil && f.Object().Exported() {
					for _, q := range f.Params {
						if holdsScalar(q.Type()) {
							scalars = append(scalars, tnode{tctx{}, q})
						}
					}
				}
			}
		}
	}
	for _, a.on = range []label{lSecret | lBlind, lSecret | lBlind | lPlain} {
		for _, n := range scalars {
			v := n.v.(*ssa.Parameter)
			a.add(n, lSecret, p.pos(v.Pos())+" "+v.Name())
		}
		a.run()
	}
	what := map[label]string{lSecret: "a secret", lPlain: "a sensitive attribute"}[want]
	leaks := func(f *ssa.Function, rule, sink string, pos token.Pos, ctx tctx, v ssa.Value) {
		if w, ok := a.leak(ctx, v, want); ok {
			r.bad(rule, fnKey(f)+" "+sink, p.pos(pos), "%s shows %s in clear (from %s)", sink, what, w)
		}
	}
	for _, f := range p.Funcs {
		if !inScope(f, pkgs...) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					name := calleeName(x)
					send, txt := isSendCall(name), isLogCall(name) || name == "fmt.Errorf" || name == "errors.New"
					if !send && !txt {
						continue
					}
					short := name[strings.LastIndexByte(name, '.')+1:]
					rule := "text"
					if send {
						rule = "message"
					}
					r.ob(rule, fnKey(f)+": "+short+" at "+p.pos(x.Pos()))
					cc := x.Common()
					for c := range a.active[f] {
						for i, v := range cc.Args {
							if i == 0 && !cc.IsInvoke() && cc.Signature().Recv() != nil {
								continue
							}
							leaks(f, rule, short, x.Pos(), c, v)
						}
					}
					if txt {
						for _, v := range cc.Args {
							for _, w := range ifaceValues(v) {
								t := w.Type()
								if m, ok := w.(*ssa.MakeInterface); ok {
									t = m.X.Type()
								}
								if fl, o, ok := a.leakType(t, want, map[string]bool{asText: true}); ok {
									r.bad(rule, fnKey(f)+" "+short+" "+typeName(t)+"."+fl, p.pos(x.Pos()), "%s prints a %s, which holds %s in field %s (from %s)", short, typeName(t), what, fl, o)
								}
							}
						}
					}
					if send {
						for i, v := range cc.Args {
							if i == 0 && !cc.IsInvoke() && cc.Signature().Recv() != nil {
								continue
							}
							for _, t := range msgTypesOf(v, a.callers, 0) {
								if fl, w, ok := a.leakType(t, want, map[string]bool{}); ok {
									r.bad(rule, fnKey(f)+" "+short+" "+typeName(t)+"."+fl, p.pos(x.Pos()), "message %s holds %s in clear in field %s (from %s)", typeName(t), what, fl, w)
								}
							}
						}
					}
				case *ssa.Return:
					if pkgOf(f) != "services" || f.Signature.Results().Len() == 0 || !isAny(f.Signature.Results().At(0).Type()) || len(x.Results) == 0 {
						continue
					}
					r.ob("reply", fnKey(f))
					for c := range a.active[f] {
						leaks(f, "reply", "reply", x.Pos(), c, x.Results[0])
					}
					for _, t := range msgTypesOf(x.Results[0], a.callers, 0) {
						if fl, w, ok := a.leakType(t, want, map[string]bool{}); ok {
							r.bad("reply", fnKey(f)+" reply "+typeName(t)+"."+fl, p.pos(x.Pos()), "reply %s holds %s in clear in field %s (from %s)", typeName(t), what, fl, w)
						}
					}
				}
			}
		}
	}
	// proofs are published as they are
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !strings.HasPrefix(n, "Published") {
				continue
			}
			r.ob("proof", typeName(tn.Type()))
			if fl, w, ok := a.leakType(tn.Type(), want, map[string]bool{}); ok {
				r.bad("proof", typeName(tn.Type())+"."+fl, p.pos(tn.Pos()), "published proof %s holds %s in clear in field %s (from %s)", typeName(tn.Type()), what, fl, w)
			}
		}
	}
	n := 0
	for k := range a.lab {
		if a.lab[k]&want != 0 {
			n++
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d values and fields may hold %s", n, what))
	r.ob("labelled", fmt.Sprintf("%d values", n))
	if n < 20 {
		r.bad("labelled", "sources", "", "only %d labelled values: the sources of secrets were not found", n)
	}
	r.min("message", 10)
	r.min("text", 100)
	r.min("proof", 6)
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}
