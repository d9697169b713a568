package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An apath names a memory location (or a value reached through memory) by the
// value it starts from and the selectors followed. Captured variables,
// arguments of directly spawned/called closures and single-assignment locals
// are followed to their origin, so one location has one name in a function and
// in the closures it creates.
type apath struct {
	root ssa.Value
	segs []aseg
}

type aseg struct {
	kind byte // 'f' field, 'i' element, '*' dereference, 'm' map element
	name string
	idx  ssa.Value
}

func (a apath) with(s aseg) apath {
	n := make([]aseg, len(a.segs)+1)
	copy(n, a.segs)
	n[len(a.segs)] = s
	return apath{a.root, n}
}

// key is a printable identity; elements of one container share a key.
func (a apath) key() string {
	var sb strings.Builder
	if g, ok := a.root.(*ssa.Global); ok {
		sb.WriteString(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath) + "." + g.Name())
	} else if a.root.Parent() != nil {
		sb.WriteString(fnKey(a.root.Parent()) + "/" + a.root.Name())
	} else {
		sb.WriteString(a.root.Name())
	}
	for _, s := range a.segs {
		switch s.kind {
		case 'f':
			sb.WriteString("." + s.name)
		case 'i':
			sb.WriteString("[]")
		case 'm':
			sb.WriteString("{}")
		}
	}
	return sb.String()
}

// nice is the key as shown to the reader.
func (a apath) nice() string {
	n := a.root.Name()
	if g, ok := a.root.(*ssa.Global); ok {
		n = g.Pkg.Pkg.Name() + "." + g.Name()
	}
	if al, ok := a.root.(*ssa.Alloc); ok && al.Comment != "" {
		n = al.Comment
	}
	for _, s := range a.segs {
		switch s.kind {
		case 'f':
			n += "." + s.name
		case 'i', 'm':
			n += "[]"
		}
	}
	return n
}

// closureBinding finds the values a closure's free variable stands for.
func closureSites(f *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				out = append(out, mc)
			}
		}
	}
	return out
}

// soleCall finds the only call/go/defer of a closure, when it is not otherwise used.
func soleCall(f *ssa.Function) ssa.CallInstruction {
	if f.Parent() == nil {
		return nil
	}
	var found ssa.CallInstruction
	use := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			c, ok := r.(ssa.CallInstruction)
			if !ok || c.Common().Value != v || found != nil {
				if _, dbg := r.(*ssa.DebugRef); dbg {
					continue
				}
				return false
			}
			found = c
		}
		return true
	}
	mcs := closureSites(f)
	if len(mcs) == 0 {
		// closure without captures: referenced as a plain function value
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == f {
					if found != nil {
						return nil
					}
					found = c
				}
			}
		}
		return found
	}
	for _, mc := range mcs {
		if !use(mc) {
			return nil
		}
	}
	return found
}

// cellValue is the value a local variable's cell always holds, when it is
// assigned exactly once (closures included).
func cellValue(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var scan func(v ssa.Value) bool
	scan = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					val = x.Val
					n++
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return false
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && !scan(f.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !scan(a) || n != 1 {
		return nil
	}
	return val
}

func resolve(v ssa.Value) apath { return resolveD(v, 0) }

func resolveD(v ssa.Value, d int) apath {
	if d > 40 {
		return apath{root: v}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return resolveD(x.X, d+1).with(aseg{kind: 'f', name: st.Field(x.Field).Name()})
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return resolveD(x.X, d+1).with(aseg{kind: 'f', name: st.Field(x.Field).Name()})
	case *ssa.IndexAddr:
		return resolveD(x.X, d+1).with(aseg{kind: 'i', idx: x.Index})
	case *ssa.Index:
		return resolveD(x.X, d+1).with(aseg{kind: 'i', idx: x.Index})
	case *ssa.Lookup:
		return resolveD(x.X, d+1).with(aseg{kind: 'm', idx: x.Index})
	case *ssa.UnOp:
		if x.Op == token.MUL {
			base := x.X
			if fv, ok := base.(*ssa.FreeVar); ok {
				base = bindingOf(fv)
			}
			if al, ok := base.(*ssa.Alloc); ok {
				if w := cellValue(al); w != nil {
					return resolveD(w, d+1)
				}
			}
			p := resolveD(x.X, d+1)
			return p.with(aseg{kind: '*'})
		}
	case *ssa.Slice:
		return resolveD(x.X, d+1)
	case *ssa.ChangeType:
		return resolveD(x.X, d+1)
	case *ssa.MakeInterface:
		return resolveD(x.X, d+1)
	case *ssa.ChangeInterface:
		return resolveD(x.X, d+1)
	case *ssa.TypeAssert:
		return resolveD(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return resolveD(ta.X, d+1)
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return resolveD(lk, d+1)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != x {
			return resolveD(b, d+1)
		}
	case *ssa.Parameter:
		if c := soleCall(x.Parent()); c != nil {
			for i, p := range x.Parent().Params {
				if p == x && i < len(c.Common().Args) {
					return resolveD(c.Common().Args[i], d+1)
				}
			}
		}
	case *ssa.Phi:
		// a variable initialised on one path and declared zero on another
		var one *apath
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			q := resolveD(e, d+8)
			if one == nil {
				one = &q
			} else if one.key() != q.key() {
				return apath{root: x}
			}
		}
		if one != nil {
			return *one
		}
	}
	return apath{root: v}
}

func bindingOf(fv *ssa.FreeVar) ssa.Value {
	mcs := closureSites(fv.Parent())
	if len(mcs) != 1 {
		return fv
	}
	for i, f := range fv.Parent().FreeVars {
		if f == fv {
			return mcs[0].Bindings[i]
		}
	}
	return fv
}

// ---- loops and reachability ------------------------------------------------

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func dominates(a, b *ssa.BasicBlock) bool { return a.Dominates(b) }

// naturalLoops returns the natural loops of a function (loops sharing a header merged), inner first.
func naturalLoops(f *ssa.Function) []*loopInfo {
	byHead := map[*ssa.BasicBlock]*loopInfo{}
	var order []*loopInfo
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !dominates(s, b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				order = append(order, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	sort.Slice(order, func(i, j int) bool {
		if len(order[i].body) != len(order[j].body) {
			return len(order[i].body) < len(order[j].body)
		}
		return order[i].head.Index < order[j].head.Index
	})
	return order
}

// loopsOf returns the loops containing b, innermost first.
func loopsOf(ls []*loopInfo, b *ssa.BasicBlock) []*loopInfo {
	var out []*loopInfo
	for _, l := range ls {
		if l.body[b] {
			out = append(out, l)
		}
	}
	return out
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// deadExit reports a block that ends the process or panics.
func deadExit(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if n := calleeName(x); fatalCall(n) && !strings.Contains(n, "ErrFatal") {
				return true
			}
		}
	}
	return false
}

func fmtKeys(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return fmt.Sprint(ks)
}
