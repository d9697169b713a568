package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C04: error discipline.
//
// For every call site that can produce an error the error value is tracked
// along every control-flow path of the calling function until it is consumed:
// returned (possibly wrapped), turned into another non-nil error result,
// stored in an error variable shared with the spawning function, sent on a
// channel, or ended in a fatal call. A path on which the error is never
// compared with nil, or is known non-nil and the function goes on or returns
// success, is a violation.
// ---------------------------------------------------------------------------

type errState struct {
	alias      map[ssa.Value]bool
	cells      map[ssa.Value]bool
	nilVals    map[ssa.Value]bool
	nonNilVals map[ssa.Value]bool
	nonnil     bool
	logged     bool
	needJoin   bool // cell written by a goroutine that has not been waited for yet
}

func (s *errState) clone() *errState {
	n := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, s.nonnil, s.logged, s.needJoin}
	for k := range s.alias {
		n.alias[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	for k := range s.nilVals {
		n.nilVals[k] = true
	}
	for k := range s.nonNilVals {
		n.nonNilVals[k] = true
	}
	return n
}

func (s *errState) key() string {
	var a []string
	for k := range s.alias {
		a = append(a, k.Name())
	}
	for k := range s.cells {
		a = append(a, "*"+k.Name())
	}
	for k := range s.nilVals {
		a = append(a, "0"+k.Name())
	}
	sort.Strings(a)
	return fmt.Sprint(a, s.nonnil, s.logged, s.needJoin)
}

type errTracker struct {
	p       *Prog
	fn      *ssa.Function
	origin  ssa.Instruction
	seen    map[string]bool
	problem string
	depth   int
	// for parameter tracking
	exits  int
	allOK  bool
	anyLog bool
	// an exit on which the error was not logged
	unlogged bool
	isParam  bool
	steps    int
}

func (t *errTracker) fail(format string, a ...interface{}) {
	if t.problem == "" {
		t.problem = fmt.Sprintf(format, a...)
	}
}

func hasErrorResult(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// joinedWorker tells whether the closure signals a WaitGroup.
func callsDone(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if calleeName(c) == "(*sync.WaitGroup).Done" {
					return true
				}
				if f := staticCallee(c); f != nil && inRepoFn(f) && callsDone(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

func inRepoFn(f *ssa.Function) bool {
	o := outermost(f)
	return o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
}

// callsWait tells whether the call (transitively, within the repository) waits on a WaitGroup.
func callsWait(c ssa.CallInstruction, seen map[*ssa.Function]bool) bool {
	if calleeName(c) == "(*sync.WaitGroup).Wait" {
		return true
	}
	f := staticCallee(c)
	if f == nil || !inRepoFn(f) || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(*ssa.Call); ok && callsWait(cc, seen) {
				return true
			}
		}
	}
	return false
}

// walk explores all paths from instruction index i of block b.
func (t *errTracker) walk(b *ssa.BasicBlock, i int, s *errState) {
	if t.problem != "" && !t.isParam {
		return
	}
	t.steps++
	if t.steps > 20000 {
		return
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Extract:
			if c, ok := t.origin.(*ssa.Call); ok && x.Tuple == ssa.Value(c) && isErrorType(x.Type()) {
				s.alias[x] = true
			} else if s.alias[x.Tuple] && isErrorType(x.Type()) {
				s.alias[x] = true
			}
		case *ssa.MakeInterface:
			if s.alias[x.X] {
				s.alias[x] = true
			}
		case *ssa.ChangeInterface:
			if s.alias[x.X] {
				s.alias[x] = true
			}
		case *ssa.ChangeType:
			if s.alias[x.X] {
				s.alias[x] = true
			}
		case *ssa.TypeAssert:
			if s.alias[x.X] {
				s.alias[x] = true
			}
		case *ssa.Slice:
			if s.cells[x.X] {
				s.alias[x] = true
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && (s.alias[x.X] || s.alias[x.Y]) {
				s.alias[x] = true // message built from the error
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && s.cells[x.X] && !s.needJoin {
				s.alias[x] = true
			} else {
				delete(s.alias, x)
			}
			if x.Op == token.MUL && isErrorType(x.Type()) {
				delete(s.nilVals, x)
				if s.nilVals[x.X] {
					s.nilVals[x] = true
				}
			}
		case *ssa.Store:
			// the result of a function that defers calls is kept in a variable
			if al, ok := x.Addr.(*ssa.Alloc); ok && isErrorType(x.Val.Type()) && !captured(al) {
				delete(s.nilVals, al)
				if isNilConst(x.Val) || s.nilVals[x.Val] {
					s.nilVals[al] = true
				}
			}
			if s.alias[x.Val] {
				addr := x.Addr
				switch a := addr.(type) {
				case *ssa.FreeVar, *ssa.Global:
					if isErrorType(x.Val.Type()) {
						return // recorded in a variable shared with the enclosing function (its check is a separate obligation)
					}
				case *ssa.IndexAddr:
					if isErrorType(x.Val.Type()) && readElsewhere(t.fn, a) {
						return // recorded in a list of errors that is gone through later
					}
					s.cells[a.X] = true
				case *ssa.FieldAddr:
					return // recorded in a structure
				default:
					s.cells[addr] = true
				}
			} else if s.cells[x.Addr] && !s.needJoin {
				if _, isAlloc := x.Addr.(*ssa.Alloc); isAlloc {
					delete(s.cells, x.Addr)
				}
			}
		case *ssa.Send:
			if s.alias[x.X] {
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Call:
			if x == t.origin {
				if s.nonnil && !s.needJoin {
					t.fail("after the error is known to be non-nil the loop carries on")
					return
				}
				if !s.needJoin && len(s.cells) == 0 {
					t.fail("overwritten on the next loop iteration without being checked")
				}
				return
			}
			name := calleeName(x)
			if s.needJoin && callsWait(x, map[*ssa.Function]bool{}) {
				s.needJoin = false
				continue
			}
			uses := false
			argIdx := -1
			for k, a := range x.Common().Args {
				if s.alias[a] {
					uses = true
					argIdx = k
				}
			}
			if x.Common().IsInvoke() && s.alias[x.Common().Value] {
				uses = true
				if name == "(error).Error" && !s.nonnil {
					// reading the message does not decide anything
				}
			}
			if name == "builtin append" && uses {
				return // collected in a list of errors
			}
			if strings.HasPrefix(name, "go.dedis.ch/onet/v3/log.ErrFatal") {
				if uses {
					return
				}
				continue
			}
			if fatalCall(name) {
				return
			}
			if (name == "os.IsNotExist" || name == "os.IsExist") && uses {
				return // classified by the caller
			}
			if s.nonnil && isLogCall(name) && !uses && !hasErrorResult(t.fn.Signature) {
				s.logged = true
			}
			if s.nonnil && name == "(error).Error" && !uses && !s.nonNilVals[x.Common().Value] {
				t.fail("known non-nil, but the message is taken from another error variable, which is not known to be non-nil (nil dereference)")
				return
			}
			if uses {
				if isLogCall(name) {
					s.logged = true
					continue
				}
				if f := staticCallee(x); f != nil && inRepoFn(f) && argIdx >= 0 && t.depth < 4 {
					k := argIdx
					if k < len(f.Params) {
						consumed, logged := trackParam(t.p, f, f.Params[k], t.depth+1)
						if consumed {
							return
						}
						if logged { // compared with nil and logged there
							s.logged, s.nonnil = true, true
						}
					}
				}
				res := x.Type()
				if tup, ok := res.(*types.Tuple); ok {
					for k := 0; k < tup.Len(); k++ {
						if isErrorType(tup.At(k).Type()) {
							s.alias[x] = true
						}
					}
				} else if isErrorType(res) || isStringType(res) || isBoolType(res) {
					if !isBoolType(res) {
						s.alias[x] = true
					}
				}
			}
		case *ssa.Return:
			t.ret(x, s)
			return
		case *ssa.If:
			if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				var v ssa.Value
				if isNilConst(bo.Y) {
					v = bo.X
				} else if isNilConst(bo.X) {
					v = bo.Y
				}
				if v != nil && isErrorType(v.Type()) {
					nn, nl := b.Succs[0], b.Succs[1]
					if bo.Op == token.EQL {
						nn, nl = nl, nn
					}
					if s.alias[v] {
						ns := s.clone()
						ns.nonnil = true
						t.edge(b, nn, ns)
						if !s.nonnil {
							// known nil from here on: nothing left to do on this path
						}
						return
					}
					s2 := s.clone()
					s2.nilVals[v] = true
					if !s.nilVals[v] {
						s3 := s.clone()
						s3.nonNilVals[v] = true
						t.edge(b, nn, s3)
					}
					t.edge(b, nl, s2)
					return
				}
			}
			t.edge(b, b.Succs[0], s.clone())
			t.edge(b, b.Succs[1], s.clone())
			return
		case *ssa.Jump:
			t.edge(b, b.Succs[0], s)
			return
		}
	}
}

// captured: a closure can change the variable.
func captured(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// readElsewhere: elements of the list of errors are read outside the worker that fills it in.
func readElsewhere(fn *ssa.Function, a *ssa.IndexAddr) bool {
	if fn.Parent() == nil {
		return false
	}
	list := outerValue(a.X)
	if list == nil {
		return false
	}
	out := list.Parent()
	for _, b := range out.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if outerValue(x.X) == list && x.Referrers() != nil {
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							return true
						}
					}
				}
			case *ssa.Call:
				for _, q := range x.Call.Args {
					if outerValue(q) == list && calleeName(x) != "builtin len" {
						return true
					}
				}
			case *ssa.Return:
				for _, q := range x.Results {
					if outerValue(q) == list {
						return true
					}
				}
			}
		}
	}
	return false
}

// outerValue is the list made in an enclosing function that a captured variable holds.
func outerValue(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.MakeSlice:
			return x
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.FreeVar:
			f := x.Parent()
			if f.Parent() == nil {
				return nil
			}
			var bound ssa.Value
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						for k, fv := range f.FreeVars {
							if fv == x {
								bound = mc.Bindings[k]
							}
						}
					}
				}
			}
			if bound == nil {
				return nil
			}
			v = bound
		case *ssa.Alloc:
			if w := soleStore(x); w != nil {
				v = w
				continue
			}
			return x
		default:
			return nil
		}
	}
	return nil
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (t *errTracker) edge(from, to *ssa.BasicBlock, s *errState) {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	n := 0
	newAlias := map[ssa.Value]bool{}
	newNil := map[ssa.Value]bool{}
	var phis []ssa.Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		phis = append(phis, ph)
		if pi >= 0 {
			if s.alias[ph.Edges[pi]] {
				newAlias[ph] = true
			}
			if s.nilVals[ph.Edges[pi]] || isNilConst(ph.Edges[pi]) {
				newNil[ph] = true
			}
		}
	}
	for _, ph := range phis {
		delete(s.alias, ph)
		delete(s.nilVals, ph)
		if newAlias[ph] {
			s.alias[ph] = true
		}
		if newNil[ph] {
			s.nilVals[ph] = true
		}
	}
	k := fmt.Sprint(to.Index, s.key())
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	t.walk(to, n, s)
}

func (t *errTracker) ret(x *ssa.Return, s *errState) {
	t.exits++
	for _, r := range x.Results {
		if s.alias[r] {
			return
		}
	}
	where := t.p.pos(x.Pos())
	if t.isParam {
		t.allOK = false
		if s.logged {
			t.anyLog = true
		} else {
			t.unlogged = true
		}
		return
	}
	if !s.nonnil {
		if s.needJoin {
			t.fail("the error variable written by the goroutine is not checked after waiting for it before the return at %s", where)
		} else {
			t.fail("never compared with nil before the return at %s", where)
		}
		return
	}
	sig := t.fn.Signature
	if hasErrorResult(sig) {
		for _, r := range x.Results {
			if !isErrorType(r.Type()) {
				continue
			}
			if isNilConst(r) {
				t.fail("known non-nil, but the return at %s reports success", where)
			} else if s.nilVals[r] {
				t.fail("known non-nil, but the return at %s yields another error variable that is nil there", where)
			}
		}
		return
	}
	for _, r := range x.Results {
		if c, ok := r.(*ssa.Const); ok && isBoolType(r.Type()) && c.Value != nil && c.Value.String() == "false" {
			return
		}
	}
	if len(x.Results) == 1 && isBoolType(x.Results[0].Type()) {
		if c, ok := x.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
			t.fail("known non-nil, but the return at %s reports success", where)
			return
		}
	}
	if s.logged && !t.workerOfErrorFunc() {
		return
	}
	if s.logged {
		t.fail("only logged in a joined worker: the spawning function, which returns an error, is not told")
		return
	}
	t.fail("known non-nil, but dropped at the return at %s", where)
}

// workerOfErrorFunc: a closure that signals a WaitGroup inside a function that can report errors.
func (t *errTracker) workerOfErrorFunc() bool {
	if t.fn.Parent() == nil {
		return false
	}
	return hasErrorResult(outermost(t.fn).Signature) && callsDone(t.fn, map[*ssa.Function]bool{})
}

// trackParam decides what a callee does with an error it is handed.
func trackParam(p *Prog, f *ssa.Function, prm *ssa.Parameter, depth int) (consumed, logged bool) {
	if len(f.Blocks) == 0 {
		return false, false
	}
	t := &errTracker{p: p, fn: f, seen: map[string]bool{}, isParam: true, allOK: true, depth: depth}
	s := &errState{map[ssa.Value]bool{prm: true}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, true, false, false}
	if !isErrorType(prm.Type()) {
		s.alias[prm] = true
	}
	t.walk(f.Blocks[0], 0, s)
	if t.problem != "" {
		return false, false
	}
	return t.allOK && t.exits == 0, t.anyLog && !t.unlogged
}

// errCallExempt lists callees whose error result carries no information here.
func errCallExempt(name string) (string, bool) {
	switch name {
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return "console output", true
	case "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		return "in-memory buffer: documented never to fail", true
	case "(*os.File).Close", "(io.Closer).Close":
		return "closing after the contents were used", true
	}
	return "", false
}

// errSiteExempt are the confirmed special cases, keyed by function; they hold
// as well in helpers called by no other function.
var errSiteExempt = map[string]string{
	"lib.DecryptInt":        "documented sentinel: a failed decryption yields 0",
	"lib.DecryptIntWithNeg": "documented sentinel: a failed decryption yields 0",
	"cmd/unlynx.main":       "logged at process level",
}

// exemptSite tells whether the error of call c in fn is such a case.
func exemptSite(fn *ssa.Function, c ssa.CallInstruction, name string, callers map[*ssa.Function][]callSite, d int) bool {
	if strings.HasSuffix(name, "ConcurrentMap).Get") && len(c.Common().Args) > 0 {
		// a cache lookup: when it fails, the value is recomputed
		if u, ok := c.Common().Args[0].(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Name() == "PointToInt" {
				return true
			}
		}
	}
	if fn.Signature.Results().Len() > 0 && hasErrorResult(fn.Signature) {
		return false
	}
	if _, ok := errSiteExempt[fnKey(fn)]; ok {
		return true
	}
	cs := callers[fn]
	if d > 4 || len(cs) == 0 || fn.Object() != nil && fn.Object().Exported() {
		return false
	}
	for _, s := range cs {
		if !exemptSite(s.fn, nil, "", callers, d+1) {
			return false
		}
	}
	return true
}

func checkErrors(p *Prog, r *Report, thorough bool) {
	scope := []string{"lib", "protocols", "services", "cmd"}
	callers := callerIndex(p)
	for _, fn := range p.Funcs {
		if !inScope(fn, scope...) {
			continue
		}
		seq := map[string]int{}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sig := c.Common().Signature()
				if sig != nil && hasErrorResult(sig) {
					name := calleeName(c)
					if name == "" {
						name = "dynamic call"
					}
					key := fnKey(fn) + "|" + strings.ReplaceAll(name, modPath+"/", "")
					if _, ex := errCallExempt(name); ex {
						continue
					}
					if exemptSite(fn, c, name, callers, 0) {
						r.ob("exempt-site", key)
						continue
					}
					if isErrorConstructor(name) {
						continue
					}
					seq[key]++
					r.ob("error-consumed", key)
					switch x := in.(type) {
					case *ssa.Go:
						r.bad("error-consumed", key, p.pos(in.Pos()), "error result of a call started as a goroutine is lost")
					case *ssa.Defer:
						r.bad("error-consumed", key, p.pos(in.Pos()), "error result of a deferred call is lost")
					case *ssa.Call:
						t := &errTracker{p: p, fn: fn, origin: x, seen: map[string]bool{}}
						s := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, false, false, false}
						if isErrorType(x.Type()) {
							s.alias[x] = true
						}
						t.walk(b, i+1, s)
						if t.problem != "" {
							r.bad("error-consumed", key, p.pos(in.Pos()), "error of %s %s", strings.ReplaceAll(name, modPath+"/", ""), t.problem)
						}
					}
				}
				// spawning a closure that writes an error variable of this function
				mc, ok := c.Common().Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				for _, al := range errorCells(mc, 0) {
					if al.Parent() != fn {
						continue
					}
					key := fnKey(fn) + "|shared error variable " + al.Comment
					r.ob("worker-error-checked", key)
					_, isGo := in.(*ssa.Go)
					if _, isDefer := in.(*ssa.Defer); isDefer {
						continue
					}
					t := &errTracker{p: p, fn: fn, seen: map[string]bool{}}
					s := &errState{map[ssa.Value]bool{}, map[ssa.Value]bool{al: true}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, false, false, isGo}
					t.walk(b, i+1, s)
					if t.problem != "" {
						r.bad("worker-error-checked", key, p.pos(in.Pos()), "error recorded by the worker %s", t.problem)
					}
				}
			}
		}
	}
	r.min("error-consumed", 150)
	r.min("worker-error-checked", 15)
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// errorCells are the error variables a closure, or a closure it is given, writes.
func errorCells(mc *ssa.MakeClosure, d int) (out []*ssa.Alloc) {
	clo := mc.Fn.(*ssa.Function)
	for k, bind := range mc.Bindings {
		al, ok := bind.(*ssa.Alloc)
		if !ok {
			continue
		}
		if isErrorType(deref(al.Type())) {
			if closureStores(clo, clo.FreeVars[k], map[*ssa.Function]bool{}) {
				out = append(out, al)
			}
		} else if in, ok := cellValue(al).(*ssa.MakeClosure); ok && d < 3 {
			out = append(out, errorCells(in, d+1)...)
		}
	}
	return out
}

func closureStores(clo *ssa.Function, fv ssa.Value, seen map[*ssa.Function]bool) bool {
	if fv.Referrers() == nil {
		return false
	}
	for _, ref := range *fv.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for k, bnd := range x.Bindings {
				if bnd == fv && closureStores(f, f.FreeVars[k], seen) {
					return true
				}
			}
		}
	}
	return false
}

func isErrorConstructor(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf", "golang.org/x/xerrors.New", "golang.org/x/xerrors.Errorf", "errors.Join", "golang.org/x/xerrors.Unwrap", "errors.Unwrap":
		return true
	}
	return false
}

func init() {
	register("C04", "every call site whose callee returns an error: the error value is followed along every control-flow path (phis, captured variables, wrapping calls) until returned, recorded in an error variable that the spawning function checks after joining, or ended in a fatal call", checkErrors)
}
