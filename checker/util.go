package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// pkgOf is the package path of a function relative to the module ("lib", "protocols/utils", ...).
func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath), "/")
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// staticCallee resolves calls to functions, methods and directly called or
// locally bound closures.
func staticCallee(c ssa.CallInstruction) *ssa.Function {
	if f := c.Common().StaticCallee(); f != nil {
		return f
	}
	if c.Common().IsInvoke() {
		return nil
	}
	if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	// a variable that is assigned one closure only
	if u, ok := c.Common().Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		base := u.X
		for i := 0; i < 6; i++ {
			fv, ok := base.(*ssa.FreeVar)
			if !ok {
				break
			}
			base = bindingOf(fv)
		}
		if al, ok := base.(*ssa.Alloc); ok {
			switch w := cellValue(al).(type) {
			case *ssa.MakeClosure:
				return w.Fn.(*ssa.Function)
			case *ssa.Function:
				return w
			}
		}
	}
	return nil
}

// calleeObj is the types object of the called function or interface method.
func calleeObj(c ssa.CallInstruction) *types.Func {
	if c.Common().IsInvoke() {
		return c.Common().Method
	}
	if f := staticCallee(c); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

// calleeName is the qualified name of the callee, e.g. "go.dedis.ch/onet/v3/log.Fatal"
// or "(go.dedis.ch/kyber/v3.Point).Add".
func calleeName(c ssa.CallInstruction) string {
	if o := calleeObj(c); o != nil {
		return o.FullName()
	}
	if f := staticCallee(c); f != nil {
		return f.String()
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

// shortCallee is calleeName without the module prefix.
func shortCallee(c ssa.CallInstruction) string {
	return strings.ReplaceAll(calleeName(c), modPath+"/", "")
}

func inScope(fn *ssa.Function, pkgs ...string) bool {
	q := pkgOf(fn)
	for _, s := range pkgs {
		if q == s || strings.HasPrefix(q, s+"/") {
			return true
		}
	}
	return false
}

// fatalCall recognises calls that never return.
func fatalCall(name string) bool {
	switch name {
	case "go.dedis.ch/onet/v3/log.Fatal", "go.dedis.ch/onet/v3/log.Fatalf", "go.dedis.ch/onet/v3/log.ErrFatal", "go.dedis.ch/onet/v3/log.ErrFatalf",
		"go.dedis.ch/onet/v3/log.Panic", "go.dedis.ch/onet/v3/log.Panicf",
		"os.Exit", "log.Fatal", "log.Fatalf", "log.Panic", "log.Panicf", "runtime.Goexit":
		return true
	}
	return false
}

func isLogCall(name string) bool {
	return strings.HasPrefix(name, "go.dedis.ch/onet/v3/log.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint")
}
