// Command mutate lists small source changes of the repository (development
// tool: the changes are tried in scratch copies to find what no check sees).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	ID   int
	File string
	Off  int
	End  int
	New  string
	Old  string
	Op   string
	Func string
	Line int
}

func main() {
	repo := os.Args[1]
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{Dir: repo, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")}
	ps, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		panic(err)
	}
	var out []mutant
	for _, p := range ps {
		for _, f := range p.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(fn)
			rel, _ := filepath.Rel(repo, fn)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				m := &mut{p: p, src: src, file: rel, fn: fd.Name.Name}
				m.walk(fd)
				out = append(out, m.out...)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].File != out[j].File {
			return out[i].File < out[j].File
		}
		return out[i].Off < out[j].Off
	})
	for i := range out {
		out[i].ID = i
		b, _ := json.Marshal(out[i])
		fmt.Println(string(b))
	}
}

type mut struct {
	p    *packages.Package
	src  []byte
	file string
	fn   string
	out  []mutant
}

func (m *mut) off(p token.Pos) int { return m.p.Fset.Position(p).Offset }

func (m *mut) add(n ast.Node, nw, op string) {
	o, e := m.off(n.Pos()), m.off(n.End())
	m.out = append(m.out, mutant{File: m.file, Off: o, End: e, New: nw, Old: string(m.src[o:e]), Op: op, Func: m.fn, Line: m.p.Fset.Position(n.Pos()).Line})
}

func (m *mut) text(n ast.Node) string { return string(m.src[m.off(n.Pos()):m.off(n.End())]) }

func isLog(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	var b strings.Builder
	printer.Fprint(&b, token.NewFileSet(), c.Fun)
	s := b.String()
	for _, x := range []string{"log.", "EndTimer", "StartTimer", "EndParallelize"} {
		if strings.Contains(s, x) {
			return s != "libunlynx.EndParallelize" && s != "EndParallelize"
		}
	}
	return false
}

func (m *mut) walk(fd *ast.FuncDecl) {
	var stack []ast.Node
	info := m.p.TypesInfo
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if e, ok := n.(ast.Expr); ok && isLog(e) {
			return false
		}
		if e, ok := n.(*ast.ExprStmt); ok && isLog(e.X) {
			return false
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.BinaryExpr:
			alt := map[token.Token]string{token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.REM: "/"}
			if a, ok := alt[x.Op]; ok {
				m.add(x, m.text(x.X)+" "+a+" "+m.text(x.Y), "binop")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				m.add(x, x.Value+"+1", "int")
			}
		case *ast.Ident:
			if x.Name == "true" {
				m.add(x, "false", "bool")
			} else if x.Name == "false" {
				m.add(x, "true", "bool")
			} else if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() {
				m.ident(x, v, stack)
			}
		case *ast.SelectorExpr:
			if s := info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				t := s.Recv()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if st, ok := t.Underlying().(*types.Struct); ok {
					k := 0
					for i := 0; i < st.NumFields() && k < 2; i++ {
						f := st.Field(i)
						if f != s.Obj() && types.Identical(f.Type(), s.Obj().Type()) {
							m.add(x, m.text(x.X)+"."+f.Name(), "field")
							k++
						}
					}
				}
			}
		case *ast.ExprStmt:
			m.add(x, "", "delstmt")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				used := ""
				for _, r := range x.Rhs {
					used += "_ = " + m.text(r) + ";"
				}
				if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
					m.add(x, used[:len(used)-1], "delassign")
				}
			}
		case *ast.IncDecStmt:
			m.add(x, "", "delinc")
		case *ast.DeferStmt:
			m.add(x, "", "deldefer")
		case *ast.SendStmt:
			m.add(x, "", "delsend")
		case *ast.IfStmt:
			m.add(x.Cond, "!("+m.text(x.Cond)+")", "negif")
			if x.Init == nil && x.Else == nil {
				m.add(x.Cond, "false && ("+m.text(x.Cond)+")", "falseif")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name != "nil" {
					if t := info.TypeOf(r); t != nil && t.String() == "error" {
						m.add(r, "nil", "nilerr")
					}
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if ta, tb := info.TypeOf(a), info.TypeOf(b); ta != nil && tb != nil && types.Identical(ta, tb) && m.text(a) != m.text(b) {
					c := m.text(x)
					oa, ob := m.off(a.Pos())-m.off(x.Pos()), m.off(b.Pos())-m.off(x.Pos())
					la, lb := len(m.text(a)), len(m.text(b))
					m.add(x, c[:oa]+m.text(b)+c[oa+la:ob]+m.text(a)+c[ob+lb:], "swapargs")
				}
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				m.add(x, m.text(x.Args[0]), "noappend")
			}
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				alt := map[string]string{"Add": "Sub", "Sub": "Add"}
				if a, ok := alt[se.Sel.Name]; ok {
					m.add(se.Sel, a, "method")
				}
			}
		case *ast.IndexExpr:
			if t := info.TypeOf(x.X); t != nil {
				switch t.Underlying().(type) {
				case *types.Slice:
					if m.text(x.Index) != "0" {
						m.add(x.Index, "0*("+m.text(x.Index)+")", "idx0")
					}
				}
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				m.add(x, "continue", "brk")
			} else if x.Tok == token.CONTINUE {
				m.add(x, "break", "cont")
			}
		}
		return true
	})
}

// ident replaces one use of a local variable by another local of its type.
func (m *mut) ident(x *ast.Ident, v *types.Var, stack []ast.Node) {
	if len(stack) > 1 {
		if a, ok := stack[len(stack)-2].(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if l == x {
					return
				}
			}
		}
		if kv, ok := stack[len(stack)-2].(*ast.KeyValueExpr); ok && kv.Key == x {
			return
		}
	}
	if v.Name() == "err" || v.Parent() == nil || v.Parent() == m.p.Types.Scope() {
		return
	}
	sc := m.p.Types.Scope().Innermost(x.Pos())
	if sc == nil {
		return
	}
	k := 0
	for s := sc; s != nil && s != m.p.Types.Scope(); s = s.Parent() {
		for _, nm := range s.Names() {
			o, ok := s.Lookup(nm).(*types.Var)
			if !ok || o == v || o.Pos() > x.Pos() || nm == "_" || !types.Identical(o.Type(), v.Type()) || k >= 1 {
				continue
			}
			if _, got := sc.LookupParent(nm, x.Pos()); got != o {
				continue
			}
			m.add(x, nm, "var")
			k++
		}
	}
}
