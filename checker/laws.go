package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Laws are equations between expressions over the repository's API, written as
// Go functions (in /verif/laws) that are type-checked together with the
// repository and summarised by the value analysis; they are never executed.

const lawDir, lawFile = "zzlaws", "zzlaw_"

// isLaw tells whether a function was added by the laws.
func isLaw(p *Prog, f *ssa.Function) bool {
	file := p.Fset.Position(f.Pos()).Filename
	return strings.Contains(file, "/"+lawDir+"/") || strings.HasPrefix(filepath.Base(file), lawFile)
}

type lawVerdict struct {
	name    string
	verdict string // "normal form", "random interpretation", "undecided", "violated"
	why     string
	samples int
	pre     int
	panics  int // samples in which an index is out of range
	steps   int
	fns     []string
	open    int // indices about which nothing is concluded
	over    int // indices shown to be in range by interpretation only
}

// loadLaws loads the repository together with the laws. Laws that do not
// type-check against the repository as it is now are left out.
var lawsLoaded struct {
	p       *Prog
	dropped []string
	err     error
	done    bool
}

// loadLaws loads the repository with all laws, once.
func loadLaws(repo, verif, prefix string) (*Prog, []string, error) {
	l := &lawsLoaded
	if !l.done {
		l.p, l.dropped, l.err = loadLawsFor(repo, verif)
		l.done = true
	}
	return l.p, l.dropped, l.err
}

func loadLawsFor(repo, verif string) (*Prog, []string, error) {
	files, _ := filepath.Glob(filepath.Join(verif, "laws", "*.go"))
	overlay := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		overlay[filepath.Join(repo, lawDir, filepath.Base(f))] = b
	}
	// laws about unexported functions are added to the package they speak about
	in := filepath.Join(verif, "laws", "in")
	filepath.Walk(in, func(f string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() || !strings.HasSuffix(f, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(in, f)
		dir := filepath.Join(repo, filepath.Dir(rel))
		if ds, err := os.Stat(dir); (err != nil || !ds.IsDir()) && !strings.HasPrefix(rel, "zz") {
			return nil
		}
		if b, err := os.ReadFile(f); err == nil {
			overlay[filepath.Join(dir, lawFile+filepath.Base(f))] = b
		}
		return nil
	})
	var dropped []string
	for round := 0; ; round++ {
		p, err := loadWith(repo, overlay)
		te, isType := err.(*typeErrors)
		if err == nil {
			return p, dropped, nil
		}
		if !isType || round > 8 {
			return nil, dropped, err
		}
		n := 0
		for _, e := range te.list {
			m := regexp.MustCompile(`^(.*):(\d+):\d+: (.*)$`).FindStringSubmatch(e)
			if m == nil || !strings.Contains(m[1], "/"+lawDir+"/") && !strings.HasPrefix(filepath.Base(m[1]), lawFile) {
				continue
			}
			line, _ := strconv.Atoi(m[2])
			if name := dropDecl(overlay, m[1], line); name != "" {
				dropped = append(dropped, name+": "+m[3])
				n++
			}
		}
		if n == 0 {
			return nil, dropped, err
		}
	}
}

// dropDecl blanks the declaration around a line.
func dropDecl(overlay map[string][]byte, file string, line int) string {
	src := overlay[file]
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return ""
	}
	for _, d := range f.Decls {
		a, b := fset.Position(d.Pos()), fset.Position(d.End())
		if line < a.Line || line > b.Line {
			continue
		}
		name := "import"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			// an import that is no longer used
			for _, sp := range gd.Specs {
				q := fset.Position(sp.Pos())
				if q.Line == line {
					is := sp.(*ast.ImportSpec)
					a, b = fset.Position(is.Pos()), fset.Position(is.End())
					if is.Name == nil || is.Name.Name != "_" {
						out := append([]byte{}, src[:a.Offset]...)
						out = append(out, "_ "+is.Path.Value...)
						overlay[file] = append(out, src[b.Offset:]...)
						return "import " + is.Path.Value
					}
				}
			}
			return ""
		}
		out := append([]byte{}, src...)
		for i := a.Offset; i < b.Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		overlay[file] = out
		return name
	}
	return ""
}

func lawFns(p *Prog, prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != nil && isLaw(p, f) && f.Parent() == nil && strings.HasPrefix(f.Name(), prefix) {
			out = append(out, f)
		}
	}
	return out
}

// decideLaw summarises the law and decides it.
func decideLaw(p *Prog, f *ssa.Function, thorough bool) (v lawVerdict) {
	v.name = f.Name()
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				v.verdict, v.why = "undecided", u.why
				return
			}
			v.verdict, v.why = "undecided", fmt.Sprintf("analysis gave up: %v", e)
			if os.Getenv("DBG") != "" {
				panic(e)
			}
		}
	}()
	for k := range leafTypes {
		delete(leafTypes, k)
	}
	work = 0
	r := Run(p, f, nil)
	v.steps = r.ev.steps
	if os.Getenv("UC_WORK") != "" {
		fmt.Println("WORK", v.name, work)
	}
	for g := range r.ev.visited {
		if g.Pkg != nil && !isLaw(p, g) {
			v.fns = append(v.fns, fnKey(g))
		}
	}
	sort.Strings(v.fns)
	if !r.ok {
		if notes := r.ev.sortedNotes(); r.st.dead && !r.ev.overrun && len(notes) == 0 && len(r.ev.failing) > 0 {
			v.verdict, v.why = "violated", "every path ends in an error: "+r.ev.failing[len(r.ev.failing)-1].name
			return
		}
		v.verdict, v.why = "undecided", "no summary: "+strings.Join(r.ev.sortedNotes(), "; ")
		return
	}
	sig := f.Signature.Results()
	var vals []*T
	for i, x := range r.vals {
		vals = append(vals, r.ev.deep(r.st, x, sig.At(i).Type(), 0))
	}
	pre := tTrue
	if sig.At(0).Name() == "pre" {
		pre, vals = vals[0], vals[1:]
	}
	got, want := vals[0], tTrue
	if len(vals) == 2 {
		want = vals[1]
	}
	if pre == tFalse {
		v.verdict, v.why = "undecided", "the precondition never holds"
		return
	}
	over, open := r.ev.overruns()
	v.open, v.over = open, len(over)
	if got == want {
		v.verdict = "normal form"
		if containsT(got, func(x *T) bool { return x.op == "opaque" || x.op == "it" || x.op == "uninit" }) {
			v.verdict, v.why = "undecided", "both sides contain an unknown value"
		}
	}
	if os.Getenv("UC_LOST") != "" && r.ev.lost.why != "" {
		fmt.Println("LOST", v.name, r.ev.lost.why, len(r.ev.lost.at))
	}
	fails := false
	for _, e := range r.ev.failing {
		fails = fails || e.full != nil
	}
	if got == want && len(over) == 0 && !fails {
		return
	}
	need, tries := 24, 160
	if thorough {
		need, tries = 120, 900
	}
	why, failed := map[string]bool{}, 0
	hits := keyHits(pre, got, want)
	for s := 0; s < tries && v.samples < need; s++ {
		it := newInterp(uint64(s) + hashStr(f.Name()))
		it.big = s%4 == 3
		if s%3 == 1 {
			it.fav = int64(1 + s/3%3)
		}
		if s%8 == 3 {
			it.fav = -1 // every sequence is long
			if s/8%2 == 1 {
				it.tall, it.fav = true, int64(1+s/16%2) // many short lines
			}
		}
		if s%16 == 15 {
			it.wide, it.fav = true, []int64{101, 203}[s/16%2] // a few long lines
		}
		if s%3 == 2 && len(hits) > 0 {
			it.present(hits[s/3%len(hits)])
		}
		nf := got == want && v.verdict == "normal form"
		ok, decided, w := sample(it, pre, got, want)
		if nf && !decided && w != "precondition" {
			decided, ok = true, true // the values are equal anyway
		}
		if os.Getenv("UC_SAMPLES") != "" {
			fmt.Println("SAMPLE", it.big, it.tall, it.wide, it.fav, ok, decided, w)
		}
		if !decided && it.preHolds && len(r.ev.lost.at) == 0 {
			for _, o := range over {
				if overrunIn(it, o.bad) {
					v.verdict, v.why = "violated", fmt.Sprintf("an index is out of range in %s at %s", fnKey(o.fn), p.pos(o.in.Pos()))
					return
				}
			}
		}
		if !decided {
			why[w] = true
			if strings.HasPrefix(w, "out of range: ") {
				v.panics++
			}
			if w != "precondition" {
				failed++
			}
			continue
		}
		v.samples++
		for _, e := range r.ev.failing {
			if e.full != nil && it.preHolds && len(r.ev.lost.at) == 0 && overrunIn(it, and(e.full...)) {
				v.verdict, v.why = "violated", "an error is reported by "+e.name+" although there is a result"
				return
			}
		}
		for _, o := range over {
			if len(r.ev.lost.at) == 0 && overrunIn(it, o.bad) {
				if os.Getenv("UC_SAMPLES") != "" {
					fmt.Println("OVER", o.bad)
				}
				v.verdict, v.why = "violated", fmt.Sprintf("an index is out of range in %s at %s", fnKey(o.fn), p.pos(o.in.Pos()))
				return
			}
		}
		if nf {
			continue
		}
		if !ok && lostIn(it, r.ev.lost) {
			v.verdict, v.why = "undecided", r.ev.lost.why
			return
		}
		if !ok {
			v.verdict = "violated"
			v.why = w
			return
		}
	}
	if len(r.ev.lost.at) > 0 && strings.HasPrefix(v.name, "C03_") {
		v.verdict, v.why = "undecided", r.ev.lost.why
		return
	}
	if got == want {
		return
	}
	if v.panics > 0 && len(r.ev.lost.at) == 0 {
		v.verdict = "violated"
		for w := range why {
			if strings.HasPrefix(w, "out of range: ") {
				v.why = w
			}
		}
		return
	}
	if v.samples < 3 || failed > v.samples {
		var ws []string
		for w := range why {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		if len(ws) > 6 {
			ws = ws[:6]
		}
		v.verdict, v.why = "undecided", strings.Join(ws, "; ")
		return
	}
	v.verdict = "random interpretation"
	return
}

// keyHits lists the maps and the free keys they are looked up with.
func keyHits(ts ...*T) (out [][2]*T) {
	seen := map[[2]*T]bool{}
	for _, t := range ts {
		walkT(t, func(x *T) bool {
			if (x.op == "mapget" || x.op == "maphas") && x.args[1].op == "param" && len(x.args[0].ctrs) == 0 && (x.args[0].op == "param" || x.args[0].op == "field") {
				h := [2]*T{x.args[0], x.args[1]}
				if !seen[h] {
					seen[h] = true
					out = append(out, h)
				}
			}
			return true
		})
	}
	return out
}

// present chooses a free key to be one of the keys of the map.
func (it *Interp) present(h [2]*T) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
		}
		it.memo = map[memoKey]*V{}
	}()
	m, k := it.eval(h[0]), it.eval(h[1])
	if k.k != 'a' || m.k != 'a' || it.len(m) == 0 {
		return
	}
	if it.given == nil {
		it.given = map[uint64]*V{}
	}
	it.given[k.h] = it.mapKey(m, 0)
}

// overrunIn tells whether an index is out of range in a sample.
func overrunIn(it *Interp, bad *T) (is bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
		}
	}()
	return it.bool(it.eval(bad))
}

// lostIn: some write that analysis may not see happens in this interpretation.
func lostIn(it *Interp, l lostInfo) bool {
	for _, c := range l.at {
		if mayHold(it, c) {
			return true
		}
	}
	return false
}

func mayHold(it *Interp, c *T) (is bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
			is = true
		}
	}()
	return it.bool(it.eval(c))
}

func sample(it *Interp, pre, got, want *T) (ok, decided bool, why string) {
	side := 0 // 1: the second value, 2: the first value
	defer func() {
		if e := recover(); e != nil {
			if u, is := e.(undecided); is {
				ok, decided, why = false, false, u.why
				if side > 0 && u.why == "uninit pt" {
					why = "out of range: point read before it is set"
				} else if u.oob && (side == 2 || side == 1 && strings.HasPrefix(u.why, "nil ")) {
					why = "out of range: " + why
				}
				return
			}
			panic(e)
		}
	}()
	it.assume(pre)
	if !it.bool(it.eval(pre)) {
		return false, false, "precondition"
	}
	it.preHolds = true
	side = 1
	w := it.eval(want)
	side = 2
	g := it.eval(got)
	side = 0
	if !it.equal(g, w) {
		return false, true, fmt.Sprintf("have %s, want %s", showV(g, 0), showV(w, 0))
	}
	return true, true, ""
}

func showV(v *V, d int) string {
	if d > 3 {
		return "…"
	}
	list := func(xs []*V, n int) string {
		var s []string
		for i, x := range xs {
			if i == n {
				s = append(s, "…")
				break
			}
			s = append(s, showV(x, d+1))
		}
		return strings.Join(s, " ")
	}
	switch v.k {
	case 'n':
		if v.n > prime/2 && prime-v.n < 1e6 {
			return "-" + strconv.FormatUint(prime-v.n, 10)
		}
		return strconv.FormatUint(v.n, 10)
	case 'b':
		return strconv.FormatBool(v.n == 1)
	case '0':
		return "nil"
	case 'f':
		return fmt.Sprint(v.f)
	case 's':
		return fmt.Sprintf("[%d: %s]", len(v.xs), list(v.xs, 6))
	case 't':
		return "{" + list(v.xs, 8) + "}"
	case 'm':
		return "map(" + list(v.keys, 5) + " -> " + list(v.xs, 5) + ")"
	}
	return v.op + "(" + list(v.xs, 4) + ")"
}

func lawDump(repo, verif string, names []string) {
	p, dropped, err := loadLaws(repo, verif, "")
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, d := range dropped {
		fmt.Println("dropped", d)
	}
	for _, n := range names {
		detail := strings.HasSuffix(n, "!")
		for _, f := range lawFns(p, strings.TrimSuffix(n, "!")) {
			v := decideLaw(p, f, false)
			fmt.Println(v.verdict, v.name, v.samples, v.steps, v.why)
			if os.Getenv("UC_OVER") != "" && v.over+v.open > 0 {
				fmt.Println("INDICES", v.name, v.over, v.open)
			}
			if v.panics > 0 {
				fmt.Println("panics", v.name, v.panics, v.samples)
			}
			if detail {
				evalDump(p, fnKey(f))
			}
		}
	}
}
