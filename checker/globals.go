package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "every draw of a random scalar, point, bit string or integer in lib, protocols, services: its stream is a system randomness stream (random.New(), the suite's RandomStream), or an extendable-output stream seeded with a secret scalar, or a public-coin stream inside a computation the proof verifier repeats; math/rand is not imported; a draw inside a loop writes a value object made in the same iteration; and each freshness law (the values a randomised operation hands out for two elements, two calls or two workers use different draws) holds on the summaries of the operations it names (value analysis over SSA, equal normal forms or random interpretation of the leaves; nothing is executed)", func(p *Prog, r *Report, thorough bool) {
		checkRandomness(p, r, thorough)
		lawCheck("C16_", 10)(p, r, thorough)
	})
	register("C17", "every message type sent by a protocol or the service, every protocol and service name: registered with the network layer, received by a channel the receiving constructor registers (or by a handler/processor branch for exactly that type), and every registered channel is read", checkRegistration)
	register("C18", "every package-level variable of lib, protocols, services, cmd: written only while the package is initialised (the decryption table state, guarded by its mutex under C06, excepted); no package-level channel, map or slice carries state between protocol or survey instances", checkGlobals)
}

// ---- C16 --------------------------------------------------------------------

func checkRandomness(p *Prog, r *Report, thorough bool) {
	callers := callerIndex(p)
	for _, pk := range p.Pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		if !(rel == "lib" || strings.HasPrefix(rel, "lib/") || rel == "protocols" || strings.HasPrefix(rel, "protocols/") || rel == "services") {
			continue
		}
		r.ob("imports", rel)
		for imp := range pk.Imports {
			if imp == "math/rand" || imp == "math/rand/v2" {
				r.bad("imports", rel, "-", "package %s imports %s", rel, imp)
			}
		}
	}
	verif := reachedByVerifier(p)
	for _, f := range p.Funcs {
		if !inScope(f, "lib", "protocols", "services") {
			continue
		}
		loops := naturalLoops(f)
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(c)
				for ai, a := range c.Common().Args {
					if !isStream(a.Type()) {
						continue
					}
					if g := staticCallee(c); g != nil && inRepoFn(g) {
						continue // judged where it is drawn from
					}
					n++
					id := fmt.Sprintf("%s:%s#%d", fnKey(f), shortName(name), n)
					_ = ai
					r.ob("stream", id)
					if msg := badStream(a, f, callers, verif, 0); msg != "" {
						r.bad("stream", id, p.pos(c.Pos()), "%s draws randomness from %s", fnKey(f), msg)
					}
				}
				if strings.HasSuffix(name, ").Pick") && c.Common().IsInvoke() {
					ls := loopsOf(loops, c.Block())
					recv := resolve(c.Common().Value)
					id := fmt.Sprintf("%s:Pick receiver", fnKey(f))
					if rc, ok := recv.root.(*ssa.Call); ok && len(recv.segs) == 0 {
						r.ob("fresh-object", id)
						if len(ls) > 0 && !ls[0].body[rc.Block()] && rc.Parent() == f {
							r.bad("fresh-object", id, p.pos(c.Pos()), "%s draws every iteration's value into one shared object", fnKey(f))
						}
					}
				}
			}
		}
	}
	r.min("stream", 5)
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func isStream(t types.Type) bool {
	s := t.String()
	return s == "crypto/cipher.Stream" || s == "go.dedis.ch/kyber/v3.XOF"
}

// badStream describes why a stream is not an acceptable source ("" if it is).
func badStream(v ssa.Value, f *ssa.Function, callers map[*ssa.Function][]callSite, verif map[*ssa.Function]bool, d int) string {
	if d > 6 {
		return ""
	}
	q := resolve(v)
	switch x := q.root.(type) {
	case *ssa.Const:
		return "no stream at all"
	case *ssa.Call:
		n := calleeName(x)
		switch {
		case strings.HasSuffix(n, "util/random.New"):
			args := x.Call.Args
			if len(args) > 0 {
				if c, ok := args[len(args)-1].(*ssa.Const); !ok || !c.IsNil() {
					if !cryptoReader(args[len(args)-1]) {
						return "a stream over a reader that is not the system randomness"
					}
				}
			}
			return ""
		case strings.HasSuffix(n, ").RandomStream"):
			return ""
		case strings.HasSuffix(n, ").XOF"):
			arg := x.Call.Args[len(x.Call.Args)-1]
			switch seedKind(arg, callers, 0) {
			case "secret":
				return ""
			case "constant":
				return "a stream with a constant seed"
			default:
				if verif[outermost(f)] {
					return ""
				}
				return "a stream whose seed is not a secret"
			}
		}
		if g := staticCallee(x); g != nil && inRepoFn(g) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 && isStream(ret.Results[0].Type()) {
						if m := badStream(ret.Results[0], g, callers, verif, d+1); m != "" {
							return m
						}
					}
				}
			}
			return ""
		}
		return ""
	case *ssa.Parameter:
		for _, s := range callers[x.Parent()] {
			if !inScope(s.fn, "lib", "protocols", "services") {
				continue
			}
			for i, pr := range x.Parent().Params {
				if pr == x && i < len(s.c.Common().Args) {
					if m := badStream(s.c.Common().Args[i], s.fn, callers, verif, d+1); m != "" {
						return m
					}
				}
			}
		}
		return ""
	case *ssa.Global:
		return "a package-level stream"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if m := badStream(e, f, callers, verif, d+1); m != "" {
				return m
			}
		}
	}
	return ""
}

func cryptoReader(v ssa.Value) bool {
	ok := false
	q := resolve(v)
	if g, is := q.root.(*ssa.Global); is {
		return g.String() == "crypto/rand.Reader"
	}
	if sl, is := v.(*ssa.Slice); is { // variadic array
		if al, is := sl.X.(*ssa.Alloc); is {
			for _, r := range *al.Referrers() {
				if ia, is := r.(*ssa.IndexAddr); is {
					for _, rr := range *ia.Referrers() {
						if st, is := rr.(*ssa.Store); is {
							g, is := resolve(st.Val).root.(*ssa.Global)
							ok = is && g.String() == "crypto/rand.Reader"
							if !ok {
								return false
							}
						}
					}
				}
			}
		}
	}
	return ok
}

// seedKind: "secret" (the encoding of a scalar), "constant" or "public".
func seedKind(v ssa.Value, callers map[*ssa.Function][]callSite, d int) string {
	if d > 6 {
		return "public"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "constant"
	case *ssa.Convert:
		return seedKind(x.X, callers, d+1)
	case *ssa.Slice:
		return seedKind(x.X, callers, d+1)
	case *ssa.Alloc:
		return "constant"
	case *ssa.Phi:
		worst := "secret"
		for _, e := range x.Edges {
			if k := seedKind(e, callers, d+1); k != "secret" {
				worst = k
			}
		}
		return worst
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if strings.HasSuffix(calleeName(c), ").MarshalBinary") && c.Call.IsInvoke() {
				t := resolve(c.Call.Value).root.Type().String()
				rt := c.Call.Value.Type().String()
				if strings.HasSuffix(rt, "kyber/v3.Scalar") || strings.HasSuffix(t, "kyber/v3.Scalar") {
					if isConstScalar(c.Call.Value) {
						return "constant"
					}
					return "secret"
				}
			}
		}
		return "public"
	case *ssa.Parameter:
		k := "public"
		for i, s := range callers[x.Parent()] {
			for j, pr := range x.Parent().Params {
				if pr == x && j < len(s.c.Common().Args) {
					q := seedKind(s.c.Common().Args[j], callers, d+1)
					if i == 0 || q != "secret" {
						k = q
					}
				}
			}
		}
		return k
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if w := cellValue(al); w != nil {
					return seedKind(w, callers, d+1)
				}
			}
		}
	}
	return "public"
}

func isConstScalar(v ssa.Value) bool {
	c, ok := resolve(v).root.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(c)
	return strings.HasSuffix(n, ").Zero") || strings.HasSuffix(n, ").One") || strings.HasSuffix(n, ").SetInt64")
}

// reachedByVerifier: functions called (transitively) by a function that returns only a verdict on a proof.
func reachedByVerifier(p *Prog) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range p.Funcs {
		if inScope(f, "lib") && verifiesProof(f) {
			work = append(work, f)
			out[f] = true
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(c); g != nil && inRepoFn(g) && !out[g] {
						out[g] = true
						work = append(work, g)
					}
				}
			}
		}
	}
	return out
}

// verifiesProof: the function (or a closure of it) calls proof.HashVerify.
func verifiesProof(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c), "/proof.HashVerify") {
				return true
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if verifiesProof(a) {
			return true
		}
	}
	return false
}

// ---- C18 --------------------------------------------------------------------

func checkGlobals(p *Prog, r *Report, thorough bool) {
	for _, f := range p.Funcs {
		if !inScope(f, "lib", "protocols", "services", "cmd") {
			continue
		}
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || strings.HasPrefix(outermost(f).Name(), "init#") || outermost(f).Name() == "init"
		r.ob("function", fnKey(f))
		if isInit {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var q apath
				what := "writes"
				switch x := in.(type) {
				case *ssa.Store:
					q = resolve(x.Addr)
				case *ssa.MapUpdate:
					q = resolve(x.Map)
				case *ssa.Send:
					q, what = resolve(x.Chan), "sends on"
				case *ssa.UnOp:
					if x.Op != token.ARROW {
						continue
					}
					q, what = resolve(x.X), "receives from"
				case *ssa.Select:
					for _, s := range x.States {
						checkGlobalUse(p, r, f, in, resolve(s.Chan), "waits on")
					}
					continue
				case ssa.CallInstruction:
					if g := staticCallee(x); g != nil && inRepoFn(g) && len(g.Blocks) > 0 {
						for _, m := range mutatedParams(g) {
							checkGlobalUse(p, r, f, in, m.at(g, x), "changes (through "+fnKey(g)+")")
						}
						continue
					}
					// in-place update through a known mutator of a shared object
					if m := mutatorRecv(x); m != nil {
						checkGlobalUse(p, r, f, in, resolve(m), "changes")
					}
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "close") {
						checkGlobalUse(p, r, f, in, resolve(x.Common().Args[0]), "changes")
					}
					continue
				default:
					continue
				}
				checkGlobalUse(p, r, f, in, q, what)
			}
		}
	}
	// package-level containers shared by instances
	n := 0
	for path, sp := range p.Spkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		if !(strings.HasPrefix(rel, "lib") || strings.HasPrefix(rel, "protocols") || strings.HasPrefix(rel, "services") || strings.HasPrefix(rel, "cmd")) {
			continue
		}
		var names []string
		for nm, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, nm)
			}
		}
		sort.Strings(names)
		for _, nm := range names {
			g := sp.Members[nm].(*ssa.Global)
			if strings.HasPrefix(nm, "init$") {
				continue
			}
			n++
			r.ob("variable", rel+"."+nm)
			if _, isChan := g.Type().(*types.Pointer).Elem().Underlying().(*types.Chan); isChan {
				r.bad("channel", rel+"."+nm, p.pos(g.Pos()), "%s.%s is a channel shared by all instances", rel, nm)
			}
		}
	}
	r.min("function", 150)
}

// sanctioned shared state: the decryption table (C06 checks its lock).
var sanctioned = map[string]bool{"/lib.PointToInt": true, "/lib.currentGreatestM": true, "/lib.currentGreatestInt": true, "/lib.mutex": true}

func checkGlobalUse(p *Prog, r *Report, f *ssa.Function, in ssa.Instruction, q apath, what string) {
	g, ok := q.root.(*ssa.Global)
	if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return
	}
	if sanctioned[(apath{root: g}).key()] {
		return
	}
	if strings.HasPrefix(g.Name(), "init$") {
		return
	}
	r.bad("write", fnKey(f)+":"+g.Name(), p.pos(in.Pos()), "%s %s package-level variable %s, which all instances share", fnKey(f), what, g.Name())
}

// mutatorRecv: the object changed in place by a kyber arithmetic call or a concurrent map update.
func mutatorRecv(c ssa.CallInstruction) ssa.Value {
	if c.Common().IsInvoke() {
		rt := c.Common().Value.Type().String()
		if strings.HasSuffix(rt, "kyber/v3.Point") || strings.HasSuffix(rt, "kyber/v3.Scalar") {
			switch c.Common().Method.Name() {
			case "Add", "Sub", "Mul", "Neg", "Null", "Base", "Set", "Pick", "SetInt64", "Zero", "One", "Div", "Inv", "SetBytes", "Embed", "UnmarshalBinary":
				return c.Common().Value
			}
		}
		return nil
	}
	n := calleeName(c)
	if strings.Contains(n, "concurrent.ConcurrentMap).Put") || strings.Contains(n, "concurrent.ConcurrentMap).Remove") || strings.Contains(n, "sync.Map).Store") || strings.Contains(n, "ConcurrentMap).Put") {
		return c.Common().Args[0]
	}
	return nil
}

// ---- C17 --------------------------------------------------------------------

func typeName(t types.Type) string {
	for {
		pt, ok := t.(*types.Pointer)
		if !ok {
			break
		}
		t = pt.Elem()
	}
	return strings.TrimPrefix(strings.TrimPrefix(t.String(), modPath), "/")
}

// concrete types that can reach an interface value (parameters followed to call sites).
func msgTypesOf(v ssa.Value, callers map[*ssa.Function][]callSite, d int) []types.Type {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.ChangeInterface:
		return msgTypesOf(x.X, callers, d+1)
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			out = append(out, msgTypesOf(e, callers, d+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []types.Type
		for _, s := range callers[x.Parent()] {
			for i, pr := range x.Parent().Params {
				if pr == x && i < len(s.c.Common().Args) {
					out = append(out, msgTypesOf(s.c.Common().Args[i], callers, d+1)...)
				}
			}
		}
		return out
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if w := cellValue(al); w != nil {
				return msgTypesOf(w, callers, d+1)
			}
		}
	}
	return nil
}

// recvType: the protocol type a send belongs to (receiver of the enclosing method, or of the TreeNodeInstance operand).
func protoOf(v ssa.Value) string {
	q := v
	for i := 0; i < 20; i++ {
		switch x := q.(type) {
		case *ssa.FieldAddr:
			return typeName(x.X.Type())
		case *ssa.Field:
			return typeName(x.X.Type())
		case *ssa.UnOp:
			q = x.X
			continue
		case *ssa.FreeVar:
			b := bindingOf(x)
			if b == ssa.Value(x) {
				return ""
			}
			q = b
			continue
		case *ssa.Alloc:
			if w := cellValue(x); w != nil {
				q = w
				continue
			}
		}
		break
	}
	return typeName(q.Type())
}

func checkRegistration(p *Prog, r *Report, thorough bool) {
	callers := callerIndex(p)
	registered := map[string]map[string]bool{} // message type -> packages registering it
	fieldType := map[string]string{}           // msgTypes field -> message type
	channels := map[string]map[string]string{} // protocol type -> received message type -> channel field
	names := map[string][]string{}             // protocol name -> registering functions
	ctorName := map[string][]string{}          // constructor -> names
	handled := map[string]string{}             // message type -> handler function
	processed := map[string]bool{}             // msgTypes field registered with RegisterProcessor
	type send struct {
		proto, typ string
		c          ssa.CallInstruction
		f          *ssa.Function
	}
	var sends, raws, protos []send
	for _, f := range p.Funcs {
		if !inScope(f, "protocols", "services", "lib/tools") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c)
				args := c.Common().Args
				switch {
				case n == "go.dedis.ch/onet/v3/network.RegisterMessage" || n == "go.dedis.ch/onet/v3/network.RegisterMessages":
					for _, t := range variadicTypes(args[0], callers) {
						k := typeName(t)
						if registered[k] == nil {
							registered[k] = map[string]bool{}
						}
						registered[k][pkgOf(f)] = true
						if v := c.Value(); v != nil {
							for _, ref := range *v.Referrers() {
								if st, ok := ref.(*ssa.Store); ok {
									fieldType[lastField(resolve(st.Addr))] = k
								}
							}
						}
						if outermost(f).Name() != "init" && !strings.HasPrefix(outermost(f).Name(), "init#") && !calledFromInit(outermost(f), callers, 0) {
							r.bad("register", fnKey(f)+":"+k, p.pos(c.Pos()), "message type %s is registered outside package initialisation", k)
						}
					}
				case n == "go.dedis.ch/onet/v3.GlobalProtocolRegister":
					nm := constString(args[0])
					if outermost(f).Name() == "init" || strings.HasPrefix(outermost(f).Name(), "init#") || calledFromInit(outermost(f), callers, 0) {
						names[nm] = append(names[nm], fnKey(f))
						if g := funcValue(args[1]); g != nil {
							ctorName[fnKey(g)] = append(ctorName[fnKey(g)], nm)
						}
					}
				case strings.HasSuffix(n, "onet/v3.TreeNodeInstance).RegisterChannel"), strings.HasSuffix(n, "onet/v3.TreeNodeInstance).RegisterChannelLength"), strings.HasSuffix(n, "onet/v3.TreeNodeInstance).RegisterChannels"), strings.HasSuffix(n, "onet/v3.TreeNodeInstance).RegisterChannelsLength"):
					for _, a := range args[1:] {
						for _, v := range ifaceValues(a) {
							q := resolve(v)
							ct, ok := deref(v.Type()).Underlying().(*types.Chan)
							if !ok {
								continue
							}
							proto := ""
							if fa, ok := v.(*ssa.FieldAddr); ok {
								proto = typeName(fa.X.Type())
							}
							if channels[proto] == nil {
								channels[proto] = map[string]string{}
							}
							el := ct.Elem()
							if sl, ok := el.Underlying().(*types.Slice); ok {
								el = sl.Elem()
							}
							for _, mt := range embedded(el) {
								channels[proto][mt] = lastField(q)
							}
						}
					}
				case strings.HasSuffix(n, ".RegisterHandler"), strings.HasSuffix(n, ".RegisterHandlers"):
					for _, a := range args[1:] {
						for _, v := range ifaceValues(a) {
							sig, ok := v.Type().Underlying().(*types.Signature)
							if ok && sig.Params().Len() == 1 {
								handled[typeName(sig.Params().At(0).Type())] = handlerName(v)
							}
						}
					}
				case strings.HasSuffix(n, ".RegisterProcessor"):
					for _, a := range args {
						if fld := lastField(resolve(a)); fld != "" && strings.HasSuffix(a.Type().String(), "MessageTypeID") {
							processed[fld] = true
						}
					}
				case strings.HasSuffix(n, "TreeNodeInstance).SendTo"), strings.HasSuffix(n, "TreeNodeInstance).SendToChildren"), strings.HasSuffix(n, "TreeNodeInstance).SendToParent"), strings.HasSuffix(n, "TreeNodeInstance).Broadcast"), strings.HasSuffix(n, "TreeNodeInstance).Multicast"), strings.HasSuffix(n, "TreeNodeInstance).SendToChildrenInParallel"):
					ai := 1
					if strings.HasSuffix(n, ".SendTo") {
						ai = 2
					}
					for _, t := range msgTypesOf(args[ai], callers, 0) {
						sends = append(sends, send{protoOf(args[0]), typeName(t), c, f})
					}
				case strings.HasSuffix(n, ".SendRaw"):
					for _, t := range msgTypesOf(args[len(args)-1], callers, 0) {
						raws = append(raws, send{"", typeName(t), c, f})
					}
				case strings.HasSuffix(n, ".SendProtobuf"):
					for _, a := range args[2:3] {
						for _, t := range msgTypesOf(a, callers, 0) {
							protos = append(protos, send{"", typeName(t), c, f})
						}
					}
				}
			}
		}
	}
	sent := map[string]bool{}
	for _, s := range sends {
		sent[s.proto+":"+s.typ] = true
	}
	regIn := func(t, pkg string) bool { return registered[t] != nil && len(registered[t]) > 0 }
	for _, s := range sends {
		id := s.proto + ":" + s.typ
		r.ob("protocol-message", id)
		if !regIn(s.typ, pkgOf(s.f)) {
			r.bad("register", id, p.pos(s.c.Pos()), "%s sends %s, which is not registered with the network layer", fnKey(s.f), s.typ)
		}
		ch := channels[s.proto][s.typ]
		if ch == "" {
			r.bad("channel", id, p.pos(s.c.Pos()), "%s sends %s, but no channel registered by %s receives it", fnKey(s.f), s.typ, s.proto)
		}
	}
	// every registered channel is read somewhere in its package
	reads := channelReads(p, callers)
	for proto, m := range channels {
		for t, fld := range m {
			r.ob("channel-read", proto+"."+fld)
			if !reads[fld] && sent[proto+":"+t] {
				r.bad("channel-read", proto+"."+fld, "-", "%s registers channel %s for %s but never reads it", proto, fld, t)
			}
		}
	}
	for nm, fs := range names {
		r.ob("protocol-name", nm)
		if nm == "" {
			r.bad("protocol-name", fmt.Sprint(fs), "-", "a protocol is registered without a constant name")
		} else if len(fs) > 1 {
			r.bad("protocol-name", nm, "-", "protocol name %q is registered %d times", nm, len(fs))
		}
	}
	// every protocol constructor is registered
	for _, f := range p.Funcs {
		if !inScope(f, "protocols") || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sg := f.Signature
		if sg.Params().Len() == 1 && strings.HasSuffix(sg.Params().At(0).Type().String(), "onet/v3.TreeNodeInstance") && sg.Results().Len() == 2 && strings.HasSuffix(sg.Results().At(0).Type().String(), "onet/v3.ProtocolInstance") {
			r.ob("constructor", fnKey(f))
			if len(ctorName[fnKey(f)]) == 0 {
				r.bad("constructor", fnKey(f), p.pos(f.Pos()), "protocol constructor %s is not registered under any name", fnKey(f))
			}
		}
	}
	// service: messages between servers
	procTypes := map[string]bool{}
	for fld := range processed {
		procTypes[fieldType[fld]] = true
	}
	for _, s := range raws {
		r.ob("server-message", s.typ)
		if !regIn(s.typ, "") {
			r.bad("register", s.typ, p.pos(s.c.Pos()), "%s sends %s, which is not registered", fnKey(s.f), s.typ)
		}
		if !procTypes[s.typ] {
			r.bad("processor", s.typ, p.pos(s.c.Pos()), "%s sends %s to other servers, but no processor is registered for it", fnKey(s.f), s.typ)
		}
	}
	for _, s := range protos {
		r.ob("client-message", s.typ)
		if handled[s.typ] == "" {
			r.bad("handler", s.typ, p.pos(s.c.Pos()), "%s sends %s, but the service registers no handler for it", fnKey(s.f), s.typ)
		}
	}
	checkProcess(p, r, fieldType, processed, handled)
	checkProtocolSwitch(p, r, names)
	r.min("protocol-message", 8)
	r.min("channel-read", 5)
	r.min("protocol-name", 6)
	r.min("client-message", 3)
	r.min("server-message", 2)
}

func calledFromInit(f *ssa.Function, callers map[*ssa.Function][]callSite, d int) bool {
	if d > 3 {
		return false
	}
	for _, s := range callers[f] {
		o := outermost(s.fn)
		if o.Name() == "init" || strings.HasPrefix(o.Name(), "init#") || calledFromInit(o, callers, d+1) {
			return true
		}
	}
	return false
}

func variadicTypes(v ssa.Value, callers map[*ssa.Function][]callSite) []types.Type {
	if ts := msgTypesOf(v, callers, 0); len(ts) > 0 {
		return ts
	}
	var out []types.Type
	for _, x := range ifaceValues(v) {
		out = append(out, x.Type())
	}
	return out
}

// ifaceValues: the concrete values of an interface argument or of a variadic interface slice.
func ifaceValues(v ssa.Value) []ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []ssa.Value{x.X}
	case *ssa.Slice:
		var out []ssa.Value
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok {
							out = append(out, ifaceValues(st.Val)...)
						}
					}
				}
			}
		}
		return out
	case *ssa.UnOp:
		// element of a slice literal iterated over
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return ifaceValues(ia.X)
		}
	}
	return nil
}

func lastField(q apath) string {
	for i := len(q.segs) - 1; i >= 0; i-- {
		if q.segs[i].kind == 'f' {
			return q.segs[i].name
		}
	}
	return ""
}

// embedded lists the struct types embedded in (or equal to) a received element type.
func embedded(t types.Type) []string {
	var out []string
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []string{typeName(t)}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			out = append(out, typeName(st.Field(i).Type()))
		} else {
			out = append(out, typeName(st.Field(i).Type()))
		}
	}
	return out
}

func constString(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcValue(x.X)
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}

func handlerName(v ssa.Value) string {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return strings.TrimSuffix(mc.Fn.Name(), "$bound")
	}
	if f, ok := v.(*ssa.Function); ok {
		return f.Name()
	}
	return "?"
}

func channelReads(p *Prog, callers map[*ssa.Function][]callSite) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		if !inScope(f, "protocols", "services") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						for _, n := range chanNames(x.X, callers, 0) {
							out[n] = true
						}
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly {
							for _, n := range chanNames(s.Chan, callers, 0) {
								out[n] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// checkProcess: each processor branch hands the message to the handler of the type it was registered for.
func checkProcess(p *Prog, r *Report, fieldType map[string]string, processed map[string]bool, handled map[string]string) {
	seen := map[string]bool{}
	for _, f := range p.Funcs {
		if pkgOf(f) != "services" {
			continue
		}
		// type assertions on the payload, guarded by a comparison with a msgTypes field
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(c), "MessageTypeID).Equal") {
					continue
				}
				fld := ""
				for _, a := range c.Call.Args {
					if l := lastField(resolve(a)); fieldType[l] != "" {
						fld = l
					}
				}
				if fld == "" {
					continue
				}
				for _, ref := range *c.Referrers() {
					iff, ok := ref.(*ssa.If)
					if !ok {
						continue
					}
					br := iff.Block().Succs[0]
					seen[fld] = true
					r.ob("process", fld)
					found := false
					var scan func(bs []*ssa.BasicBlock, within *ssa.BasicBlock, d int)
					scan = func(bs []*ssa.BasicBlock, within *ssa.BasicBlock, d int) {
						for _, bb := range bs {
							if within != nil && bb != within && !within.Dominates(bb) {
								continue
							}
							for _, i2 := range bb.Instrs {
								if ta, ok := i2.(*ssa.TypeAssert); ok {
									if _, isI := ta.AssertedType.Underlying().(*types.Interface); isI || !messageType(fieldType, typeName(ta.AssertedType)) {
										continue
									}
									found = true
									if typeName(ta.AssertedType) != fieldType[fld] {
										r.bad("process", fld, p.pos(ta.Pos()), "%s treats messages registered as %s as %s", fnKey(f), fieldType[fld], typeName(ta.AssertedType))
									}
								}
								if cc, ok := i2.(ssa.CallInstruction); ok {
									if g := staticCallee(cc); g != nil && pkgOf(g) == "services" {
										for _, a := range cc.Common().Args {
											if typeName(a.Type()) == fieldType[fld] {
												found = true
											}
										}
										if d < 3 && !found {
											scan(g.Blocks, nil, d+1)
										}
									} else if cc.Common().IsInvoke() == false && staticCallee(cc) == nil {
										if _, ok := cc.Common().Value.(*ssa.Builtin); !ok {
											found = true // a function value: not decided
										}
									}
								}
							}
						}
					}
					scan(f.Blocks, br, 0)
					if !found {
						r.bad("process", fld, p.pos(c.Pos()), "%s ignores messages of type %s", fnKey(f), fieldType[fld])
					}
				}
			}
		}
	}
	if len(seen) == 0 {
		r.skip("message dispatch is not written as comparisons with the registered type ids")
		return
	}
	for fld := range processed {
		if fieldType[fld] != "" && !seen[fld] {
			r.bad("process", fld, "-", "messages registered as %s reach the processor but are not dispatched", fieldType[fld])
		}
	}
}

func messageType(fieldType map[string]string, t string) bool {
	for _, v := range fieldType {
		if v == t {
			return true
		}
	}
	return false
}

// checkProtocolSwitch: every protocol the service starts is constructed by the case of the same name.
func checkProtocolSwitch(p *Prog, r *Report, names map[string][]string) {
	started := map[string]ssa.Instruction{}
	cases := map[string]string{}
	for _, f := range p.Funcs {
		if pkgOf(f) != "services" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if g := staticCallee(x); g != nil && g.Name() == "StartProtocol" && len(x.Common().Args) > 1 {
						if s := constString(x.Common().Args[1]); s != "" {
							started[s] = in
						}
					}
				case *ssa.BinOp:
					if x.Op != token.EQL {
						continue
					}
					s := constString(x.Y)
					if s == "" {
						s = constString(x.X)
					}
					if s == "" || names[s] == nil {
						continue
					}
					for _, ref := range *x.Referrers() {
						iff, ok := ref.(*ssa.If)
						if !ok {
							continue
						}
						br := iff.Block().Succs[0]
						ctor := ""
						for _, bb := range f.Blocks {
							if bb != br && !br.Dominates(bb) {
								continue
							}
							for _, i2 := range bb.Instrs {
								if c, ok := i2.(ssa.CallInstruction); ok {
									if g := staticCallee(c); g != nil && pkgOf(g) == "protocols" && strings.HasPrefix(g.Name(), "New") {
										ctor = g.Name()
									}
								}
							}
						}
						cases[s] = ctor
					}
				}
			}
		}
	}
	var ks []string
	for s := range started {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		r.ob("started-protocol", s)
		if len(names[s]) == 0 {
			r.bad("started-protocol", s, p.pos(started[s].Pos()), "the service starts protocol %q, which is not registered", s)
		}
		if len(cases) == 0 {
			continue
		}
		if _, ok := cases[s]; !ok {
			r.bad("started-protocol", s, p.pos(started[s].Pos()), "the service starts protocol %q but constructs no instance for it", s)
		}
	}
}
