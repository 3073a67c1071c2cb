package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Need is a place where a value must not be nil (or must be of some type).
type Need struct {
	T     *Term
	Instr ssa.Instruction
	Fn    *ssa.Function
	Kind  string
	Nil   bool // known to be nil (or of another type) on a path
	OK    bool // the error returned along with it is known to be nil
}

func (ip *Interp) record(cx *actx, st *State, t *Term, in ssa.Instruction, kind string, isNil bool) {
	n := &Need{T: t, Instr: in, Fn: cx.fn, Kind: kind, Nil: isNil}
	if t.k == KRes && len(t.op) > 2 && t.op[len(t.op)-2:] == "/0" {
		e := mk(KRes, t.op[:len(t.op)-2]+"/1", t.n, t.obj, errIface2(), t.args...)
		v, known := st.eval(mkEq(e, tNil))
		n.OK = known && v
	}
	k := fmt.Sprintf("%d|%d|%v|%v", ptrH(in), t.id, isNil, n.OK)
	if cx.root.needs == nil {
		cx.root.needs = map[string]*Need{}
	}
	if cx.root.needs[k] == nil {
		cx.root.needs[k] = n
	}
}

func errIface2() types.Type { return types.Universe.Lookup("error").Type() }

// need records that t is used in a way that needs it not to be nil.
func (ip *Interp) need(cx *actx, st *State, t *Term, in ssa.Instruction, kind string) {
	for _, a := range alternatives(t) {
		switch a.k {
		case KAlloc, KFunc, KClosure, KGlobal, KFldA, KMkI:
			continue
		}
		v, known := st.eval(mkEq(a, tNil))
		if known && !v {
			continue
		}
		ip.record(cx, st, a, in, kind, known && v)
	}
}

// needPtr: the memory at a is accessed.
func (ip *Interp) needPtr(cx *actx, st *State, a *Term, in ssa.Instruction) {
	for a.k == KFldA {
		a = a.args[0]
	}
	if a.k == KIdxA {
		return
	}
	ip.need(cx, st, a, in, "dereference")
}

// needCtx: contexts given to anything are not nil.
func (ip *Interp) needCtx(cx *actx, st *State, args []*Term, sig *types.Signature, in ssa.Instruction) {
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		if isNamed(sig.Params().At(i).Type(), "context", "Context") {
			ip.need(cx, st, args[i], in, "context")
		}
	}
}

func init() {
	register("P36", "Nothing in juju/worker crashes by itself",
		"nilness analysis of every exported function and the goroutines they start, over all paths and with everything that is only there to log: each method call, function call, dereference and context argument has an operand that cannot be nil there - not an error or lookup that may be empty, an optional setting, or a field that is not always set - unless the path has tested it; no channel is closed twice, sent on after being closed, or closed without the entry going away",
		ruleP36)
}

// everyRoot lists all exported functions and methods, and the goroutines they
// start.
func (m *Model) everyRoot() []*Root {
	seen := map[*Root]bool{}
	var out []*Root
	for _, pk := range m.pkgs {
		if !inModPath(pk.Pkg.Path()) {
			continue
		}
		var fns []*ssa.Function
		for n, mb := range pk.Members {
			switch x := mb.(type) {
			case *ssa.Function:
				if types.NewVar(0, nil, n, nil).Exported() && x.Blocks != nil {
					fns = append(fns, x)
				}
			case *ssa.Type:
				if nt, ok := types.Unalias(x.Type()).(*types.Named); ok && !types.IsInterface(nt) {
					fns = append(fns, m.exportedMethods(pk.Pkg.Path(), n)...)
				}
			}
		}
		for _, f := range fns {
			for _, r := range m.tree(m.root(f)) {
				if !seen[r] {
					seen[r] = true
					out = append(out, r)
				}
			}
		}
	}
	return out
}

func inModPath(p string) bool {
	return p == modPath || len(p) > len(modPath) && p[:len(modPath)+1] == modPath+"/"
}

// optional are the settings which may be left out.
var optional = map[string]bool{"Manifold.Filter": true, "Manifold.Output": true, "EngineConfig.Filter": true}

func pointery(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return true
	}
	return false
}

// nilables: the unexported fields of the module's structs that can be nil: one
// is set to nil, or left out when a value is made.
func (m *Model) nilables() map[string]bool {
	if m.nilMemo != nil {
		return m.nilMemo
	}
	out := map[string]bool{}
	m.nilMemo = out
	structT := func(t types.Type) (*types.Named, *types.Struct) {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !inModPath(n.Obj().Pkg().Path()) {
			return nil, nil
		}
		s, _ := n.Underlying().(*types.Struct)
		return n, s
	}
	all := func(t types.Type, but map[int]bool) {
		n, s := structT(t)
		if s == nil {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if !but[i] && pointery(s.Field(i).Type()) {
				out[n.Obj().Name()+"."+s.Field(i).Name()] = true
			}
		}
	}
	for f := range ssautil.AllFunctions(m.prog) {
		if !inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
							all(k.Type(), nil)
						}
						continue
					}
					n, s := structT(fa.X.Type().Underlying().(*types.Pointer).Elem())
					if s != nil && pointery(s.Field(fa.Field).Type()) && maybeNilConst(x.Val, 0) {
						out[n.Obj().Name()+"."+s.Field(fa.Field).Name()] = true
					}
				case *ssa.Alloc:
					t := x.Type().Underlying().(*types.Pointer).Elem()
					if _, s := structT(t); s == nil {
						continue
					}
					if copied(x) == nil {
						if set, whole := fieldsSet(x); !whole {
							all(t, set)
						}
					}
				case *ssa.Lookup:
					if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
						all(mt.Elem(), nil)
					}
				}
			}
		}
	}
	return out
}

// copied: the variable is only there to be copied into that other one.
func copied(x *ssa.Alloc) *ssa.Alloc {
	var to *ssa.Alloc
	for _, u := range *x.Referrers() {
		switch u := u.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != x {
				return nil
			}
		case *ssa.UnOp:
			for _, w := range *u.Referrers() {
				st, ok := w.(*ssa.Store)
				if !ok || st.Val != u {
					return nil
				}
				c, ok := st.Addr.(*ssa.Alloc)
				if !ok || to != nil {
					return nil
				}
				to = c
			}
		default:
			return nil
		}
	}
	return to
}

// fieldsSet lists the fields of a new object that are set in the function
// which makes it or those it calls with it; whole: it is set as a whole.
func fieldsSet(x *ssa.Alloc) (set map[int]bool, whole bool) {
	set = map[int]bool{}
	looked := map[ssa.Value]bool{}
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		if looked[v] {
			return
		}
		looked[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.FieldAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						set[u.Field] = true
					}
				}
			case *ssa.Call:
				if f := u.Call.StaticCallee(); f != nil && inModule(f) {
					for i, a := range u.Call.Args {
						if a == v && i < len(f.Params) {
							look(f.Params[i])
						}
					}
				}
			case *ssa.Store:
				c, isVar := u.Addr.(*ssa.Alloc)
				switch {
				case u.Addr == v:
					if ld, ok := u.Val.(*ssa.UnOp); ok {
						if t, ok := ld.X.(*ssa.Alloc); ok && t != x && copied(t) != nil {
							s, w := fieldsSet(t)
							for i := range s {
								set[i] = true
							}
							whole = whole || w
							continue
						}
					}
					_, k := u.Val.(*ssa.Const)
					whole = whole || !k
				case isVar:
					for _, l := range *c.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && heldIn(ld) == x {
							look(ld)
						}
					}
				}
			}
		}
	}
	look(x)
	return set, whole
}

func maybeNilConst(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if depth < 4 && maybeNilConst(e, depth+1) {
				return true
			}
		}
	}
	return false
}

// mayBeNil says why a value that is not known to be non-nil could be nil.
func (m *Model) mayBeNil(n *Need) string {
	t := n.T
	switch {
	case t.typ != nil && isErrorType(t.typ) && n.Fn.Synthetic == "":
		return "an error that may be nil"
	case t.k == KLookup:
		// the ids of workers that have started or finished are known to the
		// runner (P07)
		k := t.args[1]
		rm := m.runner()
		if t.args[0].isField(rm.workers) && k.k == KFld && k.args[0].k == KRes && len(k.args[0].args) == 1 {
			if ch := k.args[0].args[0]; rm.chanKind(ch) == "started" || rm.chanKind(ch) == "done" {
				return ""
			}
		}
		return "an element a map may not have"
	case t.k == KRes && n.Kind != "context":
		if c, ok := t.obj.(ssa.CallInstruction); ok {
			rs := c.Common().Signature().Results()
			if rs.Len() == 2 && isErrorType(rs.At(1).Type()) && types.Identical(rs.At(0).Type(), t.typ) && !n.OK {
				return "the result of a call that may have failed"
			}
		}
	}
	if t.k == KAssert {
		return "a value that may be of another type"
	}
	a := t
	if a.k == KInit {
		a = a.args[0]
	}
	if obj, name := fieldOf(a); obj != nil {
		full := obj.Name() + "." + name
		if types.NewVar(0, nil, name, nil).Exported() {
			if optional[full] {
				return "something optional (" + full + ")"
			}
			return ""
		}
		if m.nilables()[full] {
			return "something that is not always set (" + full + ")"
		}
	}
	return ""
}

func fieldOf(a *Term) (types.Object, string) {
	switch a.k {
	case KFldA, KFld:
		if o, ok := a.obj.(types.Object); ok {
			return o, a.op
		}
	}
	if _, o, n, ok := a.field(); ok {
		if x, ok := o.(types.Object); ok {
			return x, n
		}
	}
	return nil, ""
}

// withLogs analyses the program afresh, without leaving out what is only there
// to log.
func (m *Model) withLogs(f func(m *Model)) {
	infos, model := fnInfos, theModel
	defer func() { noSkip, fnInfos, theModel = false, infos, model }()
	noSkip, fnInfos = true, map[*ssa.Function]*fnInfo{}
	f(newModel(m.prog, m.pkgs))
}

func ruleP36(c *Check) {
	was := c.M
	defer func() { c.M = was }()
	was.withLogs(func(m *Model) {
		c.M, c.own = m, m
		noCrash(c)
	})
}

func noCrash(c *Check) {
	m := c.M
	c.rule("not-nil", 100)
	c.rule("channels", 5)
	roots := m.everyRoot()
	launched := map[*Root][]*Event{}
	for _, r := range roots {
		for _, g := range m.gos(r) {
			b := m.body(r, g)
			launched[b] = append(launched[b], g)
		}
	}
	for _, r := range roots {
		for _, n := range r.needs {
			at := where{M: m, Fn: n.Fn, In: n.Instr}
			if n.Kind == "type assertion" && !n.Nil {
				if x, ok := n.Instr.(*ssa.TypeAssert); ok && types.Identical(x.AssertedType, x.X.Type()) {
					n = &Need{T: n.T, Instr: n.Instr, Fn: n.Fn, Kind: "method value"}
				} else {
					c.fail("not-nil", at, "%s may be of another type than the one asserted", n.T)
					continue
				}
			}
			if n.Nil {
				c.fail("not-nil", at, "%s of nil", n.Kind)
				continue
			}
			why := m.mayBeNil(n)
			if why != "" && len(launched[r]) > 0 {
				ok := true
				for _, g := range launched[r] {
					v, known := g.Go.St.eval(mkEq(n.T, tNil))
					ok = ok && known && !v
				}
				if ok {
					why = ""
				}
			}
			c.want("not-nil", why == "", at, "%s of %s, %s", n.Kind, n.T, why)
		}
	}
	m.channelUse(c, roots)
}

// channelUse: no channel is closed twice, or used for sending once closed.
func (m *Model) channelUse(c *Check, roots []*Root) {
	const R = "channels"
	closed, sent := map[string]bool{}, map[string]where{}
	for _, r := range roots {
		if pk := r.Fn.Package(); pk != nil && pk.Pkg.Path() == pkgWT {
			continue // a fake watcher is closed by whoever uses it
		}
		for _, p := range r.Paths {
			walkPaths(p, func(q *Path) {
				var done []*Term
				for _, e := range q.Events {
					var ch *Term
					switch {
					case e.Kind == EvClose:
						ch = e.T[0]
						if n := chanName(ch); n != "" {
							closed[n] = true
						}
					case e.isSend():
						ch = e.sentOn()
						if n := chanName(ch); n != "" {
							sent[n] = m.atE(e, q)
						}
					default:
						continue
					}
					for _, d := range done {
						c.want(R, d != ch, m.atE(e, q), "%s is closed, and closed again or used for sending afterwards", ch)
					}
					if e.Kind == EvClose {
						c.want(R, !ch.isNil(), m.atE(e, q), "a nil channel is closed")
						done = append(done, ch)
					}
				}
			})
		}
	}
	for n, at := range sent {
		c.want(R, !closed[n], at, "something is sent on a channel which is also closed")
	}
	// the channels of a runner's entries are closed once: the entry goes, or
	// a flag says so from then on
	rm := m.runner()
	flags := map[string]bool{}
	for _, t := range rm.tr {
		walkPaths(t.P, func(q *Path) {
			for _, e := range q.Events {
				if e.Kind != EvClose {
					continue
				}
				b, _, _, ok := e.T[0].field()
				if !ok || b.k != KLookup || !b.args[0].isField(rm.workers) {
					continue
				}
				once := false
				for _, x := range q.Events {
					if x.Kind == EvMapDel && rm.isWorkersMap(x.T[0]) && x.T[1] == b.args[1] {
						once = true
					}
					if x.Kind == EvStore && x.T[0].k == KFldA && x.T[0].args[0] == b && x.T[1] == tTrue {
						for f, v := range q.Facts {
							if fb, _, n, ok := f.field(); ok && !v && fb == b && n == x.T[0].op {
								once = true
								flags[n] = true
							}
						}
					}
				}
				c.want(R, once, m.atE(e, q), "%s may be closed already", e.T[0])
			}
		})
	}
	for _, t := range rm.tr {
		walkPaths(t.P, func(q *Path) {
			for _, e := range q.Events {
				if e.Kind == EvStore && e.T[0].k == KFldA && flags[e.T[0].op] && e.T[0].args[0].k == KLookup {
					c.want(R, e.T[1] == tTrue, m.atE(e, q), "%s, which says that a channel has been closed, is reset", e.T[0])
				}
			}
		})
	}
}

// noSkip: what is only there to log is analysed as well.
var noSkip bool
