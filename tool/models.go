package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret1(st *State, t *Term) []outcome { return []outcome{{st, t, "ret"}} }

// invoke evaluates a call with known callee/receiver/argument terms.
func (ip *Interp) invoke(cx *actx, st *State, in ssa.CallInstruction, c *ssa.CallCommon, fn, recv *Term, args []*Term, isDefer bool) []outcome {
	if c.IsInvoke() {
		return ip.callMethod(cx, st, in, c.Method, recv, args, c.Signature(), isDefer, c.Value.Type())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ip.builtin(cx, st, in, b, c, args, isDefer)
	}
	return ip.callTerm(cx, st, in, fn, args, c.Signature(), isDefer)
}

func (ip *Interp) callMethod(cx *actx, st *State, in ssa.Instruction, m *types.Func, recv *Term, args []*Term, sig *types.Signature, isDefer bool, ifaceT types.Type) []outcome {
	ip.need(cx, st, recv, in, "method call")
	ip.needCtx(cx, st, args, sig, in)
	if isLoggerIface(ifaceT) {
		return ret1(st, nil)
	}
	if recv.k == KMkI && recv.typ != nil {
		if sel := ip.prog.MethodSets.MethodSet(recv.typ).Lookup(m.Pkg(), m.Name()); sel != nil {
			if f := ip.prog.MethodValue(sel); f != nil {
				return ip.callTerm(cx, st, in, mk(KFunc, "", 0, f, nil), append([]*Term{recv.args[0]}, args...), f.Signature, isDefer)
			}
		}
	}
	name := m.FullName()
	if (m.Name() == "Error" || m.Name() == "String") && len(args) == 0 {
		return ret1(st, mk(KCall, "method "+m.Name(), 0, nil, types.Typ[types.String], recv))
	}
	if it, ok := ifaceT.Underlying().(*types.Interface); ok && len(args) == 0 && sig.Results().Len() == 1 && types.Implements(it, errIface) {
		// accessors of error values
		return ret1(st, mk(KCall, "method "+m.Name(), 0, nil, sig.Results().At(0).Type(), recv))
	}
	if m.Name() == "Done" && len(args) == 0 && sig.Results().Len() == 1 {
		return ret1(st, mk(KCall, "ctx.Done", 0, nil, sig.Results().At(0).Type(), recv))
	}
	if isNamed(ifaceT, "reflect", "Type") && sig.Results().Len() == 1 {
		return ret1(st, mkReflect("reflect.Type."+m.Name(), sig.Results().At(0).Type(), append([]*Term{recv}, args...)...))
	}
	return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: name, Method: m.Name(), T: append([]*Term{recv}, args...)}, sig)
}

// mkReflect: the result of a function of package reflect, in one form for the
// ways there are to ask for the same thing: types are asked for from values.
func mkReflect(name string, typ types.Type, args ...*Term) *Term {
	const V = "(reflect.Value)."
	isT := func(t *Term) bool { return t.k == KCall && t.op == V+"Type" }
	switch {
	case name == "reflect.TypeOf":
		return mk(KCall, V+"Type", 0, nil, typ, mk(KCall, "reflect.ValueOf", 0, nil, nil, args[0]))
	case name == "reflect.ValueOf":
		return mk(KCall, name, 0, nil, nil, args[0])
	case name == "reflect.Indirect":
		return mk(KCall, V+"Elem", 0, nil, nil, args[0])
	case name == V+"CanConvert":
		return mkReflect("reflect.Type.ConvertibleTo", typ, mkReflect(V+"Type", nil, args[0]), args[1])
	case name == "reflect.Type.Kind" && isT(args[0]):
		return mk(KCall, V+"Kind", 0, nil, typ, args[0].args[0])
	case name == "reflect.Type.Elem" && isT(args[0]):
		return mk(KCall, V+"Type", 0, nil, nil, mkReflect(V+"Elem", nil, args[0].args[0]))
	case name == V+"Type" || name == V+"Elem" || name == V+"Convert":
		return mk(KCall, name, 0, nil, nil, args...)
	}
	return mk(KCall, name, 0, nil, typ, args...)
}

// opaque records a call to code we do not see.
func (ip *Interp) opaque(cx *actx, st *State, in ssa.Instruction, e *Event, sig *types.Signature) []outcome {
	e.Instr, e.Cx, e.Fn = in, cx, cx.fn
	for _, a := range e.T {
		ip.publish(st, a)
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, mk(KRes, fmt.Sprintf("%s/%d", e.Name+e.Method, i), cx.id, in, sig.Results().At(i).Type(), e.T...))
	}
	e.Res = mkTuple(rs)
	var outs []outcome
	if ip.abnormal != nil && ip.abnormal(e) {
		for _, k := range []string{"panic", "goexit"} {
			s := st.clone()
			e2 := *e
			s.add(&e2)
			s.pan = &panicSt{kind: k, val: mk(KSym, "panicval", cx.id, in, nil)}
			if k == "panic" {
				s.setFact(mkEq(s.pan.val, tNil), false)
			}
			outs = append(outs, outcome{s, nil, k})
		}
	}
	st.add(e)
	ip.maybeBump(cx, st, in)
	outs = append(outs, outcome{st, e.Res, "ret"})
	return outs
}

func (ip *Interp) callTerm(cx *actx, st *State, in ssa.Instruction, fn *Term, args []*Term, sig *types.Signature, isDefer bool) []outcome {
	switch fn.k {
	case KFunc, KClosure:
		f := fn.obj.(*ssa.Function)
		var binds []*Term
		if fn.k == KClosure {
			binds = fn.args
		}
		if inModule(f) && f.Blocks != nil {
			if cx.onStack(f) || ip.opaqueRec(cx, f) {
				return ip.opaque(cx, st, in, &Event{Kind: EvRecurse, Name: extName(f), T: args}, sig)
			}
			if extName(f) == pkgDep+".Validate" {
				// judged on its own (P24); here only what it is asked matters
				return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: extName(f), T: args}, sig)
			}
			ncx := ip.newCx(cx, in, f)
			ncx.defer_ = isDefer
			return ip.execFunc(ncx, f, args, binds, st)
		}
		ip.needCtx(cx, st, args[len(args)-sig.Params().Len():], sig, in)
		return ip.external(cx, st, in, f, args, sig, isDefer)
	}
	ip.need(cx, st, fn, in, "function call")
	ip.needCtx(cx, st, args, sig, in)
	if fn.isNil() {
		return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: "nil func", T: args}, sig)
	}
	// a function value: a callback
	return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: "dyn", T: append([]*Term{fn}, args...)}, sig)
}

func (ip *Interp) builtin(cx *actx, st *State, in ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, isDefer bool) []outcome {
	resT := c.Signature().Results()
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	_ = resT
	switch b.Name() {
	case "len":
		x := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ip.mapAccess(cx, st, x, false, in, cx.fn)
			return ret1(st, st.mapLen(x))
		}
		if x.k == KCall && x.op == "slicelit" {
			return ret1(st, mkInt(int64(len(x.args))))
		}
		if x.isNil() {
			return ret1(st, mkInt(0))
		}
		if isTail(x) {
			return ret1(st, mk(KCall, "lentail", 0, nil, intT, x.args[1], mk(KLen, "", 0, nil, intT, x.args[0])))
		}
		return ret1(st, mk(KLen, "", 0, nil, intT, x))
	case "cap":
		return ret1(st, mk(KCall, "cap", 0, nil, intT, args...))
	case "append":
		x := args[0]
		if len(args) < 2 {
			return ret1(st, x)
		}
		y := args[1]
		if y.k == KCall && y.op == "slicelit" {
			if x.k == KAppend {
				return ret1(st, mk(KAppend, "", 0, nil, rt, append(append([]*Term(nil), x.args...), y.args...)...))
			}
			if x.k == KCall && x.op == "slicelit" && len(x.args) > 0 {
				return ret1(st, mk(KCall, "slicelit", 0, nil, rt, append(append([]*Term(nil), x.args...), y.args...)...))
			}
			return ret1(st, mk(KAppend, "", 0, nil, rt, append([]*Term{x}, y.args...)...))
		}
		return ret1(st, mk(KCall, "appendslice", 0, nil, rt, x, y))
	case "copy":
		return ret1(st, mk(KRes, "copy", cx.id, in, rt, args...))
	case "close":
		st.add(&Event{Kind: EvClose, Instr: in, Fn: cx.fn, Cx: cx, T: args})
		ip.maybeBump(cx, st, in)
		return ret1(st, nil)
	case "delete":
		ip.mapAccess(cx, st, args[0], true, in, cx.fn)
		old, has := st.mapGet(args[0], args[1], c.Args[0].Type().Underlying().(*types.Map).Elem())
		st.add(&Event{Kind: EvMapDel, Instr: in, Fn: cx.fn, Cx: cx, T: args, Old: old, OldHas: has})
		st.mapSet(args[0], args[1], nil)
		return ret1(st, nil)
	case "clear":
		st.add(&Event{Kind: EvMapBad, Name: "clear", Instr: in, Fn: cx.fn, Cx: cx, T: args})
		st.mapHavoc(args[0], ip.intern(ip.verTab, fmt.Sprintf("c%d/%d", cx.id, ptrH(in))))
		return ret1(st, nil)
	case "recover":
		if st.pan != nil && st.pan.kind == "panic" && !st.pan.recovered && cx.defer_ {
			v := st.pan.val
			np := *st.pan
			np.recovered = true
			st.pan = &np
			return ret1(st, v)
		}
		return ret1(st, tNil)
	case "print", "println":
		return ret1(st, nil)
	case "min", "max":
		return ret1(st, mk(KCall, b.Name(), 0, nil, rt, args...))
	case "ssa:wrapnilchk":
		return ret1(st, args[0])
	}
	return ret1(st, mk(KCall, "builtin "+b.Name(), 0, nil, rt, args...))
}

func tupleRes(rs ...*Term) *Term { return mkTuple(rs) }

func (ip *Interp) external(cx *actx, st *State, in ssa.Instruction, f *ssa.Function, args []*Term, sig *types.Signature, isDefer bool) []outcome {
	name := extName(f)
	resT := func(i int) types.Type { return f.Signature.Results().At(i).Type() }
	ev := func(kind string, ts ...*Term) {
		st.add(&Event{Kind: kind, Instr: in, Fn: cx.fn, Cx: cx, Name: name, T: ts})
	}
	switch name {
	// tomb ---------------------------------------------------------------
	case "(*gopkg.in/tomb.v2.Tomb).Dying":
		return ret1(st, mk(KCall, "tomb.Dying", 0, nil, resT(0), args[0]))
	case "(*gopkg.in/tomb.v2.Tomb).Dead":
		return ret1(st, mk(KCall, "tomb.Dead", 0, nil, resT(0), args[0]))
	case "(*gopkg.in/tomb.v2.Tomb).Kill", "(*gopkg.in/tomb.v2.Tomb).Killf":
		e := args[1]
		if strings.HasSuffix(name, "Killf") {
			e = mk(KCall, "fmt.Errorf", 0, nil, nil, args[1:]...)
		}
		ev(EvKill, args[0], e)
		st.setFact(dyingAtom(args[0]), true)
		ip.maybeBump(cx, st, in)
		if strings.HasSuffix(name, "Killf") {
			return ret1(st, e)
		}
		return ret1(st, nil)
	case "(*gopkg.in/tomb.v2.Tomb).Go":
		ip.launch(cx, st, in, cx.fn, args[1], nil, "tomb", nil)
		st.ev.e.T = []*Term{args[0]}
		return ret1(st, nil)
	case "(*gopkg.in/tomb.v2.Tomb).Wait":
		r := mk(KRes, "tomb.Wait", cx.id, in, resT(0), args[0])
		st.add(&Event{Kind: EvTWait, Instr: in, Fn: cx.fn, Cx: cx, Name: name, T: args, Res: r, Block: true})
		ip.maybeBump(cx, st, in)
		st.dead = true
		st.setFact(dyingAtom(args[0]), true)
		st.setFact(deadAtom(args[0]), true)
		return ret1(st, r)
	case "(*gopkg.in/tomb.v2.Tomb).Alive":
		if v, ok := st.facts[dyingAtom(args[0])]; ok && v {
			ev(EvDie, args[0])
			return ret1(st, tFalse)
		}
		s2 := st.clone()
		s2.setFact(dyingAtom(args[0]), true)
		s2.add(&Event{Kind: EvDie, Instr: in, Fn: cx.fn, Cx: cx, T: []*Term{args[0]}})
		ev(EvNotDie, args[0])
		return []outcome{{st, tTrue, "ret"}, {s2, tFalse, "ret"}}
	case "(*gopkg.in/tomb.v2.Tomb).Err":
		g := ip.globalLoad(st, "gopkg.in/tomb.v2", "ErrStillAlive")
		r := mk(KRes, "tomb.Err", cx.id, in, resT(0), args[0])
		if v, ok := st.facts[dyingAtom(args[0])]; ok && v {
			if g != nil {
				st.setFact(mkEq(r, g), false)
			}
			ev(EvDie, args[0])
			return ret1(st, r)
		}
		if g == nil {
			return ret1(st, r)
		}
		s2 := st.clone()
		s2.setFact(dyingAtom(args[0]), true)
		s2.setFact(mkEq(r, g), false)
		s2.add(&Event{Kind: EvDie, Instr: in, Fn: cx.fn, Cx: cx, T: []*Term{args[0]}})
		ev(EvNotDie, args[0])
		return []outcome{{st, g, "ret"}, {s2, r, "ret"}}
	case "(*gopkg.in/tomb.v2.Tomb).Context":
		return ret1(st, mk(KCall, "tomb.Context", 0, nil, resT(0), args...))
	// sync -----------------------------------------------------------------
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		ev(EvLock, args[0])
		l := args[0]
		if strings.HasSuffix(name, "RLock") {
			l = mk(KCall, "rlock", 0, nil, nil, l)
		}
		st.locks = append(st.locks, l)
		ip.maybeBump(cx, st, in)
		st.ev.e.Post = st.gver
		return ret1(st, nil)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		ev(EvUnlock, args[0])
		for i := len(st.locks) - 1; i >= 0; i-- {
			if lockOf(st.locks[i]) == args[0] {
				st.locks = append(append([]*Term(nil), st.locks[:i]...), st.locks[i+1:]...)
				break
			}
		}
		return ret1(st, nil)
	case "(*sync.Mutex).TryLock":
		s2 := st.clone()
		ev(EvLock, args[0])
		st.locks = append(st.locks, args[0])
		ip.maybeBump(cx, st, in)
		return []outcome{{st, tTrue, "ret"}, {s2, tFalse, "ret"}}
	case "sync.NewCond":
		return ret1(st, mk(KCall, "sync.NewCond", cx.id, in, resT(0), args...))
	case "(*sync.Cond).Wait":
		ev(EvCondW, args[0])
		st.ev.e.Block = true
		st.ev.e.Facts = make(map[*Term]bool, len(st.facts))
		for a, v := range st.facts {
			st.ev.e.Facts[a] = v
		}
		ip.maybeBump(cx, st, in)
		st.ev.e.Post = st.gver
		return ret1(st, nil)
	case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		ev(EvBcast, args[0])
		return ret1(st, nil)
	case "(*sync.WaitGroup).Add":
		ev(EvWgAdd, args...)
		return ret1(st, nil)
	case "(*sync.WaitGroup).Done":
		ev(EvWgDone, args[0])
		return ret1(st, nil)
	case "(*sync.WaitGroup).Wait":
		ev(EvWgWait, args[0])
		st.ev.e.Block = true
		ip.maybeBump(cx, st, in)
		return ret1(st, nil)
	case "(*sync.WaitGroup).Go":
		ev(EvWgAdd, args[0], mkInt(1))
		ip.launch(cx, st, in, cx.fn, args[1], nil, "wg", args[0])
		return ret1(st, nil)
	case "(*sync.Once).Do":
		s2 := st.clone()
		outs := ip.callTerm(cx, st, in, args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), false)
		for i := range outs {
			outs[i].res = nil
		}
		return append(outs, outcome{s2, nil, "ret"})
	// pprof ------------------------------------------------------------------
	case "runtime/pprof.Do":
		ctx := mk(KCall, "pprof.ctx", 0, nil, nil, args[0], args[1])
		outs := ip.callTerm(cx, st, in, args[2], []*Term{ctx}, types.NewSignatureType(nil, nil, nil, nil, nil, false), false)
		for i := range outs {
			outs[i].res = nil
		}
		return outs
	case "runtime/pprof.WithLabels":
		return ret1(st, mk(KCall, "pprof.ctx", 0, nil, nil, args[0], args[1]))
	case "runtime/pprof.SetGoroutineLabels":
		return ret1(st, nil)
	// context ------------------------------------------------------------------
	case "context.WithCancel", "context.WithCancelCause", "context.WithTimeout", "context.WithDeadline":
		op := strings.TrimSuffix(name, "Cause")
		if op == "context.WithDeadline" {
			op = "context.WithTimeout"
		}
		ctx := mk(KCall, op+"/0", cx.id, in, resT(0), args...)
		cancel := mk(KCall, op+"/1", cx.id, in, resT(1), args...)
		return ret1(st, tupleRes(ctx, cancel))
	// errors ---------------------------------------------------------------------
	case "github.com/juju/errors.Is", "errors.Is":
		return ret1(st, ip.errorsIs(args[0], args[1]))
	case "github.com/juju/errors.As", "errors.As":
		return ip.errorsAs(cx, st, in, args)
	case "github.com/juju/errors.Cause":
		e := args[0]
		for isErrWrap(e) {
			e = e.args[0]
		}
		if e.isNil() || (e.k == KMkI && e.args[0].k == KConst) {
			return ret1(st, e)
		}
		return ret1(st, mk(KCall, "errors.Cause", 0, nil, resT(0), e))
	case "github.com/juju/errors.Trace", "github.com/juju/errors.Annotatef", "github.com/juju/errors.Annotate":
		if args[0].isNil() {
			return ret1(st, tNil)
		}
		return ret1(st, mk(KCall, name, 0, nil, resT(0), args[0]))
	// sets of strings
	case "github.com/juju/collections/set.NewStrings":
		if len(args) == 1 && args[0].isNil() {
			return ret1(st, mk(KAlloc, "map", cx.id, in, resT(0)))
		}
		t := mk(KAlloc, "set", cx.id, in, resT(0))
		st.setCell(t, mk(KCall, "set", 0, nil, nil, args...))
		return ret1(st, t)
	case "(github.com/juju/collections/set.Strings).Remove", "(github.com/juju/collections/set.Strings).Add":
		op := "setminus"
		if strings.HasSuffix(name, "Add") {
			op = "setplus"
		}
		if cur, ok := st.mem[args[0]]; ok {
			st.setCell(args[0], mk(KCall, op, 0, nil, nil, cur, args[1]))
			return ret1(st, nil)
		}
		// a set held elsewhere is a map from strings to true
		m, k := args[0], args[1]
		ip.mapAccess(cx, st, m, true, in, cx.fn)
		if op == "setminus" {
			old, has := st.mapGet(m, k, boolT)
			st.add(&Event{Kind: EvMapDel, Instr: in, Fn: cx.fn, Cx: cx, T: []*Term{m, k}, Old: old, OldHas: has})
			st.mapSet(m, k, nil)
			return ret1(st, nil)
		}
		old, has := st.mapGet(m, k, boolT)
		st.add(&Event{Kind: EvMapSet, Instr: in, Fn: cx.fn, Cx: cx, T: []*Term{m, k, tTrue}, Old: old, OldHas: has})
		st.mapSet(m, k, tTrue)
		return ret1(st, nil)
	case "(github.com/juju/collections/set.Strings).Contains":
		if _, ok := st.mem[args[0]]; !ok {
			ip.mapAccess(cx, st, args[0], false, in, cx.fn)
			_, has := st.mapGet(args[0], args[1], boolT)
			return ret1(st, has)
		}
		return ret1(st, mk(KCall, "setcontains", 0, nil, boolT, st.mem[args[0]], args[1]))
	case "(github.com/juju/collections/set.Strings).Values", "(github.com/juju/collections/set.Strings).SortedValues":
		if cur, ok := st.mem[args[0]]; ok {
			return ret1(st, mk(KCall, "setvalues", 0, nil, resT(0), cur))
		}
	case "(github.com/juju/collections/set.Strings).Difference":
		a, ok1 := st.mem[args[0]]
		b, ok2 := st.mem[args[1]]
		if ok1 && ok2 {
			t := mk(KAlloc, "set", cx.id, in, resT(0))
			st.setCell(t, mk(KCall, "setdiff", 0, nil, nil, a, b))
			return ret1(st, t)
		}
	case "maps.Copy":
		ip.copyMap(cx, st, in, args[0], args[1])
		return ret1(st, nil)
	case "maps.Clone":
		if mt := mapOfTerm(args[0]); mt != nil {
			t := mk(KAlloc, "map", cx.id, in, args[0].typ)
			ip.copyMap(cx, st, in, t, args[0])
			return ret1(st, t)
		}
	case "slices.Sorted", "slices.Collect":
		if a := args[0]; a.k == KCall && a.op == "maps.Keys" {
			m := a.args[0]
			lid := ip.intern(ip.verTab, fmt.Sprintf("LK%d/%d", cx.id, ptrH(in)))
			var kt types.Type
			if mt := mapOfTerm(m); mt != nil {
				kt = mt.Key()
			}
			key := mk(KKey, "", lid, nil, kt, m)
			return ret1(st, mk(KCollect, "", lid, nil, resT(0), tNil, key, m))
		}
	case "slices.DeleteFunc":
		if t := ip.filtered(cx, st, in, args[0], args[1], false, resT(0)); t != nil {
			return ret1(st, t)
		}
		return ret1(st, mk(KCall, "slices.DeleteFunc", 0, nil, nil, args...))
	case "runtime.Goexit":
		st.pan = &panicSt{kind: "goexit"}
		return []outcome{{st, nil, "goexit"}}
	case "time.After":
		return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: name, T: args}, f.Signature)
	case "time.Now":
		return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: name, T: args}, f.Signature)
	}
	if i := strings.Index(name, "CompareAndSwap"); i >= 0 && strings.Contains(name, "sync/atomic") {
		s2 := st.clone()
		ip.access(cx, st, args[0], true, in, cx.fn, "@atomic")
		ev(EvCAS, args...)
		return []outcome{{st, tTrue, "ret"}, {s2, tFalse, "ret"}}
	}
	if strings.Contains(name, "sync/atomic") && (strings.HasPrefix(f.Name(), "Swap")) && len(args) == 2 && args[1].k == KConst {
		// exchanging a flag is a compare-and-swap from its zero value
		s2 := st.clone()
		ip.access(cx, st, args[0], true, in, cx.fn, "@atomic")
		old := mk(KRes, name, cx.id, in, resT(0), args...)
		zero := zeroTerm(resT(0))
		if args[1] == zero {
			ev(EvStore, args[0], args[1])
			return ret1(st, old)
		}
		ev(EvCAS, args[0], zero, args[1])
		s2.assume(mkEq(old, zero), false)
		if isBool(resT(0)) {
			old = tTrue
		}
		return []outcome{{st, zero, "ret"}, {s2, old, "ret"}}
	}
	if strings.Contains(name, "sync/atomic") && (strings.Contains(name, "Load")) {
		ip.access(cx, st, args[0], false, in, cx.fn, "@atomic")
		return ret1(st, mk(KRes, name, cx.id, in, resT(0), args...))
	}
	if strings.Contains(name, "sync/atomic") && (strings.Contains(name, "Store") || strings.Contains(name, "Add") || strings.Contains(name, "Swap")) {
		ip.access(cx, st, args[0], true, in, cx.fn, "@atomic")
	}
	if strings.HasPrefix(name, "math/rand") {
		var rs []*Term
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rs = append(rs, mk(KRes, name, cx.id, in, resT(i), args...))
		}
		return ret1(st, mkTuple(rs))
	}
	if pureExternal(name) {
		var rs []*Term
		n := f.Signature.Results().Len()
		if n == 1 && (strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.")) {
			return ret1(st, mkReflect(name, resT(0), args...))
		}
		for i := 0; i < n; i++ {
			nm := name
			if n > 1 {
				nm = fmt.Sprintf("%s/%d", name, i)
			}
			rs = append(rs, mk(KCall, nm, 0, nil, resT(i), args...))
		}
		return ret1(st, mkTuple(rs))
	}
	// A map handed to code we do not see may be changed by it.
	for i, a := range args {
		if i < len(args) && f.Signature != nil {
			if a.typ != nil {
				if _, ok := a.typ.Underlying().(*types.Map); ok {
					st.add(&Event{Kind: EvMapBad, Name: name, Instr: in, Fn: cx.fn, Cx: cx, T: args})
					st.mapHavoc(a, ip.intern(ip.verTab, fmt.Sprintf("x%d/%d", cx.id, ptrH(in))))
				}
			}
		}
	}
	return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: name, T: args}, f.Signature)
}

func (ip *Interp) globalLoad(st *State, pkg, name string) *Term {
	p := ip.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	a := mk(KGlobal, "", 0, g, g.Type())
	return st.load(a, g.Type().Underlying().(*types.Pointer).Elem())
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// constErr gives the text of a constant error.
func constErr(t *Term) (string, bool) {
	if t.k == KMkI && t.args[0].k == KConst {
		return t.args[0].op, true
	}
	return "", false
}

var makerKind = map[string]string{
	"github.com/juju/errors.NotFoundf": `"not found"`, "github.com/juju/errors.NewNotFound": `"not found"`,
	"github.com/juju/errors.AlreadyExistsf": `"already exists"`, "github.com/juju/errors.NewAlreadyExists": `"already exists"`,
	"github.com/juju/errors.NotValidf": `"not valid"`, "github.com/juju/errors.NewNotValid": `"not valid"`,
}

func (ip *Interp) errorsIs(e, target *Term) *Term {
	for isErrWrap(e) {
		e = e.args[0]
	}
	if e == target {
		return tTrue
	}
	if e.isNil() {
		return mkBool(target.isNil())
	}
	tc, okT := constErr(target)
	if ec, ok := constErr(e); ok && okT {
		return mkBool(ec == tc)
	}
	if isErrMake(e) && okT && e.op != "fmt.Errorf" {
		return mkBool(makerKind[e.op] == tc)
	}
	return mk(KCall, "errors.Is", 0, nil, boolT, e, target)
}

// unwraps: errors.As may look further than at the value of this type itself.
func unwraps(prog *ssa.Program, t types.Type) bool {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Unwrap", "As":
			return true
		}
	}
	return false
}

func (ip *Interp) errorsAs(cx *actx, st *State, in ssa.Instruction, args []*Term) []outcome {
	e := args[0]
	for isErrWrap(e) {
		e = e.args[0]
	}
	if e.isNil() {
		return ret1(st, tFalse)
	}
	tgt := args[1]
	if tgt.k == KMkI {
		tgt = tgt.args[0]
	}
	ct := cellType(tgt)
	if ct == nil {
		return ip.opaque(cx, st, in, &Event{Kind: EvCall, Name: "errors.As", T: args}, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", boolT)), false))
	}
	atom := mk(KCall, "errors.As", 0, typKey(ct), boolT, e)
	val := mk(KCall, "errors.As/val", 0, typKey(ct), ct, e)
	if e.k == KMkI && e.typ != nil && types.Identical(e.typ, ct) {
		st.store(tgt, ct, e.args[0])
		return ret1(st, tTrue)
	}
	if isErrMake(e) && e.op != "fmt.Errorf" || e.k == KMkI && e.args[0].k == KConst {
		return ret1(st, tFalse)
	}
	if v, known := st.eval(mkEq(e, tNil)); known && v {
		return ret1(st, tFalse)
	}
	if e.k == KMkI && e.typ != nil && !unwraps(ip.prog, e.typ) {
		if i, ok := ct.Underlying().(*types.Interface); !ok || !types.Implements(e.typ, i) {
			return ret1(st, tFalse)
		}
	}
	s2 := st.clone()
	var outs []outcome
	if st.assume(atom, true) {
		st.store(tgt, ct, val)
		outs = append(outs, outcome{st, tTrue, "ret"})
	}
	if s2.assume(atom, false) {
		outs = append(outs, outcome{s2, tFalse, "ret"})
	}
	return outs
}

// RunRoot analyses an entry point.
func (ip *Interp) RunRoot(name string, fn *ssa.Function, args, binds []*Term, st *State, isLoop bool) (r *Root) {
	r = &Root{Name: name, Fn: fn, Loop: isLoop, acc: map[string]*Access{}, Fns: map[*ssa.Function]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				r.err = fmt.Errorf("%s: %s", name, u.msg)
				return
			}
			panic(e)
		}
	}()
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, mk(KSym, p.Name(), 0, p, p.Type()))
		}
	}
	r.Args = args
	cx := ip.newCx(nil, nil, fn)
	cx.root = r
	if st == nil {
		st = newState()
	}
	outs := ip.execFunc(cx, fn, args, binds, st)
	for _, o := range outs {
		p := &Path{Events: o.st.events(0), Facts: o.st.facts, St: o.st, Kind: o.kind}
		if o.res != nil {
			if o.res.k == KTuple {
				p.Res = o.res.args
			} else {
				p.Res = []*Term{o.res}
			}
		}
		r.Paths = append(r.Paths, p)
	}
	ip.Roots = append(ip.Roots, r)
	return r
}

// sharedType: objects of these types are used by several goroutines, so
// that a new goroutine knows nothing about their content.
func sharedType(t types.Type) bool {
	s := structOf(t)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		n, ok := types.Unalias(s.Field(i).Type()).(*types.Named)
		if ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "gopkg.in/tomb.v2", "sync":
				return true
			}
		}
	}
	return false
}

// Body analyses the goroutine launched by e.
func (ip *Interp) Body(parent *Root, e *Event) *Root {
	g := e.Go
	if g.body != nil {
		return g.body
	}
	st := newState()
	reach := map[*Term]bool{}
	byRoot := map[*Term][]*Term{}
	for a := range g.St.mem {
		byRoot[rootOf(a)] = append(byRoot[rootOf(a)], a)
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		switch t.k {
		case KFldA, KIdxA:
			visit(rootOf(t))
			return
		case KAlloc:
			if reach[t] {
				return
			}
			reach[t] = true
			if g.St.pub[t] {
				st.pub[t] = true
			}
			if sharedType(t.typ) || g.St.sym[t] {
				if !sharedType(t.typ) {
					for _, a := range byRoot[t] {
						if immutable(a) {
							st.setCell(a, g.St.mem[a])
							visit(g.St.mem[a])
						}
					}
				}
				if !g.St.sym[t] {
					// fields never set keep their zero value
					st.keepZeros(t, t.typ, g.St.mem)
				}
				st.sym[t] = true
				return
			}
			for _, a := range byRoot[t] {
				st.setCell(a, g.St.mem[a])
				visit(g.St.mem[a])
			}
			if l := g.St.maps[t]; l != nil {
				st.maps[t] = l
				st.mapH += st.mapHash(t)
				for _, u := range l {
					if u.val != nil {
						visit(u.val)
					}
				}
			}
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(g.Fn)
	for _, a := range g.Args {
		visit(a)
	}
	st.gver = 1 << 20
	// Locks handed over to the goroutine are found by the rules that care;
	// here a goroutine starts with the locks its own Unlock calls need.
	key := fmt.Sprintf("%d/%d/%d/%d", ptrH(e.Instr), g.Fn.id, st.memH, st.mapH)
	for _, a := range g.Args {
		key += fmt.Sprintf("/%d", a.id)
	}
	if b, ok := ip.bodies[key]; ok {
		g.body = b
		return b
	}
	var r *Root
	fn := g.Fn
	switch {
	case fn.k == KFunc || fn.k == KClosure:
		f := fn.obj.(*ssa.Function)
		var binds []*Term
		if fn.k == KClosure {
			binds = fn.args
		}
		if f.Blocks != nil {
			isLoop := g.Kind == "tomb" && isConstructor(parent.Fn)
			args := g.Args
			if args == nil {
				args = []*Term{}
			}
			if handsOver(g, f) {
				st.locks = append([]*Term(nil), g.Locks...)
			}
			r = ip.RunRoot(parent.Name+" ⇒ go "+f.Name(), f, args, binds, st, isLoop)
			if g.Wg != nil {
				for _, p := range r.Paths {
					p.Events = append(p.Events, &Event{Kind: EvWgDone, Instr: e.Instr, Fn: f, T: []*Term{g.Wg}})
				}
			}
		}
	}
	if r == nil {
		r = &Root{Name: parent.Name + " ⇒ go " + fn.String(), err: fmt.Errorf("goroutine body not visible: %s", fn)}
	}
	ip.bodies[key] = r
	g.body = r
	return r
}

// handsOver: the goroutine unlocks a mutex it has not locked itself, so the
// launcher hands the lock over.
func handsOver(g *GoInfo, f *ssa.Function) bool {
	if len(g.Locks) == 0 {
		return false
	}
	locks, unlocks := 0, 0
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] || len(seen) > 50 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch x := in.(type) {
				case *ssa.Call:
					c = &x.Call
				case *ssa.Defer:
					c = &x.Call
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						scan(g)
					}
				}
				if c == nil {
					continue
				}
				if s := c.StaticCallee(); s != nil {
					switch extName(s) {
					case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
						locks++
					case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
						unlocks++
					}
					if inModule(s) {
						scan(s)
					}
				}
			}
		}
	}
	scan(f)
	return unlocks > 0 && locks == 0
}

func isConstructor(f *ssa.Function) bool {
	return f != nil && f.Parent() == nil && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "New")
}

// lockOf is the mutex of a held lock.
func lockOf(l *Term) *Term {
	if l.k == KCall && l.op == "rlock" {
		return l.args[0]
	}
	return l
}

func mapOfTerm(t *Term) *types.Map {
	if t == nil || t.typ == nil {
		return nil
	}
	m, _ := t.typ.Underlying().(*types.Map)
	return m
}

// copyMap is the loop that copies one map into another.
func (ip *Interp) copyMap(cx *actx, st *State, in ssa.Instruction, dst, src *Term) {
	mt := mapOfTerm(src)
	if mt == nil {
		mt = mapOfTerm(dst)
	}
	if mt == nil {
		panic(undecided{"copy of an unknown map"})
	}
	ip.mapAccess(cx, st, src, false, in, cx.fn)
	ip.mapAccess(cx, st, dst, true, in, cx.fn)
	lid := ip.intern(ip.verTab, fmt.Sprintf("LC%d/%d", cx.id, ptrH(in)))
	key := mk(KKey, "", lid, nil, mt.Key(), src)
	it := st.clone()
	v, _ := it.mapGet(src, key, mt.Elem())
	old, has := it.mapGet(dst, key, mt.Elem())
	set := &Event{Kind: EvMapSet, Instr: in, Fn: cx.fn, Cx: cx, T: []*Term{dst, key, v}, Old: old, OldHas: has}
	li := &LoopInfo{ID: lid, Fn: cx.fn, Kind: "map", Container: src, Key: key, Start: st.clone(), FromStart: true}
	li.Iters = []*Path{{Kind: "iter", Events: []*Event{set}, Facts: it.facts, St: it}}
	st.mapHavoc(dst, ip.intern(ip.verTab, fmt.Sprintf("v%d", lid)))
	st.add(&Event{Kind: EvLoop, Instr: in, Fn: cx.fn, Cx: cx, Loop: li, Exh: true})
}

// opaqueRec: the function is part of a recursion which the code being analysed
// is not a part of. Such functions are judged on their own.
func (ip *Interp) opaqueRec(cx *actx, f *ssa.Function) bool {
	s := recursion(f)
	return s != 0 && recursion(cx.root.Fn) != s
}

var recTab map[*ssa.Function]int

// recursion numbers the groups of functions which call each other.
func recursion(f *ssa.Function) int {
	if recTab == nil {
		recTab = map[*ssa.Function]int{}
		succ := func(f *ssa.Function) []*ssa.Function {
			var out []*ssa.Function
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && inModule(g) {
							out = append(out, g)
						}
					}
				}
			}
			return out
		}
		reach := func(f *ssa.Function) map[*ssa.Function]bool {
			seen := map[*ssa.Function]bool{}
			todo := succ(f)
			for len(todo) > 0 {
				g := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if !seen[g] {
					seen[g] = true
					todo = append(todo, succ(g)...)
				}
			}
			return seen
		}
		n := 0
		for _, f := range theModel.fns {
			if recTab[f] != 0 {
				continue
			}
			rs := reach(f)
			if !rs[f] {
				continue
			}
			n++
			for g := range rs {
				if reach(g)[f] {
					recTab[g] = n
				}
			}
		}
	}
	return recTab[f]
}

// filtered: the elements of a slice for which a function without effects gives
// the value wanted; nil if it cannot be expressed.
func (ip *Interp) filtered(cx *actx, st *State, in ssa.Instruction, sl, fn *Term, want bool, rt types.Type) *Term {
	if fn.k != KClosure && fn.k != KFunc {
		return nil
	}
	var et types.Type
	if s, ok := rt.Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	lid := ip.intern(ip.verTab, fmt.Sprintf("LF%d/%d", cx.id, ptrH(in)))
	elem := mk(KElem, "", lid, nil, et, sl)
	n := 0
	if st.ev != nil {
		n = st.ev.n
	}
	q := st.clone()
	outs := ip.callTerm(cx, q, in, fn, []*Term{elem}, fn.obj.(*ssa.Function).Signature, false)
	var conds []Fact
	if len(outs) == 1 && outs[0].kind == "ret" && outs[0].res != nil {
		conds = []Fact{{outs[0].res, want}}
		if r := outs[0].res; r.k == KOp && r.op == "!" {
			conds = []Fact{{r.args[0], !want}}
		}
	} else {
		kept := 0
		for _, o := range outs {
			if o.kind != "ret" || o.res != tTrue && o.res != tFalse {
				return nil
			}
			if o.res == tTrue != want {
				continue
			}
			kept++
			for _, f := range sortedFacts(o.st.facts) {
				if old, has := st.facts[f.A]; !has || old != f.V {
					conds = append(conds, f)
				}
			}
		}
		if kept != 1 {
			return nil
		}
	}
	for _, o := range outs {
		if len(o.st.events(n)) > 0 {
			return nil
		}
	}
	op := ""
	args := []*Term{tNil, elem, sl}
	for _, c := range conds {
		args = append(args, c.A)
		op += fmt.Sprint(c.V) + ","
	}
	t := mk(KCollect, op, lid, nil, rt, args...)
	t.sub = conds
	return t
}
