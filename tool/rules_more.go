package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P30 - P33: creation of runners, test doubles and helpers, no busy loops -------

func init() {
	register("P30", "Runner: created if and only if its parameters are valid",
		"decision table over the validity of RunnerParams, compared with every path of NewRunner and of Validate; the state with which the event loop is started is read off those paths",
		ruleP30)
	register("P31", "Stub resources answer exactly as configured",
		"decision table over what is configured for a name and the kind of target, compared with every path of the stub getter; every store through the target is enumerated; all iterations of the conversion from raw values are compared with the type of the value",
		ruleP31)
	register("P32", "Test helpers and stub workers are bounded and truthful",
		"all paths of every helper: every blocking operation has a timer of the documented length as alternative, and the outcome chosen decides whether the test fails and what is returned; all paths of the stub workers' methods and goroutines",
		ruleP32)
	register("P33", "Nothing spins: every loop waits for something that happens",
		"for every loop with a channel operation in the runner, engine and catacomb: the graph of its iterations which take nothing but a signal that stays ready has no cycle",
		ruleP33)
}

func isNotValid(t *Term) bool {
	k, ok := makerKind[stripErr(t).op]
	return ok && k == `"not valid"`
}

// P30 -----------------------------------------------------------------------------

func ruleP30(c *Check) {
	m := c.M
	rm := m.runner()
	c.rule("invalid-rejected", 1)
	c.rule("valid-accepted", 2)
	c.rule("initial-state", 5)
	c.rule("validate", 2)
	s := structOf(rm.params.Typ)
	name := func(arg *Term) *Term {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Name" {
				return mkEq(mkFld(arg, rm.params.Typ, i), mkStr(""))
			}
		}
		panic(undecided{"RunnerParams has no field Name"})
	}
	noName := name(rm.ctor.Args[0])
	for _, p := range rm.ctor.Paths {
		at := m.atP(rm.ctor.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 2 {
			c.fail("valid-accepted", at, "NewRunner can end by %s", p.Kind)
			continue
		}
		errNil, known := p.St.eval(mkEq(p.Res[1], tNil))
		if !c.want("invalid-rejected", known, at, "NewRunner returns the error %s", p.Res[1]) {
			continue
		}
		var gos []*Event
		walk(p.Events, func(e *Event) {
			if e.Go != nil {
				gos = append(gos, e)
			}
		})
		if p.allows(lit(noName, true)) {
			c.want("invalid-rejected", !errNil, at, "NewRunner accepts parameters without a name")
			c.want("invalid-rejected", errNil || isNotValid(p.Res[1]), at, "NewRunner does not say that the parameters are not valid")
		}
		if !errNil {
			c.want("invalid-rejected", len(gos) == 0, at, "NewRunner fails but leaves a goroutine behind")
			c.want("invalid-rejected", p.Res[0].isNil(), at, "NewRunner returns a runner together with an error")
		}
		if p.allows(lit(noName, false)) {
			c.want("valid-accepted", errNil, at, "NewRunner rejects valid parameters")
		}
		if !errNil {
			continue
		}
		ok := len(gos) == 1 && gos[0].Go.Kind == "tomb" && p.Res[0] == rm.base && len(gos[0].T) > 0 && tombOf(gos[0].T[0], rm.tomb)
		if !c.want("valid-accepted", ok, at, "NewRunner does not return the runner whose loop it has started") {
			continue
		}
		st := gos[0].Go.St
		for _, f := range []*FieldRef{rm.startc, rm.stopc, rm.startedc, rm.donec, rm.workers} {
			got := st.load(fieldAddr(rm.base, rm.T, f), f.Typ)
			c.want("initial-state", got.k == KAlloc, at, "the runner's loop is started with %s = %s", f, got)
			for _, g := range []*FieldRef{rm.startc, rm.stopc, rm.startedc, rm.donec} {
				if g != f && got.k == KAlloc {
					c.want("initial-state", got != st.load(fieldAddr(rm.base, rm.T, g), g.Typ), at, "%s and %s are the same channel", f, g)
				}
			}
		}
		c.want("initial-state", st.load(fieldAddr(rm.base, rm.T, rm.dying), rm.dying.Typ) == tFalse, at, "the runner is created dying")
		c.want("initial-state", st.load(fieldAddr(rm.base, rm.T, rm.final), rm.final.Typ).isNil(), at, "the runner is created with an error")
	}
	vf := m.method(pkgRoot, "RunnerParams", "Validate")
	vr := m.root(vf)
	bad := name(vr.Args[0])
	for _, p := range vr.Paths {
		at := m.atP(vf, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("validate", at, "Validate can end by %s", p.Kind)
			continue
		}
		if p.allows(lit(bad, true)) {
			c.want("validate", isNotValid(p.Res[0]), at, "Validate does not reject parameters without a name as not valid")
		}
		if p.allows(lit(bad, false)) {
			c.want("validate", p.Res[0].isNil(), at, "Validate rejects valid parameters")
		}
	}
}

// P31 -----------------------------------------------------------------------------

const reflectV = "(reflect.Value)."

func isReflectSet(e *Event) bool {
	return e.Kind == EvCall && (strings.HasPrefix(e.Name, reflectV+"Set") || e.Name == "reflect.Copy" || strings.HasPrefix(e.Name, reflectV+"Call"))
}

func ruleP31(c *Check) {
	m := c.M
	c.rule("unknown-or-failing", 2)
	c.rule("bad-target", 2)
	c.rule("first-convertible", 3)
	c.rule("raw-values", 6)
	c.rule("stub-getter", 3)
	resT := m.named(pkgDepT, "StubResource")
	outs := need(findField(resT, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.IsInterface(s.Elem())
	}, "Outputs"), "the outputs of a stub resource")
	rerr := need(findField(resT, isErrorType, "Error"), "the error of a stub resource")
	getT := m.named(pkgDepT, "Getter")
	res := need(findField(getT, func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		return ok && isString(mt.Key()) && types.Identical(mt.Elem(), resT)
	}, "resources"), "the resources of a stub getter")
	fn := m.method(pkgDepT, "Getter", "Get")
	r := m.root(fn)
	g, name, out := r.Args[0], r.Args[1], r.Args[2]
	mapT := newState().load(mkFldA(g, getT, res.Idx), res.Typ)
	probe := newState()
	val, has := probe.mapGet(mapT, name, resT)
	eOuts, eErr := mkFld(val, resT, outs.Idx), mkFld(val, resT, rerr.Idx)
	vOut := mkReflect("reflect.ValueOf", nil, out)
	kind := mkReflect(reflectV+"Kind", nil, vOut)
	kindT := types.Type(nil)
	for _, p := range r.Paths {
		for f := range p.Facts {
			f.contains(func(t *Term) bool {
				if t.k == KCall && t.op == reflectV+"Kind" && t.typ != nil {
					kindT = t.typ
				}
				return false
			})
		}
	}
	if kindT != nil {
		kind = mkReflect(reflectV+"Kind", kindT, vOut)
	}
	isPtr := mkEq(kind, mkInt(22))
	target := mkReflect(reflectV+"Elem", nil, vOut)
	outType := mkReflect(reflectV+"Type", nil, target)
	found, missing := lit(has, true), lit(has, false)
	fails, works := lit(mkEq(eErr, tNil), false), lit(mkEq(eErr, tNil), true)
	noOut, someOut := lit(mkEq(out, tNil), true), lit(mkEq(out, tNil), false)
	for _, p := range r.Paths {
		at := m.atP(fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("unknown-or-failing", at, "Get can end by %s", p.Kind)
			continue
		}
		v := p.Res[0]
		isErr := p.implies(mkEq(v, tNil), false)
		var sets []*Event
		stray := false
		for _, e := range p.Events {
			if isReflectSet(e) {
				sets = append(sets, e)
			}
			if e.Kind == EvStore || e.Kind == EvMapSet || e.Kind == EvMapDel {
				stray = stray || rootOf(e.T[0]) == g || e.Kind != EvStore && e.T[0] == mapT
			}
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.Events, func(x *Event) { stray = stray || isReflectSet(x) })
				}
			}
		}
		c.want("first-convertible", !stray, at, "Get sets something besides its target once")
		if p.allows(missing) {
			c.want("unknown-or-failing", isErr, at, "Get does not fail for a name which is not configured")
			c.want("unknown-or-failing", len(sets) == 0, at, "Get sets its target for a name which is not configured")
		}
		if p.allows(found, fails) {
			c.want("unknown-or-failing", v == eErr, at, "Get returns %s instead of the configured error", v)
			c.want("unknown-or-failing", len(sets) == 0, at, "Get sets its target although an error is configured")
		}
		if p.allows(found, works, noOut) {
			c.want("bad-target", v.isNil(), at, "Get fails without a target")
			c.want("bad-target", len(sets) == 0, at, "Get sets a target it was not given")
		}
		if p.allows(found, works, someOut, lit(isPtr, false)) {
			c.want("bad-target", isErr, at, "Get does not fail for a target which is not a pointer")
			c.want("bad-target", len(sets) == 0, at, "Get sets a target which is not a pointer")
		}
		if !p.allows(found, works, someOut, lit(isPtr, true)) {
			continue
		}
		conv := func(o *Term) *Term {
			return mkReflect("reflect.Type.ConvertibleTo", boolT, mkReflect(reflectV+"Type", nil, mkReflect("reflect.ValueOf", nil, o)), outType)
		}
		// the outputs in their order: of all loops over them, the one which
		// looks for the output to use
		tries := func(e *Event) *Path {
			for _, it := range e.Loop.Iters {
				if !it.implies(conv(e.Loop.Elem), false) {
					return it
				}
			}
			return nil
		}
		var loop *Event
		for _, e := range p.Events {
			if e.Loop == nil || e.Loop.Kind != "slice" || e.Loop.Container != eOuts || e.Loop.Elem == nil {
				continue
			}
			if len(sets) == 1 {
				el := e.Loop.Elem
				if sets[0].T[0] == target && !sets[0].T[len(sets[0].T)-1].contains(func(t *Term) bool { return t == el }) {
					continue
				}
			} else if loop != nil && tries(loop) == nil {
				continue
			}
			loop = e
		}
		if loop != nil {
			c.want("first-convertible", loop.Loop.Key == nil || loop.Loop.Key.op != "rev", at, "Get does not try the outputs in their order")
			bad := tries(loop)
			if bad == nil {
				bad = p
			}
			c.want("first-convertible", bad == p, m.atP(fn, bad), "Get goes on although it has found an output of the right type")
		}
		switch {
		case len(sets) == 0:
			c.want("first-convertible", isErr, at, "Get succeeds without setting its target")
			ok := loop != nil && loop.Exh || p.implies(mkLt(mkInt(0), mk(KLen, "", 0, nil, intT, eOuts), true), false)
			c.want("first-convertible", ok, at, "Get gives up before it has tried every output")
		case len(sets) == 1 && loop != nil:
			el := loop.Loop.Elem
			e := sets[0]
			c.want("first-convertible", v.isNil(), at, "Get fails although it has set its target")
			c.want("first-convertible", e.T[0] == target, at, "Get sets something else than its target")
			src := mkReflect("reflect.ValueOf", nil, el)
			ok := len(e.T) > 1 && (e.T[1] == mkReflect(reflectV+"Convert", nil, src, outType))
			c.want("first-convertible", ok, at, "Get does not set its target to the configured output")
			c.want("first-convertible", p.implies(conv(el), true), at, "Get converts an output without knowing that it can be converted")
		default:
			c.fail("first-convertible", at, "cannot tell which output Get sets its target to")
		}
	}
	// raw values
	errT := types.Universe.Lookup("error").Type()
	built := func(R string, fn *ssa.Function, p *Path, mp, raw *Term) {
		at := m.atP(fn, p)
		var loop *Event
		for _, e := range p.Events {
			if e.Loop != nil && e.Loop.Container == raw && e.Exh {
				loop = e
			}
			if (e.Kind == EvMapSet || e.Kind == EvMapDel) && e.T[0] == mp {
				c.fail(R, m.atE(e, p), "a resource is set which is not in the raw values")
			}
		}
		if !c.want(R, loop != nil && loop.Loop.Kind == "map", at, "the raw values are not all converted") {
			return
		}
		for _, it := range loop.Loop.Iters {
			w := m.atP(fn, it)
			var sets []*Event
			for _, e := range deep(it.Events, EvMapSet) {
				if e.T[0] == mp {
					sets = append(sets, e)
				}
			}
			if !c.want(R, len(sets) == 1 && sets[0].T[1] == loop.Loop.Key, w, "a raw value does not become one resource of the same name") {
				continue
			}
			v := sets[0].T[2]
			rv := loop.Loop.Elem
			if rv == nil {
				st := it.St
				rv, _ = st.mapGet(raw, loop.Loop.Key, types.NewInterfaceType(nil, nil))
			}
			isE, isS := mk(KIsType, "", 0, nil, errT, rv), mk(KIsType, "", 0, nil, outs.Typ, rv)
			gotE, gotO := mkFld(v, resT, rerr.Idx), mkFld(v, resT, outs.Idx)
			if it.allows(lit(isE, true)) {
				ok := sameValue(gotE, rv) && (gotO.isNil())
				c.want(R, ok, w, "an error among the raw values is not used as the error")
			}
			if it.allows(lit(isE, false), lit(isS, true)) {
				ok := gotE.isNil() && sameValue(gotO, rv)
				c.want(R, ok, w, "a slice of outputs among the raw values is not used as the outputs")
			}
			if it.allows(lit(isE, false), lit(isS, false)) {
				ok := gotE.isNil() && gotO.k == KCall && gotO.op == "slicelit" && len(gotO.args) == 1 && gotO.args[0] == rv
				c.want(R, ok, w, "a raw value is not used as the only output")
			}
		}
	}
	bf := m.fn(pkgDepT, "NewStubResources")
	br := m.root(bf)
	for _, p := range br.Paths {
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("raw-values", m.atP(bf, p), "NewStubResources can end by %s", p.Kind)
			continue
		}
		built("raw-values", bf, p, p.Res[0], br.Args[0])
	}
	gf := m.fn(pkgDepT, "StubGetter")
	gr := m.root(gf)
	for _, p := range gr.Paths {
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("stub-getter", m.atP(gf, p), "StubGetter can end by %s", p.Kind)
			continue
		}
		mp := p.St.load(mkFldA(unI(p.Res[0]), getT, res.Idx), res.Typ)
		built("stub-getter", gf, p, mp, gr.Args[0])
	}
	sf := m.method(pkgDepT, "StubResources", "Getter")
	sr := m.root(sf)
	for _, p := range sr.Paths {
		ok := p.Kind == "ret" && len(p.Res) == 1 && p.St.load(mkFldA(unI(p.Res[0]), getT, res.Idx), res.Typ) == sr.Args[0]
		c.want("stub-getter", ok, m.atP(sf, p), "the getter is not backed by the resources")
	}
	nf := m.fn(pkgDepT, "NewStubResource")
	nr := m.root(nf)
	for _, p := range nr.Paths {
		ok := p.Kind == "ret" && len(p.Res) == 1 && mkFld(p.Res[0], resT, outs.Idx) == nr.Args[0] && mkFld(p.Res[0], resT, rerr.Idx).isNil()
		c.want("stub-getter", ok, m.atP(nf, p), "the stub resource does not have the outputs given")
	}
}

// sameValue: the same value, possibly as another type.
func sameValue(a, b *Term) bool {
	for a != b {
		if (a.k == KAssert || a.k == KMkI) && len(a.args) > 0 {
			a = a.args[0]
			continue
		}
		return false
	}
	return true
}

// P32 -----------------------------------------------------------------------------

const gcP = "(*gopkg.in/check.v1.C)."

// gcCall is the method of the test's *gc.C which the event calls.
func gcCall(e *Event, c *Term) string {
	if e.Kind == EvCall && strings.HasPrefix(e.Name, gcP) && len(e.T) > 0 && e.T[0] == c {
		return e.Name[len(gcP):]
	}
	return ""
}

func ruleP32(c *Check) {
	m := c.M
	c.rule("bounded", 6)
	c.rule("waiter-goroutine", 6)
	c.rule("outcome", 12)
	c.rule("no-assert", 6)
	c.rule("stub-workers", 12)
	c.rule("fake-watcher", 5)
	for _, n := range []string{"CheckAlive", "CheckKilled", "CheckKill", "CleanKill", "DirtyKill", "CheckNilOrKill"} {
		m.wtHelper(c, n)
	}
	m.stubWorker(c, "NewErrorWorker")
	m.stubWorker(c, "NewDeadWorker")
	m.stubWorker(c, "NewForeverWorker")
	m.fakeWatcher(c)
}

// wtHelper judges one of the Check… and …Kill helpers.
func (m *Model) wtHelper(c *Check, name string) {
	fn := m.fn(pkgWT, name)
	r := m.root(fn)
	gc, w := r.Args[0], r.Args[1]
	global := "killTimeout"
	if name == "CheckAlive" {
		global = "aliveDelay"
	}
	g, ok := m.pkg(pkgWT).Members[global].(*ssa.Global)
	if !ok {
		panic(undecided{"no " + global + " in workertest"})
	}
	delay := newState().load(mk(KGlobal, "", 0, g, g.Type()), g.Type().Underlying().(*types.Pointer).Elem())
	isTimer := func(ch *Term) bool {
		return ch.contains(func(t *Term) bool { return t == delay }) && !ch.contains(func(t *Term) bool { return t.k == KOp })
	}
	// the goroutines wait for the worker and report what they get
	reports, left := map[*Term]bool{}, map[*Term]*Term{}
	for _, ge := range m.gos(r) {
		b := m.body(r, ge)
		for _, p := range b.Paths {
			at := m.atP(b.Fn, p)
			var wait, send, store, cl *Event
			n := 0
			walk(p.Events, func(e *Event) {
				switch {
				case e.Kind == EvStore && wait != nil && cl == nil && e.T[0].k == KAlloc && e.T[1] == wait.Res:
					store = e
				case e.Kind == EvStore:
					n += 9
				case e.Kind == EvClose && cl == nil:
					cl = e
				case e.Kind == EvCall && e.Method == "Wait" && e.T[0] == w:
					wait = e
					n++
				case e.isSend():
					send = e
					n++
				case e.isRecv() || blocking(e) || e.Kind == EvCall || e.Go != nil:
					n += 9
				}
			})
			if p.Kind == "ret" && n == 1 && wait != nil && store != nil && cl != nil {
				// left in a variable, to be read once the channel is closed
				c.want("waiter-goroutine", true, at, "")
				reports[cl.T[0]] = true
				left[cl.T[0]] = store.T[0]
				continue
			}
			ok := p.Kind == "ret" && n == 2 && store == nil && cl == nil && wait != nil && send != nil && send.sentVal() == wait.Res
			if !c.want("waiter-goroutine", ok, at, "%s: the goroutine does not just wait for the worker and report its error", name) {
				continue
			}
			c.want("waiter-goroutine", bufferedOnce(p, send), at, "%s: the goroutine which waits for the worker can be left behind, as nobody may take its report", name)
			reports[send.sentOn()] = true
		}
	}
	type result struct{ timeout, waited bool }
	sawTimeout, sawEnd := false, false
	defer func() {
		c.want("outcome", sawTimeout && sawEnd, m.atFn(fn, name), "%s cannot tell a worker that has ended from one that has not", name)
	}()
	kills := name == "CheckKill" || name == "CleanKill" || name == "DirtyKill"
	for _, p := range r.Paths {
		at := m.atP(fn, p)
		if p.Kind != "ret" {
			c.fail("outcome", at, "%s can end by %s", name, p.Kind)
			continue
		}
		var res result
		var err, cell *Term
		isErr := func(t *Term) bool {
			return t == err && cell == nil || cell != nil && t.k == KInit && t.args[0] == cell
		}
		killAt, waitAt := -1, -1
		failed := 0
		var checks []*Event
		var isNil *Event
		for i, e := range p.Events {
			if e.Loop != nil {
				c.fail("bounded", m.atE(e, p), "%s loops while it deals with the worker", name)
			}
			switch k := gcCall(e, gc); k {
			case "":
			case "Errorf", "Error", "Fail":
				failed++
			case "Check":
				if e.T[1] == w && len(e.T) > 2 && e.T[2].String() == "IsNil" {
					isNil = e
				} else {
					checks = append(checks, e)
				}
			case "Logf", "Log", "Output", "MkDir", "TestName", "Failed", "GetTestLog":
			default:
				c.fail("no-assert", m.atE(e, p), "%s calls %s, which is not safe in every goroutine or changes how the test is judged", name, k)
			}
			switch {
			case e.Kind == EvCall && e.Method == "Kill" && e.T[0] == w:
				c.want("outcome", killAt < 0, m.atE(e, p), "%s kills the worker more than once", name)
				killAt = i
			case e.Kind == EvCall && e.Method == "Wait" && e.T[0] == w:
				c.fail("bounded", m.atE(e, p), "%s waits for the worker without bound", name)
			case e.Go != nil && waitAt < 0:
				waitAt = i
			case blocking(e):
				ok := false
				if e.Kind == EvSelect {
					for _, cs := range e.Cases {
						ok = ok || !cs.Send && isTimer(cs.Ch)
					}
				} else if e.Kind == EvRecv {
					ok = isTimer(e.T[0])
				}
				c.want("bounded", ok, m.atE(e, p), "%s can wait for longer than %s: %s", name, global, describe(e))
			}
			if e.isRecv() {
				if isTimer(e.recvOn()) {
					res.timeout = true
				} else if reports[e.recvOn()] {
					res.waited = true
					err = e.Res
					cell = left[e.recvOn()]
				}
			}
		}
		sawTimeout = sawTimeout || res.timeout && !res.waited
		sawEnd = sawEnd || res.waited
		c.want("no-assert", true, at, "")
		stopping := kills
		if name == "CheckNilOrKill" {
			if !c.want("outcome", isNil != nil, at, "CheckNilOrKill does not check that the worker is nil") {
				continue
			}
			v, known := p.St.eval(isNil.Res)
			if known && v {
				c.want("outcome", killAt < 0 && !res.timeout && !res.waited && failed == 0 && len(checks) == 0, at, "CheckNilOrKill does something to a nil worker")
				continue
			}
			c.want("outcome", known && killAt >= 0, at, "CheckNilOrKill does not stop a worker which is not nil")
			stopping = true
		}
		if !c.want("outcome", res.timeout || res.waited, at, "%s returns without knowing what the worker did", name) {
			continue
		}
		if stopping {
			c.want("outcome", killAt >= 0 && (waitAt < 0 || true), at, "%s does not kill the worker", name)
			for i, e := range p.Events {
				if e.isRecv() && (isTimer(e.recvOn()) || reports[e.recvOn()]) {
					c.want("outcome", killAt < i, at, "%s kills the worker only after having waited for it", name)
				}
			}
		} else {
			c.want("outcome", killAt < 0, at, "%s kills the worker", name)
		}
		last := res.waited // a path may look at both; the report decides
		switch name {
		case "CheckAlive":
			c.want("outcome", (failed > 0) == last, at, "CheckAlive fails for a worker which is alive, or accepts one which is not")
			c.want("outcome", len(checks) == 0, at, "CheckAlive checks something else")
			continue
		}
		returns := len(p.Res) == 1
		if !last {
			c.want("outcome", failed > 0, at, "%s does not fail the test when the worker does not stop", name)
			if returns {
				c.want("outcome", p.implies(mkEq(p.Res[0], tNil), false), at, "%s returns no error when the worker does not stop", name)
			}
			continue
		}
		if returns {
			c.want("outcome", isErr(p.Res[0]), at, "%s does not return the worker's error", name)
		}
		switch name {
		case "CleanKill", "CheckNilOrKill":
			ok := false
			for _, e := range checks {
				ok = ok || isErr(e.T[1]) && len(e.T) > 2 && (e.T[2].String() == "ErrorIsNil" || e.T[2].String() == "IsNil")
			}
			ok = ok && len(checks) == 1 && failed == 0 || len(checks) == 0 && p.implies(mkEq(err, tNil), true) && failed == 0 || len(checks) == 0 && p.implies(mkEq(err, tNil), false) && failed > 0
			c.want("outcome", ok, at, "%s does not check that the worker has ended without error", name)
		default:
			c.want("outcome", failed == 0 && len(checks) == 0, at, "%s fails the test although the worker has stopped", name)
		}
	}
}

// inst is what a term about the receiver w is for the object v in state st.
func inst(t, w, v *Term, st *State) *Term {
	switch {
	case t == w:
		return v
	case t.k == KFldA:
		return mk(KFldA, t.op, t.n, t.obj, t.typ, inst(t.args[0], w, v, st))
	case t.k == KFld:
		x := inst(t.args[0], w, v, st)
		if t.args[0].typ != nil {
			return mkFld(x, t.args[0].typ, t.n)
		}
		return mk(KFld, t.op, t.n, t.obj, t.typ, x)
	case t.k == KInit:
		return st.load(inst(t.args[0], w, v, st), t.typ)
	}
	return t
}

// stubWorker judges one of the workers made for tests.
func (m *Model) stubWorker(c *Check, name string) {
	const R = "stub-workers"
	fn := m.fn(pkgWT, name)
	r := m.root(fn)
	arg := r.Args[0]
	for _, p := range r.Paths {
		at := m.atP(fn, p)
		if !c.want(R, p.Kind == "ret" && len(p.Res) == 1, at, "%s can end by %s", name, p.Kind) {
			continue
		}
		v := unI(p.Res[0])
		dyn := v.typ
		if p.Res[0].k == KMkI && p.Res[0].typ != nil {
			dyn = p.Res[0].typ
		}
		if rt := fn.Signature.Results().At(0).Type(); !types.IsInterface(rt) {
			dyn = rt
		}
		if dyn == nil {
			panic(undecided{"the type of worker " + name + " returns is not known"})
		}
		method := func(n string) *Root {
			var pk *types.Package
			if sel := m.prog.MethodSets.MethodSet(dyn).Lookup(pk, n); sel != nil {
				if f := m.prog.MethodValue(sel); f != nil {
					return m.root(f)
				}
			}
			panic(undecided{fmt.Sprintf("%s's worker has no method %s", name, n)})
		}
		// a method's own view of the worker, for this worker
		see := func(q *Root, t *Term) *Term { return inst(t, q.Args[0], v, p.St) }
		var gos []*Event
		walk(p.Events, func(e *Event) {
			if e.Go != nil {
				gos = append(gos, e)
			}
			c.want(R, e.Kind != EvKill && !blocking(e), m.atE(e, p), "%s does something to its worker: %s", name, describe(e))
		})
		kill := method("Kill")
		wait := method("Wait")
		killsIt := func(q *Root, yes bool, what string, tomb *Term) {
			for _, x := range q.Paths {
				w := m.atP(q.Fn, x)
				n := 0
				for _, e := range x.Events {
					switch {
					case e.Kind == EvKill:
						n++
						c.want(R, yes && see(q, e.T[0]) == tomb && see(q, e.T[1]) == arg, w, "%s of %s's worker kills it with something else than the error given", what, name)
					case blocking(e) || e.Kind == EvStore || e.Kind == EvClose || e.Loop != nil || e.Go != nil || e.Kind == EvCall:
						c.fail(R, w, "%s of %s's worker: %s", what, name, describe(e))
					}
				}
				c.want(R, x.Kind == "ret" && (n == 1) == yes && n <= 1, w, "%s of %s's worker calls its tomb's Kill %d times", what, name, n)
			}
		}
		if name == "NewDeadWorker" {
			c.want(R, len(gos) == 0, at, "a dead worker runs")
			killsIt(kill, false, "Kill", nil)
			for _, x := range wait.Paths {
				ok := x.Kind == "ret" && len(x.Res) == 1 && see(wait, x.Res[0]) == arg
				for _, e := range x.Events {
					ok = ok && !blocking(e) && e.Kind != EvCall
				}
				c.want(R, ok, m.atP(wait.Fn, x), "waiting for a dead worker does not return its error at once")
			}
			continue
		}
		if !c.want(R, len(gos) == 1 && gos[0].Go.Kind == "tomb" && rootOf(gos[0].T[0]) == v, at, "%s does not start its worker", name) {
			continue
		}
		tomb := gos[0].T[0]
		b := m.body(r, gos[0])
		for _, x := range b.Paths {
			w := m.atP(b.Fn, x)
			dying := false
			for _, e := range x.Events {
				switch {
				case e.Kind == EvRecv || e.Kind == EvSelect && e.Block:
					ok := e.isRecv() && e.recvOn().k == KCall && e.recvOn().op == "tomb.Dying" && e.recvOn().args[0] == tomb
					dying = dying || ok
					c.want(R, ok, w, "%s's worker ends although it was not killed", name)
				case e.Kind == EvKill || e.Loop != nil || e.Kind == EvCall || e.Kind == EvSend || e.Go != nil:
					c.fail(R, w, "%s's worker: %s", name, describe(e))
				}
			}
			c.want(R, dying && x.Kind == "ret", w, "%s's worker ends although it was not killed", name)
			if x.Kind == "ret" && len(x.Res) == 1 {
				v := x.Res[0]
				c.want(R, v.isNil() || v == arg || isTombDying(v), w, "%s's worker ends with %s", name, v)
			}
		}
		for _, x := range wait.Paths {
			ok := false
			for _, e := range x.Events {
				ok = ok || e.Kind == EvTWait && see(wait, e.T[0]) == tomb && len(x.Res) == 1 && x.Res[0] == e.Res
			}
			c.want(R, ok && x.Kind == "ret", m.atP(wait.Fn, x), "waiting for %s's worker does not wait for its end and return its error", name)
		}
		if name == "NewForeverWorker" {
			killsIt(kill, false, "Kill", nil)
			killsIt(method("ReallyKill"), true, "ReallyKill", tomb)
		} else {
			killsIt(kill, true, "Kill", tomb)
		}
	}
}

// isTombDying: tomb.ErrDying, with which a goroutine leaves the error as it is.
func isTombDying(t *Term) bool { return strings.HasSuffix(t.String(), "ErrDying") }

// fakeWatcher judges the fake watcher.
func (m *Model) fakeWatcher(c *Check) {
	const R = "fake-watcher"
	fn := m.fn(pkgWT, "NewFakeWatcher")
	r := m.root(fn)
	size, pre := r.Args[0], r.Args[1]
	T := m.named(pkgWT, "NotAWatcher")
	chF := need(findField(T, func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }, "changes"), "the fake watcher's channel")
	wF := need(findField(T, isWorkerType, "Worker"), "the fake watcher's worker")
	small := mkLt(size, pre, true)
	for _, p := range r.Paths {
		at := m.atP(fn, p)
		if p.Kind == "panic" {
			c.want(R, p.implies(small, true), at, "NewFakeWatcher panics although the preload fits")
			continue
		}
		if !c.want(R, p.Kind == "ret" && len(p.Res) == 1, at, "NewFakeWatcher can end by %s", p.Kind) {
			continue
		}
		c.want(R, p.implies(small, false), at, "NewFakeWatcher blocks for ever when the preload does not fit")
		ch := mkFld(p.Res[0], T, chF.Idx)
		c.want(R, ch.k == KAlloc && ch.op == size.op, at, "the fake watcher's channel does not have the length asked for")
		loops := 0
		for _, e := range p.Events {
			if e.isSend() && e.sentOn() == ch || e.Kind == EvClose && e.T[0] == ch || e.isRecv() && e.recvOn() == ch {
				c.fail(R, m.atE(e, p), "the fake watcher is not created with just the preloaded changes")
			}
			if e.Loop == nil {
				continue
			}
			n := 0
			for _, it := range e.Loop.Iters {
				k := 0
				walk(it.Events, func(x *Event) {
					if x.isSend() && x.sentOn() == ch {
						k++
					}
				})
				n += k
				c.want(R, k == 1 && m.countsTo(e.Loop, it, p, pre), m.atP(fn, it), "the fake watcher is not created with just the preloaded changes")
			}
			if n > 0 {
				loops++
			}
		}
		c.want(R, loops == 1 || p.implies(mkEq(pre, mkInt(0)), true) || loops == 0 && p.implies(mkLt(mkInt(0), pre, true), false), at, "the fake watcher's preload is not sent")
		w := mkFld(p.Res[0], T, wF.Idx)
		ok := false
		walk(p.Events, func(e *Event) {
			ok = ok || e.Go != nil && e.Go.Kind == "tomb" && rootOf(e.T[0]) == unI(w)
		})
		c.want(R, ok, at, "the fake watcher is not a running worker")
	}
	val := func(q *Root, t *Term) bool {
		return t.isField(chF) && rootOf(t) == q.Args[0] || t == mkFld(q.Args[0], T, chF.Idx)
	}
	one := func(name string, f func(q *Root, x *Path) bool, msg string) {
		q := m.root(m.method(pkgWT, "NotAWatcher", name))
		for _, x := range q.Paths {
			c.want(R, x.Kind == "ret" && f(q, x), m.atP(q.Fn, x), "%s", msg)
		}
	}
	effects := func(x *Path) (out []*Event) {
		walk(x.Events, func(e *Event) {
			if blocking(e) || e.Kind == EvClose || e.Kind == EvCall || e.Kind == EvStore || e.Kind == EvSelect || e.Go != nil {
				out = append(out, e)
			}
		})
		return
	}
	onCh := func(q *Root, t *Term) bool {
		if val(q, t) {
			return true
		}
		return t.k == KInit && t.args[0].k == KFldA && t.args[0].obj == chF.Obj && t.args[0].op == chF.Name
	}
	one("Changes", func(q *Root, x *Path) bool { return len(x.Res) == 1 && onCh(q, x.Res[0]) && len(effects(x)) == 0 }, "Changes does not return the channel of changes")
	one("Ping", func(q *Root, x *Path) bool {
		es := effects(x)
		return len(es) == 1 && es[0].Kind == EvSend && onCh(q, es[0].T[0])
	}, "Ping does not send one change")
	one("Close", func(q *Root, x *Path) bool {
		es := effects(x)
		return len(es) == 1 && es[0].Kind == EvClose && onCh(q, es[0].T[0])
	}, "Close does not close the channel of changes")
	one("Stop", func(q *Root, x *Path) bool { return len(x.Res) == 1 && x.Res[0].isNil() && len(effects(x)) == 0 }, "Stop reports an error")
	one("Err", func(q *Root, x *Path) bool {
		return len(x.Res) == 1 && x.implies(mkEq(x.Res[0], tNil), false) && len(effects(x)) == 0
	}, "Err reports no error")
}

// countsTo: the loop makes exactly n iterations: it counts from 0 by one and
// goes on while the count is less than n (or counts down from n to 0).
func (m *Model) countsTo(li *LoopInfo, it, exit *Path, n *Term) bool {
	for phi, in := range it.In {
		out := it.Out[phi]
		if out == nil || !isIntType(phi.Type()) {
			continue
		}
		if in.k == KIdx && in.op == "" && it.implies(mkLt(in, n, true), true) && exit.implies(mkLt(in, n, true), false) {
			return true
		}
		// down
		for _, iv := range li.Entry {
			if iv.Phi == phi && iv.V == n && out == mkBin(token.ADD, in, mkInt(-1), phi.Type(), intT) && it.implies(mkLt(mkInt(0), in, true), true) && exit.implies(mkLt(mkInt(0), in, true), false) {
				return true
			}
		}
	}
	return false
}

// P33 -----------------------------------------------------------------------------

// ruleP33: a loop can only go round for ever without waiting if there is a
// cycle of iterations none of which takes something that is then gone.
func ruleP33(c *Check) {
	m := c.M
	const R = "no-spin"
	c.rule(R, 3)
	seenRoot := map[*Root]bool{}
	var roots []*Root
	add := func(rs []*Root) {
		for _, r := range rs {
			for _, x := range m.tree(r) {
				if !seenRoot[x] {
					seenRoot[x] = true
					roots = append(roots, x)
				}
			}
		}
	}
	add(m.runner().allRoots())
	add(m.engine().allRoots())
	add(m.catacomb().roots())
	closed := map[string]bool{}
	for _, r := range roots {
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind == EvClose {
				closed[chanName(e.T[0])] = true
			}
		})
	}
	delete(closed, "")
	seen := map[*LoopInfo]bool{}
	for _, r := range roots {
		eachEvent(r, func(p *Path, e *Event) {
			if e.Loop == nil || seen[e.Loop] || e.Loop.Kind != "other" {
				return
			}
			seen[e.Loop] = true
			li := e.Loop
			var idle []*Path
			waits := false
			for _, it := range li.Iters {
				progress, looks := iterTakes(it, closed)
				waits = waits || progress || looks
				if looks && !progress {
					idle = append(idle, it)
				}
			}
			if !waits {
				return
			}
			bad := spinCycle(idle)
			if bad != nil {
				c.fail(R, m.atP(li.Fn, bad), "the loop goes round without waiting for anything while a signal is set")
			} else {
				c.want(R, true, m.atE(e, p), "")
			}
		})
	}
}

// chanName names a channel kept in a field.
func chanName(ch *Term) string {
	if _, obj, name, ok := ch.field(); ok {
		return fmt.Sprintf("%p.%s", obj, name)
	}
	return ""
}

// iterTakes: the iteration takes something which is then gone (or waits for
// something else to happen), and whether it looks at a signal at all.
func iterTakes(it *Path, closed map[string]bool) (progress, looks bool) {
	stays := func(ch *Term) bool {
		if ch.k == KCall && (ch.op == "tomb.Dying" || ch.op == "tomb.Dead" || ch.op == "ctx.Done") {
			return true
		}
		if ch.k == KSym && ch.typ != nil {
			// a channel handed in by the caller
			if t, ok := ch.typ.Underlying().(*types.Chan); ok && t.Dir() == types.RecvOnly {
				return true
			}
		}
		return closed[chanName(ch)]
	}
	for _, e := range it.Events {
		switch e.Kind {
		case EvSelect:
			switch {
			case e.Chosen < 0:
				looks = true
			case e.Cases[e.Chosen].Send:
				progress = true
			case stays(e.Cases[e.Chosen].Ch):
				looks = true
			default:
				progress = true
			}
		case EvRecv:
			if stays(e.T[0]) {
				looks = true
			} else {
				progress = true
			}
		case EvSend, EvTWait, EvCondW, EvWgWait:
			progress = true
		case EvDie, EvNotDie:
			looks = true
		case EvCall:
			if e.Method == "Wait" || e.Method == "Sleep" || strings.HasSuffix(e.Name, ".Sleep") {
				progress = true
			}
		}
	}
	return
}

// spinCycle finds an iteration on a cycle of idle iterations: one can follow
// another if the loop variables agree and nothing known at its start is
// contradicted by the state the other ends in.
func spinCycle(idle []*Path) *Path {
	follows := func(a, b *Path) bool {
		for phi, in := range b.In {
			out := a.Out[phi]
			if out == nil {
				continue
			}
			if out == in || in.loop || out.loop {
				continue
			}
			if v, known := a.St.eval(mkEq(out, in)); known && !v || out.k == KConst && in.k == KConst && out != in || out.isNil() != in.isNil() && (nonNil(out) || nonNil(in)) {
				return false
			}
		}
		for f, v := range b.Facts {
			// what b found in memory when it started
			t := f
			if t.k == KInit && isBoolT(t) {
				if got := a.St.load(t.args[0], t.typ); got == tTrue && !v || got == tFalse && v {
					return false
				}
			}
			if t.k == KOp && t.op == "==" && t.args[0].k == KInit && t.args[1].isNil() {
				got := a.St.load(t.args[0].args[0], t.args[0].typ)
				if x, known := a.St.eval(mkEq(got, tNil)); known && x != v {
					return false
				}
			}
		}
		return true
	}
	n := len(idle)
	adj := make([][]int, n)
	for i := range idle {
		for j := range idle {
			if follows(idle[i], idle[j]) {
				adj[i] = append(adj[i], j)
			}
		}
	}
	state := make([]int, n)
	var bad *Path
	var dfs func(i int)
	dfs = func(i int) {
		state[i] = 1
		for _, j := range adj[i] {
			if state[j] == 1 && bad == nil {
				bad = idle[j]
			}
			if state[j] == 0 {
				dfs(j)
			}
		}
		state[i] = 2
	}
	for i := range idle {
		if state[i] == 0 {
			dfs(i)
		}
	}
	return bad
}

func isBoolT(t *Term) bool { return t.typ != nil && isBool(t.typ) }
