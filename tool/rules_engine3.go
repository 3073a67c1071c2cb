package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// P23 - P25, P30: what start functions are given, what may be installed, and
// that nothing hangs ----------------------------------------------------------

func init() {
	register("P23", "Engine: a start function sees exactly its declared inputs, while it runs",
		"table over the conditions of a resource request {expired, undeclared, not running, no out, not exposed} on all paths of the getter's Get; content of the getter traced back to the infos and manifolds of the declared inputs at every site that starts a worker; closing of the getter on every path of the worker's goroutine",
		ruleP23)
	register("P24", "Engine: duplicate and cyclic manifolds are rejected without effect",
		"all paths of the install transition: what is handed to the cycle check, and that nothing changes unless it succeeded; the recursive cycle check is verified as a three-colour depth-first search by evaluating its paths on the marks of a node",
		ruleP24)
	register("P25", "Engine: no operation hangs, and the event loop never blocks",
		"every blocking operation in every method of the engine, its event loop and the goroutines it starts is enumerated; each has an alternative that becomes ready when the engine ends, or is the answer to a request that is proved to be answered exactly once",
		ruleP25)
	register("P26", "Engine: a worker's context is cancelled exactly when it has to stop",
		"the context given to each start function is derived from the engine's tomb and a cancel function recorded with the worker; all calls of cancel functions are enumerated on all paths and compared with the transitions that stop a worker; every path to a start function is checked for the cancellation",
		ruleP26)
	register("P27", "Engine: it can safely run itself as a manifold",
		"all paths on which the worker is the engine itself: the goroutine never waits for it but ends once the engine is dying, exit and report leave it out; decision table of the self manifold's output function over the type of the out parameter",
		ruleP27)
	register("P28", "Engine: an invalid configuration is rejected and a valid one used as given",
		"decision table over the validity of every field of EngineConfig, compared with every path of NewEngine; dataflow from the argument to the engine's configuration",
		ruleP28)
	register("P29", "Engine: report and metrics describe the current workers",
		"all paths of the live and the final report: one element for every manifold, with state, inputs, start count, time and error of that manifold, as a decision table; all updates of these fields and all calls of the metrics in the event loop are enumerated",
		ruleP29)
}

// getterType is the type of what start functions use to get resources.
func (em *engineModel) getterType() *types.Named {
	for _, st := range em.starts {
		if st.Get == nil || st.Get.typ == nil {
			continue
		}
		t := st.Get.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n
		}
	}
	panic(undecided{"the getter given to start functions is not an object of the engine"})
}

type getterModel struct {
	T                *types.Named
	wMap, oMap       *FieldRef
	wFld, oFld       *FieldRef // nil: the element itself
	expired, flag, n *FieldRef
}

func isOutputFn(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 1 && isWorkerType(s.Params().At(0).Type()) && isErrorType(s.Results().At(0).Type())
}

func (em *engineModel) getter() *getterModel {
	g := &getterModel{T: em.getterType()}
	find := func(pred fieldPred, what string) (*FieldRef, *FieldRef) {
		direct := findField(g.T, func(t types.Type) bool {
			mt, ok := t.Underlying().(*types.Map)
			return ok && isString(mt.Key()) && pred(mt.Elem())
		})
		if direct != nil {
			return direct, nil
		}
		in := findField(g.T, func(t types.Type) bool {
			mt, ok := t.Underlying().(*types.Map)
			if !ok || !isString(mt.Key()) || structOf(mt.Elem()) == nil {
				return false
			}
			return findField(mt.Elem(), pred) != nil
		})
		need(in, what)
		return in, findField(in.Typ.Underlying().(*types.Map).Elem(), pred)
	}
	g.wMap, g.wFld = find(isWorkerType, "the workers a start function may use")
	g.oMap, g.oFld = find(isOutputFn, "the output functions a start function may use")
	g.expired = findField(g.T, func(t types.Type) bool { return chanElem(t) != nil })
	if g.expired == nil {
		g.flag = findField(g.T, func(t types.Type) bool { return isBool(t) || isNamed(t, "sync/atomic", "Bool") })
	}
	return g
}

func elemField(v *Term, mapT types.Type, f *FieldRef) *Term {
	if f == nil {
		return v
	}
	return valField(v, mapT.Underlying().(*types.Map).Elem(), f)
}

func ruleP23(c *Check) {
	em := c.M.engine()
	m := c.M
	g := em.getter()
	c.rule("get-decides", 5)
	c.rule("get-expires", 1)
	c.rule("getter-expired-after-start", 1)
	c.rule("getter-holds-inputs", 2)
	fn := m.method(pkgDep, g.T.Obj().Name(), "Get")
	r := m.root(fn)
	self := r.Args[0]
	name, out := r.Args[1], r.Args[2]
	s0 := newState()
	fieldOf := func(f *FieldRef) *Term { return s0.load(fieldAddr(self, g.T, f), f.Typ) }
	if _, ok := self.typ.Underlying().(*types.Pointer); !ok {
		fieldOf = func(f *FieldRef) *Term { return mkFld(self, g.T, f.Idx) }
	}
	wv, has := s0.mapGet(fieldOf(g.wMap), name, g.wMap.Typ.Underlying().(*types.Map).Elem())
	ov, _ := s0.mapGet(fieldOf(g.oMap), name, g.oMap.Typ.Underlying().(*types.Map).Elem())
	w, o := elemField(wv, g.wMap.Typ, g.wFld), elemField(ov, g.oMap.Typ, g.oFld)
	missing := m.errGlobal(pkgDep, "ErrMissing")
	seen := map[string]bool{}
	for _, p := range r.Paths {
		at := m.atP(fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("get-decides", at, "Get can end by %s", p.Kind)
			continue
		}
		res := p.Res[0]
		var calls []*Event
		expired, checked := false, -1
		for i, e := range p.Events {
			if e.Kind == EvCall && e.Name == "dyn" && e.T[0].typ != nil && isOutputFn(e.T[0].typ) {
				calls = append(calls, e)
				c.want("get-expires", checked >= 0 && checked < i, m.atE(e, p), "an output function is called without looking whether the start function has returned")
			}
			if g.expired != nil && e.Kind == EvSelect {
				for j, cs := range e.Cases {
					if !cs.Send && cs.Ch.isField(g.expired) {
						checked = i
						if e.Chosen == j {
							expired = true
						}
					}
				}
				c.want("get-expires", !e.Block, m.atE(e, p), "Get may block until the start function has returned")
			}
		}
		if g.expired == nil && g.flag != nil {
			for f, v := range p.Facts {
				if f.isField(g.flag) || len(f.args) > 0 && f.args[0] == fieldAddr(self, g.T, g.flag) {
					checked, expired = 0, v
				}
			}
		}
		if expired {
			v, known := p.St.eval(mkEq(res, tNil))
			c.want("get-expires", known && !v && len(calls) == 0, at, "Get gives access to a resource after the start function has returned")
			continue
		}
		c.want("get-expires", checked >= 0, at, "Get does not look whether the start function has returned")
		isMissing := func() bool {
			v, known := p.St.eval(m.ip.errorsIs(res, missing))
			return known && v
		}
		type world struct {
			n    string
			lits []Fact
			ok   func() bool
		}
		noCall := func() bool { return len(calls) == 0 }
		for _, wd := range []world{
			{"undeclared", []Fact{lit(has, false), lit(mkEq(w, tNil), true)}, func() bool { return isMissing() && noCall() }},
			{"not running", []Fact{lit(has, true), lit(mkEq(w, tNil), true)}, func() bool { return isMissing() && noCall() }},
			{"only asked whether it exists", []Fact{lit(has, true), lit(mkEq(w, tNil), false), lit(mkEq(out, tNil), true)}, func() bool { return res.isNil() && noCall() }},
			{"not exposed", []Fact{lit(has, true), lit(mkEq(w, tNil), false), lit(mkEq(out, tNil), false), lit(mkEq(o, tNil), true)}, func() bool { return isMissing() && noCall() }},
			{"available", []Fact{lit(has, true), lit(mkEq(w, tNil), false), lit(mkEq(out, tNil), false), lit(mkEq(o, tNil), false)}, func() bool {
				if len(calls) != 1 || calls[0].T[0] != o || calls[0].T[1] != w || calls[0].T[2] != out {
					return false
				}
				x := res
				for isErrWrap(x) {
					x = x.args[0]
				}
				if x == calls[0].Res {
					return true
				}
				v, known := p.St.eval(mkEq(calls[0].Res, res))
				return known && v
			}},
		} {
			lits := wd.lits
			if wd.n == "undeclared" && !p.allows(lits...) {
				lits = lits[:1]
			}
			if !p.allows(lits...) {
				continue
			}
			seen[wd.n] = true
			c.want("get-decides", wd.ok(), at, "a request for a resource that is %s returns %s", wd.n, res)
		}
	}
	for _, n := range []string{"undeclared", "not running", "only asked whether it exists", "not exposed", "available"} {
		c.want("get-decides", seen[n], m.atFn(fn, n), "no path of Get handles a resource that is %s", n)
	}
	// the getter is closed when the start function has returned
	for _, st := range em.bodies() {
		for _, p := range st.Body.Paths {
			at := -1
			done := false
			for i, e := range p.Events {
				if isStartCall(e) {
					at = i
					c.want("getter-expired-after-start", !done, m.atE(e, p), "the getter has expired before the start function is called")
				}
				ex := g.expired != nil && e.Kind == EvClose && e.T[0].k == KAlloc && e.T[0] == em.getterField(st, g.expired) ||
					g.expired != nil && e.Kind == EvClose && e.T[0].isField(g.expired) ||
					g.flag != nil && (e.Kind == EvStore && e.T[0] == fieldAddr(st.Get, g.T, g.flag) || e.Kind == EvCall && len(e.T) == 2 && e.T[0] == fieldAddr(st.Get, g.T, g.flag))
				if ex {
					done = true
				}
				if at >= 0 && !done && (e.Method == "Wait" || e.mentionsSend(em.startedc) || e.mentionsSend(em.stoppedc)) {
					c.fail("getter-expired-after-start", m.atE(e, p), "the getter can still be used although the start function has returned")
				}
			}
			if at >= 0 && p.Kind == "ret" {
				c.want("getter-expired-after-start", done, m.atP(st.Body.Fn, p), "the getter can still be used after the start function has returned")
			}
		}
	}
	// what the getter holds
	for _, st := range em.starts {
		wm, om := em.getterField(st, g.wMap), em.getterField(st, g.oMap)
		c.want("getter-holds-inputs", wm.k == KAlloc && om.k == KAlloc, st.S.at(st.E), "the resources a start function can use are not a snapshot of its own")
		for _, x := range []struct {
			m   *Term
			typ types.Type
			f   *FieldRef
			w   bool
		}{{wm, g.wMap.Typ, g.wFld, true}, {om, g.oMap.Typ, g.oFld, false}} {
			em.holdsInputs(c, st, x.m, x.typ, x.f, x.w)
		}
	}
}

// getterField is the content of a field of the getter when the goroutine that
// uses it is started.
func (em *engineModel) getterField(st *engStart, f *FieldRef) *Term {
	if st.Get == nil {
		return tNil
	}
	t := st.Get.typ
	if st.Get.k == KAlloc {
		return st.E.Go.St.load(fieldAddr(st.Get, t, f), f.Typ)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return st.E.Go.St.load(fieldAddr(st.Get, p.Elem(), f), f.Typ)
	}
	return valField(st.Get, t, f)
}

// holdsInputs: the map has been filled with the worker (or output function) of
// exactly the declared inputs, as they are now.
func (em *engineModel) holdsInputs(c *Check, st *engStart, mp *Term, typ types.Type, f *FieldRef, worker bool) {
	const R = "getter-holds-inputs"
	s := st.S
	n := 0
	for i := 0; i < st.I; i++ {
		e := s.Evs[i]
		if (e.Kind == EvMapSet || e.Kind == EvMapDel || e.Kind == EvMapBad) && len(e.T) > 0 && e.T[0] == mp {
			c.fail(R, s.at(e), "a start function is given something that is not an input of its manifold")
		}
		if e.Loop == nil {
			continue
		}
		touches := false
		walk([]*Event{e}, func(x *Event) {
			if (x.Kind == EvMapSet || x.Kind == EvMapDel || x.Kind == EvMapBad) && x.T[0] == mp {
				touches = true
			}
		})
		if !touches {
			continue
		}
		n++
		li := e.Loop
		b, o, nm, ok := Fld(copyOf(li.Container))
		isIn := li.Kind == "slice" && li.Elem != nil && ok && nm == "Inputs" && o == typeObj(em.manT) && em.manifoldOf(b, st.Name)
		if !c.want(R, isIn && e.Exh, s.at(e), "a start function is not given all, or not only, the inputs of its manifold") {
			continue
		}
		for _, it := range li.Iters {
			var sets []*Event
			bad := false
			walk(it.Events, func(x *Event) {
				if len(x.T) > 0 && x.T[0] == mp {
					switch x.Kind {
					case EvMapSet:
						sets = append(sets, x)
					case EvMapDel, EvMapBad:
						bad = true
					}
				}
			})
			at := em.m.atP(li.Fn, it)
			is := li.Start.clone()
			var want *Term
			if worker {
				v, _ := is.mapGet(em.curT, li.Elem, em.infoT)
				want = em.info(v, em.iWorker)
			} else {
				v, _ := is.mapGet(em.manM, li.Elem, em.manT)
				want = em.manField(v, "Output")
			}
			if len(sets) == 0 && !bad {
				v, known := it.St.eval(mkEq(want, tNil))
				c.want(R, known && v, at, "an input is left out of what a start function is given")
				continue
			}
			ok := !bad
			for _, x := range sets {
				ok = ok && x.T[1] == li.Elem
			}
			if ok {
				got := elemField(sets[len(sets)-1].T[2], typ, f)
				ok = got == want
				if !ok {
					v, known := it.St.eval(mkEq(got, want))
					ok = known && v
				}
			}
			c.want(R, ok, at, "a start function is given something else than the current worker and output of its input")
		}
	}
	c.want(R, n == 1, s.at(st.E), "a start function is not given the inputs of its manifold")
}

func Fld(t *Term) (*Term, any, string, bool) { return t.field() }

func (em *engineModel) manField(v *Term, name string) *Term {
	s := structOf(em.manT)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkFld(v, em.manT, i)
		}
	}
	panic(undecided{"Manifold has no field " + name})
}

// P24 -------------------------------------------------------------------------

func ruleP24(c *Check) {
	em := c.M.engine()
	m := c.M
	c.rule("install-needs-check", 2)
	c.rule("check-covers-all", 2)
	c.rule("rejected-without-effect", 2)
	c.rule("installed-and-started", 2)
	c.rule("install-answer", 2)
	c.rule("cycle-check", 5)
	for _, t := range em.kind("install") {
		top := t.top()
		id := t.id()
		man := part(t.Msg, func(x types.Type) bool { return types.Identical(x, em.manT) })
		var reply, chk, add *Event
		for _, e := range top.Evs {
			switch {
			case e.Kind == EvSend:
				for _, rp := range replyFields(t.Msg) {
					if e.T[0] == rp {
						reply = e
					}
				}
			case e.Kind == EvCall && e.Name == pkgDep+".Validate":
				chk = e
			}
		}
		if !c.want("install-answer", reply != nil, t.at(nil), "Install is not answered") {
			continue
		}
		has := em.foundFact(t.P, id)
		res := reply.T[1]
		isNil, known := t.eval(mkEq(res, tNil))
		if !c.want("install-answer", known, t.at(reply), "Install is answered with %s", res) {
			continue
		}
		bad := func() *Event {
			var b *Event
			walk(top.Evs, func(e *Event) {
				if (e.Kind == EvMapSet || e.Kind == EvMapDel) && (em.isCur(e.T[0]) || em.isMan(e.T[0]) || em.isDep(e.T[0])) || e.Go != nil {
					b = e
				}
			})
			return b
		}
		if !isNil {
			b := bad()
			if b != nil && em.dyingOnly(t, b) {
				b = nil
			}
			c.want("rejected-without-effect", b == nil, t.at(b), "a manifold that is rejected has changed the engine")
			why := has == 1
			if chk != nil {
				if v, k := t.eval(mkEq(chk.Res, tNil)); k && !v {
					why = true
				}
			}
			c.want("rejected-without-effect", why, t.at(reply), "a manifold is rejected although it is neither a duplicate nor part of a cycle")
			continue
		}
		for i, e := range top.Evs {
			if e.Kind == EvMapSet && em.isMan(e.T[0]) {
				add = e
				c.want("install-needs-check", has == 0, t.at(e), "a manifold is installed without looking whether there is one of this name")
				okc := false
				for _, x := range top.Evs[:i] {
					if x == chk {
						v, k := t.eval(mkEq(chk.Res, tNil))
						okc = k && v
					}
				}
				c.want("install-needs-check", okc, t.at(e), "a manifold is installed without a check for cycles")
				c.want("installed-and-started", e.T[1] == id && e.T[2] == man, t.at(e), "something else is installed than what was asked for")
			}
		}
		if !c.want("installed-and-started", add != nil, t.at(reply), "Install reports success without installing the manifold") {
			continue
		}
		n := len(em.startsOf(top, id))
		c.want("installed-and-started", n == 1 || n == 0 && em.dyingSeen(t.P), t.at(add), "an installed manifold is not started")
		if chk != nil {
			em.checkedAll(c, t, chk, id, man)
		}
	}
	// what the caller is told
	in := m.root(m.method(pkgDep, "Engine", "Install"))
	for _, p := range in.Paths {
		at := m.atP(in.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("install-answer", at, "Install can end by %s", p.Kind)
			continue
		}
		var req *Event
		for _, e := range p.Events {
			if e.isSend() && em.chanKind2(e.sentOn()) == "install" {
				req = e
			}
		}
		res := p.Res[0]
		if req == nil {
			v, k := p.St.eval(mkEq(res, tNil))
			c.want("install-answer", k && !v, at, "Install reports success although its request was never accepted")
			continue
		}
		v := req.sentVal()
		c.want("install-answer", part(v, isString) == in.Args[1] && part(v, func(x types.Type) bool { return types.Identical(x, em.manT) }) == in.Args[2], m.atE(req, p), "the install request does not carry the name and manifold given")
		ok := false
		for _, rp := range replyFields(v) {
			for _, e := range p.Events {
				if e.isRecv() && e.recvOn() == rp && (stripErr(res) == e.Res || knownEqual(p, res, e.Res)) {
					ok = true
				}
			}
		}
		c.want("install-answer", ok, at, "Install does not return the event loop's answer")
	}
	em.installAll(c)
	cycleCheck(c)
}

// dyingOnly: the change is made after the request was answered, because the
// engine is dying.
func (em *engineModel) dyingOnly(t *Trans, e *Event) bool { return false }

// foundFact: 1 if the path knows a manifold of the name to be installed, 0 if
// it knows that there is none, else -1.
func (em *engineModel) foundFact(p *Path, id *Term) int {
	for f, v := range p.Facts {
		if f.k == KHas && (em.isMan(f.args[0]) || em.isCur(f.args[0])) && f.args[1] == id && f.n == 0 {
			if v {
				return 1
			}
			return 0
		}
	}
	for f, v := range p.Facts {
		if f.k == KHas && (em.isMan(f.args[0]) || em.isCur(f.args[0])) && f.args[1] == id {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// chanKind2 is chanKind for code that is not the event loop's.
func (em *engineModel) chanKind2(ch *Term) string { return em.chanKind(ch) }

// checkedAll: the cycle check is given all manifolds and the new one.
func (em *engineModel) checkedAll(c *Check, t *Trans, chk *Event, id, man *Term) {
	const R = "check-covers-all"
	mp := chk.T[0]
	top := t.top()
	own, all := 0, 0
	for _, e := range top.Evs {
		if e == chk {
			break
		}
		switch {
		case e.Kind == EvMapSet && e.T[0] == mp:
			own++
			c.want(R, e.T[1] == id && e.T[2] == man, t.at(e), "the cycle check is not given the manifold to be installed")
		case (e.Kind == EvMapDel || e.Kind == EvMapBad) && len(e.T) > 0 && e.T[0] == mp:
			c.fail(R, t.at(e), "the cycle check is not given all manifolds")
		case e.Loop != nil:
			touched := false
			walk([]*Event{e}, func(x *Event) {
				if (x.Kind == EvMapSet || x.Kind == EvMapDel || x.Kind == EvMapBad) && x.T[0] == mp {
					touched = true
				}
			})
			if !touched {
				continue
			}
			all++
			ok := e.Loop.Kind == "map" && em.isMan(e.Loop.Container) && e.Exh && len(e.Loop.Iters) > 0
			for _, it := range e.Loop.Iters {
				n := 0
				for _, x := range it.Events {
					if x.Kind == EvMapSet && x.T[0] == mp {
						st := e.Loop.Start.clone()
						v, _ := st.mapGet(e.Loop.Container, e.Loop.Key, em.manT)
						if x.T[1] == e.Loop.Key && (x.T[2] == v || x.T[2].k == KLookup && x.T[2].args[0] == e.Loop.Container && x.T[2].args[1] == e.Loop.Key) {
							n++
						} else {
							n = 99
						}
					}
				}
				ok = ok && n == 1
			}
			c.want(R, ok, t.at(e), "the cycle check is not given all manifolds that are installed")
		}
	}
	c.want(R, mp.k == KAlloc && own == 1 && all == 1, t.at(chk), "the cycle check is not given all manifolds and the one to be installed")
}

// installAll checks the helper that installs several manifolds.
func (em *engineModel) installAll(c *Check) {
	m := c.M
	c.rule("install-helper", 2)
	f, ok := m.pkg(pkgDep).Members["Install"].(*ssa.Function)
	if !ok {
		return
	}
	r := m.root(f)
	inst, mans := r.Args[0], r.Args[1]
	for _, p := range r.Paths {
		at := m.atP(f, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("install-helper", at, "Install can end by %s", p.Kind)
			continue
		}
		var loop *Event
		for _, e := range p.Events {
			if e.Loop != nil && callsMethod(e, "Install") {
				loop = e
			}
		}
		if !c.want("install-helper", loop != nil, at, "Install does not install anything") {
			continue
		}
		li := loop.Loop
		key := li.Key
		if li.Kind == "slice" && li.Elem != nil && li.Elem.k == KKey {
			key = li.Elem
		}
		isAll := li.Kind == "map" && li.Container == mans || li.Kind == "slice" && li.Container.k == KCollect && li.Container.args[2] == mans && len(li.Container.sub) == 0
		c.want("install-helper", isAll, m.atE(loop, p), "Install does not go through all manifolds")
		one := func(q *Path, es []*Event) *Event {
			var call *Event
			for _, e := range es {
				if e.Kind == EvCall && e.Method == "Install" {
					good := call == nil && e.T[0] == inst && e.T[1] == key && e.T[2].k == KLookup && e.T[2].args[0] == mans && e.T[2].args[1] == key
					c.want("install-helper", good, m.atE(e, q), "Install does not install each manifold under its name once")
					call = e
				}
			}
			return call
		}
		for _, it := range li.Iters {
			e := one(it, it.Events)
			if c.want("install-helper", e != nil, m.atP(f, it), "Install leaves out a manifold") {
				v, k := it.St.eval(mkEq(e.Res, tNil))
				c.want("install-helper", k && v, m.atE(e, it), "Install goes on after an error")
			}
		}
		if loop.Exh {
			c.want("install-helper", p.Res[0].isNil(), at, "Install fails although every manifold has been installed")
			continue
		}
		var tail []*Event
		for i, e := range p.Events {
			if e == loop {
				tail = p.Events[i+1:]
			}
		}
		e := one(p, tail)
		if c.want("install-helper", e != nil, at, "Install stops before all manifolds are installed") {
			c.want("install-helper", stripErr(p.Res[0]) == e.Res && p.implies(mkEq(e.Res, tNil), false), at, "Install does not return the first error")
		}
	}
}

func callsMethod(e *Event, name string) bool {
	found := false
	walk([]*Event{e}, func(x *Event) {
		if x.Kind == EvCall && x.Method == name {
			found = true
		}
	})
	return found
}

// cycleCheck verifies Validate: a depth-first search over all manifolds which
// fails exactly if it meets a node that is being visited.
func cycleCheck(c *Check) {
	const R = "cycle-check"
	m := c.M
	vf := m.fn(pkgDep, "Validate")
	v := m.root(vf)
	arg := v.Args[0]
	var visit *ssa.Function
	var call *Event
	eachEvent(v, func(p *Path, e *Event) {
		if e.Kind == EvRecurse {
			if ci, ok := e.Instr.(ssa.CallInstruction); ok {
				visit, call = ci.Common().StaticCallee(), e
			}
		}
		if (e.Kind == EvMapSet || e.Kind == EvMapDel || e.Kind == EvMapBad) && e.T[0] == arg {
			c.fail(R, m.atE(e, p), "Validate changes the manifolds it is given")
		}
	})
	if !c.want(R, visit != nil, m.atFn(vf, ""), "Validate has no recursive search for cycles, which is the only kind this rule can judge") {
		return
	}
	r := m.root(visit)
	// arguments: the node, and what else the search is given
	var node *Term
	ni := -1
	for i, a := range r.Args {
		if isString(a.typ) {
			node, ni = a, i
		}
	}
	if node == nil {
		c.fail(R, m.atFn(visit, ""), "the search is not given a node")
		return
	}
	subst := func(t *Term) *Term { // what a term of the search is in Validate
		for i, a := range r.Args {
			if t == a {
				return call.T[i]
			}
			if t.k == KFld && t.args[0] == a && call.T[i].k == KStruct {
				return call.T[i].args[t.n]
			}
			if t.k == KInit && t.args[0].k == KFldA && t.args[0].args[0] == a {
				x := t.args[0]
				for _, p := range v.Paths {
					if y, ok := p.St.mem[mkFldA(call.T[i], r.Args[i].typ.Underlying().(*types.Pointer).Elem(), x.n)]; ok {
						return y
					}
				}
			}
		}
		return nil
	}
	// the marks kept about nodes
	var marks []*Term
	isMark := map[*Term]bool{}
	for _, p := range r.Paths {
		for _, e := range p.Events {
			if (e.Kind == EvMapSet || e.Kind == EvMapDel) && !isMark[e.T[0]] {
				isMark[e.T[0]] = true
				marks = append(marks, e.T[0])
				c.want(R, e.T[1] == node, m.atE(e, p), "the search marks another node than the one it visits")
				a := subst(e.T[0])
				c.want(R, a != nil && a.k == KAlloc, m.atE(e, p), "the marks of the search are not new ones")
			}
		}
	}
	type val struct {
		v   *Term
		has bool
	}
	initial := map[*Term]val{}
	lookups := map[*Term][2]*Term{}
	for _, mk := range marks {
		et := mapOfTerm(mk).Elem()
		s := newState()
		lv, lh := s.mapGet(mk, node, et)
		lookups[mk] = [2]*Term{lv, lh}
		initial[mk] = val{zeroTerm(et), false}
	}
	after := func(vec map[*Term]val, es []*Event) map[*Term]val {
		out := map[*Term]val{}
		for k, x := range vec {
			out[k] = x
		}
		for _, e := range es {
			if !isMark[firstT(e)] {
				continue
			}
			if e.Kind == EvMapSet {
				out[e.T[0]] = val{e.T[2], true}
			}
			if e.Kind == EvMapDel {
				out[e.T[0]] = val{zeroTerm(mapOfTerm(e.T[0]).Elem()), false}
			}
		}
		return out
	}
	allowed := func(p *Path, vec map[*Term]val) bool {
		var lits []Fact
		for _, mk := range marks {
			l := lookups[mk]
			x := vec[mk]
			if isBool(mapOfTerm(mk).Elem()) {
				lits = append(lits, lit(l[0], x.v == tTrue))
			} else {
				lits = append(lits, lit(mkEq(l[0], x.v), true))
			}
			lits = append(lits, lit(l[1], x.has))
		}
		return p.allows(lits...)
	}
	isErr := func(p *Path) bool {
		if len(p.Res) != 1 {
			return false
		}
		x, k := p.St.eval(mkEq(p.Res[0], tNil))
		return k && !x
	}
	searchLoop := func(p *Path) (*Event, int) {
		for i, e := range p.Events {
			if e.Loop != nil && e.Loop.Kind == "slice" && e.Loop.Elem != nil {
				return e, i
			}
		}
		return nil, -1
	}
	var busy, done []map[*Term]val
	for _, p := range r.Paths {
		at := m.atP(visit, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail(R, at, "the search can end by %s", p.Kind)
			continue
		}
		if !allowed(p, initial) {
			continue
		}
		le, li := searchLoop(p)
		if !c.want(R, le != nil, at, "a node that has not been visited is not searched") {
			continue
		}
		// the loop is over the node's inputs
		ct := copyOf(le.Loop.Container)
		okc := false
		if ct.k == KLookup && ct.args[1] == node {
			a := subst(ct.args[0])
			okc = a != nil && em2inputs(v, a, arg)
		}
		if b, _, n, ok := ct.field(); ok && n == "Inputs" && b.k == KLookup && b.args[1] == node {
			okc = b.args[0] == arg || subst(b.args[0]) == arg
		}
		c.want(R, okc, m.atE(le, p), "the search does not go on with the inputs of the node")
		recur := func(q *Path, es []*Event) *Event {
			var x *Event
			for _, e := range es {
				if e.Kind == EvRecurse {
					good := x == nil && e.T[ni] == le.Loop.Elem
					for i := range e.T {
						good = good && (i == ni || e.T[i] == r.Args[i])
					}
					c.want(R, good, m.atE(e, q), "the search does not go on with each input")
					x = e
				}
			}
			return x
		}
		for _, it := range le.Loop.Iters {
			e := recur(it, it.Events)
			if c.want(R, e != nil, m.atP(visit, it), "the search leaves out an input") {
				x, k := it.St.eval(mkEq(e.Res, tNil))
				c.want(R, k && x, m.atE(e, it), "the search goes on although it has found a cycle")
			}
		}
		busy = append(busy, after(initial, p.Events[:li]))
		if le.Exh {
			x, k := p.St.eval(mkEq(p.Res[0], tNil))
			c.want(R, k && x, at, "the search fails although it has found no cycle")
			done = append(done, after(initial, p.Events))
			continue
		}
		e := recur(p, p.Events[li+1:])
		c.want(R, e != nil && p.implies(mkEq(e.Res, tNil), false) && isErr(p), at, "the search does not report the cycle it has found")
	}
	c.want(R, len(busy) > 0 && len(done) > 0, m.atFn(visit, ""), "the search does not visit nodes")
	for _, b := range busy {
		for _, p := range r.Paths {
			if p.Kind == "ret" && allowed(p, b) {
				c.want(R, isErr(p), m.atP(visit, p), "the search does not report a cycle when it meets a node it is visiting")
			}
		}
	}
	for _, d := range done {
		for _, p := range r.Paths {
			if p.Kind == "ret" && allowed(p, d) {
				le, _ := searchLoop(p)
				x, k := p.St.eval(mkEq(p.Res[0], tNil))
				c.want(R, le != nil || k && x, m.atP(visit, p), "the search reports a cycle when it meets a node it has visited before")
			}
		}
	}
	// Validate searches from every node
	for _, p := range v.Paths {
		at := m.atP(vf, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail(R, at, "Validate can end by %s", p.Kind)
			continue
		}
		var loop *Event
		li := -1
		for i, e := range p.Events {
			if e.Kind == EvRecurse && loop == nil {
				c.fail(R, m.atE(e, p), "Validate does not search from every manifold")
			}
			if e.Loop == nil {
				continue
			}
			has := false
			walk([]*Event{e}, func(x *Event) { has = has || x.Kind == EvRecurse })
			if has {
				loop, li = e, i
			}
		}
		if !c.want(R, loop != nil, at, "Validate does not search from every manifold") {
			continue
		}
		lp := loop.Loop
		key, from := lp.Key, lp.Container
		if lp.Kind == "slice" && lp.Container.k == KCollect && len(lp.Container.sub) == 0 {
			key, from = lp.Elem, lp.Container.args[2]
		}
		c.want(R, from == arg || em2inputs(v, from, arg), m.atE(loop, p), "Validate does not search from every manifold")
		for _, it := range lp.Iters {
			n := 0
			for _, e := range it.Events {
				if e.Kind == EvRecurse && e.T[ni] == key {
					x, k := it.St.eval(mkEq(e.Res, tNil))
					c.want(R, k && x, m.atE(e, it), "Validate goes on although a cycle has been found")
					n++
				}
			}
			c.want(R, n == 1, m.atP(vf, it), "Validate leaves out a manifold")
		}
		x, k := p.St.eval(mkEq(p.Res[0], tNil))
		if loop.Exh {
			c.want(R, k && x, at, "Validate fails although there is no cycle")
			continue
		}
		ok := false
		for _, e := range p.Events[li+1:] {
			if e.Kind == EvRecurse && e.T[ni] == key && p.implies(mkEq(e.Res, tNil), false) {
				ok = true
			}
		}
		c.want(R, ok && k && !x, at, "Validate does not report the cycle found")
	}
}

func firstT(e *Event) *Term {
	if len(e.T) == 0 {
		return nil
	}
	return e.T[0]
}

// em2inputs: the map, built by Validate, holds the inputs of each manifold.
func em2inputs(v *Root, a, arg *Term) bool {
	if a == arg {
		return true
	}
	if a.k != KAlloc {
		return false
	}
	n, bad := 0, false
	for _, p := range v.Paths {
		for _, e := range p.Events {
			if (e.Kind == EvMapSet || e.Kind == EvMapDel || e.Kind == EvMapBad) && e.T[0] == a {
				bad = true
			}
			if e.Loop == nil {
				continue
			}
			touched := false
			walk([]*Event{e}, func(x *Event) {
				if (x.Kind == EvMapSet || x.Kind == EvMapDel || x.Kind == EvMapBad) && x.T[0] == a {
					touched = true
				}
			})
			if !touched {
				continue
			}
			if e.Loop.Kind != "map" || e.Loop.Container != arg || !e.Exh {
				return false
			}
			n++
			for _, it := range e.Loop.Iters {
				k := 0
				for _, x := range it.Events {
					if x.Kind == EvMapSet && x.T[0] == a {
						b, _, nm, ok := copyOf(x.T[2]).field()
						if x.T[1] == e.Loop.Key && ok && nm == "Inputs" && b.k == KLookup && b.args[0] == arg && b.args[1] == e.Loop.Key {
							k++
						}
					}
				}
				if k != 1 {
					return false
				}
			}
		}
	}
	return n > 0 && !bad
}

// P25 -------------------------------------------------------------------------

func ruleP25(c *Check) {
	em := c.M.engine()
	m := c.M
	c.rule("api-blocking-escapes", 4)
	c.rule("reply-always-sent", 2)
	c.rule("loop-does-not-block", 4)
	c.rule("worker-goroutine-escapes", 4)
	c.rule("requests-unbuffered", 4)
	isDeath := func(ch *Term) bool { return isDeathChan(ch, em.tomb) }
	isDead := func(ch *Term) bool {
		return ch.k == KCall && ch.op == "tomb.Dead" && tombOf(ch.args[0], em.tomb)
	}
	for _, r := range em.api() {
		for _, p := range r.Paths {
			dead := false
			for i, e := range p.Events {
				if e.isRecv() && isDead(e.recvOn()) {
					dead = true
				}
				if e.Loop != nil {
					walk([]*Event{e}, func(x *Event) {
						if blocking(x) {
							c.fail("api-blocking-escapes", m.atE(x, p), "%s blocks in a loop", r.Fn.Name())
						}
					})
				}
				if !blocking(e) {
					continue
				}
				ok := false
				switch e.Kind {
				case EvTWait:
					ok = r.Fn.Name() == "Wait" || dead
				case EvSelect:
					for _, cs := range e.Cases {
						ok = ok || !cs.Send && isDeath(cs.Ch)
					}
				case EvRecv:
					ok = isDeath(e.T[0]) || repliedTo(p, i, e.T[0]) != nil
				case EvSend:
					ok = bufferedOnce(p, e)
				}
				c.want("api-blocking-escapes", ok, m.atE(e, p), "%s in %s has no way out when the engine has ended", describe(e), r.Fn.Name())
				if e.isSend() && em.chanKind(e.sentOn()) != "" {
					for _, rp := range replyFields(e.sentVal()) {
						if rp.k == KAlloc && rp.op != "0" && rp.op != "" {
							c.want("reply-always-sent", true, m.atE(e, p), "")
							continue
						}
						ok := i+1 < len(p.Events) && p.Events[i+1].Kind == EvRecv && p.Events[i+1].T[0] == rp
						c.want("reply-always-sent", ok, m.atE(e, p), "after its request was accepted the caller may not take the answer, which would block the event loop")
					}
				}
			}
		}
	}
	for _, t := range em.tr {
		rps := replyFields(t.Msg)
		for _, rp := range rps {
			n := 0
			for _, e := range t.top().Evs {
				if (e.Kind == EvSend || e.Kind == EvClose) && e.T[0] == rp {
					n++
				}
			}
			c.want("reply-always-sent", n == 1, t.at(nil), "a %q request is answered %d times", t.Kind, n)
		}
		for i, e := range allEvs(t) {
			if e == t.Sel {
				continue
			}
			walk([]*Event{e}, func(x *Event) {
				wait := x.Kind == EvCall && x.Method == "Wait"
				if !blocking(x) && !wait {
					return
				}
				ok := false
				if x.Kind == EvSend && i >= len(t.Pre) {
					for _, rp := range rps {
						ok = ok || x.T[0] == rp
					}
				}
				c.want("loop-does-not-block", ok, t.at(x), "the event loop may block while it handles a %q event: %s", t.Kind, describe(x))
			})
		}
		c.want("loop-does-not-block", true, t.at(nil), "")
	}
	for _, st := range em.bodies() {
		eachEvent(st.Body, func(p *Path, e *Event) {
			if !blocking(e) {
				return
			}
			ok := false
			switch e.Kind {
			case EvSelect:
				for _, cs := range e.Cases {
					ok = ok || !cs.Send && isDeath(cs.Ch)
				}
			case EvRecv:
				ok = isDeath(e.T[0])
			}
			c.want("worker-goroutine-escapes", ok, m.atE(e, p), "a worker's goroutine may block although the engine has ended: %s", describe(e))
		})
	}
	// The loop goes on until every worker's end has been announced.
	c.rule("worker-goroutine-waits", 2)
	c.rule("end-announced-once", 2)
	c.rule("error-reported-as-is", 2)
	c.rule("tickets-name-their-manifold", 2)
	for _, st := range em.bodies() {
		em.workerGoroutine(c, st)
	}
	// No request is pending when the loop ends, and no worker's end overtakes
	// its start.
	for _, f := range []*FieldRef{em.installc, em.reportc, em.startedc, em.stoppedc} {
		ch := em.ctorChan(f)
		c.want("requests-unbuffered", ch != nil && ch.k == KAlloc && (ch.op == "" || ch.op == "0"), c.M.atFn(em.ctor.Fn, f.Name), "the channel %s is not an unbuffered channel made by the constructor", f)
	}
}

func (em *engineModel) ctorChan(f *FieldRef) *Term {
	var ch *Term
	for _, g := range em.m.gos(em.ctor) {
		if em.m.body(em.ctor, g) == em.loop {
			ch = g.Go.St.load(fieldAddr(em.base, em.T, f), f.Typ)
		}
	}
	return ch
}
