package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P26 - P29: contexts, self manifold, configuration, report -------------------

// cancelOf is the cancel function that belongs to a context made by
// context.WithCancel.
func isWithCancel(t *Term) bool { return t.k == KCall && t.op == "context.WithCancel/0" }

func cancelFor(ctx, cancel *Term) bool {
	return cancel.k == KCall && cancel.op == "context.WithCancel/1" && cancel.n == ctx.n && cancel.obj == ctx.obj && len(cancel.args) == len(ctx.args) && sameArgs(cancel.args, ctx.args)
}

func sameArgs(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ctxChain lists a context and what it is derived from.
func ctxChain(t *Term) []*Term {
	var out []*Term
	for t != nil {
		t = unI(t)
		out = append(out, t)
		if t.k != KCall {
			break
		}
		var next *Term
		for _, a := range t.args {
			if x := unI(a); x.k == KCall && (strings.HasPrefix(x.op, "context.") || x.op == "tomb.Context" || x.op == "pprof.ctx") {
				next = x
				break
			}
		}
		t = next
	}
	return out
}

func ruleP26(c *Check) {
	em := c.M.engine()
	m := c.M
	c.rule("context-derived", 4)
	c.rule("cancel-kept", 4)
	c.rule("cancelled-only-to-stop", 2)
	c.rule("cancelled-when-stopped", 2)
	c.rule("cancelled-to-stop", 2)
	c.rule("start-aborted", 3)
	if !c.want("context-derived", em.iCancel != nil, m.atFn(em.loop.Fn, ""), "no cancel function is recorded with a worker") {
		return
	}
	chainOK := func(ctx *Term) (wc *Term, tomb, bad bool) {
		for _, x := range ctxChain(ctx) {
			switch {
			case isWithCancel(x) && wc == nil:
				wc = x
			case x.k == KCall && x.op == "tomb.Context" && em.isTomb(x.args[0]):
				tomb = true
			case x.k == KCall && (x.op == "context.Background" || x.op == "context.TODO" || x.op == "context.WithValue" || x.op == "pprof.ctx" || strings.HasPrefix(x.op, "context.WithValue")):
			default:
				bad = true
			}
		}
		return
	}
	for _, st := range em.starts {
		at := st.S.at(st.E)
		if !c.want("context-derived", st.Ctx != nil, at, "a start function is given no context") {
			continue
		}
		wc, tomb, bad := chainOK(st.Ctx)
		c.want("context-derived", tomb && !bad, at, "the context given to a start function is not cancelled exactly when the engine is dying: %s", st.Ctx)
		set := em.setFor(st)
		if !c.want("context-derived", wc != nil && set != nil, at, "the context given to a start function can not be cancelled by the engine: %s", st.Ctx) {
			continue
		}
		c.want("context-derived", cancelFor(wc, em.info(set.T[2], em.iCancel)), at, "the function recorded to cancel the worker's context is %s", em.info(set.T[2], em.iCancel))
	}
	for _, t := range em.tr {
		id := t.id()
		for _, s := range scopes(t) {
			for i, e := range s.Evs {
				if e.Kind == EvMapSet && em.isCur(e.T[0]) {
					idle, known := em.idle(s.P, e.Old)
					stop, ks := s.P.St.eval(em.info(e.T[2], em.iStopping))
					nowIdle := em.info(e.T[2], em.iWorker).isNil() && em.info(e.T[2], em.iStarting) == tFalse
					if !(known && idle) && !(ks && stop) && !nowIdle && len(em.startsOf(s, e.T[1])) == 0 {
						c.want("cancel-kept", em.preserved(s.P, e, em.iCancel), s.at(e), "the function that cancels a worker's context is forgotten although the worker may have to be stopped")
					}
				}
				if e.Kind == EvMapSet && em.isCur(e.T[0]) && em.info(e.T[2], em.iStopping) == tTrue && !em.preserved(s.P, e, em.iStopping) {
					cn := em.info(e.Old, em.iCancel)
					b, known := s.P.St.eval(mkEq(cn, tNil))
					c.want("cancelled-to-stop", known && b || callsFn(s.Evs, cn), s.at(e), "a worker is asked to stop, but its context is not cancelled")
				}
				if e.Kind != EvCall || e.Name != "dyn" || !(e.T[0].isField(em.iCancel) || e.T[0].k == KCall && e.T[0].op == "context.WithCancel/1") {
					continue
				}
				ok := false
				key := id
				if s.Loop != nil {
					key = em.curLoop(s.Loop)
					if key == nil {
						key = s.Loop.Loop.Elem
					}
				}
				whose := false
				if key != nil {
					for _, st := range []*State{em.li.Start, loopStart(s)} {
						if st != nil && em.info(em.infoAt(st, key), em.iCancel) == e.T[0] {
							whose = true
						}
					}
				}
				if whose {
					// the manifold's worker has stopped, or has to
					ok = t.Kind == "stopped" && s.Loop == nil
					for _, x := range em.curSets(s.Evs) {
						if x.T[1] == key && em.info(x.T[2], em.iStopping) == tTrue {
							ok = true
						}
					}
					if em.dyingSeen(s.P) {
						ok = true
					}
				}
				if e.T[0].k == KCall {
					ok = em.dyingSeen(s.P)
				}
				_ = i
				c.want("cancelled-only-to-stop", ok, s.at(e), "a worker's context is cancelled although the worker has not been asked to stop")
			}
		}
		if t.Kind == "stopped" {
			cn := em.info(em.was(id), em.iCancel)
			v, known := t.eval(mkEq(cn, tNil))
			idle, ki := em.idle(t.P, em.was(id))
			if !(ki && idle) {
				c.want("cancelled-when-stopped", known && v || callsFn(allEvs(t), cn), t.at(nil), "the context of a worker that has stopped is not cancelled, and never will be")
			}
		}
	}
	for _, st := range em.bodies() {
		wc, _, _ := chainOK(st.Ctx)
		for _, p := range st.Body.Paths {
			start := -1
			waited := false
			for i, e := range p.Events {
				if isStartCall(e) {
					start = i
				}
				if isMethodCall(e, "Wait", nil) {
					waited = true
				}
				if e.Kind == EvCall && e.Name == "dyn" && e.T[0].k == KCall && e.T[0].op == "context.WithCancel/1" {
					c.want("cancelled-only-to-stop", waited, m.atE(e, p), "a worker's context is cancelled although the worker may be running")
				}
			}
			if start < 0 {
				continue
			}
			// looked at, after any waiting, whether it has to start at all
			ok := false
			for _, e := range p.Events[:start] {
				if blocking(e) {
					ok = false
				}
				if e.Kind != EvSelect {
					continue
				}
				for j, cs := range e.Cases {
					if cs.Send || cs.Ch.k != KCall || cs.Ch.op != "ctx.Done" {
						continue
					}
					_, tomb, _ := chainOK(cs.Ch.args[0])
					has := false
					for _, x := range ctxChain(cs.Ch.args[0]) {
						has = has || x == wc && wc != nil
					}
					dying := tomb
					for _, o := range e.Cases {
						dying = dying || !o.Send && em.chanKind(o.Ch) == "dying"
					}
					if has && dying && e.Chosen != j {
						ok = true
					}
				}
				for j, cs := range e.Cases {
					if e.Chosen == j && !cs.Send && (em.chanKind(cs.Ch) == "dying" || cs.Ch.k == KCall && cs.Ch.op == "ctx.Done") {
						ok = false
					}
				}
			}
			c.want("start-aborted", ok, m.atE(p.Events[start], p), "a start function is called although its worker has been told to stop while waiting to be started")
		}
	}
}

func loopStart(s *scope) *State {
	if s.Loop == nil {
		return nil
	}
	return s.Loop.Loop.Start
}

// P27 -------------------------------------------------------------------------

func ruleP27(c *Check) {
	em := c.M.engine()
	m := c.M
	c.rule("self-not-awaited", 2)
	c.rule("self-runs-until-dying", 1)
	c.rule("self-does-not-hold-up-exit", 1)
	c.rule("self-not-reported", 1)
	c.rule("self-start", 1)
	c.rule("self-output", 4)
	for _, st := range em.bodies() {
		for _, p := range st.Body.Paths {
			var w *Term
			at := m.atP(st.Body.Fn, p)
			dying := false
			for _, e := range p.Events {
				if isStartCall(e) {
					x, err := e.results()
					if v, known := p.St.eval(mkEq(err, tNil)); !known || v {
						w = x
					}
				}
				if w == nil {
					continue
				}
				self, known := em.isSelf(p, w)
				if isMethodCall(e, "Wait", w) {
					c.want("self-not-awaited", known && !self, m.atE(e, p), "the goroutine of a worker waits for it although it may be the engine itself, which waits for the goroutine")
				}
				if e.isRecv() && em.chanKind(e.recvOn()) == "dying" {
					dying = true
				}
				if e.isSend() && e.sentOn().isField(em.stoppedc) && known && self {
					c.want("self-runs-until-dying", dying, m.atE(e, p), "the engine, as its own worker, is announced to have stopped although it is running")
				}
			}
			_ = at
		}
	}
	// exit
	for _, t := range em.tr {
		if !t.Exit {
			continue
		}
		es := allEvs(t)
		last := -1
		for i, e := range es {
			if em.changes(e) {
				last = i
			}
		}
		self := false
		for i, e := range es {
			k := em.curLoop(e)
			if k == nil || !e.Exh || i < last {
				continue
			}
			for _, it := range e.Loop.Iters {
				v := em.infoAt(e.Loop.Start, k)
				b, ks := em.isSelf(it, em.info(v, em.iWorker))
				self = self || ks && b
			}
		}
		c.want("self-does-not-hold-up-exit", self, t.at(nil), "the engine never ends if it runs itself as a worker")
	}
	// report
	seen := 0
	for _, r := range append([]*Root{em.loop}, em.api()...) {
		loops := map[*LoopInfo]bool{}
		for _, p := range r.Paths {
			walkPaths2(p, loops, func(q *Path) {
				for _, e := range q.Events {
					if e.Kind == EvCall && e.Method == "Report" {
						seen++
						self, known := em.isSelf(q, unI(e.T[0]))
						for f, v := range q.Facts {
							if isPair(f, stripAssert(e.T[0]), em.base) || len(r.Args) > 0 && isPair(f, stripAssert(e.T[0]), r.Args[0]) {
								self, known = v, true
							}
						}
						c.want("self-not-reported", known && !self, m.atE(e, q), "the engine's report contains the report of a worker which may be the engine itself")
					}
				}
			})
		}
	}
	c.selfManifold()
}

// isPair: the fact compares the two.
func isPair(f, a, b *Term) bool {
	if f.k != KOp || f.op != "==" {
		return false
	}
	x, y := stripAssert(f.args[0]), stripAssert(f.args[1])
	return x == a && y == b || x == b && y == a
}

func stripAssert(t *Term) *Term {
	t = unI(t)
	for t.k == KAssert {
		t = unI(t.args[0])
	}
	return t
}

func walkPaths2(p *Path, seen map[*LoopInfo]bool, f func(q *Path)) {
	f(p)
	for _, e := range p.Events {
		if e.Loop == nil || seen[e.Loop] {
			continue
		}
		seen[e.Loop] = true
		for _, it := range e.Loop.Iters {
			walkPaths2(it, seen, f)
		}
	}
}

func (c *Check) selfManifold() {
	m := c.M
	em := m.engine()
	f := m.fn(pkgDep, "SelfManifold")
	r := m.root(f)
	eng := r.Args[0]
	for _, p := range r.Paths {
		at := m.atP(f, p)
		if !c.want("self-start", p.Kind == "ret" && len(p.Res) == 1, at, "SelfManifold can end by %s", p.Kind) {
			continue
		}
		man := p.Res[0]
		closure := func(t *Term) *Root {
			switch t.k {
			case KClosure:
				return m.ip.RunRoot("SelfManifold", t.obj.(*ssa.Function), nil, t.args, p.St.clone(), false)
			case KFunc:
				return m.root(t.obj.(*ssa.Function))
			}
			return nil
		}
		sr := closure(em.manField(man, "Start"))
		if c.want("self-start", sr != nil && sr.err == nil, at, "the self manifold has no start function that can be analysed") {
			for _, q := range sr.Paths {
				ok := q.Kind == "ret" && len(q.Res) == 2 && unI(q.Res[0]) == eng && q.Res[1].isNil()
				c.want("self-start", ok, m.atP(sr.Fn, q), "starting the self manifold does not give the engine")
			}
		}
		or := closure(em.manField(man, "Output"))
		if !c.want("self-output", or != nil && or.err == nil, at, "the self manifold has no output function that can be analysed") {
			continue
		}
		args := or.Args
		in, out := args[len(args)-2], args[len(args)-1]
		got := map[string]bool{}
		for _, q := range or.Paths {
			qa := m.atP(or.Fn, q)
			if q.Kind != "ret" || len(q.Res) != 1 {
				// a nil out pointer
				continue
			}
			res := q.Res[0]
			isNil, kr := q.St.eval(mkEq(res, tNil))
			isIn, ki := false, false
			for ft, v := range q.Facts {
				if ft.k == KOp && ft.op == "==" && (unI(ft.args[0]) == in && unI(ft.args[1]) == eng || unI(ft.args[1]) == in && unI(ft.args[0]) == eng) {
					isIn, ki = v, true
				}
			}
			var stored []*Event
			for _, e := range q.Events {
				if e.Kind == EvStore {
					stored = append(stored, e)
				}
			}
			if !ki || !isIn {
				ok := ki && kr && !isNil && len(stored) == 0
				c.want("self-output", ok, qa, "the self manifold's output does not reject another worker than the engine")
				got["other worker"] = true
				continue
			}
			var typ types.Type
			for ft, v := range q.Facts {
				if v && ft.k == KIsType && ft.args[0] == out {
					typ = ft.typ
				}
			}
			name := ""
			if typ != nil {
				if pt, ok := typ.(*types.Pointer); ok {
					if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
						name = n.Obj().Name()
					}
				}
			}
			switch name {
			case "Installer", "Reporter":
				ok := kr && isNil && len(stored) == 1 && unI(stored[0].T[1]) == eng
				c.want("self-output", ok, qa, "the self manifold's output does not expose the engine as %s", name)
				got[name] = true
			default:
				c.want("self-output", kr && !isNil && len(stored) == 0, qa, "the self manifold's output accepts an out parameter that is neither *Installer nor *Reporter")
				got["other type"] = true
			}
		}
		for _, n := range []string{"Installer", "Reporter", "other type", "other worker"} {
			c.want("self-output", got[n], at, "the self manifold's output does not handle the case %q", n)
		}
	}
}

// P28 -------------------------------------------------------------------------

func ruleP28(c *Check) {
	em := c.M.engine()
	m := c.M
	c.rule("invalid-rejected", 10)
	c.rule("valid-accepted", 1)
	c.rule("config-used-as-given", 10)
	cfgT := em.config.Typ
	s := structOf(cfgT)
	arg := em.ctor.Args[0]
	fieldT := func(name string) (*Term, types.Type) {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return mkFld(arg, cfgT, i), s.Field(i).Type()
			}
		}
		panic(undecided{"EngineConfig has no field " + name})
	}
	var valid []Fact
	type world struct {
		n    string
		lits []Fact
	}
	var worlds []world
	for _, n := range []string{"IsFatal", "WorstError", "Clock", "Metrics", "Logger"} {
		x, _ := fieldT(n)
		valid = append(valid, lit(mkEq(x, tNil), false))
		worlds = append(worlds, world{n + " is nil", []Fact{lit(mkEq(x, tNil), true)}})
	}
	for _, n := range []string{"ErrorDelay", "BounceDelay", "BackoffResetTime", "MaxDelay"} {
		x, _ := fieldT(n)
		neg := mkLt(x, mkInt(0), true)
		valid = append(valid, lit(neg, false))
		worlds = append(worlds, world{n + " is negative", []Fact{lit(neg, true), lit(mkEq(x, mkInt(0)), false)}})
	}
	bf, bt := fieldT("BackoffFactor")
	isZero := mkEq(bf, zeroTerm(bt))
	lt1 := mkLt(bf, mk(KConst, "f1", 0, nil, types.Typ[types.Float64]), false)
	worlds = append(worlds, world{"BackoffFactor is less than 1 but not 0", []Fact{lit(isZero, false), lit(lt1, true)}})
	starts := func(p *Path) *Event {
		for _, e := range p.Events {
			if e.Go != nil {
				return e
			}
		}
		return nil
	}
	accepted := 0
	for _, p := range em.ctor.Paths {
		at := m.atP(em.ctor.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 2 {
			c.fail("invalid-rejected", at, "NewEngine can end by %s", p.Kind)
			continue
		}
		errNil, known := p.St.eval(mkEq(p.Res[1], tNil))
		if !c.want("invalid-rejected", known, at, "NewEngine returns the error %s", p.Res[1]) {
			continue
		}
		if !errNil {
			c.want("invalid-rejected", starts(p) == nil, at, "NewEngine fails but leaves a goroutine behind")
		}
		for _, w := range worlds {
			if p.allows(w.lits...) {
				c.want("invalid-rejected", !errNil, at, "NewEngine accepts a configuration in which %s", w.n)
			}
		}
		for _, z := range []Fact{lit(isZero, true), lit(lt1, false)} {
			ls := append(append([]Fact(nil), valid...), z)
			if z.A == lt1 {
				ls = append(ls, lit(isZero, false))
			}
			if p.allows(ls...) {
				c.want("valid-accepted", errNil, at, "NewEngine rejects a valid configuration")
			}
		}
		if !errNil {
			continue
		}
		accepted++
		g := starts(p)
		ok := g != nil && g.Go.Kind == "tomb" && unI(p.Res[0]) == em.base
		if !c.want("valid-accepted", ok, at, "NewEngine does not return the engine whose loop it has started") {
			continue
		}
		ca := fieldAddr(em.base, em.T, em.config)
		for i := 0; i < s.NumFields(); i++ {
			w := at
			w.S = s.Field(i).Name()
			got := g.Go.St.load(mkFldA(ca, cfgT, i), s.Field(i).Type())
			c.want("config-used-as-given", got == mkFld(arg, cfgT, i), w, "the engine uses %s instead of the configured %s", got, s.Field(i).Name())
		}
		// duplicates of configuration fields
		es := structOf(em.T)
		for i := 0; i < es.NumFields(); i++ {
			for j := 0; j < s.NumFields(); j++ {
				ft := es.Field(i).Type()
				if ft == s.Field(j).Type() && types.IsInterface(ft) && !isErrorType(ft) {
					got := g.Go.St.load(mkFldA(em.base, em.T, i), ft)
					c.want("config-used-as-given", got == mkFld(arg, cfgT, j), at, "the engine's %s is not the configured %s", es.Field(i).Name(), s.Field(j).Name())
				}
			}
		}
		for _, f := range []*FieldRef{em.manifolds, em.dependents, em.current} {
			got := g.Go.St.load(fieldAddr(em.base, em.T, f), f.Typ)
			c.want("valid-accepted", got.k == KAlloc, at, "the engine starts with %s = %s", f, got)
		}
	}
	c.want("valid-accepted", accepted > 0, m.atFn(em.ctor.Fn, ""), "NewEngine accepts no configuration")
	// nobody changes the configuration afterwards
	for _, r := range em.allRoots() {
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind != EvStore {
				return
			}
			for a := e.T[0]; a != nil && a.k == KFldA; a = a.args[0] {
				if a.obj == em.config.Obj && a.n == em.config.Idx {
					if r == em.ctor {
						return // judged by the state above
					}
					c.fail("config-used-as-given", m.atE(e, p), "the engine's configuration is changed")
				}
			}
		})
	}
}

// P29 -------------------------------------------------------------------------

func ruleP29(c *Check) {
	em := c.M.engine()
	em.infoStates(c)
	em.infosMatch(c)
	m := c.M
	c.rule("report-answer", 2)
	c.rule("report-engine-state", 4)
	c.rule("report-covers-all", 2)
	c.rule("report-worker", 8)
	c.rule("start-count", 4)
	c.rule("last-error", 4)
	c.rule("metrics", 2)
	for _, t := range em.kind("report") {
		var reply *Event
		for _, e := range t.top().Evs {
			if e.Kind == EvSend {
				for _, rp := range replyFields(t.Msg) {
					if e.T[0] == rp {
						reply = e
					}
				}
			}
		}
		if !c.want("report-answer", reply != nil, t.at(nil), "Report is not answered") {
			continue
		}
		em.reportOf(c, em.base, t.P, t.top().Evs, reply.T[1], t.at(reply), false)
	}
	r := m.root(m.method(pkgDep, "Engine", "Report"))
	for _, p := range r.Paths {
		at := m.atP(r.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("report-answer", at, "Report can end by %s", p.Kind)
			continue
		}
		dead := false
		for _, e := range p.Events {
			if e.isRecv() && e.recvOn().k == KCall && e.recvOn().op == "tomb.Dead" && em.isTomb(e.recvOn().args[0]) {
				dead = true
			}
		}
		if dead {
			em.reportOf(c, r.Args[0], p, p.Events, p.Res[0], at, true)
			continue
		}
		ok := false
		for i, e := range p.Events {
			if e.Kind == EvRecv && repliedTo(p, i, e.T[0]) != nil && e.Res == p.Res[0] {
				ok = true
			}
		}
		c.want("report-answer", ok, at, "Report returns something else than the event loop's answer")
	}
	em.reportFields(c)
	em.startTimes(c)
}

func (m *Model) strConst(pkg, name string) string {
	k, ok := m.pkg(pkg).Members[name].(*ssa.NamedConst)
	if !ok {
		panic(undecided{"constant " + name + " not found"})
	}
	return strings.Trim(constTerm(k.Value).op, `"`)
}

// filled lists what the events put under each constant key of a map.
func filled(es []*Event, mp *Term) map[string]*Term {
	out := map[string]*Term{}
	for _, e := range es {
		if e.Kind == EvMapSet && e.T[0] == mp {
			out[strings.Trim(unI(e.T[1]).op, `"`)] = unI(e.T[2])
		}
		if (e.Kind == EvMapDel || e.Kind == EvMapBad) && e.T[0] == mp {
			out["?"] = tNil
		}
	}
	return out
}

func isErrorText(t, err *Term) bool {
	return t != nil && t.k == KCall && t.op == "method Error" && t.args[0] == err
}

// reportOf checks a report of the engine that has been built on a path.
func (em *engineModel) reportOf(c *Check, base *Term, p *Path, es []*Event, res *Term, at where, dead bool) {
	m := c.M
	key := func(n string) string { return m.strConst(pkgDep, n) }
	top := filled(es, unI(res))
	state, errV := top[key("KeyState")], top[key("KeyError")]
	word := func(t *Term, w string) bool { return t != nil && t.op == `"`+w+`"` }
	if dead {
		c.want("report-engine-state", word(state, "stopped"), at, "an engine that has ended is reported as %v", state)
		// the error is that of Wait
		r := m.root(m.method(pkgDep, "Engine", "Wait"))
		_ = r
		var tw *Event
		var filter *Event
		for _, e := range es {
			if e.Kind == EvTWait && em.isTomb(e.T[0]) {
				tw = e
			}
			if em.isCfgCall(e, "Filter") {
				filter = e
			}
		}
		if c.want("report-engine-state", tw != nil && tw.Res != nil, at, "the report of an engine that has ended does not contain its error") {
			own, known := p.St.eval(mkEq(tw.Res, tNil))
			switch {
			case known && !own:
				c.want("report-engine-state", isErrorText(errV, tw.Res), at, "the report of an engine that has failed does not contain its error")
			case filter != nil:
				em.errOnPath(c, p, errV, filter.Res, at)
			default:
				var w *Term
				for f := range p.Facts {
					if f.k == KOp && f.op == "==" && f.args[1].isNil() && f.args[0].isField(em.worst) {
						w = f.args[0]
					}
				}
				if c.want("report-engine-state", w != nil, at, "the report of an engine that has ended does not contain its worst error") {
					em.errOnPath(c, p, errV, w, at)
				}
			}
		}
	} else {
		dying := em.sawDying(es)
		nd := false
		for _, e := range es {
			if e.Kind == EvNotDie && em.isTomb(e.T[0]) {
				nd = true
			}
		}
		switch {
		case dying:
			c.want("report-engine-state", word(state, "stopping"), at, "an engine that is dying is reported as %v", state)
		case nd:
			c.want("report-engine-state", word(state, "started"), at, "an engine that is running is reported as %v", state)
		default:
			c.fail("report-engine-state", at, "the engine's state is reported as %v without looking whether it is dying", state)
		}
		if !dying {
			c.want("report-engine-state", errV == nil, at, "an error is reported although the engine is running")
		} else {
			var te *Term
			for f := range p.Facts {
				if f.k == KOp && f.op == "==" && f.args[1].isNil() && f.args[0].k == KRes && f.args[0].op == "tomb.Err" && em.isTomb(f.args[0].args[0]) {
					te = f.args[0]
				}
			}
			worst := em.li.Start.clone().load(fieldAddr(base, em.T, em.worst), em.worst.Typ)
			if te == nil {
				c.fail("report-engine-state", at, "the engine's own error is left out of its report")
			} else if v, known := p.St.eval(mkEq(te, tNil)); known && !v {
				c.want("report-engine-state", isErrorText(errV, te), at, "the engine's own error is not reported")
			} else {
				em.errOnPath(c, p, errV, worst, at)
			}
		}
	}
	// the manifolds
	ms := top[key("KeyManifolds")]
	if !c.want("report-covers-all", ms != nil && ms.k == KAlloc, at, "the report does not contain the manifolds") {
		return
	}
	n := 0
	for _, e := range es {
		if (e.Kind == EvMapSet || e.Kind == EvMapDel || e.Kind == EvMapBad) && e.T[0] == ms {
			c.fail("report-covers-all", at, "the report contains something that is not a manifold")
		}
		k := em.curLoop(e)
		if k == nil {
			continue
		}
		fills := false
		for _, it := range e.Loop.Iters {
			for _, x := range it.Events {
				fills = fills || x.Kind == EvMapSet && x.T[0] == ms
			}
		}
		if !fills {
			continue
		}
		n++
		c.want("report-covers-all", e.Exh, at, "the report may leave out manifolds")
		for _, it := range e.Loop.Iters {
			em.reportItem(c, base, e.Loop, it, k, ms)
		}
	}
	c.want("report-covers-all", n == 1, at, "the report does not go through all manifolds")
}

func (em *engineModel) errOnPath(c *Check, p *Path, got, err *Term, at where) {
	v, known := p.St.eval(mkEq(err, tNil))
	switch {
	case known && v:
		c.want("report-engine-state", got == nil, at, "an error is reported although there is none")
	case known:
		c.want("report-engine-state", isErrorText(got, err), at, "the engine's error is not reported, but %v", got)
	default:
		c.fail("report-engine-state", at, "the engine's error is not reported")
	}
}

// sawDying: the first look at whether the engine is dying found that it is.
func (em *engineModel) sawDying(es []*Event) bool {
	for _, e := range es {
		if e.Kind == EvSelect && !e.Block && e.isRecv() && em.chanKind(e.recvOn()) == "dying" || e.Kind == EvDie && em.isTomb(e.T[0]) {
			return true
		}
		if e.Kind == EvNotDie && em.isTomb(e.T[0]) {
			return false
		}
	}
	return false
}

// reportItem checks what is reported about one manifold.
func (em *engineModel) reportItem(c *Check, base *Term, li *LoopInfo, it *Path, k, ms *Term) {
	const R = "report-worker"
	m := c.M
	key := func(n string) string { return m.strConst(pkgDep, n) }
	at := m.atP(li.Fn, it)
	var sub *Term
	n := 0
	for _, e := range it.Events {
		if e.Kind == EvMapSet && e.T[0] == ms && unI(e.T[1]) == k {
			n++
			sub = unI(e.T[2])
		}
	}
	if !c.want("report-covers-all", n == 1 && it.Kind == "iter" && sub.k == KAlloc, at, "a manifold is left out of the report (%d elements for one)", n) {
		return
	}
	vals := filled(it.Events, sub)
	known := map[string]bool{}
	for _, x := range []string{"KeyState", "KeyInputs", "KeyStartCount", "KeyLastStart", "KeyError", "KeyReport"} {
		known[key(x)] = true
	}
	st := li.Start.clone()
	cur := li.Container
	if cur == nil || !em.isCur(cur) {
		cur = st.load(fieldAddr(base, em.T, em.current), em.current.Typ)
	}
	v, _ := st.mapGet(cur, k, em.infoT)
	w := em.info(v, em.iWorker)
	starting, stopping := em.info(v, em.iStarting), em.info(v, em.iStopping)
	wNil := mkEq(w, tNil)
	got := vals[key("KeyState")]
	for _, wd := range []struct {
		a, b, n bool
		want    []string
	}{
		{true, false, true, []string{"starting"}},
		{true, true, true, []string{"starting", "stopping"}},
		{false, true, false, []string{"stopping"}},
		{false, false, false, []string{"started"}},
		{false, false, true, []string{"stopped"}},
	} {
		if !it.allows(lit(starting, wd.a), lit(stopping, wd.b), lit(wNil, wd.n)) {
			continue
		}
		ok := false
		for _, x := range wd.want {
			ok = ok || got != nil && got.op == `"`+x+`"`
		}
		c.want(R, ok, at, "a worker that is %s is reported as %v", wd.want[0], got)
	}
	in := vals[key("KeyInputs")]
	ok := false
	if in != nil {
		b, o, nm, isF := copyOf(in).field()
		ok = isF && nm == "Inputs" && o == typeObj(em.manT) && b.k == KLookup && em.isMan(b.args[0]) && b.args[1] == k
	}
	c.want(R, ok, at, "the inputs reported are not those of the manifold")
	if em.iCount != nil {
		cnt := em.info(v, em.iCount)
		x := vals[key("KeyStartCount")]
		if it.allows(lit(mkLt(mkInt(0), cnt, true), true), lit(mkEq(cnt, mkInt(0)), false)) {
			c.want(R, x == cnt, at, "the start count reported is %v", x)
		}
		if it.allows(lit(mkLt(mkInt(0), cnt, true), false), lit(mkEq(cnt, mkInt(0)), true)) {
			c.want(R, x == nil, at, "a start count is reported for a worker that has never started")
		}
	}
	if em.iTime != nil {
		tm := em.info(v, em.iTime)
		x := vals[key("KeyLastStart")]
		z := mk(KCall, "(time.Time).IsZero", 0, nil, boolT, tm)
		if it.allows(lit(z, false), lit(wNil, false)) {
			c.want(R, x != nil && x.has(tm), at, "the time of the last start is not reported")
		}
		if it.allows(lit(z, true)) {
			c.want(R, x == nil, at, "a start time is reported for a worker that has not started")
		}
	}
	er := em.info(v, em.iErr)
	if it.allows(lit(mkEq(er, tNil), false)) {
		c.want(R, isErrorText(vals[key("KeyError")], er), at, "the error of a worker is not reported, but %v", vals[key("KeyError")])
	}
	if it.allows(lit(mkEq(er, tNil), true)) {
		c.want(R, vals[key("KeyError")] == nil, at, "an error is reported for a worker without one")
	}
	// the worker's own report
	var isRep *Term
	for f := range it.Facts {
		if f.k == KIsType && f.args[0] == w {
			isRep = f
		}
	}
	rep := vals[key("KeyReport")]
	yes, kn := false, false
	if isRep != nil {
		yes, kn = it.St.eval(isRep)
	}
	if b, kb := it.St.eval(wNil); kb && b {
		yes, kn = false, true
	}
	self, ks := false, false
	for f, b := range it.Facts {
		if isPair(f, w, base) {
			self, ks = b, true
		}
	}
	var call *Event
	for _, e := range it.Events {
		if e.Kind == EvCall && e.Method == "Report" {
			c.want(R, call == nil && stripAssert(e.T[0]) == w, m.atE(e, it), "the report included is not that of the worker")
			call = e
		}
	}
	switch {
	case kn && !yes || ks && self:
		c.want(R, rep == nil, at, "a report is included for a worker that has none, or is the engine itself")
	case kn && yes && ks:
		c.want(R, call != nil && rep == call.Res, at, "the worker's own report is left out")
	default:
		c.fail(R, at, "the worker's own report is included, or not, whatever the worker is")
	}
	for x := range vals {
		c.want(R, known[x], at, "the report of a worker contains %q, which is not documented", x)
	}
}

// reportFields checks the updates of what is reported.
// recordSet says what one update of a worker's record stands for.
func (em *engineModel) recordSet(t *Trans, s *scope, e *Event) (fresh, start, regd, ended bool) {
	id := t.id()
	if h, k := s.P.St.eval(e.OldHas); k && !h || t.Kind == "install" && e.T[1] == id && em.manifoldAbsent(s.P, id) {
		fresh = true
	}
	for _, x := range allEvs(t) {
		if x == e {
			break
		}
		if x.Kind == EvMapSet && em.isMan(x.T[0]) && x.T[1] == e.T[1] {
			if h, k := s.P.St.eval(x.OldHas); k && !h {
				fresh = true
			}
		}
	}
	start = em.info(e.T[2], em.iStarting) == tTrue && len(em.startsOf(s, e.T[1])) > 0
	regd = t.Kind == "started" && e.T[1] == id && s.Loop == nil && em.info(e.T[2], em.iWorker) == t.worker()
	ended = t.Kind == "stopped" && e.T[1] == id && s.Loop == nil && !start && em.info(e.T[2], em.iWorker).isNil() && em.info(e.T[2], em.iStarting) == tFalse
	return
}

// startTimes checks that the time recorded with a worker is that of its start,
// which is reported and decides whether it ran long enough.
func (em *engineModel) startTimes(c *Check) {
	c.rule("start-time", 4)
	f := em.iTime
	if f == nil {
		return
	}
	for _, t := range em.tr {
		for _, s := range scopes(t) {
			for _, e := range em.curSets(s.Evs) {
				fresh, _, regd, ended := em.recordSet(t, s, e)
				v, at := em.info(e.T[2], f), s.at(e)
				zero := v == zeroTerm(f.Typ)
				switch {
				case regd:
					c.want("start-time", isNow(v), at, "the start time of a worker that has started is %s", v)
				case ended:
					c.want("start-time", zero, at, "the start time of a worker that has stopped is kept, as if it were running")
				default:
					c.want("start-time", em.preserved(s.P, e, f) || fresh && zero, at, "the start time changes although no worker has started")
				}
			}
		}
	}
}

func (em *engineModel) reportFields(c *Check) {
	for _, t := range em.tr {
		id := t.id()
		reg := 0
		for _, s := range scopes(t) {
			for _, e := range s.Evs {
				if e.Kind == EvCall && e.Method == "RecordStart" {
					ok := t.Kind == "started" && s.Loop == nil && len(e.T) == 2 && e.T[1] == id
					c.want("metrics", ok, s.at(e), "a start is recorded in the metrics although no worker has started")
				}
				if e.Kind != EvMapSet || !em.isCur(e.T[0]) {
					continue
				}
				fresh, start, regd, ended := em.recordSet(t, s, e)
				at := s.at(e)
				if regd {
					reg++
				}
				isZero := func(f *FieldRef) bool { return em.info(e.T[2], f) == zeroTerm(f.Typ) }
				if f := em.iCount; f != nil {
					v, old := em.info(e.T[2], f), em.info(e.Old, f)
					switch {
					case regd:
						c.want("start-count", isIncr(v, old), at, "the start count changes from %s to %s when a worker has started", old, v)
					default:
						c.want("start-count", em.preserved(s.P, e, f) || fresh && isZero(f), at, "the start count changes although no worker has started")
					}
				}
				v := em.info(e.T[2], em.iErr)
				switch {
				case ended:
					x, ok := em.filtered(t)
					c.want("last-error", ok && knownEqual(s.P, v, x), at, "the error recorded for a worker that has stopped is %s", v)
				case start:
					c.want("last-error", v.isNil(), at, "the last error of a worker is kept although it is starting again")
				case regd:
					c.want("last-error", v.isNil() || em.preserved(s.P, e, em.iErr), at, "a worker that has started gets the error %s", v)
				default:
					c.want("last-error", em.preserved(s.P, e, em.iErr) || fresh && v.isNil(), at, "the last error of a worker changes although it has not stopped")
				}
			}
		}
		n := 0
		for _, e := range t.top().Evs {
			if e.Kind == EvCall && e.Method == "RecordStart" {
				n++
			}
		}
		if t.Kind == "started" {
			c.want("metrics", n == reg && n <= 1, t.at(nil), "of a worker's start %d are recorded in the metrics", n)
		}
	}
	for _, r := range em.allRoots() {
		if r == em.loop {
			continue
		}
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind == EvCall && e.Method == "RecordStart" {
				c.fail("metrics", c.M.atE(e, p), "a start is recorded in the metrics outside the event loop")
			}
		})
	}
}
