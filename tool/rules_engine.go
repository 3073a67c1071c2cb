package main

import (
	"go/token"
	"go/types"
	"strings"
)

const tokADD = token.ADD

// P17 - P22: the engine's event loop ------------------------------------------

func init() {
	register("P17", "Engine: its state is used by one goroutine at a time",
		"confinement analysis: every access to a field of the Engine, or to the contents of its maps, on every path of its methods and of every goroutine it starts, is either made by the event loop's goroutine or after the engine's tomb is known to be dead, or never conflicts with a write",
		ruleP17)
	register("P18", "Engine: at most one worker per manifold, and none is lost",
		"inductive invariant over the event loop's transitions and the worker goroutines: a manifold's info says it is busy exactly while one goroutine started for it has yet to announce its end; all updates of the infos in all transitions are classified against it, and every path of the goroutine starts at most one worker, waits for it, and announces its end last and once",
		ruleP18)
	register("P19", "Engine: shutdown reaches every worker and waits for all",
		"path analysis of the event loop: on dying every busy entry is asked to stop (flag, context cancelled, worker killed); a worker which starts late is killed; nothing is started after the engine has been seen dying; the loop returns only on paths that have checked that the engine is dying and that each worker but the engine itself has stopped, and goes on only on paths that have seen otherwise",
		ruleP19)
	register("P20", "Engine: restarts follow the documented policy and delays",
		"decision table over the worker's filtered error {nil, aborted, ErrMissing, ErrBounce, ErrUninstall, other} and whether it was asked to stop, compared with what every path of the stopped transition starts or removes; interval analysis of the delay each start waits for, relative to the configured one; table of the error count",
		ruleP20)
	register("P21", "Engine: dependents are bounced whenever a worker starts or stops",
		"on every path which records a started worker, or the end of one that had been recorded, a loop over all dependents of the manifold follows, each iteration of which starts an idle dependent or asks a busy one to stop; the index of dependents is maintained exactly by install and uninstall",
		ruleP21)
	register("P22", "Engine: a fatal error stops it and the worst one is reported",
		"all calls of IsFatal, WorstError and Filter, all writes of the worst error and all calls that kill the engine's tomb are enumerated on all paths, and compared with the documented order and arguments",
		ruleP22)
}

func ruleP17(c *Check) {
	em := c.M.engine()
	c.rule("engine-state-confined", 4)
	own := typeKeyName(em.T) + "."
	raceRule(c, "engine-state-confined", em.allRoots(), func(f string) bool {
		return strings.HasPrefix(f, own)
	})
	// the contents of the maps are not handed to anybody else
	for _, r := range em.allRoots() {
		eachEvent(r, func(p *Path, e *Event) {
			for i, t := range e.T {
				if e.Kind == EvMapSet && i == 0 || e.Kind == EvMapDel && i == 0 {
					continue
				}
				if em.isCur(t) || em.isMan(t) || em.isDep(t) {
					c.want("engine-state-confined", r.Loop && e.Kind == EvCall && false, c.M.atE(e, p), "the engine's own map %s is handed to other code", t)
				}
			}
			if e.isSend() && (em.isCur(e.sentVal()) || em.isMan(e.sentVal()) || em.isDep(e.sentVal())) {
				c.fail("engine-state-confined", c.M.atE(e, p), "the engine's own map is sent to another goroutine")
			}
		})
	}
}

// preserved: the update leaves a field as it was.
func (em *engineModel) preserved(p *Path, e *Event, f *FieldRef) bool {
	a, b := em.info(e.T[2], f), em.info(e.Old, f)
	if a == b {
		return true
	}
	if isBool(f.Typ) {
		x, k1 := p.St.eval(a)
		y, k2 := p.St.eval(b)
		return k1 && k2 && x == y
	}
	v, known := p.St.eval(mkEq(a, b))
	return known && v
}

func ruleP18(c *Check) { c.M.engine().ledger(c) }

// ledger checks that the records of manifolds follow the goroutines which run
// their workers, and what these goroutines do. What several properties state
// rests on it: each of them has it checked.
func (em *engineModel) ledger(c *Check) {
	c.rule("busy-means-one-goroutine", 10)
	c.rule("start-recorded", 4)
	c.rule("worker-goroutine-waits", 2)
	c.rule("end-announced-once", 2)
	c.rule("error-reported-as-is", 2)
	c.rule("tickets-name-their-manifold", 2)
	for _, t := range em.tr {
		id := t.id()
		for _, s := range scopes(t) {
			for i, e := range s.Evs {
				switch {
				case e.Kind == EvMapBad && em.isCur(e.T[0]):
					c.fail("busy-means-one-goroutine", s.at(e), "the engine's infos are changed wholesale")
				case e.Kind == EvMapDel && em.isCur(e.T[0]):
					v, known := em.idle(s.P, e.Old)
					c.want("busy-means-one-goroutine", known && v, s.at(e), "the info of a manifold whose worker may be running is removed")
				case e.Kind == EvMapSet && em.isCur(e.T[0]):
					em.checkSet(c, t, s, i, e, id)
				}
			}
		}
	}
	for _, st := range em.starts {
		at := st.S.at(st.E)
		if !c.want("start-recorded", st.Name != nil && st.Fn != nil, at, "the goroutine started for a worker does not announce its end") {
			continue
		}
		set := em.setFor(st)
		ok := set != nil && em.info(set.T[2], em.iStarting) == tTrue
		c.want("start-recorded", ok, at, "a worker is started for a manifold which is not recorded as starting")
		if set != nil {
			v, known := em.idle(st.S.P, set.Old)
			c.want("start-recorded", known && v, at, "a worker is started for a manifold which may have one already")
		}
		// at most one per scope
		n := len(em.startsOf(st.S, st.Name))
		c.want("start-recorded", n == 1, at, "two workers are started for one manifold at once")
	}
	for _, st := range em.bodies() {
		em.workerGoroutine(c, st)
	}
	em.infoStates(c)
	em.infosMatch(c)
}

// infosMatch: manifolds and infos are installed and removed together.
func (em *engineModel) infosMatch(c *Check) {
	c.rule("infos-match-manifolds", 2)
	for _, t := range em.tr {
		es := allEvs(t)
		adds, dels := map[*Term]int{}, map[*Term]int{}
		for _, e := range es {
			switch {
			case e.Kind == EvMapSet && em.isMan(e.T[0]):
				adds[e.T[1]] |= 1
				v, known := t.eval(e.OldHas)
				c.want("infos-match-manifolds", known && !v, t.at(e), "a manifold replaces one that is installed, whose worker may be running")
			case e.Kind == EvMapSet && em.isCur(e.T[0]):
				if v, known := t.eval(e.OldHas); !known || !v {
					if e.T[1] != t.id() || t.Kind == "install" {
						adds[e.T[1]] |= 2
					}
				}
			case e.Kind == EvMapDel && em.isMan(e.T[0]):
				dels[e.T[1]] |= 1
			case e.Kind == EvMapDel && em.isCur(e.T[0]):
				dels[e.T[1]] |= 2
			}
		}
		for k, v := range adds {
			if v&1 != 0 || t.Kind == "install" {
				c.want("infos-match-manifolds", v == 3, t.at(nil), "%s is recorded as a manifold or as a worker, but not as both", k)
			}
		}
		for k, v := range dels {
			c.want("infos-match-manifolds", v == 3, t.at(nil), "%s is removed from the manifolds or from the workers, but not from both", k)
		}
		walkInner(t, func(s *scope, e *Event) {
			if (e.Kind == EvMapSet || e.Kind == EvMapDel) && em.isMan(e.T[0]) || e.Kind == EvMapDel && em.isCur(e.T[0]) {
				c.fail("infos-match-manifolds", s.at(e), "manifolds are changed inside a loop")
			}
		})
	}
}

// walkInner visits the events inside the loops of a transition.
func walkInner(t *Trans, f func(s *scope, e *Event)) {
	for _, s := range scopes(t) {
		if s.Loop == nil {
			continue
		}
		for _, e := range s.Evs {
			f(s, e)
		}
	}
}

// checkSet classifies one update of a worker's info.
func (em *engineModel) checkSet(c *Check, t *Trans, s *scope, i int, e *Event, id *Term) {
	const R = "busy-means-one-goroutine"
	w, st := em.info(e.T[2], em.iWorker), em.info(e.T[2], em.iStarting)
	key := e.T[1]
	// unchanged
	if em.preserved(s.P, e, em.iWorker) && em.preserved(s.P, e, em.iStarting) {
		c.want(R, true, s.at(e), "")
		return
	}
	// set: there is a goroutine for it
	if st == tTrue && em.preserved(s.P, e, em.iWorker) {
		n := len(em.startsOf(s, key))
		c.want(R, n == 1, s.at(e), "a manifold is recorded as starting, but nothing is started for it (%d)", n)
		return
	}
	// still busy: the worker announced by the goroutine
	if t.Kind == "started" && key == id && s.Loop == nil && w == t.worker() {
		c.want(R, st == tFalse, s.at(e), "a worker which has started is still recorded as starting")
		v, known := s.P.St.eval(mkEq(em.info(e.Old, em.iWorker), tNil))
		c.want(R, known && v, s.at(e), "a worker's record is replaced by another's")
		return
	}
	// cleared: the goroutine has announced its end
	if w.isNil() && st == tFalse {
		ok := t.Kind == "stopped" && key == id && s.Loop == nil
		if t.Kind == "install" && s.Loop == nil {
			// nothing was recorded before (manifold not found)
			v, known := em.idle(s.P, e.Old)
			if !known {
				for _, x := range allEvs(t) {
					if x.Kind == EvMapSet && em.isMan(x.T[0]) && x.T[1] == key {
						if h, k := s.P.St.eval(x.OldHas); k && !h {
							v, known = true, true
						}
					}
				}
				if em.manifoldAbsent(s.P, key) {
					v, known = true, true
				}
			}
			ok = known && v
		}
		for _, o := range em.startsOf(s, key) {
			if o.I < i {
				c.fail(R, s.at(e), "a manifold is recorded as idle although a worker has just been started for it")
			}
		}
		c.want(R, ok, s.at(e), "a manifold is recorded as idle although its worker may be running")
		return
	}
	c.fail(R, s.at(e), "a manifold's record is changed to worker=%s starting=%s, which does not follow its worker", w, st)
}

// infoStates checks that the records of workers stay consistent: only a busy
// one can be stopping, and the end of a worker leaves none behind.
func (em *engineModel) infoStates(c *Check) {
	const R, D = "stopping-means-busy", "end-acted-on"
	c.rule(R, 5)
	c.rule(D, 3)
	for _, t := range em.tr {
		for _, s := range scopes(t) {
			for _, e := range em.curSets(s.Evs) {
				v := e.T[2]
				stop := em.info(v, em.iStopping)
				off, k := s.P.St.eval(stop)
				if stop == tFalse || k && !off {
					c.want(R, true, s.at(e), "")
					continue
				}
				same := em.preserved(s.P, e, em.iWorker) && em.preserved(s.P, e, em.iStarting)
				wasIdle, wasKnown := em.idle(s.P, e.Old)
				idle, known := em.idle(s.P, v)
				switch {
				case em.preserved(s.P, e, em.iStopping):
					c.want(R, same || wasKnown && wasIdle || known && !idle, s.at(e), "a manifold without a worker may still be recorded as stopping, so that it will not be started")
				default:
					c.want(R, same && wasKnown && !wasIdle || known && !idle, s.at(e), "a manifold is recorded as stopping (%s) although it may have no worker that could stop", stop)
				}
			}
		}
		if t.Kind != "stopped" {
			continue
		}
		id := t.id()
		var last *Event
		gone := false
		for _, e := range t.top().Evs {
			switch {
			case e.Kind == EvMapSet && em.isCur(e.T[0]) && e.T[1] == id:
				last, gone = e, false
			case e.Kind == EvMapDel && em.isCur(e.T[0]) && e.T[1] == id:
				gone = true
			}
		}
		reset := false
		for _, e := range em.curSets(t.top().Evs) {
			if e.T[1] == id && em.info(e.T[2], em.iWorker).isNil() && em.info(e.T[2], em.iStarting) == tFalse {
				reset = true
			}
		}
		ok := gone
		if last != nil && !gone {
			v, known := em.idle(t.P, last.T[2])
			ok = known && v || reset || len(em.startsOf(t.top(), id)) == 1
		}
		c.want(D, ok, t.at(nil), "a worker has ended, but its manifold is still recorded as having one")
	}
}

// manifoldAbsent: the path knows that no such manifold is installed.
func (em *engineModel) manifoldAbsent(p *Path, key *Term) bool {
	for f, v := range p.Facts {
		if !v && f.k == KHas && em.isMan(f.args[0]) && f.args[1] == key {
			return true
		}
	}
	return false
}

// workerGoroutine checks the paths of the goroutine that runs a worker.
func (em *engineModel) workerGoroutine(c *Check, st *engStart) {
	m := c.M
	announced, body := 0, m.atFn(st.Body.Fn, "start")
	defer func() {
		c.want("end-announced-once", announced > 0, body, "a worker which has started is never announced to the engine")
	}()
	for _, p := range st.Body.Paths {
		if p.Kind != "ret" {
			continue // the start function panicked: the process ends
		}
		at := m.atP(st.Body.Fn, p)
		var calls, waits, ends []int
		sent := 0
		var w, err *Term
		for i, e := range p.Events {
			if e.Loop != nil {
				walk(e.Loop.allEvents(), func(x *Event) {
					if isStartCall(x) || isMethodCall(x, "Wait", nil) || x.mentionsSend(em.stoppedc) {
						c.fail("worker-goroutine-waits", m.atE(x, p), "a worker is handled in a loop")
					}
				})
			}
			if isStartCall(e) {
				calls = append(calls, i)
				w, err = e.results()
			}
			if isMethodCall(e, "Wait", nil) {
				waits = append(waits, i)
			}
			if e.mentionsSend(em.stoppedc) {
				ends = append(ends, i)
			}
			if e.isSend() && e.sentOn().isField(em.stoppedc) {
				sent++
			}
			if e.isSend() && (e.sentOn().isField(em.stoppedc) || e.sentOn().isField(em.startedc)) {
				c.want("tickets-name-their-manifold", part(e.sentVal(), isString) == st.Name, m.atE(e, p), "a worker's goroutine announces something for another manifold")
			}
			if e.isSend() && e.sentOn().isField(em.stoppedc) && len(calls) == 1 {
				em.ownError(c, p, e, w, err, len(waits) > 0)
			}
			if e.isSend() && e.sentOn().isField(em.startedc) {
				announced++
				c.want("tickets-name-their-manifold", w != nil && part(e.sentVal(), isWorkerType) == w, m.atE(e, p), "the worker announced is not the one which was started")
			}
		}
		if len(calls) > 1 {
			c.fail("worker-goroutine-waits", at, "a worker's start function is called twice by one goroutine")
		}
		started := len(calls) == 1
		if started {
			if v, known := p.St.eval(mkEq(err, tNil)); known && !v {
				started = false
			}
		}
		if started {
			self, known := em.isSelf(p, w)
			if known && self {
				c.want("worker-goroutine-waits", len(waits) == 0, at, "the engine waits for itself")
			} else {
				ok := len(waits) == 1 && isMethodCall(p.Events[waits[0]], "Wait", w) && (len(ends) == 0 || waits[0] < ends[0])
				c.want("worker-goroutine-waits", ok, at, "a worker which has started is not waited for before its end is announced")
			}
		}
		if len(calls) == 1 {
			// the function started is the one installed under the name
			f := p.Events[calls[0]].T[0]
			c.want("tickets-name-their-manifold", em.startOf(f, st.Name), m.atE(p.Events[calls[0]], p), "the function called to start %s is not the one installed under this name: %s", st.Name, f)
		}
		dead := false
		for _, e := range p.Events {
			if e.isRecv() && e.recvOn().k == KCall && e.recvOn().op == "tomb.Dead" && em.isTomb(e.recvOn().args[0]) {
				dead = true
			}
		}
		c.want("end-announced-once", len(ends) <= 1 && (sent == 1 || dead), at, "the end of a worker is announced %d times on a path", sent)
		if len(ends) > 0 {
			for _, e := range p.Events[ends[0]+1:] {
				c.want("end-announced-once", !isStartCall(e) && e.Method != "Wait" && !e.mentionsSend(em.startedc), m.atE(e, p), "a worker is used after its end has been announced")
			}
		}
	}
}

// ownError: the end of a worker is announced with the very error its start
// function or its Wait returned.
func (em *engineModel) ownError(c *Check, p *Path, e *Event, w, err *Term, waited bool) {
	got := part(e.sentVal(), isErrorType)
	same := func(want *Term) bool { return want != nil && knownEqual(p, got, want) }
	if waited {
		for _, x := range p.Events {
			if isMethodCall(x, "Wait", w) {
				c.want("error-reported-as-is", got != nil && same(x.Res), c.M.atE(e, p), "the end of a worker is announced with %s instead of with the error its Wait returned", got)
			}
		}
		return
	}
	if self, known := em.isSelf(p, w); known && self {
		if v, known := p.St.eval(mkEq(err, tNil)); known && v {
			return // the engine itself does not end by itself
		}
	}
	// A start given up before the delay is over is told apart by an error
	// which only the engine itself knows.
	ok := got != nil && same(err)
	if a := em.abortErr(); !ok && a != nil && got != nil && same(a) {
		v, known := p.St.eval(mk(KCall, "errors.Is", 0, nil, boolT, err, a))
		ok = known && v
	}
	c.want("error-reported-as-is", ok, c.M.atE(e, p), "the end of a start is announced with %s instead of with the error the start function returned", got)
}

// startOf: the term is the Start function of the manifold installed as name.
func (em *engineModel) startOf(f, name *Term) bool {
	b, o, n, ok := f.field()
	if !ok || n != "Start" || o != typeObj(em.manT) {
		return false
	}
	return em.manifoldOf(b, name)
}

// manifoldOf: the term is the manifold installed under the name (or the one
// being installed).
func (em *engineModel) manifoldOf(b, name *Term) bool {
	if b.k == KLookup && em.isMan(b.args[0]) && b.args[1] == name {
		return true
	}
	// the manifold of the install request of that name
	x, _, _, ok := b.field()
	y, _, _, ok2 := name.field()
	return ok && ok2 && x == y && b.typ != nil && types.Identical(b.typ, em.manT) && x.k == KRes
}

func (li *LoopInfo) allEvents() []*Event {
	var out []*Event
	for _, it := range li.Iters {
		out = append(out, it.Events...)
	}
	return out
}

// mentionsSend: the event sends, or offers to send, on the channel.
func (e *Event) mentionsSend(f *FieldRef) bool {
	if e.Kind == EvSend {
		return e.T[0].isField(f)
	}
	if e.Kind != EvSelect {
		return false
	}
	for _, cs := range e.Cases {
		if cs.Send && cs.Ch.isField(f) {
			return true
		}
	}
	return false
}

// results are the worker and the error a start function returned.
func (e *Event) results() (w, err *Term) {
	if e.Res == nil {
		return nil, nil
	}
	if e.Res.k == KTuple && len(e.Res.args) == 2 {
		return e.Res.args[0], e.Res.args[1]
	}
	return nil, nil
}

// P19 -------------------------------------------------------------------------

// stops checks that one way of handling an entry asks it to stop if it is busy
// and has not been asked yet.
func (em *engineModel) stops(c *Check, R string, s *scope, key, v *Term) {
	p := s.P
	if b, known := p.St.eval(em.info(v, em.iStopping)); known && b {
		c.want(R, true, s.at(nil), "")
		return
	}
	if b, known := em.idle(p, v); known && b {
		c.want(R, true, s.at(nil), "")
		return
	}
	var set *Event
	for _, e := range em.curSets(s.Evs) {
		if e.T[1] == key {
			set = e
		}
	}
	if !c.want(R, set != nil && em.info(set.T[2], em.iStopping) == tTrue, s.at(nil), "a busy worker that must stop is not recorded as stopping") {
		return
	}
	if em.iCancel != nil {
		cn := em.info(v, em.iCancel)
		if b, known := p.St.eval(mkEq(cn, tNil)); !known || !b {
			c.want(R, callsFn(s.Evs, cn), s.at(set), "the context of a worker that must stop is not cancelled, so that a pending start goes on")
		}
	}
	w := em.info(v, em.iWorker)
	if b, known := p.St.eval(mkEq(w, tNil)); !known || !b {
		c.want(R, len(methodCalls(s.Evs, "Kill", w)) > 0, s.at(set), "a running worker that must stop is not killed")
	}
}

// callsFn: the events include a call of the function value.
func callsFn(es []*Event, f *Term) bool {
	for _, e := range es {
		if e.Kind == EvCall && e.Name == "dyn" && e.T[0] == f {
			return true
		}
	}
	return false
}

// curLoop: the event is a loop over all infos; it gives the generic key.
func (em *engineModel) curLoop(e *Event) *Term {
	if e.Loop == nil {
		return nil
	}
	li := e.Loop
	switch li.Kind {
	case "map":
		if em.isCur(li.Container) || em.isMan(li.Container) {
			return li.Key
		}
	case "slice":
		c := li.Container
		if c.k == KCollect && (em.isCur(c.args[2]) || em.isMan(c.args[2])) && len(c.sub) == 0 && li.Elem != nil && li.Elem.k == KKey {
			return li.Elem
		}
	}
	return nil
}

func ruleP19(c *Check) {
	em := c.M.engine()
	m := c.M
	c.rule("dying-stops-all", 3)
	c.rule("dying-not-missed", 3)
	c.rule("no-start-once-dying", 3)
	c.rule("late-worker-killed", 3)
	c.rule("exit-only-when-stopped", 2)
	c.rule("exit-when-stopped", 2)
	em.ledger(c)
	em.deaths(c)
	for _, t := range em.kind("dying") {
		es := allEvs(t)
		n := 0
		for i, e := range es {
			k := em.curLoop(e)
			if k == nil || !e.Exh {
				continue
			}
			sets := false
			for _, it := range e.Loop.Iters {
				if len(em.curSets(it.Events)) > 0 {
					sets = true
				}
			}
			if !sets {
				continue
			}
			n++
			outer := &scope{T: t, P: t.P, Evs: es}
			for _, it := range e.Loop.Iters {
				s := &scope{T: t, P: it, Evs: it.Events, Loop: e, Outer: outer, Idx: i}
				em.stops(c, "dying-stops-all", s, k, em.infoAt(e.Loop.Start, k))
			}
		}
		c.want("dying-stops-all", n == 1, t.at(nil), "not every worker is asked to stop when the engine is dying")
	}
	// the dying event is looked at until it has been handled
	for _, t := range em.tr {
		if t.Sel == nil {
			continue
		}
		has := false
		if t.Sel.Kind == EvSelect {
			for _, cs := range t.Sel.Cases {
				if !cs.Send && em.chanKind(cs.Ch) == "dying" {
					has = true
				}
			}
		}
		nilPhi := false
		for phi, v := range t.P.In {
			if chanElem(phi.Type()) == nil {
				continue
			}
			if v.isNil() {
				nilPhi = true
			} else if o := t.P.Out[phi]; o != nil && o.isNil() {
				c.want("dying-not-missed", t.Kind == "dying", t.at(nil), "the engine stops looking for its own death although it has not handled it")
			}
		}
		if t.Exit {
			continue
		}
		c.want("dying-not-missed", has || nilPhi, t.at(nil), "the engine waits for messages without looking whether it is dying")
	}
	for _, st := range em.starts {
		ok := st.S.before(st.I, func(e *Event) bool { return e.Kind == EvNotDie && em.isTomb(e.T[0]) })
		c.want("no-start-once-dying", ok, st.S.at(st.E), "a worker is started without looking whether the engine is dying, after all others may have been stopped")
	}
	for _, t := range em.kind("started") {
		w := t.worker()
		var set *Event
		at := -1
		es := allEvs(t)
		for i, e := range es {
			if e.Kind == EvMapSet && em.isCur(e.T[0]) && em.info(e.T[2], em.iWorker) == w {
				set, at = e, i
			}
		}
		killed := len(methodCalls(es, "Kill", w)) > 0
		if set == nil {
			c.want("late-worker-killed", killed, t.at(nil), "a worker which has started is neither recorded nor killed")
			continue
		}
		b, known := t.eval(em.info(set.Old, em.iStopping))
		c.want("late-worker-killed", known && !b || killed, t.at(set), "a worker which has started although it had been asked to stop is not killed")
		nd := false
		for _, e := range es[:at] {
			if e.Kind == EvNotDie && em.isTomb(e.T[0]) {
				nd = true
			}
		}
		c.want("late-worker-killed", nd || killed, t.at(set), "a worker which has started while the engine is dying is recorded as running and not killed")
	}
	for _, st := range em.bodies() {
		for _, p := range st.Body.Paths {
			if p.Kind != "ret" {
				continue
			}
			for i, e := range p.Events {
				if !isStartCall(e) {
					continue
				}
				w, err := e.results()
				if v, known := p.St.eval(mkEq(err, tNil)); known && !v {
					continue
				}
				ok := false
				for _, x := range p.Events[i+1:] {
					if isMethodCall(x, "Wait", w) && !ok {
						break
					}
					if x.isSend() && x.sentOn().isField(em.startedc) || isMethodCall(x, "Kill", w) {
						ok = true
					}
				}
				c.want("late-worker-killed", ok, m.atP(st.Body.Fn, p), "a worker which has started is neither announced nor killed before it is waited for")
			}
			// an escape from announcing only when dying
			for _, e := range p.Events {
				if e.mentionsSend(em.startedc) && !e.isSend() {
					c.want("late-worker-killed", e.isRecv() && em.chanKind(e.recvOn()) == "dying", m.atE(e, p), "a started worker is not announced although the engine is not dying")
				}
			}
		}
	}
	for _, t := range em.tr {
		es := allEvs(t)
		last := -1
		for i, e := range es {
			if em.changes(e) {
				last = i
			}
		}
		if t.Exit {
			c.want("exit-only-when-stopped", em.dyingSeen(t.P), t.at(nil), "the engine ends although it is not dying")
			ok := false
			for i, e := range es {
				k := em.curLoop(e)
				if k == nil || !e.Exh || i < last {
					continue
				}
				good := true
				may, _ := exitIters(e)
				for _, it := range may {
					v := em.infoAt(e.Loop.Start, k)
					idle, known := em.idle(it, v)
					self, ks := em.isSelf(it, em.info(v, em.iWorker))
					if !(known && idle || ks && self) {
						good = false
					}
				}
				ok = ok || good
			}
			c.want("exit-only-when-stopped", ok, t.at(nil), "the engine ends although a worker may still be running")
			c.want("exit-only-when-stopped", t.Res == nil || t.Res.isNil() || sameErr(t.Res, m.extErr("gopkg.in/tomb.v2", "ErrDying")), t.at(nil), "the engine's loop ends with an error of its own, %s", t.Res)
			continue
		}
		if t.Kind == "none" {
			continue
		}
		ok := false
		for i, e := range es {
			if i <= last {
				continue
			}
			if e.Kind == EvNotDie && em.isTomb(e.T[0]) {
				ok = true
			}
			k := em.curLoop(e)
			if k == nil {
				continue
			}
			v := em.infoAt(e.Loop.Start, k)
			running := func(p *Path) bool {
				idle, known := em.idle(p, v)
				self, ks := em.isSelf(p, em.info(v, em.iWorker))
				return known && !idle && (ks && !self || !ks && p.implies(mkEq(em.info(v, em.iWorker), tNil), true))
			}
			if !e.Exh {
				ok = ok || running(t.P)
				continue
			}
			_, last := exitIters(e)
			all := len(last) > 0
			for _, it := range last {
				all = all && running(it)
			}
			ok = ok || all
		}
		c.want("exit-when-stopped", ok, t.at(nil), "the engine waits for more messages without having checked that it is not dying or that some worker is still running")
	}
}

// changes: the event alters what is running.
func (em *engineModel) changes(e *Event) bool {
	f := false
	walk([]*Event{e}, func(x *Event) {
		switch {
		case (x.Kind == EvMapSet || x.Kind == EvMapDel) && em.isCur(x.T[0]):
			f = true
		case x.Kind == EvKill && em.isTomb(x.T[0]):
			f = true
		case x.Kind == EvGo:
			f = true
		}
	})
	return f
}

// P20 -------------------------------------------------------------------------

func mulInf(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}

// bases names the configured delays a term is made of.
func (em *engineModel) bases(t *Term) []string {
	var out []string
	for _, n := range []string{"ErrorDelay", "BounceDelay"} {
		if t.contains(func(x *Term) bool { return em.isCfg(x, n) }) {
			out = append(out, n)
		}
	}
	return out
}

// startsOf lists the workers started in the scope for the name.
func (em *engineModel) startsOf(s *scope, name *Term) []*engStart {
	var out []*engStart
	for _, st := range em.byScope[s] {
		if st.Name == name {
			out = append(out, st)
		}
	}
	return out
}

// whichever is the base of a delay on a path whose conditions on the delays
// contradict each other.
const whichever = "whichever"

// delayBase says which of the configured delays a start is delayed by.
func (em *engineModel) delayBase(st *engStart) string {
	if len(st.Dly) != 1 {
		return "?"
	}
	bs := em.bases(st.Dly[0])
	switch {
	case len(bs) == 1:
		return bs[0]
	case len(bs) == 0 && st.Dly[0].isConst("0"):
		return "0"
	case len(bs) == 0 && em.iErrors != nil:
		// The maximum, say: the conditions tell of what.
		for _, n := range []string{"ErrorDelay", "BounceDelay"} {
			wrong, possible := em.delayWrong(st, n)
			if !possible {
				return whichever
			}
			if len(wrong) == 0 {
				bs = append(bs, n)
			}
		}
		switch len(bs) {
		case 1:
			return bs[0]
		case 2:
			return whichever
		}
	}
	return "?"
}

// filtered finds the error after the manifold's filter.
func (em *engineModel) filtered(t *Trans) (x *Term, ok bool) {
	x, ok = t.err(), false
	for _, e := range t.Evs {
		if e.Kind == EvCall && e.Name == "dyn" && len(e.T) == 2 {
			b, o, n, is := e.T[0].field()
			if is && n == "Filter" && o == typeObj(em.manT) {
				if !em.manifoldOf(b, t.id()) || e.T[1] != t.err() {
					return x, false
				}
				return e.Res, true
			}
		}
	}
	// no filter
	for f, v := range t.P.Facts {
		if v && f.k == KOp && f.op == "==" && f.args[1].isNil() {
			b, o, n, is := f.args[0].field()
			if is && n == "Filter" && o == typeObj(em.manT) && em.manifoldOf(b, t.id()) {
				return x, true
			}
		}
	}
	return x, false
}

// abortErr is the error a goroutine announces when it has not called the start
// function.
func (em *engineModel) abortErr() *Term {
	if em.aborted != nil {
		return em.aborted
	}
	for _, st := range em.bodies() {
		for _, p := range st.Body.Paths {
			if p.Kind != "ret" {
				continue
			}
			called := false
			for _, e := range p.Events {
				called = called || isStartCall(e)
				if e.isSend() && e.sentOn().isField(em.stoppedc) && !called {
					em.aborted = part(e.sentVal(), isErrorType)
				}
			}
		}
	}
	return em.aborted
}

type engWorld struct {
	name string
	lits []Fact
}

// errWorlds are the classes of errors the policy tells apart.
func (em *engineModel) errWorlds(x *Term) []engWorld {
	m := em.m
	type cls struct {
		n string
		t *Term
	}
	cs := []cls{{"aborted", em.abortErr()}, {"ErrMissing", m.errGlobal(pkgDep, "ErrMissing")}, {"ErrBounce", m.errGlobal(pkgDep, "ErrBounce")}, {"ErrUninstall", m.errGlobal(pkgDep, "ErrUninstall")}}
	out := []engWorld{{"nil", []Fact{lit(mkEq(x, tNil), true)}}}
	mkw := func(name, yes string) {
		w := engWorld{name: name, lits: []Fact{lit(mkEq(x, tNil), false)}}
		for _, k := range cs {
			if k.t == nil {
				continue
			}
			is := m.ip.errorsIs(x, k.t)
			w.lits = append(w.lits, lit(is, k.n == yes))
			if k.n != yes {
				w.lits = append(w.lits, lit(mkEq(x, k.t), false))
			}
		}
		out = append(out, w)
	}
	for _, k := range cs {
		mkw(k.n, k.n)
	}
	mkw("other", "")
	return out
}

func ruleP20(c *Check) {
	em := c.M.engine()
	em.ledger(c)
	em.startTimes(c)
	m := c.M
	c.rule("filter-applied-first", 2)
	c.rule("restart-policy", 20)
	c.rule("error-announced", 3)
	c.rule("delay-is-as-configured", 4)
	c.rule("delay-waited-for", 2)
	c.rule("error-count", 4)
	em.errorsKept(c)
	seen := map[string]bool{}
	for _, t := range em.kind("stopped") {
		id := t.id()
		x, ok := em.filtered(t)
		if !c.want("filter-applied-first", ok, t.at(nil), "the manifold's filter is not applied to the error of its worker, or to something else") {
			continue
		}
		was := em.was(id)
		top := t.top()
		dying := em.dyingSeen(t.P)
		sts := em.startsOf(top, id)
		var del *Event
		for _, e := range top.Evs {
			if e.Kind == EvMapDel && em.isMan(e.T[0]) {
				del = e
			}
		}
		if del != nil {
			c.want("restart-policy", del.T[1] == id, t.at(del), "another manifold is uninstalled than the one whose worker asked for it")
		}
		stop := em.info(was, em.iStopping)
		for _, stopping := range []bool{true, false} {
			for _, w := range em.errWorlds(x) {
				lits := append(append([]Fact(nil), w.lits...), lit(stop, stopping))
				if !t.P.allows(lits...) {
					continue
				}
				nm := w.name
				if stopping {
					nm = "asked to stop, " + nm
				}
				seen[nm] = true
				if dying && len(sts) == 0 && del == nil {
					c.want("restart-policy", true, t.at(nil), "")
					continue
				}
				want := ""
				switch {
				case stopping:
					want = "BounceDelay"
				case w.name == "ErrBounce":
					want = "BounceDelay"
				case w.name == "other":
					want = "ErrorDelay"
				}
				if want == "" {
					c.want("restart-policy", len(sts) == 0, t.at(nil), "a worker is restarted although it must not be (%s)", nm)
				} else if c.want("restart-policy", len(sts) == 1, t.at(nil), "a worker is started %d times although it must be restarted (%s)", len(sts), nm) {
					got := em.delayBase(sts[0])
					c.want("restart-policy", got == want || got == whichever, top.at(sts[0].E), "a worker is restarted after %s instead of %s (%s)", got, want, nm)
				}
				un := !stopping && w.name == "ErrUninstall"
				c.want("restart-policy", (del != nil) == un, t.at(nil), "the manifold is uninstalled: %v, expected %v (%s)", del != nil, un, nm)
			}
		}
		em.errorCount(c, t, was)
	}
	for _, stopping := range []string{"", "asked to stop, "} {
		for _, w := range []string{"nil", "aborted", "ErrMissing", "ErrBounce", "ErrUninstall", "other"} {
			c.want("restart-policy", seen[stopping+w], m.atS(w), "no path handles %s%s", stopping, w)
		}
	}
	// what the goroutine announces is what happened
	for _, st := range em.bodies() {
		for _, p := range st.Body.Paths {
			if p.Kind != "ret" {
				continue
			}
			var w, err, wres *Term
			for _, e := range p.Events {
				if isStartCall(e) {
					w, err = e.results()
				}
				if w != nil && isMethodCall(e, "Wait", w) {
					wres = e.Res
				}
				if !e.isSend() || !e.sentOn().isField(em.stoppedc) {
					continue
				}
				x := part(e.sentVal(), isErrorType)
				switch {
				case w == nil:
					c.want("error-announced", x == em.abortErr() && !x.isNil(), m.atE(e, p), "a start which has been given up is announced with %s", x)
				case wres != nil:
					c.want("error-announced", knownEqual(p, x, wres), m.atE(e, p), "the error announced is not the one the worker returned: %s", x)
				default:
					if self, known := em.isSelf(p, w); known && self {
						c.want("error-announced", sameErr(x, m.extErr("gopkg.in/tomb.v2", "ErrDying")) || x.isNil(), m.atE(e, p), "")
						continue
					}
					ab, known := p.St.eval(m.ip.errorsIs(err, em.abortErr()))
					ok := knownEqual(p, x, err) || known && ab && x == em.abortErr()
					for isErrWrap(x) {
						x = x.args[0]
						ok = ok || x == err
					}
					c.want("error-announced", ok, m.atE(e, p), "the error announced is not the one the start function returned: %s", x)
				}
			}
		}
	}
	// delays
	for _, st := range em.starts {
		at := st.S.at(st.E)
		if !c.want("delay-is-as-configured", len(st.Dly) == 1, at, "a worker's start is not delayed by the engine's clock") {
			continue
		}
		base := em.delayBase(st)
		if !c.want("delay-is-as-configured", base != "?", at, "the delay of a start is %s", st.Dly[0]) {
			continue
		}
		if base == "0" {
			c.want("delay-is-as-configured", st.S.T.Kind == "install", at, "a worker is started without delay")
			continue
		}
		if em.iErrors == nil {
			continue // reported below
		}
		if base == whichever {
			continue
		}
		wrong, _ := em.delayWrong(st, base)
		for _, why := range wrong {
			c.fail("delay-is-as-configured", at, "%s (%s)", why, base)
		}
		c.want("delay-is-as-configured", true, at, "")
	}
	for _, st := range em.bodies() {
		n := 0
		for _, p := range st.Body.Paths {
			if p.Kind != "ret" {
				continue
			}
			called := false
			for i, e := range p.Events {
				if e.isRecv() && !isAfter(e.recvOn()) {
					called = true // told not to
				}
				if !isStartCall(e) {
					continue
				}
				called = true
				n++
				var after *Term
				ok := false
				for _, x := range p.Events[:i] {
					if x.Kind == EvCall && x.Method == "After" {
						after = x.Res
					}
					if x.isRecv() && after != nil && x.recvOn() == after {
						ok = true
					}
				}
				c.want("delay-waited-for", ok, m.atE(e, p), "a worker is started without waiting for its delay")
			}
			c.want("delay-waited-for", called, m.atP(st.Body.Fn, p), "a worker is not started although its delay is over and nothing has asked it to stop")
		}
		c.want("delay-waited-for", n > 0, m.atFn(st.Body.Fn, "start"), "a worker is never started")
	}
}

// isAfter: the channel of a timer.
func isAfter(ch *Term) bool {
	return (ch.k == KRes || ch.k == KCall) && strings.HasSuffix(strings.TrimSuffix(ch.op, "/0"), "After")
}

// errorsKept checks that the number of recent errors changes only when a
// worker has ended.
func (em *engineModel) errorsKept(c *Check) {
	f := em.iErrors
	if f == nil {
		return
	}
	for _, t := range em.tr {
		first := t.Kind == "stopped"
		for _, s := range scopes(t) {
			for _, e := range em.curSets(s.Evs) {
				if first && s.Loop == nil && e.T[1] == t.id() {
					first = false
					continue
				}
				fresh := false
				if h, k := s.P.St.eval(e.OldHas); k && !h || em.manifoldAbsent(s.P, e.T[1]) {
					fresh = true
				}
				for _, x := range allEvs(t) {
					if x.Kind == EvMapSet && em.isMan(x.T[0]) && x.T[1] == e.T[1] {
						if h, k := s.P.St.eval(x.OldHas); k && !h {
							fresh = true
						}
					}
				}
				v := em.info(e.T[2], f)
				c.want("error-count", em.preserved(s.P, e, f) || fresh && v == zeroTerm(f.Typ), s.at(e), "the number of recent errors becomes %s although no worker has ended", v)
			}
		}
	}
}

// errorCount checks how the number of recent errors is kept.
func (em *engineModel) errorCount(c *Check, t *Trans, was *Term) {
	if em.iErrors == nil {
		c.fail("error-count", t.at(nil), "no count of recent errors is kept, so that delays do not grow")
		return
	}
	id := t.id()
	var set *Event
	for _, e := range em.curSets(t.Evs) {
		if e.T[1] == id && set == nil {
			set = e
		}
	}
	if set == nil {
		return
	}
	v, old := em.info(set.T[2], em.iErrors), em.info(was, em.iErrors)
	fresh := v.isConst("0") || v.isConst("1")
	incr := isIncr(v, old)
	raw := t.err()
	for _, w := range em.errWorlds(raw) {
		if !t.P.allows(w.lits...) {
			continue
		}
		switch w.name {
		case "nil", "aborted", "ErrMissing":
			c.want("error-count", fresh, t.at(set), "the number of recent errors is %s after a worker ended with %s", v, w.name)
		default:
			zero, less, kz, kl := em.ranShort(t.P, was)
			switch {
			case incr:
				c.want("error-count", kz && zero || kl && less, t.at(set), "the number of recent errors goes up although the worker ran for longer than BackoffResetTime")
			case fresh && !v.isConst("0"):
				c.want("error-count", kz && !zero && kl && !less, t.at(set), "the number of recent errors is reset although the worker failed before it ran for BackoffResetTime")
			default:
				c.fail("error-count", t.at(set), "the number of recent errors becomes %s when a worker has failed", v)
			}
		}
	}
}

// ranShort: whether the worker never started, or ran for less than the
// BackoffResetTime.
func (em *engineModel) ranShort(p *Path, was *Term) (zero, less, kz, kl bool) {
	zoned := func(x *Term) *Term {
		for x.k == KCall && (x.op == "(time.Time).UTC" || x.op == "(time.Time).Local") && len(x.args) == 1 {
			x = x.args[0]
		}
		return x
	}
	started := zoned(em.info(was, em.iTime))
	isStarted := func(x *Term) bool { return zoned(x) == started }
	isNow := func(x *Term) bool {
		x = zoned(x)
		return x.k == KRes && x.typ != nil && typeIs("time", "Time")(x.typ) && x.contains(func(y *Term) bool { return em.isCfg(y, "Clock") })
	}
	isReset := func(x *Term) bool { return em.isCfg(x, "BackoffResetTime") }
	isRan := func(x *Term) bool {
		return x.k == KCall && x.op == "(time.Time).Sub" && len(x.args) == 2 && isNow(x.args[0]) && isStarted(x.args[1])
	}
	isEnd := func(x *Term) bool {
		x = zoned(x)
		return x.k == KCall && x.op == "(time.Time).Add" && len(x.args) == 2 && isStarted(x.args[0]) && isReset(x.args[1])
	}
	for f, v := range p.Facts {
		switch {
		case f.k == KOp && f.op == "<" && isRan(f.args[0]) && isReset(f.args[1]):
			less, kl = v, true
		case f.k == KOp && f.op == "<" && isReset(f.args[0]) && isRan(f.args[1]):
			if v {
				less, kl = false, true
			}
		case f.k == KCall && (f.op == "(time.Time).Before" || f.op == "(time.Time).After") && len(f.args) == 2:
			a, b := f.args[0], f.args[1]
			if f.op == "(time.Time).After" {
				a, b = b, a
			}
			switch {
			case isNow(a) && isEnd(b):
				less, kl = v, true
			case isEnd(a) && isNow(b) && v:
				less, kl = false, true
			}
		case f.op == "(time.Time).IsZero" && len(f.args) == 1 && isStarted(f.args[0]):
			zero, kz = v, true
		}
	}
	return
}
