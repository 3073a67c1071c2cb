package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P12", "Runner: no data races and no deadlock on its lock",
		"lockset analysis over every entry point and goroutine: any two accesses to a mutable field of the runner or of an entry that can run concurrently, one of them a write, hold a common lock or are confined to the event loop; every path releases what it locks, takes no lock twice and does not block while holding one",
		ruleP12)
	register("P13", "Runner: Worker hands out only live workers and misses no change",
		"path rules: every transition that changes the set of entries or an entry's worker broadcasts afterwards; an entry's worker is nil once killed or finished; waiting re-reads the state under the lock; every result of Worker matches the state that justifies it",
		ruleP13)
	register("P14", "Runner: no API call can hang",
		"inventory of every blocking operation in every exported method, its goroutines and the event loop: each has an alternative that the runner's death (or the entry's removal) enables, or is a reply the event loop provably sends, or goes to a channel with room",
		ruleP14)
	register("P15", "Runner: StartWorker and StopAndRemoveWorker take effect before returning",
		"transition and path rules: the reply to a start request is sent exactly once, after the entry is installed; an existing id is rejected with AlreadyExists and nothing changes; StopAndRemoveWorker reports the worker's own error only after the stop request was accepted and the entry was removed",
		ruleP15)
	register("P16", "Runner: reports and names cover exactly the known workers",
		"the loops of Report and WorkerNames range over the whole entry map under the lock, put one element per entry, and each reported value is compared with the state that justifies it",
		ruleP16)
}

func (rm *runnerModel) isMu(l *Term) bool { return tombOf(lockOf(l), rm.mu) }

func (rm *runnerModel) isCond(t *Term) bool {
	return rm.cond != nil && (tombOf(t, rm.cond) || t.isField(rm.cond))
}

// locking: the runner's lock is released on every path, never taken twice,
// and nobody waits for anything else while it is held.
func (rm *runnerModel) locking(c *Check) {
	c.rule("runner-lock-released", 5)
	c.rule("runner-lock-not-reentered", 3)
	c.rule("runner-lock-no-blocking", 1)
	lockRule(c, "runner-lock", rm.allRoots(), rm.isMu, func(r *Root, p *Path, e *Event) bool { return bufferedOnce(p, e) })
}

func ruleP12(c *Check) {
	rm := c.M.runner()
	roots := rm.allRoots()
	c.rule("no-data-race", 4)
	rt, et := typeKeyName(rm.T), typeKeyName(rm.entryT)
	raceRule(c, "no-data-race", roots, func(f string) bool {
		f = strings.TrimSuffix(strings.TrimSuffix(f, "@atomic"), "[]")
		o := fieldOwner(f)
		return (o == rt || o == et) && f != rt+"."+rm.tomb.Name && f != rt+"."+rm.mu.Name
	})
	rm.locking(c)
	// the cond uses the runner's lock
	if rm.cond != nil {
		for _, r := range roots {
			eachEvent(r, func(p *Path, e *Event) {
				if e.Kind == EvCondW {
					held := false
					for _, l := range e.Locks {
						held = held || rm.isMu(l)
					}
					c.want("runner-lock-no-blocking", held, c.M.atE(e, p), "waiting for a change without holding the lock")
				}
			})
		}
		for _, g := range c.M.gos(rm.ctor) {
			if c.M.body(rm.ctor, g) != rm.loop {
				continue
			}
			ok := false
			for a, v := range g.Go.St.mem {
				if a.k == KFldA && a.op == "L" && tombOf(a.args[0], rm.cond) {
					x := v
					if x.k == KMkI {
						x = x.args[0]
					}
					ok = rm.isMu(x)
				}
				if tombOf(a, rm.cond) && v.contains(func(x *Term) bool { return rm.isMu(x) }) {
					ok = true
				}
			}
			c.want("runner-lock-no-blocking", ok, c.M.atE(g, nil), "the condition variable is not tied to the runner's lock before the event loop starts")
		}
	}
}

// modifies: the event changes what Worker can see.
func (rm *runnerModel) modifies(e *Event) bool {
	mod := false
	walk([]*Event{e}, func(x *Event) {
		switch x.Kind {
		case EvMapSet, EvMapDel:
			mod = mod || rm.isWorkersMap(x.T[0])
		case EvStore:
			a := x.T[0]
			if a.k == KFldA && a.obj == rm.eWorker.Obj && a.op == rm.eWorker.Name && !(a.args[0].k == KAlloc) {
				mod = true
			}
		}
	})
	return mod
}

func ruleP13(c *Check) {
	rm := c.M.runner()
	m := c.M
	c.rule("change-broadcast", 4)
	c.rule("dead-worker-not-kept", 3)
	c.rule("started-worker-recorded", 1)
	c.rule("worker-result", 5)
	c.rule("waiter-rechecks", 1)
	rm.everyWorkerGoroutine(c)
	if rm.cond == nil {
		c.fail("change-broadcast", m.atS("cond"), "no condition variable tells waiting callers of changes")
		return
	}
	ms := rm.marks(c)
	for _, t := range rm.tr {
		if t.Exit {
			continue
		}
		last, bc := -1, -1
		es := allEvs(t)
		for i, e := range es {
			if rm.modifies(e) {
				last = i
			}
			if e.Kind == EvBcast && strings.HasSuffix(e.Name, "Broadcast") && rm.isCond(e.T[0]) {
				bc = i
			}
		}
		if last >= 0 {
			c.want("change-broadcast", bc > last, t.at(es[last]), "a change made by a %q event is not announced, so callers waiting for the worker can wait forever", t.Kind)
		}
		// worker field of the entry concerned
		if id := t.id(); id != nil {
			e := rm.entry(rm.li.Start, id)
			w1 := rm.entryField(t.P.St, e, rm.eWorker)
			switch t.Kind {
			case "done":
				if len(rm.launchesOf(t)) > 0 {
					c.want("dead-worker-not-kept", w1.isNil() || t.implies(mkEq(w1, tNil), true), t.at(nil), "the worker which has just finished is still handed out while its replacement is pending")
				}
			case "start":
				for _, i := range rm.inserts(es) {
					c.want("dead-worker-not-kept", rm.entryField(t.P.St, i.T[2], rm.eWorker).isNil(), t.at(i), "a worker is handed out before it has been started")
				}
			case "stop":
				if !t.implies(mkEq(e, tNil), true) {
					c.want("dead-worker-not-kept", w1.isNil() || t.implies(mkEq(w1, tNil), true), t.at(nil), "a worker which has been told to stop is still handed out")
				}
			case "started":
				killed := len(methodCalls(t.Evs, "Kill", t.worker())) > 0
				stored := false
				walk(t.Evs, func(x *Event) {
					if x.Kind == EvStore && x.T[0].k == KFldA && x.T[0].obj == rm.eWorker.Obj && x.T[0].op == rm.eWorker.Name {
						stored = true
					}
				})
				if killed && !stored {
					// nothing was handed out while it was starting (see
					// the other cases), nor is now
					c.want("dead-worker-not-kept", true, t.at(nil), "")
				} else if killed {
					c.want("dead-worker-not-kept", w1.isNil() || t.implies(mkEq(w1, tNil), true), t.at(nil), "a worker killed as it started is still handed out")
				} else if t.P.allows(lit(mkEq(t.worker(), tNil), false)) {
					c.want("started-worker-recorded", w1 == t.worker(), t.at(nil), "a worker which has started is not made available")
				}
			}
		}
		for _, e := range es {
			g := rm.entryLoop(e)
			if g == nil || !rm.killLoop(e) {
				continue
			}
			for _, it := range e.Loop.Iters {
				w1 := rm.entryField(it.St, g, rm.eWorker)
				c.want("dead-worker-not-kept", w1.isNil() || it.implies(mkEq(w1, tNil), true), m.atP(e.Loop.Fn, it), "a worker which has been told to stop is still handed out")
			}
		}
	}
	_ = ms
	// results
	for _, name := range []string{"Worker"} {
		fn := m.method(pkgRoot, "Runner", name)
		r := m.root(fn)
		for _, p := range r.Paths {
			if p.Kind != "ret" || len(p.Res) != 2 {
				c.fail("worker-result", m.atP(fn, p), "Worker can end by %s", p.Kind)
				continue
			}
			rm.workerResult(c, "worker-result", r, p, p.Res[0], p.Res[1])
		}
		rm.waitsOnlyIfPending(c, r)
	}
	for _, api := range rm.api() {
		given := map[*Root]bool{}
		for _, r := range m.tree(api) {
			for _, g := range m.gos(r) {
				ok := false
				for a := range g.Go.St.facts {
					ok = ok || a.contains(func(x *Term) bool {
						return x.k == KLookup && x.args[0].isField(rm.workers) && x.n == g.Ver || x.isField(rm.eWorker) && x.n == g.Ver
					})
				}
				held := false
				for _, l := range g.Go.Locks {
					held = held || rm.isMu(lockOf(l))
				}
				b := m.body(r, g)
				if old, seen := given[b]; !seen || old {
					given[b] = ok && held
				}
			}
		}
		for _, r := range m.tree(api) {
			rm.waiters(c, r, given[r])
		}
	}
}

func isErrConst(t *Term, text string) bool {
	s, ok := constErr(t)
	return ok && s == `"`+text+`"`
}

// errGlobal: the term is the value of the package's error variable.
func (m *Model) errGlobal(pkg, name string) *Term {
	g, ok := m.pkg(pkg).Members[name].(*ssa.Global)
	if ok {
		st := newState()
		a := mk(KGlobal, "", 0, g, g.Type())
		return st.load(a, g.Type().Underlying().(*types.Pointer).Elem())
	}
	if k, ok := m.pkg(pkg).Members[name].(*ssa.NamedConst); ok {
		// a constant of an error type, converted to error where used
		return mk(KMkI, "", 0, nil, k.Type(), constTerm(k.Value))
	}
	return nil
}

func sameErr(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	for isErrWrap(a) {
		a = a.args[0]
	}
	if a == b {
		return true
	}
	x, ok1 := constErr(a)
	y, ok2 := constErr(b)
	return ok1 && ok2 && x == y
}

func isNotFound(t *Term) bool {
	for isErrWrap(t) {
		t = t.args[0]
	}
	return isErrMake(t) && makerKind[t.op] == `"not found"`
}

// afterLookup: an event showing the runner was not dying comes after the
// point where the entry was looked up (the last lock event).
func notDyingLast(p *Path, after func(e *Event) bool) bool {
	nd, at := -1, -1
	for i, e := range p.Events {
		if e.Kind == EvNotDie {
			nd = i
		}
		if after(e) {
			at = i
		}
	}
	return nd > at && nd >= 0
}

// waitedResult: what the goroutines which wait for the caller report on ch.
func (rm *runnerModel) waitedResult(c *Check, R string, r *Root, p *Path, ch *Term) {
	m := c.M
	id := r.Args[1]
	at := m.atP(r.Fn, p)
	n := 0
	for _, g := range m.gos(r) {
		b := m.body(r, g)
		for _, q := range b.Paths {
			for _, e := range q.Events {
				if !e.isSend() || e.sentOn() != ch {
					continue
				}
				n++
				v := e.sentVal()
				sw, se := part(v, isWorkerType), part(v, isErrorType)
				if sw == nil || se == nil {
					c.fail(R, m.atE(e, q), "cannot tell what the waiting goroutine reports")
					continue
				}
				switch {
				case se.isNil():
					ok := sw.isField(rm.eWorker) && rm.isEntryOf(sw.field0(), id) && q.implies(mkEq(sw, tNil), false)
					c.want(R, ok, m.atE(e, q), "a waiting call gets a worker which is not the id's current one")
				case isNotFound(se):
					ok := false
					for a, v := range q.Facts {
						if v && a.k == KOp && a.op == "==" && a.args[1].isNil() && rm.isEntryOf(a.args[0], id) {
							ok = true
						}
					}
					c.want(R, ok, m.atE(e, q), "a waiting call is told NotFound although the id may have an entry")
				default:
					c.fail(R, m.atE(e, q), "a waiting call gets an error of unknown origin: %s", se)
				}
			}
		}
	}
	c.want(R, n > 0, at, "nothing is ever sent to the waiting call")
}

func (rm *runnerModel) workerResult(c *Check, R string, r *Root, p *Path, w, err *Term) {
	m := c.M
	at := m.atP(r.Fn, p)
	recv := r.Args[0]
	id := r.Args[1]
	abort := r.Args[2]
	mapT := p.St.load(fieldAddr(recv, rm.T, rm.workers), rm.workers.Typ)
	_ = mapT
	dead := m.errGlobal(pkgRoot, "ErrDead")
	aborted := m.errGlobal(pkgRoot, "ErrAborted")
	switch {
	case sameErr(err, dead):
		ok := false
		for a, v := range p.Facts {
			if v && (a.op == "isdying" || a.op == "isdead") {
				ok = true
			}
		}
		c.want(R, ok, at, "ErrDead is returned although the runner may be alive")
		c.want(R, w.isNil(), at, "a worker is returned together with ErrDead")
	case sameErr(err, aborted):
		ok := false
		for _, e := range p.Events {
			if e.isRecv() && e.recvOn() == abort {
				ok = true
			}
		}
		c.want(R, ok, at, "ErrAborted is returned although the caller did not abort")
		c.want(R, w.isNil(), at, "a worker is returned together with ErrAborted")
	case isNotFound(err):
		ok := false
		for a, v := range p.Facts {
			if v && a.k == KOp && a.op == "==" && a.args[1].isNil() && rm.isEntryOf(a.args[0], id) {
				ok = true
			}
		}
		c.want(R, ok, at, "NotFound is returned although the id may have an entry")
		c.want(R, notDyingLast(p, func(e *Event) bool { return e.Kind == EvLock }), at, "NotFound is returned without checking whether the runner has shut down")
		c.want(R, w.isNil(), at, "a worker is returned together with NotFound")
	case err.isNil():
		if ch := resultChan(p, w); ch != nil {
			rm.waitedResult(c, R, r, p, ch)
			ok := p.implies(mkEq(w, tNil), false)
			for a, v := range p.Facts {
				if v && a.k == KOp && a.op == "==" && a.args[1].isNil() && a.args[0].typ != nil && isErrorType(a.args[0].typ) && resultChan(p, a.args[0]) == ch {
					ok = true
				}
			}
			c.want(R, ok, at, "success is reported although the waiting call may have got an error")
			return
		}
		ok := w.isField(rm.eWorker) && rm.isEntryOf(w.field0(), id) && p.implies(mkEq(w, tNil), false)
		c.want(R, ok, at, "the worker returned is not the id's current worker")
	default:
		// from a waiting goroutine
		ch := resultChan(p, err)
		if ch == nil {
			c.fail(R, at, "Worker returns an error of unknown origin: %s", err)
			return
		}
		rm.waitedResult(c, R, r, p, ch)
		// if the error can be NotFound the runner must have been checked
		can := true
		for a, v := range p.Facts {
			if a.k == KCall && a.op == "errors.Is" && a.args[0] == err && !v {
				if s, ok := constErr(a.args[1]); ok && s == `"not found"` {
					can = false
				}
			}
			if a.k == KOp && a.op == "==" && a.args[0] == err && a.args[1].isNil() && v {
				can = false
			}
		}
		if can {
			c.want(R, notDyingLast(p, func(e *Event) bool { return e.isRecv() && e.recvOn() == ch }), at, "NotFound is returned to a waiting call without checking whether the runner has shut down")
		}
		// both parts come from the same message
		c.want(R, resultChan(p, w) == ch || w.isNil(), at, "the worker returned is not the one the waiting goroutine found")
	}
}

// resultChan: the channel the (part of a) message was received from.
func resultChan(p *Path, x *Term) *Term {
	for x.k == KFld {
		x = x.args[0]
	}
	for _, e := range p.Events {
		if e.isRecv() && e.Res == x {
			return e.recvOn()
		}
	}
	return nil
}

// isEntryOf: the term is the entry of id.
func (rm *runnerModel) isEntryOf(x, id *Term) bool {
	return x.k == KLookup && x.args[0].isField(rm.workers) && x.args[1] == id
}

// waiters: a goroutine that waits for a change looks at the state again after
// each wake-up, under the lock, and had looked at it before waiting.
func (rm *runnerModel) waiters(c *Check, r *Root, given bool) {
	m := c.M
	R := "waiter-rechecks"
	for _, p := range r.Paths {
		walkPaths(p, func(q *Path) {
			for i, e := range q.Events {
				if e.Kind != EvCondW {
					continue
				}
				c.want(R, rm.isCond(e.T[0]), m.atE(e, q), "waiting on another condition variable than the one that announces changes")
				// after waking up: sends results only from the current state
				for _, s := range q.Events[i+1:] {
					if s.isSend() {
						if sw := part(s.sentVal(), isWorkerType); sw != nil && sw.k == KInit {
							c.want(R, sw.n == s.Ver, m.atE(s, q), "a worker read before the wait is reported after it")
						}
					}
				}
			}
		})
	}
	// Before every wait the state has been looked at since the lock was taken
	// or a wait ended: by the goroutine itself, or, if it was given the lock,
	// by who gave it. Otherwise a change made in between is missed.
	looked := func(facts map[*Term]bool, ver int) bool {
		for a := range facts {
			if a.contains(func(x *Term) bool {
				return x.k == KLookup && x.args[0].isField(rm.workers) && x.n == ver || x.isField(rm.eWorker) && x.n == ver
			}) {
				return true
			}
		}
		return false
	}
	const missed = "waits for a change without having looked at the state since it has the lock; a change made in between is missed"
	for _, p := range r.Paths {
		locked, post := false, 0
		check := func(e *Event, q *Path, entry bool) {
			c.want(R, looked(e.Facts, e.Ver) || entry, m.atE(e, q), missed)
		}
		fresh := given // looked since it has the lock, when the loop is entered
		inLoop := fresh
		for _, e := range p.Events {
			switch {
			case e.Kind == EvLock && rm.isMu(e.T[0]):
				locked, post = true, e.Post
				fresh = false
			case e.Kind == EvUnlock && rm.isMu(e.T[0]):
				fresh, inLoop = false, false
			case e.Kind == EvCondW:
				check(e, p, fresh || inLoop)
				fresh, inLoop = looked(p.Facts, e.Post), false
			}
			if e.Loop == nil {
				continue
			}
			entry := fresh || locked && looked(p.Facts, post)
			waits := false
			for _, it := range e.Loop.Iters {
				last := -1
				for j, x := range it.Events {
					if x.Kind == EvCondW {
						last = j
					}
				}
				if last < 0 {
					continue
				}
				waits = true
				entry = entry && looked(it.Facts, it.Events[last].Post)
			}
			if !waits {
				continue
			}
			for _, it := range e.Loop.Iters {
				in := entry
				for _, x := range it.Events {
					switch {
					case x.Kind == EvLock && rm.isMu(x.T[0]), x.Kind == EvUnlock && rm.isMu(x.T[0]):
						in = false
					case x.Kind == EvCondW:
						check(x, it, in)
						in = false
					}
				}
			}
			inLoop = entry
		}
	}
}

// pending: the path knows that the id has an entry, and that its worker is not
// available.
func (rm *runnerModel) pending(p *Path, id *Term) bool {
	has, none := false, false
	for a, v := range p.Facts {
		if a.k != KOp || a.op != "==" || !a.args[1].isNil() {
			continue
		}
		has = has || !v && rm.isEntryOf(a.args[0], id)
		none = none || v && a.args[0].isField(rm.eWorker) && rm.isEntryOf(a.args[0].field0(), id)
	}
	return has && none
}

// waitsOnlyIfPending: Worker waits only for what is not available yet, goes on
// waiting only as long as it is not, and takes the answer when it has come.
func (rm *runnerModel) waitsOnlyIfPending(c *Check, r *Root) {
	const R = "waits-only-if-pending"
	m := c.M
	id := r.Args[1]
	c.rule(R, 4)
	// the goroutines that wait for a change on behalf of the call
	answers, stops := map[*Term]bool{}, map[*Term]bool{}
	n := 0
	for _, g := range m.gos(r) {
		b := m.body(r, g)
		for _, q := range b.Paths {
			walk(q.Events, func(e *Event) {
				if e.isSend() && part(e.sentVal(), isWorkerType) != nil {
					answers[e.sentOn()] = true
				}
				if e.Kind == EvSelect {
					for _, cs := range e.Cases {
						if !cs.Send {
							stops[cs.Ch] = true
						}
					}
				}
			})
			walkPaths(q, func(it *Path) {
				for _, e := range it.Events {
					if e.Kind == EvCondW && it.Kind == "iter" {
						n++
						c.want(R, rm.pending(it, id), m.atE(e, it), "goes on waiting although the worker may be available, or may not become so")
					}
				}
			})
		}
	}
	for _, p := range r.Paths {
		waited, aborted := -1, false
		told, woken := false, false
		for i, e := range p.Events {
			switch {
			case blocking(e) || e.Kind == EvCondW:
				n++
				c.want(R, rm.pending(p, id), m.atE(e, p), "%s waits although the worker is available, or will not become so", r.Fn.Name())
				if len(answers) > 0 && waited < 0 {
					takes := e.Kind == EvRecv && answers[e.T[0]]
					for _, cs := range e.Cases {
						takes = takes || !cs.Send && answers[cs.Ch]
					}
					c.want(R, takes, m.atE(e, p), "%s does not look at the answer it waits for", r.Fn.Name())
				}
				waited = i
			case e.Kind == EvClose && stops[e.T[0]]:
				c.want(R, waited >= 0, m.atE(e, p), "the goroutine that waits for the worker is told to stop before there is an answer")
				told = true
			case e.Kind == EvStore || e.isSend():
				told = told || waited >= 0
			case e.Kind == EvBcast && strings.HasSuffix(e.Name, "Broadcast") && rm.isCond(e.T[0]):
				woken = woken || waited >= 0 && told
			}
			if e.isRecv() && len(r.Args) > 2 && e.recvOn() == r.Args[2] {
				aborted = true
			}
		}
		if aborted && len(answers) > 0 {
			c.want(R, told && woken, m.atP(r.Fn, p), "the goroutine that waits on behalf of a caller who has given up is not told so")
		}
	}
	c.want(R, n > 0, m.atFn(r.Fn, "Worker"), "%s never waits for a worker that is being started", r.Fn.Name())
}

// walkPaths visits the path and the iterations of its loops.
func walkPaths(p *Path, f func(q *Path)) {
	seen := map[*LoopInfo]bool{}
	var rec func(q *Path)
	rec = func(q *Path) {
		f(q)
		for _, e := range q.Events {
			if e.Loop != nil && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, it := range e.Loop.Iters {
					rec(it)
				}
			}
		}
	}
	rec(p)
}

// P14 -----------------------------------------------------------------------------

func ruleP14(c *Check) {
	rm := c.M.runner()
	m := c.M
	c.rule("api-blocking-escapes", 4)
	c.rule("reply-always-sent", 2)
	c.rule("loop-does-not-block", 1)
	c.rule("worker-goroutine-escapes", 1)
	c.rule("caller-can-give-up", 3)
	for _, r := range rm.api() {
		rm.givingUp(c, r)
	}
	rm.locking(c)
	rc := rm.removalChans()
	isRemoval := func(r *Root, p *Path, ch *Term) bool {
		for _, f := range rc {
			if ch.isField(f) && ch.field0().k == KLookup {
				return true
			}
			// received from a goroutine of this call that sends an entry's channel
			if src := resultChan(p, ch); src != nil && ch.k == KFld {
				okAll, n := true, 0
				for _, g := range m.gos(r) {
					eachEvent(m.body(r, g), func(q *Path, e *Event) {
						if e.isSend() && e.sentOn() == src {
							v := e.sentVal()
							var x *Term
							if v.k == KStruct {
								x = v.args[ch.n]
							}
							n++
							if x == nil || !(x.isNil() || x.isField(f)) {
								okAll = false
							}
						}
					})
				}
				if okAll && n > 0 {
					return true
				}
			}
		}
		return false
	}
	for _, r := range rm.api() {
		for _, p := range r.Paths {
			removed := false
			for i, e := range p.Events {
				if e.isRecv() && isRemoval(r, p, e.recvOn()) {
					removed = true
				}
				if e.Kind == EvCall && e.Method == "Wait" {
					c.want("api-blocking-escapes", removed, m.atE(e, p), "%s waits for a worker that may run forever", r.Fn.Name())
				}
				if !blocking(e) {
					if e.Loop != nil {
						walk([]*Event{e}, func(x *Event) {
							if blocking(x) && !selectEscapes(x, rm.tomb, func(ch *Term) bool { return isRemoval(r, p, ch) }) && !bufferedOnce(p, x) {
								c.fail("api-blocking-escapes", m.atE(x, p), "%s in %s has no way out when the runner is dead", describe(x), r.Fn.Name())
							}
						})
					}
					continue
				}
				ok := false
				switch e.Kind {
				case EvTWait:
					ok = r.Fn.Name() == "Wait"
				case EvSelect:
					ok = selectEscapes(e, rm.tomb, func(ch *Term) bool { return isRemoval(r, p, ch) })
				case EvRecv:
					ok = isRemoval(r, p, e.T[0]) || isDeathChan(e.T[0], rm.tomb) || repliedTo(p, i, e.T[0]) != nil
				case EvSend:
					ok = bufferedOnce(p, e)
				}
				c.want("api-blocking-escapes", ok, m.atE(e, p), "%s in %s has no way out when the runner is dead", describe(e), r.Fn.Name())
			}
		}
	}
	// replies: a request whose sender waits for an answer gets exactly one
	for _, t := range rm.tr {
		for _, rp := range replyFields(t.Msg) {
			n := 0
			for _, e := range deep(t.Evs, EvSend) {
				if e.T[0] == rp {
					n++
				}
			}
			for _, e := range deep(t.Evs, EvClose) {
				if e.T[0] == rp {
					n++
				}
			}
			c.want("reply-always-sent", n == 1, t.at(nil), "a %q request is answered %d times", t.Kind, n)
		}
	}
	// the requester is there to take the answer
	for _, r := range rm.api() {
		for _, p := range r.Paths {
			for i, e := range p.Events {
				if !e.isSend() || rm.chanKind(e.sentOn()) == "" {
					continue
				}
				for _, rp := range replyFields(e.sentVal()) {
					if rp.k == KAlloc && rp.op != "0" && rp.op != "" {
						c.want("reply-always-sent", true, m.atE(e, p), "")
						continue
					}
					ok := i+1 < len(p.Events) && p.Events[i+1].Kind == EvRecv && p.Events[i+1].T[0] == rp
					c.want("reply-always-sent", ok, m.atE(e, p), "after its request was accepted the caller may not take the answer, which would block the event loop")
				}
			}
		}
	}
	for _, t := range rm.tr {
		for _, e := range t.Evs {
			walk([]*Event{e}, func(x *Event) {
				if !blocking(x) && !(x.Kind == EvCall && x.Method == "Wait") {
					return
				}
				ok := false
				if x.Kind == EvSend {
					for _, rp := range replyFields(t.Msg) {
						ok = ok || x.T[0] == rp
					}
				}
				c.want("loop-does-not-block", ok, t.at(x), "the event loop may block while it handles a %q event: %s", t.Kind, describe(x))
			})
		}
		c.want("loop-does-not-block", true, t.at(nil), "")
	}
	// worker goroutines: besides the worker itself, they only block on the
	// event loop, which receives until they are done
	seen := map[*Root]bool{}
	for _, l := range rm.launches {
		if seen[l.Body] {
			continue
		}
		seen[l.Body] = true
		eachEvent(l.Body, func(p *Path, e *Event) {
			if !blocking(e) {
				return
			}
			ok := false
			switch e.Kind {
			case EvSend:
				k := rm.chanKind(e.T[0])
				ok = k == "done" || k == "started"
			case EvSelect:
				ok = true // P09 requires the interruption
			}
			c.want("worker-goroutine-escapes", ok, m.atE(e, p), "a worker's goroutine may block forever: %s", describe(e))
		})
	}
}

// givingUp: an operation which is given a context or an abort channel stops
// waiting when that is signalled, and says so. Handing a request to the event
// loop is not a wait for which an abort channel is needed.
func (rm *runnerModel) givingUp(c *Check, r *Root) {
	m := rm.m
	const R = "caller-can-give-up"
	var abort []*Term
	isCtx := false
	for i, a := range r.Args {
		if a == nil || i == 0 || a.typ == nil {
			continue
		}
		if ch, ok := a.typ.Underlying().(*types.Chan); ok && ch.Dir() != types.SendOnly {
			abort = append(abort, a)
		}
		if a.typ.String() == "context.Context" {
			abort = append(abort, a)
			isCtx = true
		}
	}
	if len(abort) == 0 {
		return
	}
	gives := func(ch *Term) bool {
		for _, a := range abort {
			if ch == a || ch.k == KCall && ch.op == "ctx.Done" && ch.args[0] == a {
				return true
			}
		}
		return false
	}
	aborted := m.errGlobal(pkgRoot, "ErrAborted")
	for _, p := range r.Paths {
		walkPaths(p, func(q *Path) {
			for i, e := range q.Events {
				if !blocking(e) || e.Kind == EvLock {
					continue
				}
				ok := false
				switch e.Kind {
				case EvSelect:
					for _, cs := range e.Cases {
						ok = ok || !cs.Send && gives(cs.Ch) || cs.Send && !isCtx && rm.chanKind(cs.Ch) != ""
					}
				case EvRecv:
					ok = gives(e.T[0]) || repliedTo(q, i, e.T[0]) != nil
				case EvSend:
					ok = bufferedOnce(q, e) || !isCtx && rm.chanKind(e.T[0]) != ""
				}
				for _, a := range abort {
					ok = ok || p.implies(mkEq(a, tNil), true)
				}
				c.want(R, ok, m.atE(e, q), "%s in %s goes on when the caller has given up", describe(e), r.Fn.Name())
			}
		})
		if p.Kind != "ret" || len(p.Res) == 0 {
			continue
		}
		// the last thing received tells how the operation ended
		var last *Event
		for _, e := range p.Events {
			if e.isRecv() || e.isSend() {
				last = e
			}
		}
		if last == nil || !last.isRecv() || !gives(last.recvOn()) {
			continue
		}
		err := p.Res[len(p.Res)-1]
		if isCtx {
			c.want(R, !err.isNil(), m.atE(last, p), "%s reports success although the caller gave up before its request was accepted", r.Fn.Name())
		} else {
			c.want(R, sameErr(err, aborted), m.atE(last, p), "%s returns %s when it is aborted", r.Fn.Name(), err)
		}
	}
}

func isDeathChan(ch *Term, tomb *FieldRef) bool {
	return ch.k == KCall && (ch.op == "tomb.Dead" || ch.op == "tomb.Dying") && tombOf(ch.args[0], tomb)
}

func selectEscapes(e *Event, tomb *FieldRef, more func(*Term) bool) bool {
	if e.Kind != EvSelect {
		return false
	}
	for _, cs := range e.Cases {
		if !cs.Send && (isDeathChan(cs.Ch, tomb) || more(cs.Ch)) {
			return true
		}
	}
	return false
}

// repliedTo: the channel was sent in a message on this path before.
func repliedTo(p *Path, i int, ch *Term) *Event {
	for _, e := range p.Events[:i] {
		if e.isSend() && e.sentVal().has(ch) {
			return e
		}
	}
	return nil
}

// replyFields: the channels in a message on which the receiver can answer.
func replyFields(msg *Term) []*Term {
	if msg == nil || msg.typ == nil {
		return nil
	}
	t := msg.typ
	if canSend(t) {
		return []*Term{msg}
	}
	s := structOf(t)
	if s == nil || leafStruct(t) {
		return nil
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		if canSend(s.Field(i).Type()) {
			out = append(out, mkFld(msg, t, i))
		}
	}
	return out
}

func canSend(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && c.Dir() != types.RecvOnly
}

// P15 -----------------------------------------------------------------------------

func ruleP15(c *Check) {
	rm := c.M.runner()
	m := c.M
	c.rule("stop-and-remove", 2)
	rm.removalSignal(c)
	rm.ledger(c)
	rm.starting(c)
	// StopAndRemoveWorker
	sr := m.root(m.method(pkgRoot, "Runner", "StopAndRemoveWorker"))
	rc := rm.removalChans()
	aborted := m.errGlobal(pkgRoot, "ErrAborted")
	for _, p := range sr.Paths {
		at := m.atP(sr.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("stop-and-remove", at, "StopAndRemoveWorker can end by %s", p.Kind)
			continue
		}
		res := p.Res[0]
		stopAt, rmAt := -1, -1
		var waited *Event
		for i, e := range p.Events {
			if e.isSend() && rm.chanKind(e.sentOn()) == "stop" && part(e.sentVal(), isString) == sr.Args[1] {
				stopAt = i
			}
			if e.isRecv() && rm.fromEntry(sr, p, e.recvOn(), rc) {
				rmAt = i
			}
			if e.Kind == EvCall && e.Method == "Wait" {
				waited = e
			}
		}
		base := res
		for isErrWrap(base) {
			base = base.args[0]
		}
		switch {
		case sameErr(res, aborted):
			ok := false
			for _, e := range p.Events {
				if e.isRecv() && e.recvOn() == sr.Args[2] {
					ok = true
				}
			}
			c.want("stop-and-remove", ok, at, "ErrAborted is returned although the caller did not abort")
		case waited != nil && base == waited.Res, res.isNil():
			c.want("stop-and-remove", stopAt >= 0, at, "the worker's result is returned without the runner having been told to stop it")
			c.want("stop-and-remove", rmAt > stopAt, at, "the worker's result is returned before the worker has been removed from the runner")
			c.want("stop-and-remove", waited != nil && base == waited.Res, at, "the worker's own error is not returned")
			if waited != nil {
				w := waited.T[0]
				ok := w.isField(rm.eWorker) || resultChan(p, w) != nil
				c.want("stop-and-remove", ok, at, "the error returned is not that of the worker stopped")
			}
		default:
			c.want("stop-and-remove", rmAt < 0, at, "the worker has been removed but %s is returned instead of its error", res)
			rm.workerResult(c, "stop-and-remove", sr, p, tNil, res)
		}
	}
}

// fromEntry: the channel is an entry's removal channel, possibly received
// from a goroutine of this call.
func (rm *runnerModel) fromEntry(r *Root, p *Path, ch *Term, fs []*FieldRef) bool {
	for _, f := range fs {
		if ch.isField(f) {
			return true
		}
		if src := resultChan(p, ch); src != nil && ch.k == KFld {
			for _, g := range rm.m.gos(r) {
				found := false
				eachEvent(rm.m.body(r, g), func(q *Path, e *Event) {
					if e.isSend() && e.sentOn() == src && e.sentVal().k == KStruct && e.sentVal().args[ch.n].isField(f) {
						found = true
					}
				})
				if found {
					return true
				}
			}
		}
	}
	return false
}

// changes: the transition writes a field of the entry.
func (rm *runnerModel) changes(t *Trans, e *Term) bool {
	for _, s := range deep(t.Evs, EvStore) {
		if rootOf(s.T[0]) == e {
			return true
		}
	}
	return false
}

// P16 -----------------------------------------------------------------------------

func ruleP16(c *Check) {
	rm := c.M.runner()
	m := c.M
	c.rule("report-covers-all", 2)
	c.rule("report-state", 3)
	c.rule("report-start-time", 1)
	c.rule("own-report-included", 4)
	c.rule("names-cover-all", 1)
	fn := m.method(pkgRoot, "Runner", "Report")
	r := m.root(fn)
	stoppingWords := rm.marks(c)
	for _, p := range r.Paths {
		var loops []*Event
		for _, e := range p.Events {
			if e.Loop != nil && e.Loop.Kind == "map" && rm.isWorkersMap(e.Loop.Container) {
				loops = append(loops, e)
			}
		}
		at := m.atP(fn, p)
		if !c.want("report-covers-all", len(loops) == 1, at, "Report does not range over all workers once") {
			continue
		}
		le := loops[0]
		c.want("report-covers-all", le.Exh, m.atE(le, p), "Report can leave out workers")
		res := p.Res[0]
		// the map returned holds the map filled by the loop
		held := map[*Term]bool{res: true}
		for _, e := range evs(p.Events, EvMapSet) {
			if e.T[0] == res {
				x := e.T[2]
				if x.k == KMkI {
					x = x.args[0]
				}
				held[x] = true
			}
		}
		li := le.Loop
		for _, it := range li.Iters {
			ia := m.atP(li.Fn, it)
			g := rm.entryAt(li.Start, li.Container, li.Key)
			var sub *Term
			n := 0
			for _, e := range evs(it.Events, EvMapSet) {
				if held[e.T[0]] && unI(e.T[1]) == li.Key {
					n++
					sub = unI(e.T[2])
				}
			}
			if !c.want("report-covers-all", n == 1 && it.Kind == "iter", ia, "a worker is left out of the report (%d elements for one worker)", n) {
				continue
			}
			vals := map[string]*Term{}
			for _, e := range evs(it.Events, EvMapSet) {
				if e.T[0] == sub {
					vals[strings.Trim(unI(e.T[1]).op, `"`)] = unI(e.T[2])
				}
			}
			w := rm.entryField(li.Start, g, rm.eWorker)
			for _, mk := range []bool{true, false} {
				for _, wn := range []bool{true, false} {
					ls := append(rm.markedLits(li.Start, g, stoppingWords, mk), lit(mkEq(w, tNil), wn))
					if !it.allows(ls...) {
						continue
					}
					want := "started"
					if wn {
						want = "stopped"
					}
					if mk {
						want = "stopping"
					}
					got := vals["state"]
					c.want("report-state", got != nil && got.op == `"`+want+`"`, ia, "a worker that is %s is reported as %v", want, got)
				}
			}
			// report of the worker itself
			var calls []*Event
			for _, e := range it.Events {
				if e.Kind == EvCall && e.Method == "Report" {
					calls = append(calls, e)
					c.want("report-state", e.T[0] == w || e.T[0].has(w), m.atE(e, it), "the report included is not that of the worker")
				}
			}
			v := vals["report"]
			if v != nil {
				ok := false
				for _, e := range calls {
					ok = ok || v == e.Res
				}
				c.want("report-state", ok, ia, "the report included is not that of the worker")
			}
			// it is included if the worker runs, offers one, and it says something
			if v == nil {
				ok := it.implies(mkEq(w, tNil), true)
				for a, t := range it.Facts {
					if a.k == KIsType && !t && a.args[0] == w && a.typ != nil && isReporter(a.typ) {
						ok = true
					}
				}
				for _, e := range calls {
					ok = ok || e.Res != nil && knownEmpty(it, e.Res)
				}
				c.want("own-report-included", ok, ia, "the report of a worker that offers one is left out")
			} else {
				c.want("own-report-included", true, ia, "")
			}
			if rm.eStarted != nil {
				s0 := rm.entryField(li.Start, g, rm.eStarted)
				zero := false
				for a, t := range it.Facts {
					zero = zero || t && a.k == KCall && strings.HasSuffix(a.op, "IsZero") && a.has(s0)
				}
				if v := vals["started"]; v != nil {
					c.want("report-start-time", v.has(s0), ia, "the start time reported is not that of the worker")
				} else {
					c.want("report-start-time", zero, ia, "the start time of a worker is left out of the report")
				}
			}
		}
	}
	if rm.eStarted != nil {
		for _, t := range rm.tr {
			for _, i := range rm.inserts(allEvs(t)) {
				x := rm.entryField(t.P.St, i.T[2], rm.eStarted)
				c.want("report-start-time", isNow(x), t.at(i), "a new entry has no start time")
			}
			if t.Kind == "started" {
				x := rm.entryField(t.P.St, rm.entry(rm.li.Start, t.id()), rm.eStarted)
				c.want("report-start-time", isNow(x), t.at(nil), "the start time is not updated when a worker starts (or restarts)")
			}
		}
	}
	// names
	wn := m.root(m.method(pkgRoot, "Runner", "WorkerNames"))
	for _, p := range wn.Paths {
		at := m.atP(wn.Fn, p)
		ok := false
		if len(p.Res) == 1 {
			x := p.Res[0]
			if x.k == KCollect && len(x.sub) == 0 && rm.isWorkersMap(x.args[2]) && x.args[1].k == KKey && emptySlice(x.args[0]) {
				ok = true
			}
			if x.k == KCall && strings.Contains(x.op, "slices") && x.contains(func(y *Term) bool { return rm.isWorkersMap(y) }) {
				ok = true
			}
			if !ok && x.k == KCollect {
				c.note("WorkerNames collects %v over %v", x.args[1], x.args[2])
			}
		}
		c.want("names-cover-all", ok, at, "WorkerNames does not return every id exactly once")
	}
}

func isNow(x *Term) bool {
	return x.contains(func(y *Term) bool { return y.k == KRes && strings.Contains(y.op, "Now") })
}

func unI(x *Term) *Term {
	if x.k == KMkI {
		return x.args[0]
	}
	return x
}

func (rm *runnerModel) entryAt(st *State, mapT, key *Term) *Term {
	s := st.clone()
	v, _ := s.mapGet(mapT, key, rm.workers.Typ.Underlying().(*types.Map).Elem())
	return v
}

// knownEmpty: the path has found the map to have no elements.
func knownEmpty(p *Path, x *Term) bool {
	if p.implies(mkEq(x, tNil), true) {
		return true
	}
	for f := range p.Facts {
		empty := false
		f.contains(func(y *Term) bool {
			if y.k == KLen && y.args[0] == x && p.implies(mkEq(y, mkInt(0)), true) {
				empty = true
			}
			return false
		})
		if empty {
			return true
		}
	}
	return false
}

// isReporter: the type is of things that can report.
func isReporter(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Report" {
			return it.NumMethods() == 1
		}
	}
	return false
}

// P38 -----------------------------------------------------------------------------

func init() {
	register("P38", "Runner: an id can be started exactly if it is free",
		"every transition of the event loop that handles a start request: which entry it installs, what it answers for each valuation of {id known, dying}, and that nothing is changed after the answer; every path of StartWorker and StopWorker: what is requested, and what is returned for which outcome; the goroutine launched calls the requested start function",
		ruleP38)
}

func ruleP38(c *Check) {
	rm := c.M.runner()
	rm.starting(c)
	rm.ledger(c)
}

// starting checks what a start or stop request does, and what it is answered.
func (rm *runnerModel) starting(c *Check) {
	m := c.M
	c.rule("start-reply", 3)
	c.rule("start-installs-request", 1)
	c.rule("start-result", 2)
	c.rule("stop-request", 1)
	for _, t := range rm.kind("start") {
		e := rm.entry(rm.li.Start, t.id())
		ins := rm.inserts(t.Evs)
		for _, rp := range replyFields(t.Msg) {
			for i, s := range t.Evs {
				if s.Kind != EvSend || s.T[0] != rp {
					continue
				}
				for _, x := range t.Evs[i+1:] {
					c.want("start-reply", !rm.modifies(x), t.at(x), "the entry is installed only after StartWorker has been answered")
				}
				v := s.T[1]
				exists := lit(mkEq(e, tNil), false)
				missing := lit(mkEq(e, tNil), true)
				alive := lit(rm.dyingTerm(), false)
				if t.P.allows(exists, alive) {
					ok := isErrMake(v) && makerKind[v.op] == `"already exists"`
					c.want("start-reply", ok, t.at(s), "StartWorker does not report AlreadyExists for an id that has an entry")
					c.want("start-reply", len(ins) == 0 && !rm.changes(t, e), t.at(s), "a rejected StartWorker changes the runner")
				}
				if t.P.allows(missing, alive) {
					c.want("start-reply", v.isNil(), t.at(s), "StartWorker reports an error although the worker is started")
					c.want("start-reply", len(ins) == 1, t.at(s), "StartWorker reports success without installing the worker")
				}
			}
		}
		for _, i := range ins {
			n := i.T[2]
			c.want("start-installs-request", i.T[1] == t.id(), t.at(i), "the entry is installed under another id")
			c.want("start-installs-request", rm.entryField(t.P.St, n, rm.eStart) == part(t.Msg, rm.startPred()), t.at(i), "the entry does not have the request's start function")
			c.want("start-installs-request", rm.entryField(t.P.St, n, rm.eWorker).isNil(), t.at(i), "a new entry already has a worker")
			for _, f := range rm.removalChans() {
				x := rm.entryField(t.P.St, n, f)
				c.want("start-installs-request", x.k == KAlloc, t.at(i), "a new entry has no fresh %s channel", f)
			}
			for _, f := range rm.markChans(rm.marks(c)) {
				x := rm.entryField(t.P.St, n, f)
				c.want("start-installs-request", x.k == KAlloc, t.at(i), "a new entry has no fresh %s channel", f)
			}
		}
	}
	sw := m.root(m.method(pkgRoot, "Runner", "StartWorker"))
	dead := m.errGlobal(pkgRoot, "ErrDead")
	for _, p := range sw.Paths {
		at := m.atP(sw.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("start-result", at, "StartWorker can end by %s", p.Kind)
			continue
		}
		var req *Event
		for _, e := range p.Events {
			if e.isSend() && rm.chanKind(e.sentOn()) == "start" {
				req = e
			}
		}
		if req == nil {
			gone := false
			for _, e := range p.Events {
				if e.isRecv() {
					ch := e.recvOn()
					gone = gone || isDeathChan(ch, rm.tomb) || ch.k == KCall && (ch.op == "ctx.Done" && ch.args[0] == sw.Args[1] || ch.op == "tomb.Dying" && tombOf(ch.args[0], rm.tomb))
				}
			}
			for f, v := range p.Facts {
				gone = gone || v && f.k == KCall && (f.op == "isdying" || f.op == "isdead") && tombOf(f.args[0], rm.tomb)
				gone = gone || !v && f.contains(func(x *Term) bool { return x == sw.Args[1] })
			}
			c.want("start-result", gone, at, "StartWorker gives up although neither the runner nor the caller's context has ended")
			c.want("start-result", sameErr(p.Res[0], dead) || strings.Contains(p.Res[0].String(), "ctx"), at, "StartWorker returns %s although its request was never accepted", p.Res[0])
			continue
		}
		ok := false
		for _, rp := range replyFields(req.sentVal()) {
			for _, e := range p.Events {
				if e.isRecv() && e.recvOn() == rp && (e.Res == p.Res[0] || isErrWrap(p.Res[0]) && p.Res[0].args[0] == e.Res) {
					ok = true
				}
			}
		}
		c.want("start-result", ok, at, "StartWorker does not return the event loop's answer")
		v := req.sentVal()
		c.want("start-result", part(v, isString) == sw.Args[2] && part(v, rm.startPred()) == sw.Args[3], at, "the start request does not carry the caller's id and start function")
	}
	// StopWorker
	st := m.root(m.method(pkgRoot, "Runner", "StopWorker"))
	for _, p := range st.Paths {
		at := m.atP(st.Fn, p)
		sent := false
		for _, e := range p.Events {
			if e.isSend() && rm.chanKind(e.sentOn()) == "stop" {
				sent = true
				c.want("stop-request", part(e.sentVal(), isString) == st.Args[1], m.atE(e, p), "the stop request carries another id")
			}
		}
		if len(p.Res) == 1 && p.Res[0].isNil() {
			c.want("stop-request", sent, at, "StopWorker reports success although its request was never accepted")
		} else if len(p.Res) == 1 && sameErr(p.Res[0], dead) {
			ok := false
			for a, v := range p.Facts {
				if v && a.op == "isdead" {
					ok = true
				}
			}
			c.want("stop-request", ok, at, "StopWorker reports ErrDead although the runner may be running")
		}
	}
}
