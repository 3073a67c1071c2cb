package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P01: worker.Stop and worker.Dead -------------------------------------------

func init() {
	register("P01", "Stop and Dead observe a worker's real completion",
		"all paths of Stop call the worker's Kill, then its Wait, and return Wait's result; all paths of Dead return the worker's own non-nil Dead channel or a fresh channel nobody sends on, closed exactly once by a goroutine, after the worker's Wait returned",
		ruleP01)
	register("P02", "Catacomb is responsible for every worker it is given",
		"ownership analysis over all paths of Invoke, Add and the goroutines they start: each worker given to Invoke is killed and waited for when Invoke fails, else passed to goroutines which wait for it on all paths and kill it when the catacomb is dying; Add hands over through an unbuffered channel whose every receiver takes charge, or kills and waits for the worker itself",
		ruleP02)
	register("P03", "Catacomb is dead only when its work and all its workers have stopped",
		"wait-group accounting on all paths: each goroutine of the catacomb is counted before it is started and uncounted exactly once, last; the tomb's only goroutine runs the work, kills the tomb with the outcome and then waits for the group on every path; every blocking operation of the catacomb's goroutines ends when the catacomb is dying or a worker finishes",
		ruleP03)
	register("P04", "Catacomb reports the right error and clean exits leave it running",
		"decision table over {nil, tomb.ErrDying, own ErrDying, another catacomb's ErrDying, other} for every call that kills the catacomb's tomb, in every function and goroutine; a worker's nil result never kills it; ErrDying and Add return the documented errors; Wait, Dead, Dying, Err and Context are the tomb's",
		ruleP04)
	register("P05", "Catacomb turns a panic in its work into an error",
		"exceptional-path analysis: every path on which the work function panics is recovered inside the catacomb's goroutine, kills the tomb with an error built from the panic value and the stack, whose Panicked method returns true, and still waits for the workers",
		ruleP05)
	register("P06", "Catacomb can be invoked once, with a valid plan only",
		"every path of Invoke which touches the catacomb has validated the plan and won an atomic exchange on it; every other path returns an error and leaves it alone; Validate's paths are compared with the documented conditions",
		ruleP06)
}

func ruleP01(c *Check) {
	m := c.M
	c.rule("stop-kills-then-waits", 1)
	c.rule("dead-follows-wait", 2)
	stop := m.fn(pkgRoot, "Stop")
	r := m.root(stop)
	w := r.Args[0]
	for _, p := range r.Paths {
		at := m.atP(stop, p)
		if p.Kind != "ret" {
			c.fail("stop-kills-then-waits", at, "Stop can end by %s", p.Kind)
			continue
		}
		k, wt := -1, -1
		var res *Term
		for i, e := range p.Events {
			if isMethodCall(e, "Kill", w) && k < 0 {
				k = i
			}
			if isMethodCall(e, "Wait", w) {
				wt, res = i, e.Res
			}
		}
		c.want("stop-kills-then-waits", k >= 0 && wt > k, at, "Stop does not kill the worker and then wait for it")
		c.want("stop-kills-then-waits", len(p.Res) == 1 && res != nil && knownEqual(p, p.Res[0], res), at, "Stop does not return what the worker's Wait returned")
	}
	dead := m.fn(pkgRoot, "Dead")
	r = m.root(dead)
	w = r.Args[0]
	for _, p := range r.Paths {
		at := m.atP(dead, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("dead-follows-wait", at, "Dead can end by %s", p.Kind)
			continue
		}
		for _, e := range p.Events {
			c.want("dead-follows-wait", !blocking(e) && !(e.Kind == EvCall && e.Method == "Wait"), m.atE(e, p), "Dead may block")
		}
		ch := p.Res[0]
		own := false
		for _, e := range p.Events {
			if isMethodCall(e, "Dead", w) && e.Res == ch {
				own = true
			}
		}
		if own {
			c.want("dead-follows-wait", p.implies(mkEq(ch, tNil), false), at, "Dead can return a nil channel, which never reports completion")
			continue
		}
		if !c.want("dead-follows-wait", ch.k == KAlloc, at, "Dead returns a channel that is neither the worker's nor a new one") {
			continue
		}
		n := 0
		for _, e := range p.Events {
			if (e.Kind == EvClose || e.isSend()) && (e.Kind == EvClose && e.T[0] == ch || e.isSend() && e.sentOn() == ch) {
				c.fail("dead-follows-wait", m.atE(e, p), "the channel is closed before the worker has completed")
			}
			if e.Go == nil {
				continue
			}
			b := m.body(r, e)
			closes := 0
			for _, q := range b.Paths {
				if q.Kind == "panic" {
					continue
				}
				waited, closed := false, 0
				for _, x := range q.Events {
					if isMethodCall(x, "Wait", w) {
						waited = true
					}
					if x.isSend() && x.sentOn() == ch {
						c.fail("dead-follows-wait", m.atE(x, q), "the channel gets a value instead of being closed: only one of several readers would see it")
					}
					if x.Kind == EvClose && x.T[0] == ch {
						closed++
						c.want("dead-follows-wait", waited, m.atE(x, q), "the channel is closed although the worker may not have completed")
					}
				}
				if waited || closed > 0 {
					c.want("dead-follows-wait", closed == 1, m.atP(b.Fn, q), "the channel is closed %d times on a path", closed)
					closes++
				}
			}
			if closes > 0 {
				n++
			}
		}
		c.want("dead-follows-wait", n == 1, at, "%d goroutines watch the worker to close the channel returned", n)
	}
}

// the catacomb ------------------------------------------------------------------

type catModel struct {
	m                *Model
	T                *types.Named
	tomb, wg, adds   *FieldRef
	inv, add         *Root
	plan             *Term
	site, work, init *Term
	name             *Term
	tree             []*Root
	parent           map[*Root]*Root
	launchEv         map[*Root]*Event
	dyingT           types.Type // the type of ErrDying's result
	sym              *Term
}

func (m *Model) catacomb() *catModel {
	if m.cat != nil {
		return m.cat
	}
	cm := &catModel{m: m, T: m.named(pkgCat, "Catacomb"), parent: map[*Root]*Root{}, launchEv: map[*Root]*Event{}}
	cm.tomb = need(findField(cm.T, typeIs("gopkg.in/tomb.v2", "Tomb"), "tomb"), "the catacomb's tomb")
	cm.wg = findField(cm.T, typeIs("sync", "WaitGroup"), "wg")
	cm.adds = need(findField(cm.T, chanOf(isWorkerType), "adds"), "the workers to be added")
	cm.inv = m.root(m.fn(pkgCat, "Invoke"))
	cm.add = m.root(m.method(pkgCat, "Catacomb", "Add"))
	cm.plan = cm.inv.Args[0]
	pt := m.named(pkgCat, "Plan")
	s := structOf(pt)
	for i := 0; i < s.NumFields(); i++ {
		f := mkFld(cm.plan, pt, i)
		switch s.Field(i).Name() {
		case "Site":
			cm.site = f
		case "Work":
			cm.work = f
		case "Init":
			cm.init = f
		case "Name":
			cm.name = f
		}
	}
	cm.tree = m.tree(cm.inv)
	for _, r := range cm.tree {
		for _, g := range m.gos(r) {
			b := m.body(r, g)
			if cm.parent[b] == nil {
				cm.parent[b], cm.launchEv[b] = r, g
			}
		}
	}
	for _, p := range m.root(m.method(pkgCat, "Catacomb", "ErrDying")).Paths {
		if len(p.Res) == 1 && p.Res[0].k == KMkI && p.Res[0].typ != nil && structOf(p.Res[0].typ) != nil {
			cm.dyingT = p.Res[0].typ
		}
	}
	m.cat = cm
	return cm
}

func (cm *catModel) isTomb(t *Term) bool { return tombOf(t, cm.tomb) }
func (cm *catModel) isWg(t *Term) bool   { return cm.wg != nil && tombOf(t, cm.wg) }
func (cm *catModel) isDying(ch *Term) bool {
	return ch.k == KCall && ch.op == "tomb.Dying" && cm.isTomb(ch.args[0])
}

// roots of everything in the package that runs.
func (cm *catModel) roots() []*Root {
	seen := map[*Root]bool{}
	var out []*Root
	add := func(rs []*Root) {
		for _, r := range rs {
			if !seen[r] {
				seen[r] = true
				out = append(out, r)
			}
		}
	}
	add(cm.tree)
	for _, f := range cm.m.exportedMethods(pkgCat, "Catacomb") {
		add(cm.m.tree(cm.m.root(f)))
	}
	return out
}

// doneChan: a channel of the analysed code that is closed only by one of the
// goroutines, after the worker's Wait has returned, or the worker's own Dead
// channel.
func (cm *catModel) doneChan(r *Root, es []*Event, ch, w *Term) bool {
	// the worker's own channel
	for _, e := range es {
		if isMethodCall(e, "Dead", w) && e.Res == ch {
			return true
		}
	}
	if ch.k != KAlloc {
		return false
	}
	closers := 0
	bad := false
	var scan func(r *Root, es []*Event, depth int)
	scan = func(r *Root, es []*Event, depth int) {
		for _, e := range es {
			if e.Go == nil || depth > 3 {
				continue
			}
			b := cm.m.body(r, e)
			for _, q := range b.Paths {
				waited, closed := false, false
				for _, x := range q.Events {
					if isMethodCall(x, "Wait", w) {
						waited = true
					}
					if x.Kind == EvClose && x.T[0] == ch || x.isSend() && x.sentOn() == ch {
						closed = true
						if !waited {
							bad = true
						}
					}
				}
				if closed {
					closers++
				} else if waited && q.Kind != "panic" {
					bad = bad || closes(b, ch) // a path which forgets to close
				}
				scan(b, q.Events, depth+1)
			}
		}
	}
	scan(r, es, 0)
	for _, e := range es {
		if e.Kind == EvClose && e.T[0] == ch {
			bad = true
		}
	}
	return closers > 0 && !bad
}

// closes: some path of the root closes the channel.
func closes(r *Root, ch *Term) bool {
	f := false
	eachEvent(r, func(p *Path, e *Event) {
		if e.Kind == EvClose && e.T[0] == ch {
			f = true
		}
	})
	return f
}

// takesCare: the events (of one path or one iteration of r) pass the worker to
// goroutines which wait for it, kill it when the catacomb is dying, and end
// when it has finished.
func (cm *catModel) takesCare(c *Check, R string, r *Root, es []*Event, w *Term, at where) {
	m := cm.m
	waiter, killer, anyWait := 0, 0, false
	for _, e := range es {
		if e.Go == nil {
			continue
		}
		b := m.body(r, e)
		isWaiter, isKiller := len(b.Paths) > 0, len(b.Paths) > 0
		why := where{}
		for _, q := range b.Paths {
			if q.Kind == "panic" {
				continue
			}
			waits, kills, chosenDying, sawDying := false, false, false, false
			blockedBefore := false
			for _, x := range q.Events {
				switch {
				case isMethodCall(x, "Wait", w):
					if !blockedBefore || sawDying {
						waits = true
					}
					anyWait = true
				case isMethodCall(x, "Kill", w):
					kills = true
				case blocking(x):
					if x.Kind == EvSelect || x.Kind == EvRecv {
						dy, all := false, true
						if x.Kind == EvSelect {
							for _, cs := range x.Cases {
								if !cs.Send && cm.isDying(cs.Ch) {
									dy = true
								} else if cs.Send || !cm.doneChan(r, es, cs.Ch, w) && !cm.doneChan(b, q.Events, cs.Ch, w) {
									all = false
								}
							}
						} else {
							dy = cm.isDying(x.T[0])
						}
						if dy && all {
							sawDying = true
							if x.isRecv() && cm.isDying(x.recvOn()) {
								chosenDying = true
							}
							continue
						}
					}
					if x.Kind == EvWgWait && cm.isWg(x.T[0]) {
						blockedBefore = true
						continue
					}
					blockedBefore = true
				}
			}
			if !waits {
				isWaiter = false
			}
			if !sawDying || chosenDying && !kills || q.Kind == "ret" && false {
				isKiller = false
				why = m.atP(b.Fn, q)
			}
		}
		if isWaiter {
			waiter++
		}
		if isKiller {
			killer++
		}
		_ = why
	}
	c.want(R, waiter >= 1, at, "a worker given to the catacomb is not waited for on every path (%v)", anyWait)
	c.want(R, killer >= 1, at, "a worker given to the catacomb is not killed whenever the catacomb is dying, or something other than its completion can end the watch over it")
}

func ruleP02(c *Check) {
	m := c.M
	cm := m.catacomb()
	c.rule("invoke-failure-stops-init", 3)
	c.rule("nil-worker-left-alone", 1)
	c.rule("invoke-success-takes-init", 2)
	c.rule("invoke-success-leaves-running", 1)
	c.rule("add-hands-over-or-stops", 3)
	c.rule("added-worker-taken", 2)
	c.rule("hand-over-unbuffered", 1)
	for _, p := range cm.inv.Paths {
		at := m.atP(cm.inv.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("invoke-failure-stops-init", at, "Invoke can end by %s", p.Kind)
			continue
		}
		v, known := p.St.eval(mkEq(p.Res[0], tNil))
		if !known {
			c.fail("invoke-failure-stops-init", at, "whether Invoke succeeds is not decided by its own checks")
			continue
		}
		if !v {
			kill, wait := -1, -1
			for i, e := range p.Events {
				li, el := initLoop(e, cm.init)
				if li == nil || !e.Exh {
					continue
				}
				allK, allW := true, true
				for _, it := range li.Iters {
					if it.implies(mkEq(el, tNil), true) {
						continue
					}
					k, w := -1, -1
					for j, x := range it.Events {
						if isMethodCall(x, "Kill", el) {
							k = j
						}
						if isMethodCall(x, "Wait", el) {
							w = j
						}
						if k == j || w == j {
							c.want("nil-worker-left-alone", it.implies(mkEq(el, tNil), false), m.atE(x, it), "a failing Invoke calls a method of a worker which may be nil")
						}
					}
					if k < 0 {
						allK = false
					}
					if w < 0 || k > w {
						allW = false
					}
				}
				if allK && kill < 0 && len(li.Iters) > 0 {
					kill = i
				}
				if allW && len(li.Iters) > 0 {
					wait = i
				}
			}
			c.want("invoke-failure-stops-init", kill >= 0 && wait >= kill, at, "a failing Invoke does not kill and wait for every worker it was given")
			continue
		}
		n := 0
		for _, e := range p.Events {
			li, el := initLoop(e, cm.init)
			if li == nil {
				continue
			}
			gos := false
			for _, it := range li.Iters {
				for _, x := range it.Events {
					gos = gos || x.Go != nil
					c.want("invoke-success-leaves-running", !isMethodCall(x, "Kill", el) && !isMethodCall(x, "Wait", el), m.atE(x, it), "Invoke stops or waits for a worker although it succeeds")
				}
			}
			if !gos {
				continue
			}
			n++
			c.want("invoke-success-takes-init", e.Exh, m.atE(e, p), "the loop over the workers given to Invoke can end early")
			for _, it := range li.Iters {
				cm.takesCare(c, "invoke-success-takes-init", cm.inv, it.Events, el, m.atP(li.Fn, it))
			}
		}
		c.want("invoke-success-takes-init", n == 1, at, "Invoke passes the workers it was given to %d loops that take charge of them", n)
	}
	// Add
	w := cm.add.Args[1]
	taken := 0
	for _, p := range cm.add.Paths {
		at := m.atP(cm.add.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("add-hands-over-or-stops", at, "Add can end by %s", p.Kind)
			continue
		}
		sent, k, wt := 0, -1, -1
		for i, e := range p.Events {
			if e.isSend() && e.sentOn().isField(cm.adds) {
				c.want("add-hands-over-or-stops", e.sentVal() == w, m.atE(e, p), "Add hands over something other than the worker")
				sent++
			}
			if isMethodCall(e, "Kill", w) {
				k = i
			}
			if isMethodCall(e, "Wait", w) && k >= 0 {
				wt = i
			}
			if blocking(e) && k < 0 {
				ok := e.Kind == EvRecv && cm.isDying(e.T[0])
				for _, cs := range e.Cases {
					ok = ok || !cs.Send && cm.isDying(cs.Ch)
				}
				c.want("add-hands-over-or-stops", ok, m.atE(e, p), "Add waits for someone to take the worker even if the catacomb is dying, when nobody may")
			}
			if e.Go != nil {
				c.fail("add-hands-over-or-stops", m.atE(e, p), "Add starts a goroutine which the catacomb does not know")
			}
		}
		v, known := p.St.eval(mkEq(p.Res[0], tNil))
		if !known {
			c.fail("add-hands-over-or-stops", at, "Add's result does not tell whether the worker was handed over")
			continue
		}
		if v {
			taken++
			c.want("add-hands-over-or-stops", sent == 1 && k < 0, at, "Add reports success %s", map[bool]string{true: "after stopping the worker", false: "without handing the worker over exactly once"}[sent == 1])
		} else {
			c.want("add-hands-over-or-stops", sent == 0 && k >= 0 && wt > k, at, "Add fails without having stopped the worker (killed and waited for it)")
			c.want("add-hands-over-or-stops", p.implies(dyingAtomOf(p, cm), true), at, "Add can fail although the catacomb is not dying")
		}
	}
	c.want("add-hands-over-or-stops", taken > 0, m.atFn(cm.add.Fn, "Add"), "Add never hands a worker over, although the catacomb may be alive")
	// the receivers
	recvs := 0
	for _, r := range cm.roots() {
		walkRootPaths(r, func(q *Path) {
			for i, e := range q.Events {
				if !e.isRecv() || !e.recvOn().isField(cm.adds) {
					continue
				}
				recvs++
				end := len(q.Events)
				for j := i + 1; j < end; j++ {
					if q.Events[j].isRecv() && q.Events[j].recvOn().isField(cm.adds) {
						end = j
					}
				}
				wk := e.Res
				if wk != nil && wk.k == KTuple {
					wk = wk.args[0]
				}
				cm.takesCare(c, "added-worker-taken", r, q.Events[i+1:end], wk, m.atE(e, q))
			}
		})
	}
	c.want("added-worker-taken", recvs > 0, m.atS("adds"), "nobody receives the workers handed over by Add")
	// unbuffered
	stores := 0
	for _, r := range cm.roots() {
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind == EvStore && e.T[0].k == KFldA && e.T[0].obj == cm.adds.Obj && e.T[0].op == cm.adds.Name {
				stores++
				won := false
				for _, x := range p.Events {
					if x == e {
						break
					}
					won = won || x.Kind == EvCAS && rootOf(x.T[0]) == cm.site
				}
				c.want("hand-over-unbuffered", won || r != cm.inv, m.atE(e, p), "the channel through which workers are handed over is replaced although the catacomb may be in use")
				c.want("hand-over-unbuffered", e.T[1].k == KAlloc && e.T[1].op == "0" && r == cm.inv, m.atE(e, p), "workers are handed over through a channel which can keep them without anyone taking charge")
			}
		})
	}
	c.want("hand-over-unbuffered", stores > 0, m.atS("adds"), "the hand-over channel is never made")
}

// dyingAtomOf: the literal "this catacomb is dying" as the path knows it.
func dyingAtomOf(p *Path, cm *catModel) *Term {
	for a := range p.St.facts {
		if a.k == KCall && a.op == "isdying" && cm.isTomb(a.args[0]) {
			return a
		}
	}
	return tFalse
}

// walkRootPaths visits the paths of a root and of the loops in it.
func walkRootPaths(r *Root, f func(q *Path)) {
	seen := map[*LoopInfo]bool{}
	var rec func(q *Path)
	rec = func(q *Path) {
		f(q)
		for _, e := range q.Events {
			if e.Loop != nil && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, it := range e.Loop.Iters {
					rec(it)
				}
			}
		}
	}
	for _, p := range r.Paths {
		rec(p)
	}
}

// initLoop: a loop over the slice; it returns its generic element.
func initLoop(e *Event, slice *Term) (*LoopInfo, *Term) {
	if e.Loop == nil || e.Loop.Container == nil || e.Loop.Container != slice && copyOf(e.Loop.Container) != slice || e.Loop.Kind != "slice" || e.Loop.Elem == nil {
		return nil, nil
	}
	return e.Loop, e.Loop.Elem
}

// P03 ---------------------------------------------------------------------------

func ruleP03(c *Check) {
	m := c.M
	cm := m.catacomb()
	c.rule("goroutines-counted", 3)
	c.rule("uncounted-once-last", 3)
	c.rule("work-then-kill-then-wait", 2)
	c.rule("no-endless-wait", 3)
	c.rule("watch-ends-with-worker", 1)
	checkDead(c, "dead-is-tombs", cm)
	tombGos := 0
	for _, r := range cm.roots() {
		walkRootPaths(r, func(q *Path) {
			bal := int64(0)
			for _, e := range q.Events {
				switch {
				case e.Kind == EvWgAdd && cm.isWg(e.T[0]):
					n, ok := intConst(e.T[1])
					c.want("goroutines-counted", ok && n > 0, m.atE(e, q), "the number of goroutines counted is not a positive constant")
					bal += n
				case e.Go != nil && e.Go.Kind == "tomb":
					tombGos++
					ok := r == cm.inv && !insideIter(q)
					c.want("work-then-kill-then-wait", ok, m.atE(e, q), "a goroutine is added to the tomb outside Invoke's main path")
				case e.Go != nil:
					b := m.body(r, e)
					if e.Go.Kind == "wg" && cm.isWg(e.Go.Wg) {
						c.want("goroutines-counted", bal > 0, m.atE(e, q), "")
						bal--
						cm.doneOnce(c, b, 1)
						continue
					}
					if !usesWg(cm, b) {
						if touches(cm, b) {
							c.fail("goroutines-counted", m.atE(e, q), "a goroutine which acts for the catacomb is not counted in its wait group")
						}
						continue
					}
					c.want("goroutines-counted", bal > 0, m.atE(e, q), "a goroutine is started before it is counted: the catacomb can be dead while it still runs")
					bal--
					cm.doneOnce(c, b, 1)
				}
			}
			c.want("goroutines-counted", bal == 0 || q.Kind == "panic", m.atP(r.Fn, q), "%d goroutines are counted but not started, so that the catacomb never finishes", bal)
		})
	}
	c.want("work-then-kill-then-wait", tombGos > 0, m.atFn(cm.inv.Fn, ""), "the work is not run by the tomb")
	for _, g := range m.gos(cm.inv) {
		b := m.body(cm.inv, g)
		if g.Go.Kind != "tomb" {
			continue
		}
		for _, q := range b.Paths {
			if q.Kind == "goexit" {
				continue
			}
			at := m.atP(b.Fn, q)
			work, kill, wait, nw := -1, -1, -1, 0
			for i, e := range q.Events {
				switch {
				case e.Kind == EvCall && e.Name == "dyn" && e.T[0] == cm.work:
					nw++
					if work < 0 {
						work = i
					}
				case e.Kind == EvKill && cm.isTomb(e.T[0]):
					if kill < 0 {
						kill = i
					}
				case e.Kind == EvWgWait && cm.isWg(e.T[0]):
					wait = i
				}
			}
			c.want("work-then-kill-then-wait", nw == 1, at, "the work function is called %d times", nw)
			c.want("work-then-kill-then-wait", kill > work, at, "when the work has finished (%s) the catacomb is not killed, so that its workers are left running", q.Kind)
			c.want("work-then-kill-then-wait", wait > kill && wait > work, at, "the catacomb does not wait for its workers after its work has finished (%s)", q.Kind)
			c.want("work-then-kill-then-wait", q.Kind != "ret" || len(q.Res) == 1 && q.Res[0].isNil() || kill >= 0, at, "")
			for i, e := range q.Events {
				if i > wait && wait >= 0 && (e.Go != nil || e.Kind == EvWgAdd) {
					c.fail("work-then-kill-then-wait", m.atE(e, q), "goroutines are started after the catacomb has waited for them")
				}
				if blocking(e) && i != wait {
					c.want("no-endless-wait", false, m.atE(e, q), "%s can keep the catacomb from dying", describe(e))
				}
			}
		}
	}
	// blocking operations of the catacomb's other goroutines
	for _, r := range cm.tree {
		if r == cm.inv {
			for _, q := range r.Paths {
				for _, e := range q.Events {
					c.want("no-endless-wait", !blocking(e), m.atE(e, q), "Invoke may block: %s", describe(e))
				}
			}
			continue
		}
		if ev := cm.launchEv[r]; ev != nil && ev.Go.Kind == "tomb" {
			continue
		}
		walkRootPaths(r, func(q *Path) {
			dyingSeen := false
			for _, e := range q.Events {
				if !blocking(e) {
					continue
				}
				ok := e.Kind == EvRecv && (cm.isDying(e.T[0]) || closedByWait(cm, e.T[0]))
				if e.Kind == EvSelect {
					for _, cs := range e.Cases {
						ok = ok || !cs.Send && cm.isDying(cs.Ch)
					}
				}
				c.want("no-endless-wait", ok, m.atE(e, q), "%s in a goroutine of the catacomb does not end when the catacomb is dying", describe(e))
				if ok && e.isRecv() && cm.isDying(e.recvOn()) {
					c.want("no-endless-wait", q.Kind != "iter" || dyingSeen, m.atE(e, q), "a goroutine of the catacomb goes on when the catacomb is dying")
				}
			}
		})
	}
	// a goroutine that watches one worker also ends when that worker does
	for _, r := range cm.tree {
		ev := cm.launchEv[r]
		if ev == nil || ev.Go.Kind == "tomb" {
			continue
		}
		eachEvent(r, func(q *Path, e *Event) {
			if !blocking(e) || e.Kind == EvSelect && hasAdds(cm, e) {
				return
			}
			ok := e.Kind == EvRecv && closedByWait(cm, e.T[0])
			if e.Kind == EvSelect {
				for _, cs := range e.Cases {
					if !cs.Send && cs.Ch.k == KAlloc && closedSomewhere(cm, cs.Ch) {
						ok = true
					}
					if !cs.Send && cs.Ch.k == KRes {
						ok = true
					}
				}
			}
			c.want("watch-ends-with-worker", ok, m.atE(e, q), "the goroutine that watches a worker does not end when the worker does")
		})
	}
}

func hasAdds(cm *catModel, e *Event) bool {
	for _, cs := range e.Cases {
		if cs.Ch.isField(cm.adds) {
			return true
		}
	}
	return false
}

// closedSomewhere: some goroutine of the catacomb closes the channel, on all
// its paths.
func closedSomewhere(cm *catModel, ch *Term) bool {
	for _, r := range cm.tree {
		if !closes(r, ch) {
			continue
		}
		for _, q := range r.Paths {
			n := 0
			for _, e := range q.Events {
				if e.Kind == EvClose && e.T[0] == ch {
					n++
				}
			}
			if n != 1 && q.Kind != "panic" {
				return false
			}
		}
		return true
	}
	return false
}

// closedByWait: receiving from the channel amounts to waiting for a worker,
// which the catacomb has killed by then (see P02): it is closed by a goroutine
// that does nothing else that may block.
func closedByWait(cm *catModel, ch *Term) bool {
	if ch.k != KAlloc || !closedSomewhere(cm, ch) {
		return false
	}
	for _, r := range cm.tree {
		if !closes(r, ch) {
			continue
		}
		ok := true
		eachEvent(r, func(q *Path, e *Event) {
			ok = ok && !blocking(e)
		})
		for _, q := range r.Paths {
			waits := false
			for _, e := range q.Events {
				waits = waits || e.Kind == EvCall && e.Method == "Wait"
			}
			ok = ok && waits
		}
		if !ok {
			return false
		}
	}
	return true
}

func insideIter(q *Path) bool { return q.Kind == "iter" }

func usesWg(cm *catModel, r *Root) bool {
	f := false
	eachEvent(r, func(p *Path, e *Event) {
		if e.Kind == EvWgDone && cm.isWg(e.T[0]) {
			f = true
		}
	})
	return f
}

// touches: the goroutine acts for the catacomb (kills its tomb or workers, or
// receives workers).
func touches(cm *catModel, r *Root) bool {
	f := false
	eachEvent(r, func(p *Path, e *Event) {
		if e.Kind == EvKill || e.Kind == EvCall && e.Method == "Kill" || e.isRecv() && e.recvOn().isField(cm.adds) || e.Kind == EvWgAdd {
			f = true
		}
	})
	return f
}

// doneOnce: each path of the goroutine uncounts it n times, last.
func (cm *catModel) doneOnce(c *Check, b *Root, n int) {
	m := cm.m
	for _, q := range b.Paths {
		if q.Kind == "panic" {
			continue
		}
		k, last := 0, -1
		for i, e := range q.Events {
			if e.Kind == EvWgDone && cm.isWg(e.T[0]) {
				k++
				last = i
			}
			if e.Loop != nil {
				walk([]*Event{e}, func(x *Event) {
					if x != e && x.Kind == EvWgDone && cm.isWg(x.T[0]) {
						k += 2
					}
				})
			}
		}
		c.want("uncounted-once-last", k == n, m.atP(b.Fn, q), "a goroutine of the catacomb is uncounted %d times on a path that ends by %s", k, q.Kind)
		if k == 1 && n == 1 {
			for _, e := range q.Events[last+1:] {
				bad := blocking(e) || e.Kind == EvKill || e.Kind == EvCall && (e.Method == "Kill" || e.Method == "Wait") || e.Go != nil || e.Kind == EvWgAdd
				c.want("uncounted-once-last", !bad, m.atE(e, q), "a goroutine still acts (%s) after it was uncounted: the catacomb can be dead already", describe(e))
			}
		}
	}
}

// checkDead: Wait, Dead and so on are the tomb's.
func checkDead(c *Check, R string, cm *catModel) {
	m := c.M
	c.rule(R, 3)
	for _, n := range []string{"Wait", "Dead", "Dying", "Err", "Context"} {
		f := m.method(pkgCat, "Catacomb", n)
		r := m.root(f)
		for _, p := range r.Paths {
			at := m.atP(f, p)
			if p.Kind != "ret" || len(p.Res) != 1 {
				c.fail(R, at, "%s can end by %s", n, p.Kind)
				continue
			}
			x := p.Res[0]
			ok := false
			switch n {
			case "Wait":
				ws := evs(p.Events, EvTWait)
				ok = len(ws) >= 1 && cm.isTomb(ws[0].T[0]) && knownEqual(p, x, ws[0].Res)
			case "Dead":
				ok = x.k == KCall && x.op == "tomb.Dead" && cm.isTomb(x.args[0])
			case "Dying":
				ok = cm.isDying(x)
			case "Err":
				ok = x.k == KRes && x.op == "tomb.Err" && cm.isTomb(x.args[0]) || x == m.extErr("gopkg.in/tomb.v2", "ErrStillAlive") && notDyingSeen(p, cm)
			case "Context":
				ok = x.k == KCall && x.op == "tomb.Context" && cm.isTomb(x.args[0]) && (x.args[1] == r.Args[1] || p.implies(mkEq(r.Args[1], tNil), true))
			}
			c.want(R, ok, at, "%s does not give the tomb's answer", n)
		}
	}
}

func notDyingSeen(p *Path, cm *catModel) bool {
	for _, e := range p.Events {
		if e.Kind == EvNotDie && cm.isTomb(e.T[0]) {
			return true
		}
	}
	return false
}

// P04 ---------------------------------------------------------------------------

type errWorld struct {
	name string
	lits []Fact
	ok   func(v *Term) bool
	want string
}

// worlds: what an error given to the catacomb can be.
func (cm *catModel) worlds(src, self *Term) []errWorld {
	m := cm.m
	ed := m.extErr("gopkg.in/tomb.v2", "ErrDying")
	e := src
	for isErrWrap(e) {
		e = e.args[0]
	}
	as := mk(KCall, "errors.As", 0, typKey(cm.dyingT), boolT, e)
	val := mk(KCall, "errors.As/val", 0, typKey(cm.dyingT), cm.dyingT, e)
	own := tFalse
	s := structOf(cm.dyingT)
	for i := 0; i < s.NumFields(); i++ {
		if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), cm.T) {
			own = mkEq(self, mkFld(val, cm.dyingT, i))
		}
	}
	is := m.ip.errorsIs(e, ed)
	if is == tTrue || is == tFalse {
		is = mkEq(e, ed)
	}
	isNil := mkEq(src, tNil)
	return []errWorld{
		{"no error", []Fact{lit(isNil, true), lit(mkEq(src, ed), false), lit(is, false), lit(as, false)}, func(v *Term) bool { return v.isNil() || v == src }, "no error"},
		{"tomb.ErrDying", []Fact{lit(isNil, false), lit(mkEq(src, ed), true), lit(is, true), lit(as, false)}, func(v *Term) bool { return isErrMake(v) }, "an error about the misuse"},
		{"its own ErrDying", []Fact{lit(isNil, false), lit(mkEq(src, ed), false), lit(is, false), lit(as, true), lit(own, true)}, func(v *Term) bool { return v == ed }, "tomb.ErrDying"},
		{"another catacomb's ErrDying", []Fact{lit(isNil, false), lit(mkEq(src, ed), false), lit(is, false), lit(as, true), lit(own, false)}, func(v *Term) bool { return isErrMake(v) }, "an error about the misuse"},
		{"another error", []Fact{lit(isNil, false), lit(mkEq(src, ed), false), lit(is, false), lit(as, false)}, func(v *Term) bool { return v == src }, "that very error"},
	}
}

func allowsW(p *Path, w errWorld) bool {
	for _, l := range w.lits {
		if l.A == tTrue && !l.V || l.A == tFalse && l.V {
			return false
		}
	}
	var ls []Fact
	for _, l := range w.lits {
		if l.A != tTrue && l.A != tFalse {
			ls = append(ls, l)
		}
	}
	return p.allows(ls...)
}

func ruleP04(c *Check) {
	m := c.M
	cm := m.catacomb()
	c.rule("kill-table", 5)
	c.rule("worker-error-kills", 4)
	c.rule("clean-worker-exit-ignored", 1)
	c.rule("work-result-kills", 4)
	c.rule("err-dying", 2)
	c.rule("add-result", 2)
	if cm.dyingT == nil {
		c.fail("err-dying", m.atS("ErrDying"), "ErrDying never returns an error that identifies the catacomb")
		return
	}
	// judge the value the tomb is killed with
	judge := func(R string, q *Path, e *Event, src, self *Term) {
		for _, w := range cm.worlds(src, self) {
			if !allowsW(q, w) {
				continue
			}
			v := e.T[1]
			c.want(R, w.ok(v), m.atE(e, q), "killed with %s, the catacomb passes on %s instead of %s", w.name, v, w.want)
		}
	}
	// Kill itself
	k := m.root(m.method(pkgCat, "Catacomb", "Kill"))
	for _, p := range k.Paths {
		ks := evs(p.Events, EvKill)
		ok := len(ks) == 1 && cm.isTomb(ks[0].T[0]) && ks[0].T[0].args[0] == k.Args[0] && p.Kind == "ret"
		if !c.want("kill-table", ok, m.atP(k.Fn, p), "Kill does not kill the catacomb's tomb exactly once") {
			continue
		}
		judge("kill-table", p, ks[0], k.Args[1], k.Args[0])
		for _, e := range p.Events {
			c.want("kill-table", !blocking(e), m.atE(e, p), "Kill may block")
		}
	}
	// workers and work
	for _, r := range cm.roots() {
		for _, q := range r.Paths {
			if q.Kind == "panic" {
				continue
			}
			var srcs, works []*Event
			for _, e := range q.Events {
				if e.Kind == EvCall && e.Method == "Wait" {
					srcs = append(srcs, e)
				}
				if e.Kind == EvCall && e.Name == "dyn" && e.T[0] == cm.work {
					works = append(works, e)
				}
			}
			if cm.parent[r] == nil {
				continue
			}
			kills := evs(q.Events, EvKill)
			for _, e := range works {
				if q.Kind != "ret" || e.Res == nil {
					continue
				}
				if wasPanic(q) {
					continue
				}
				if c.want("work-result-kills", len(kills) == 1 && cm.isTomb(kills[0].T[0]), m.atE(e, q), "the work's result kills the catacomb's tomb %d times", len(kills)) {
					judge("work-result-kills", q, kills[0], e.Res, cm.site)
				}
				c.want("work-result-kills", len(q.Res) == 1 && (q.Res[0].isNil() || len(kills) == 1 && q.Res[0] == kills[0].T[1]), m.atP(r.Fn, q), "the tomb's goroutine ends with another error than the one passed to Kill")
			}
			if len(works) > 0 {
				continue
			}
			if len(srcs) == 0 {
				for _, e := range kills {
					c.fail("worker-error-kills", m.atE(e, q), "the catacomb is killed although neither its work nor a worker has finished")
				}
				continue
			}
			// A goroutine which stops a worker because the catacomb is dying
			// may ignore its error: another one waits for the worker too.
			killed := false
			for _, e := range q.Events {
				if e.Kind == EvCall && e.Method == "Kill" {
					killed = true
				}
			}
			if killed && len(kills) == 0 && otherWaiter(cm, r, srcs[0].T[0]) {
				continue
			}
			e := srcs[len(srcs)-1]
			if q.allows(lit(mkEq(e.Res, tNil), true)) {
				c.want("clean-worker-exit-ignored", len(kills) == 0, m.atE(e, q), "a worker which finishes without error kills the catacomb")
			}
			if q.allows(lit(mkEq(e.Res, tNil), false)) {
				if c.want("worker-error-kills", len(kills) == 1 && cm.isTomb(kills[0].T[0]), m.atE(e, q), "a worker's error does not kill the catacomb") {
					judge("worker-error-kills", q, kills[0], e.Res, cm.site)
					after := false
					for _, x := range q.Events {
						if x == kills[0] {
							after = true
						}
						if !after && (x.Kind == EvWgDone || x.Kind == EvClose) {
							c.fail("worker-error-kills", m.atE(x, q), "the goroutine of a failed worker signals its end before the error is recorded, which can be lost")
						}
					}
				}
			}
		}
	}
	// ErrDying
	ed := m.root(m.method(pkgCat, "Catacomb", "ErrDying"))
	isOwn := func(x, self *Term) bool {
		if x.k != KMkI || x.typ == nil || !types.Identical(x.typ, cm.dyingT) {
			return false
		}
		return x.args[0].k == KStruct && hasArg(x.args[0], self) || x.args[0] == self
	}
	for _, p := range ed.Paths {
		at := m.atP(ed.Fn, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("err-dying", at, "ErrDying can end by %s", p.Kind)
			continue
		}
		for _, e := range p.Events {
			c.want("err-dying", !blocking(e), m.atE(e, p), "ErrDying may block")
		}
		if p.implies(dyingAtomOf(p, cm), true) {
			c.want("err-dying", isOwn(p.Res[0], ed.Args[0]), at, "ErrDying of a dying catacomb does not identify that catacomb")
		} else {
			c.want("err-dying", isErrMake(p.Res[0]) && notDyingSeen(p, cm), at, "ErrDying of a catacomb that may be alive is not an error about the misuse")
		}
	}
	// Add
	w := cm.add.Args[1]
	for _, p := range cm.add.Paths {
		if p.Kind != "ret" || len(p.Res) != 1 {
			continue
		}
		var res *Term
		for _, e := range p.Events {
			if isMethodCall(e, "Wait", w) {
				res = e.Res
			}
			if blocking(e) {
				ok := false
				for _, cs := range e.Cases {
					ok = ok || !cs.Send && cm.isDying(cs.Ch)
				}
				c.want("add-result", ok || e.Kind == EvRecv && cm.isDying(e.T[0]), m.atE(e, p), "Add can block although the catacomb is dying")
			}
		}
		if res == nil {
			continue
		}
		at := m.atP(cm.add.Fn, p)
		if p.allows(lit(mkEq(res, tNil), false)) {
			c.want("add-result", sameErr(p.Res[0], res), at, "Add loses the error of a worker it had to stop")
		}
		if p.allows(lit(mkEq(res, tNil), true)) {
			c.want("add-result", isOwn(p.Res[0], cm.add.Args[0]), at, "Add to a dying catacomb does not return the catacomb's ErrDying")
		}
	}
	checkDead(c, "delegation", cm)
}

func hasArg(t, x *Term) bool {
	for _, a := range t.args {
		if a == x {
			return true
		}
	}
	return false
}

// otherWaiter: a goroutine other than r waits for the worker, and reports.
func otherWaiter(cm *catModel, r *Root, w *Term) bool {
	for _, b := range cm.tree {
		if b == r || cm.parent[b] != cm.parent[r] {
			continue
		}
		for _, q := range b.Paths {
			kill, wait := false, false
			for _, e := range q.Events {
				kill = kill || isMethodCall(e, "Kill", w)
				wait = wait || isMethodCall(e, "Wait", w)
			}
			if wait && !kill {
				return true
			}
		}
	}
	return false
}

// wasPanic: the path recovered a panic.
func wasPanic(q *Path) bool {
	for a := range q.Facts {
		if a.contains(isPanicVal) {
			return true
		}
	}
	return false
}

func isPanicVal(t *Term) bool {
	return t.k == KSym && strings.HasPrefix(t.op, "panicval") || t.k == KRes && t.op == "panicval"
}

// P05 ---------------------------------------------------------------------------

func ruleP05(c *Check) {
	m := c.M
	cm := m.catacomb()
	c.rule("panic-recovered", 1)
	c.rule("panic-becomes-error", 1)
	c.rule("panic-error-describes", 1)
	n := 0
	for _, g := range m.gos(cm.inv) {
		if g.Go.Kind != "tomb" {
			continue
		}
		b := m.body(cm.inv, g)
		for _, q := range b.Paths {
			at := m.atP(b.Fn, q)
			c.want("panic-recovered", q.Kind != "panic", at, "a panic in the work function is not recovered")
			if q.Kind != "ret" || !wasPanic(q) {
				continue
			}
			n++
			ks := evs(q.Events, EvKill)
			if !c.want("panic-becomes-error", len(ks) == 1 && cm.isTomb(ks[0].T[0]), at, "a panic in the work function does not kill the catacomb exactly once") {
				continue
			}
			v := ks[0].T[1]
			ok := v.k == KMkI && v.typ != nil
			if !c.want("panic-becomes-error", ok, m.atE(ks[0], q), "after a panic the catacomb is killed with %s, which is not an error that tells of the panic", v) {
				continue
			}
			f := lookupMethod(m, v.typ, "Panicked")
			c.want("panic-becomes-error", f != nil && m.alwaysReturns(mk(KFunc, "", 0, f, f.Type()), tTrue), m.atE(ks[0], q), "the error made from a panic does not report Panicked")
			// content
			var content []*Term
			if v.args[0].k == KAlloc {
				for a, x := range q.St.mem {
					if rootOf(a) == v.args[0] {
						content = append(content, x)
					}
				}
			} else {
				content = append(content, v.args[0])
			}
			pv, st := false, false
			for _, x := range content {
				pv = pv || x.contains(isPanicVal)
				st = st || x.contains(func(t *Term) bool {
					return (t.k == KCall || t.k == KRes) && (strings.Contains(t.op, "debug.Stack") || strings.Contains(t.op, "runtime.Stack")) || t.k == KRes && isStackCall(t)
				})
			}
			c.want("panic-error-describes", pv, m.atE(ks[0], q), "the error made from a panic does not contain the panic value")
			c.want("panic-error-describes", st, m.atE(ks[0], q), "the error made from a panic does not contain the stack")
			if tr := lookupMethod(m, v.typ, "StackTrace"); c.want("panic-error-describes", tr != nil, m.atE(ks[0], q), "the error made from a panic has no stack trace") {
				r := m.root(tr)
				some := false
				for _, p := range r.Paths {
					if p.Kind == "ret" && len(p.Res) == 1 && p.Res[0].contains(func(t *Term) bool {
						return (t.k == KInit || t.k == KFld) && t.typ != nil && (isString(t.typ) || isBytes(t.typ))
					}) {
						some = true
					}
				}
				c.want("panic-error-describes", some, m.atFn(tr, ""), "the stack trace of an error made from a panic does not contain the stack")
			}
		}
	}
	c.want("panic-becomes-error", n > 0, m.atFn(cm.inv.Fn, ""), "no path recovers from a panic in the work function")
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isStackCall(t *Term) bool {
	in, ok := t.obj.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := in.Common().StaticCallee()
	return f != nil && (extName(f) == "runtime/debug.Stack" || extName(f) == "runtime.Stack")
}

func lookupMethod(m *Model, t types.Type, name string) *ssa.Function {
	ms := m.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if o, ok := ms.At(i).Obj().(*types.Func); ok {
				if f := m.prog.FuncValue(o); f != nil && f.Blocks != nil {
					return f
				}
			}
		}
	}
	return nil
}

// P06 ---------------------------------------------------------------------------

func ruleP06(c *Check) {
	m := c.M
	cm := m.catacomb()
	c.rule("touch-only-after-winning", 2)
	c.rule("failure-leaves-alone", 2)
	c.rule("invoke-result", 3)
	c.rule("validate", 4)
	mine := func(e *Event) bool {
		switch e.Kind {
		case EvStore:
			return rootOf(e.T[0]) == cm.site
		case EvKill, EvWgAdd, EvWgDone, EvWgWait:
			return true
		}
		return e.Go != nil
	}
	for _, p := range cm.inv.Paths {
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("invoke-result", m.atP(cm.inv.Fn, p), "Invoke can end by %s", p.Kind)
			continue
		}
		won := -1
		valid := p.implies(mkEq(cm.site, tNil), false) && p.implies(mkEq(cm.work, tNil), false) && p.implies(mkEq(cm.name, mkStr("")), false)
		checkedInit := -1
		for i, e := range p.Events {
			if e.Kind == EvCAS && rootOf(e.T[0]) == cm.site {
				won = i
				zero := e.T[1] == mkInt(0) || e.T[1] == tFalse || e.T[1].isConst("0") || e.T[1].isConst("false")
				c.want("touch-only-after-winning", zero && e.T[2] != e.T[1], m.atE(e, p), "the exchange on the catacomb does not change it from unused to used")
			}
			if li, el := initLoop(e, cm.init); li != nil && e.Exh && checkedInit < 0 {
				ok := true
				for _, it := range li.Iters {
					ok = ok && it.implies(mkEq(el, tNil), false)
				}
				if ok {
					checkedInit = i
				}
			}
		}
		v, known := p.St.eval(mkEq(p.Res[0], tNil))
		if !known {
			c.fail("invoke-result", m.atP(cm.inv.Fn, p), "whether Invoke succeeds is not decided by its own checks")
			continue
		}
		if v {
			c.want("invoke-result", won >= 0, m.atP(cm.inv.Fn, p), "Invoke succeeds without having claimed the catacomb atomically, so that it can be used twice")
			c.want("invoke-result", valid && checkedInit >= 0 && checkedInit < won, m.atP(cm.inv.Fn, p), "Invoke accepts a plan it has not validated")
			gos := 0
			for _, e := range p.Events {
				if e.Go != nil && e.Go.Kind == "tomb" {
					gos++
				}
			}
			c.want("invoke-result", gos == 1, m.atP(cm.inv.Fn, p), "Invoke succeeds and starts the work %d times", gos)
		} else {
			c.want("invoke-result", won < 0, m.atP(cm.inv.Fn, p), "Invoke claims the catacomb and then fails")
			for _, e := range p.Events {
				walk([]*Event{e}, func(x *Event) {
					if mine(x) {
						c.fail("failure-leaves-alone", m.atE(x, p), "a failing Invoke acts on a catacomb it does not own (%s)", describe(x))
					}
				})
			}
			c.want("failure-leaves-alone", true, m.atP(cm.inv.Fn, p), "")
			// a failure has a reason
			reason := p.implies(mkEq(cm.site, tNil), true) || p.implies(mkEq(cm.work, tNil), true) || p.implies(mkEq(cm.name, mkStr("")), true)
			for _, e := range p.Events {
				if li, el := initLoop(e, cm.init); li != nil && p.implies(mkEq(el, tNil), true) {
					reason = true
				}
			}
			if !reason {
				// then it must be the lost exchange
				reason = valid && checkedInit >= 0
			}
			c.want("invoke-result", reason, m.atP(cm.inv.Fn, p), "Invoke refuses a plan although nothing is known to be wrong with it")
		}
		for i, e := range p.Events {
			if i <= won {
				walk([]*Event{e}, func(x *Event) {
					if x.Kind != EvCAS && mine(x) {
						c.fail("touch-only-after-winning", m.atE(x, p), "Invoke acts on the catacomb before it has claimed it")
					}
				})
			}
		}
		c.want("touch-only-after-winning", true, m.atP(cm.inv.Fn, p), "")
	}
	// nothing else resets the claim
	for _, r := range cm.roots() {
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind == EvStore && e.T[0].k == KFldA && e.T[0].obj == typeObj(cm.T) && e.T[0].op != cm.adds.Name {
				c.fail("touch-only-after-winning", m.atE(e, p), "%s is overwritten, which can undo the claim on the catacomb", e.T[0])
			}
			if e.Kind == EvCAS && r != cm.inv {
				c.fail("touch-only-after-winning", m.atE(e, p), "the claim on the catacomb is changed outside Invoke")
			}
			if e.Kind == EvCall && strings.Contains(e.Name, "sync/atomic") && len(e.T) > 0 && e.T[0].k == KFldA && e.T[0].obj == typeObj(cm.T) {
				c.fail("touch-only-after-winning", m.atE(e, p), "the claim on the catacomb is changed outside the exchange")
			}
		})
	}
	// Validate
	vf := m.method(pkgCat, "Plan", "Validate")
	vr := m.root(vf)
	pl := vr.Args[0]
	pt := m.named(pkgCat, "Plan")
	st := structOf(pt)
	f := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		f[st.Field(i).Name()] = mkFld(pl, pt, i)
	}
	bad := map[string]*Term{"Name": mkEq(f["Name"], mkStr("")), "Site": mkEq(f["Site"], tNil), "Work": mkEq(f["Work"], tNil)}
	for _, p := range vr.Paths {
		at := m.atP(vf, p)
		if p.Kind != "ret" || len(p.Res) != 1 {
			c.fail("validate", at, "Validate can end by %s", p.Kind)
			continue
		}
		if p.Res[0].isNil() {
			for _, n := range []string{"Name", "Site", "Work"} {
				c.want("validate", p.implies(bad[n], false), at, "Validate accepts a plan without %s", n)
			}
			ok := false
			for _, e := range p.Events {
				if li, el := initLoop(e, f["Init"]); li != nil && e.Exh {
					ok = true
					for _, it := range li.Iters {
						ok = ok && it.implies(mkEq(el, tNil), false)
					}
				}
			}
			c.want("validate", ok, at, "Validate accepts a plan with a nil worker")
			continue
		}
		c.want("validate", isErrMake(stripErr(p.Res[0])), at, "Validate does not say that the plan is not valid")
		k, isNV := makerKind[stripErr(p.Res[0]).op]
		c.want("validate", isNV && k == `"not valid"`, at, "Validate's error is not a NotValid error")
		reason := false
		for _, n := range []string{"Name", "Site", "Work"} {
			reason = reason || p.implies(bad[n], true)
		}
		for _, e := range p.Events {
			if li, el := initLoop(e, f["Init"]); li != nil && p.implies(mkEq(el, tNil), true) {
				reason = true
			}
		}
		c.want("validate", reason, at, "Validate refuses a plan although nothing is wrong with it")
	}
}

func stripErr(t *Term) *Term {
	for isErrWrap(t) {
		t = t.args[0]
	}
	return t
}

// extErr is the content of another package's error variable.
func (m *Model) extErr(pkg, name string) *Term {
	t := m.ip.globalLoad(newState(), pkg, name)
	if t == nil {
		panic(undecided{pkg + "." + name + " not found"})
	}
	return t
}
