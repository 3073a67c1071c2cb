package main

import (
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worlds --------------------------------------------------------------------

// allows reports whether the path's facts are consistent with the literals.
func (p *Path) allows(lits ...Fact) bool {
	s := p.St.clone()
	for _, l := range lits {
		if !s.assume(l.A, l.V) {
			return false
		}
	}
	return true
}

func lit(a *Term, v bool) Fact {
	for a.k == KOp && a.op == "!" {
		a, v = a.args[0], !v
	}
	return Fact{a, v}
}

func cat(a ...[]Fact) []Fact {
	var out []Fact
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

// mark is a value a field of an entry takes when its worker is asked to stop.
type mark struct {
	F *FieldRef
	V *Term
}

// marks infers what records that an id has been asked to stop: the fields of
// its entry which get the same constant on every way of handling a stop
// request, different from the value they start with.
func (rm *runnerModel) marks(c *Check) []mark {
	// What every stop request leaves behind; then also what is left behind by
	// those which find nothing of that yet.
	return rm.marksGiven(rm.marksGiven(nil))
}

func (rm *runnerModel) marksGiven(sure []mark) []mark {
	var out []mark
	for _, f := range leafFields(rm.entryT) {
		if structOf(f.Typ) != nil {
			continue
		}
		var v *Term
		ok, n := true, 0
		for _, t := range rm.kind("stop") {
			e := rm.entry(rm.li.Start, t.id())
			if t.implies(mkEq(e, tNil), true) {
				continue
			}
			n++
			x := rm.entryField(t.P.St, e, f)
			if x == rm.entryField(rm.li.Start, e, f) && rm.wasMarked(t.P, rm.li.Start, e, sure) {
				continue
			}
			if x.k != KConst {
				// a path which has seen the mark already set
				if y, known := constUnder(t.P, x); known {
					x = y
				}
			}
			if x.k != KConst || v != nil && v != x {
				ok = false
				break
			}
			v = x
		}
		if !ok || n == 0 || v == nil {
			continue
		}
		// the initial value
		for _, t := range rm.kind("start") {
			for _, e := range evs(t.Evs, EvMapSet) {
				if e.T[0] == rm.mapT && rm.entryField(t.P.St, e.T[2], f) == v {
					ok = false
				}
			}
		}
		if ok {
			out = append(out, mark{f, v})
		}
	}
	return out
}

// constUnder gives the constant a term is known to equal on the path.
func constUnder(p *Path, x *Term) (*Term, bool) {
	if v, known := p.St.eval(x); known && x.typ != nil && isBool(x.typ) {
		return mkBool(v), true
	}
	if v, known := p.St.eval(mkEq(x, tNil)); known && v {
		return tNil, true
	}
	return nil, false
}

func (rm *runnerModel) markedLits(st *State, entry *Term, ms []mark, v bool) []Fact {
	var out []Fact
	for _, m := range ms {
		out = append(out, lit(mkEq(rm.entryField(st, entry, m.F), m.V), v))
	}
	return out
}

// wasMarked: the path is only taken by entries that were asked to stop before,
// and so have all the marks (marks-persist).
func (rm *runnerModel) wasMarked(p *Path, st0 *State, entry *Term, ms []mark) bool {
	for _, f := range rm.markedLits(st0, entry, ms, true) {
		if p.implies(f.A, f.V) {
			return true
		}
	}
	return false
}

func (rm *runnerModel) dyingTerm() *Term { return rm.field(rm.li.Start, rm.dying) }

// sit is a situation of an entry: dying or not, asked to stop or not. A
// dying runner has asked every entry to stop (rule P09), so three remain.
type sit struct {
	name          string
	dying, marked bool
}

var sits = []sit{{"running", false, false}, {"stopped", false, true}, {"dying", true, true}}

func (rm *runnerModel) sitLits(s sit, entry *Term, ms []mark) []Fact {
	return append(rm.markedLits(rm.li.Start, entry, ms, s.marked), lit(rm.dyingTerm(), s.dying), lit(mkEq(entry, tNil), false))
}

// entry events ----------------------------------------------------------------

func (rm *runnerModel) inserts(es []*Event) []*Event {
	var out []*Event
	for _, e := range deep(es, EvMapSet) {
		if rm.isWorkersMap(e.T[0]) {
			out = append(out, e)
		}
	}
	return out
}

func (rm *runnerModel) removes(es []*Event) []*Event {
	var out []*Event
	for _, e := range deep(es, EvMapDel) {
		if rm.isWorkersMap(e.T[0]) {
			out = append(out, e)
		}
	}
	return out
}

func (rm *runnerModel) launchesOf(t *Trans) []launch {
	var out []launch
	seen := map[*Event]bool{}
	for _, l := range rm.launches {
		if l.T == t && !seen[l.E] {
			seen[l.E] = true
			out = append(out, l)
		}
	}
	return out
}

// entryStores lists the stores to a field of an entry.
func entryStores(es []*Event, f *FieldRef) []*Event {
	var out []*Event
	for _, e := range deep(es, EvStore) {
		a := e.T[0]
		if a.k == KFldA && f != nil && a.obj == f.Obj && a.op == f.Name {
			out = append(out, e)
		}
	}
	return out
}

func allEvs(t *Trans) []*Event { return append(append([]*Event(nil), t.Pre...), t.Evs...) }

// fieldsCalls: calls of the function held in a field of the parameters.
func paramCall(e *Event, name string) bool {
	if e.Kind != EvCall || e.Name != "dyn" {
		return false
	}
	_, _, n, ok := e.T[0].field()
	return ok && n == name
}

// roots of the runner's API.
func (rm *runnerModel) api() []*Root {
	var out []*Root
	for _, f := range rm.m.exportedMethods(pkgRoot, "Runner") {
		out = append(out, rm.m.root(f))
	}
	return out
}

func (rm *runnerModel) allRoots() []*Root {
	seen := map[*Root]bool{}
	var out []*Root
	add := func(rs []*Root) {
		for _, r := range rs {
			if !seen[r] {
				seen[r] = true
				out = append(out, r)
			}
		}
	}
	add(rm.m.tree(rm.ctor))
	for _, r := range rm.api() {
		add(rm.m.tree(r))
	}
	return out
}

func eachEvent(r *Root, f func(p *Path, e *Event)) {
	for _, p := range r.Paths {
		walk(p.Events, func(e *Event) { f(p, e) })
	}
}

// P07 ---------------------------------------------------------------------------

func init() {
	register("P07", "Runner: at most one instance of a worker id at any time",
		"typestate over the event loop's transitions (path-sensitive abstract interpretation of SSA): a goroutine that calls the id's StartFunc is launched only when the id has no entry, or when its previous goroutine has reported completion; that goroutine starts at most one worker, waits for it, and reports completion exactly once, last; the entry map is written only by the event loop",
		ruleP07)
}

func ruleP07(c *Check) { c.M.runner().ledger(c) }

// ledger: every goroutine that runs a worker has its entry, from the moment
// it is launched until it reports that the worker has finished.
func (rm *runnerModel) ledger(c *Check) {
	c.rule("launch-follows-insert", 1)
	c.rule("one-outcome-per-completion", 2)
	c.rule("no-launch-elsewhere", 1)
	c.rule("worker-goroutine-protocol", 4)
	c.rule("map-written-by-loop-only", 1)
	for _, t := range rm.tr {
		ls := rm.launchesOf(t)
		ins, rem := rm.inserts(allEvs(t)), rm.removes(allEvs(t))
		switch t.Kind {
		case "start":
			e := rm.entry(rm.li.Start, t.id())
			for _, l := range ls {
				c.want("launch-follows-insert", t.implies(mkEq(e, tNil), true), t.at(l.E), "a start request launches the worker's goroutine although the id may already have an entry")
				ok := len(ins) == 1 && ins[0].T[0] == rm.mapT && ins[0].T[1] == t.id()
				c.want("launch-follows-insert", ok, t.at(l.E), "a start request launches the worker's goroutine without installing exactly one entry for the id")
				c.want("launch-follows-insert", len(ls) == 1, t.at(l.E), "a start request launches %d goroutines", len(ls))
				c.want("launch-follows-insert", launchID(l, t.id()), t.at(l.E), "the goroutine is not told the id of the start request")
				c.want("launch-follows-insert", len(l.E.Go.Args) == 0 || true, t.at(l.E), "")
			}
			for _, i := range ins {
				c.want("launch-follows-insert", len(ls) == 1, t.at(i), "an entry is installed without launching its goroutine")
				c.want("launch-follows-insert", !t.P.allows(lit(mkEq(e, tNil), false)), t.at(i), "an entry is installed over an existing one")
			}
			c.want("no-launch-elsewhere", len(rem) == 0, t.at(nil), "a start request removes an entry")
		case "done":
			e := rm.entry(rm.li.Start, t.id())
			_ = e
			n := len(rem) + len(ls)
			c.want("one-outcome-per-completion", n == 1, t.at(nil), "a completion leads to %d removals and %d restarts of its id; exactly one outcome is allowed", len(rem), len(ls))
			for _, r := range rem {
				c.want("one-outcome-per-completion", r.T[0] == rm.mapT && r.T[1] == t.id(), t.at(r), "a completion removes the entry of another id")
			}
			for _, l := range ls {
				c.want("one-outcome-per-completion", launchID(l, t.id()), t.at(l.E), "a completion restarts another id")
			}
			c.want("no-launch-elsewhere", len(ins) == 0, t.at(nil), "a completion installs an entry")
		default:
			c.want("no-launch-elsewhere", len(ls) == 0, t.at(nil), "a %q event launches a worker's goroutine", t.Kind)
			c.want("no-launch-elsewhere", len(ins) == 0 && len(rem) == 0, t.at(nil), "a %q event changes the set of entries while the goroutines remain", t.Kind)
		}
	}
	seen := map[*Root]bool{}
	for _, l := range rm.launches {
		if !seen[l.Body] {
			seen[l.Body] = true
			rm.workerGoroutine(c, l)
		}
	}
	// Nothing else starts workers or changes the map.
	bodies := map[*Root]bool{}
	for _, l := range rm.launches {
		bodies[l.Body] = true
	}
	for _, r := range rm.allRoots() {
		if r == rm.loop {
			continue
		}
		eachEvent(r, func(p *Path, e *Event) {
			if (e.Kind == EvMapSet || e.Kind == EvMapDel || e.Kind == EvMapBad) && rm.isWorkersMap(e.T[0]) {
				c.fail("map-written-by-loop-only", c.M.atE(e, p), "the entry map is changed outside the event loop")
			}
			if isStartCall(e) && !bodies[r] {
				c.fail("no-launch-elsewhere", c.M.atE(e, p), "a start function is called outside the worker's goroutine")
			}
			if e.Kind == EvStore && e.T[0].k == KFldA && e.T[0].obj == rm.workers.Obj && e.T[0].op == rm.workers.Name {
				c.fail("map-written-by-loop-only", c.M.atE(e, p), "the entry map is replaced")
			}
			if (e.Kind == EvSend || e.Kind == EvSelect && e.Chosen >= 0 && e.Cases[e.Chosen].Send) && !bodies[r] {
				ch := e.sentOn()
				if k := rm.chanKind(ch); k == "done" || k == "started" {
					c.fail("worker-goroutine-protocol", c.M.atE(e, p), "a %q message is sent outside the worker's goroutine", k)
				}
			}
		})
		c.want("map-written-by-loop-only", true, c.M.atFn(r.Fn, ""), "")
	}
	// A start function called by the loop itself would not be covered by the
	// goroutine protocol.
	eachEvent(rm.loop, func(p *Path, e *Event) {
		if isStartCall(e) {
			c.fail("no-launch-elsewhere", c.M.atE(e, p), "a start function is called by the event loop")
		}
		if e.Kind == EvStore && e.T[0].k == KFldA && e.T[0].obj == rm.workers.Obj && e.T[0].op == rm.workers.Name {
			c.fail("map-written-by-loop-only", c.M.atE(e, p), "the entry map is replaced")
		}
		if e.Kind == EvMapBad && rm.isWorkersMap(e.T[0]) {
			c.fail("map-written-by-loop-only", c.M.atE(e, p), "the entry map is handed to code that may change it")
		}
	})
	// "started" must be handled before the "done" of the same goroutine.
	ch := rm.ctorChan(rm.startedc)
	c.want("worker-goroutine-protocol", ch != nil && ch.k == KAlloc && ch.op == "0", c.M.atFn(rm.ctor.Fn, "startedc"), "the channel announcing started workers is buffered, so a worker's completion can be handled before its start")
}

// sentOn is the channel of a send event.
func (e *Event) sentOn() *Term {
	if e.Kind == EvSelect {
		return e.Cases[e.Chosen].Ch
	}
	return e.T[0]
}

func (e *Event) sentVal() *Term {
	if e.Kind == EvSelect {
		return e.Cases[e.Chosen].Val
	}
	return e.T[1]
}

// isSend: the event sends on a channel (a chosen select case included).
func (e *Event) isSend() bool {
	return e.Kind == EvSend || e.Kind == EvSelect && e.Chosen >= 0 && e.Cases[e.Chosen].Send
}

func (e *Event) isRecv() bool {
	return e.Kind == EvRecv || e.Kind == EvSelect && e.Chosen >= 0 && !e.Cases[e.Chosen].Send
}

func (e *Event) recvOn() *Term {
	if e.Kind == EvSelect {
		return e.Cases[e.Chosen].Ch
	}
	return e.T[0]
}

func launchID(l launch, id *Term) bool {
	// every done message of the body carries the id
	ok, n := true, 0
	eachEvent(l.Body, func(p *Path, e *Event) {
		if e.isSend() {
			if x := part(e.sentVal(), isString); x != nil {
				n++
				if x != id {
					ok = false
				}
			}
		}
	})
	return ok && n > 0
}

// ctorChan is the channel the constructor puts in a field.
func (rm *runnerModel) ctorChan(f *FieldRef) *Term {
	var ch *Term
	for _, g := range rm.m.gos(rm.ctor) {
		if rm.m.body(rm.ctor, g) == rm.loop {
			x := g.Go.St.load(fieldAddr(rm.base, rm.T, f), f.Typ)
			if ch != nil && ch != x {
				return nil
			}
			ch = x
		}
	}
	return ch
}

// workerGoroutine checks the protocol of the goroutine that runs one worker.
func (rm *runnerModel) workerGoroutine(c *Check, l launch) {
	m := c.M
	const R = "worker-goroutine-protocol"
	c.rule(R, 4)
	for _, p := range l.Body.Paths {
		if p.Kind == "panic" || rm.afterDeath(p) {
			// the process dies, or the loop is not there any more, which
			// cannot be (P08): it stays until every goroutine has reported
			continue
		}
		var starts, started, waits, dones []int
		var startRes, startErr, waitRes *Term
		bad := false
		for i, e := range p.Events {
			switch {
			case isStartCall(e):
				starts = append(starts, i)
				if e.Res != nil && e.Res.k == KTuple {
					startRes, startErr = e.Res.args[0], e.Res.args[1]
				}
			case e.isSend() && rm.chanKind(e.sentOn()) == "started":
				started = append(started, i)
				w := part(e.sentVal(), isWorkerType)
				c.want(R, w != nil && w == startRes, m.atE(e, p), "the worker announced is not the one the start function returned")
			case e.isSend() && rm.chanKind(e.sentOn()) == "done":
				dones = append(dones, i)
			case e.Kind == EvCall && e.Method == "Wait":
				if e.T[0] == startRes {
					waits = append(waits, i)
					waitRes = e.Res
				}
			case e.Loop != nil:
				walk([]*Event{e}, func(x *Event) {
					if x != e && (isStartCall(x) || x.isSend() || x.Kind == EvCall && x.Method == "Wait") {
						bad = true
					}
				})
			}
		}
		at := m.atP(l.Body.Fn, p)
		if bad {
			c.fail(R, at, "a worker's goroutine repeats start, wait or reports in a loop")
			continue
		}
		c.want(R, len(starts) <= 1, at, "a worker's goroutine calls the start function %d times on one path", len(starts))
		c.want(R, len(dones) == 1, at, "a worker's goroutine reports completion %d times on a path that ends by %s; the id would be stuck or counted twice", len(dones), p.Kind)
		if len(dones) == 1 {
			for _, i := range append(append(append([]int(nil), starts...), started...), waits...) {
				c.want(R, i < dones[0], at, "a worker's goroutine still starts, announces or waits for its worker after reporting completion")
			}
		}
		if len(starts) == 1 && p.Kind == "ret" && startErr != nil {
			v, known := p.St.eval(mkEq(startErr, tNil))
			switch {
			case known && v:
				c.want(R, len(waits) >= 1 && waits[0] > starts[0], at, "a started worker is not waited for before its completion is reported")
				c.want(R, len(started) == 1, at, "a started worker is announced %d times", len(started))
				if len(started) == 1 && len(waits) > 0 {
					c.want(R, started[0] < waits[0], at, "a started worker is announced only after it has finished")
				}
			case known:
				c.want(R, len(started) == 0, at, "a worker which failed to start is announced as started")
			default:
				c.fail(R, at, "the start function's error is not examined")
			}
		}
		if len(starts) == 0 {
			c.want(R, len(started) == 0 && len(waits) == 0, at, "a worker is announced without having been started")
		}
		if len(dones) == 1 && p.Kind == "ret" {
			// what is reported is what happened
			e := p.Events[dones[0]]
			got := part(e.sentVal(), isErrorType)
			same := func(x *Term) bool { return got != nil && x != nil && (sameErr(got, x) || knownEqual(p, got, x)) }
			failed := false
			if startErr != nil {
				v, known := p.St.eval(mkEq(startErr, tNil))
				failed = known && !v
			}
			switch {
			case len(starts) == 0:
				c.want(R, same(tNil), m.atE(e, p), "a worker that was not started again, because it must stop, is reported to have ended with %s", got)
			case failed:
				c.want(R, same(startErr), m.atE(e, p), "the error of a worker which failed to start is reported as %s", got)
			case len(waits) > 0:
				c.want(R, same(waitRes), m.atE(e, p), "the error a worker ended with is reported as %s", got)
			}
		}
	}
}

// afterDeath: on this path something has been received from the runner's own
// Dead channel.
func (rm *runnerModel) afterDeath(p *Path) bool {
	for _, e := range p.Events {
		if e.isRecv() && e.recvOn().k == KCall && e.recvOn().op == "tomb.Dead" && tombOf(e.recvOn().args[0], rm.tomb) {
			return true
		}
	}
	return false
}

// everyWorkerGoroutine checks the protocol of all goroutines that run workers.
func (rm *runnerModel) everyWorkerGoroutine(c *Check) {
	seen := map[*Root]bool{}
	for _, l := range rm.launches {
		if !seen[l.Body] {
			seen[l.Body] = true
			rm.workerGoroutine(c, l)
		}
	}
}

// P08 ---------------------------------------------------------------------------

func init() {
	register("P08", "Runner: Wait returns only after every worker has stopped",
		"transition rules over the event loop: it leaves only in a state the path facts prove to be dying with no entries left, it never blocks in such a state, every completion is received, the kill request is observed in every state, and an entry's completion is signalled exactly when it is removed",
		ruleP08)
}

func ruleP08(c *Check) {
	rm := c.M.runner()
	d0 := rm.dyingTerm()
	rm.ledger(c)
	c.rule("exit-only-when-empty-and-dying", 1)
	c.rule("exits-when-empty-and-dying", 1)
	c.rule("receives-completions", 1)
	c.rule("observes-kill", 1)
	c.rule("every-goroutine-reports", 1)
	exits := 0
	for _, t := range rm.tr {
		if t.Exit {
			exits++
			st := t.P.St
			ok := t.implies(rm.field(st, rm.dying), true)
			c.want("exit-only-when-empty-and-dying", ok, t.at(nil), "the event loop can finish although the runner is not dying")
			ok = t.implies(mkEq(st.mapLen(rm.mapT), mkInt(0)), true)
			c.want("exit-only-when-empty-and-dying", ok, t.at(nil), "the event loop can finish while workers are still known to it")
			continue
		}
	}
	c.rule("fatal-error-shuts-down", 1)
	for _, t := range rm.kind("done") {
		for _, ev := range t.Evs {
			if ev.Kind != EvCall || ev.Name != "dyn" || !paramCall(ev, "IsFatal") || !t.P.allows(lit(ev.Res, true)) {
				continue
			}
			st := t.P.St.clone()
			st.assume(ev.Res, true)
			v, known := st.eval(rm.field(t.P.St, rm.dying))
			c.want("fatal-error-shuts-down", known && v || t.P.St.dead, t.at(ev), "the runner keeps running after a fatal error")
		}
	}
	for _, p := range rm.loop.Paths {
		if p.Kind != "ret" {
			c.fail("exit-only-when-empty-and-dying", c.M.atP(rm.loop.Fn, p), "the event loop can end by %s", p.Kind)
		}
	}
	// never blocks when dying and empty: checked at the start of every
	// iteration, or at the end of every one.
	startOK, endOK := true, true
	var bs, be *Trans
	for _, t := range rm.tr {
		if t.Exit {
			continue
		}
		len0 := rm.li.Start.mapLen(rm.mapT)
		if t.P.allows(lit(d0, true), lit(mkEq(len0, mkInt(0)), true)) && t.Sel != nil {
			startOK, bs = false, t
		}
		l1 := t.P.St.mapLen(rm.mapT)
		if t.P.allows(lit(rm.field(t.P.St, rm.dying), true), lit(mkEq(l1, mkInt(0)), true)) {
			endOK, be = false, t
		}
	}
	w := c.M.atFn(rm.loop.Fn, "")
	if bs != nil {
		w = bs.at(nil)
	}
	if bs == nil && be != nil {
		w = be.at(nil)
	}
	c.want("exits-when-empty-and-dying", startOK || endOK, w, "the event loop can wait for another event although the runner is dying and has no workers left")
	for _, t := range rm.tr {
		if t.Sel == nil || t.Exit && t.Sel == nil {
			continue
		}
		if t.Sel.Kind != EvSelect {
			c.fail("receives-completions", t.at(nil), "the event loop waits for a %q event alone", t.Kind)
			continue
		}
		has := map[string]bool{}
		for _, cs := range t.Sel.Cases {
			if !cs.Send {
				has[rm.chanKind(cs.Ch)] = true
			}
		}
		c.want("receives-completions", has["done"] && has["started"], t.at(nil), "the event loop waits without being ready to hear of started or finished workers")
		if !has["dying"] {
			// then it must have been handled before
			c.want("observes-kill", rm.killSeen(t), t.at(nil), "the event loop waits without watching for the kill request, which it may not have handled yet")
		} else {
			c.want("observes-kill", true, t.at(nil), "")
		}
	}
	// handling the kill request
	for _, t := range rm.kind("dying") {
		c.want("observes-kill", t.implies(rm.field(t.P.St, rm.dying), true), t.at(nil), "after the kill request the runner is not marked as dying")
	}
	// once dying always dying
	for _, t := range rm.tr {
		if t.Exit {
			continue
		}
		if t.P.allows(lit(d0, true)) {
			s := t.P.St.clone()
			s.assume(d0, true)
			v, known := s.eval(rm.field(t.P.St, rm.dying))
			c.want("observes-kill", known && v, t.at(nil), "a dying runner can become alive again")
		}
	}
	rm.removalSignal(c)
	seen := map[*Root]bool{}
	for _, l := range rm.launches {
		if seen[l.Body] {
			continue
		}
		seen[l.Body] = true
		for _, p := range l.Body.Paths {
			if p.Kind == "panic" || rm.afterDeath(p) {
				continue
			}
			n := 0
			walk(p.Events, func(e *Event) {
				if e.isSend() && rm.chanKind(e.sentOn()) == "done" {
					n++
				}
			})
			c.want("every-goroutine-reports", n == 1, c.M.atP(l.Body.Fn, p), "a worker's goroutine which ends by %s reports completion %d times", p.Kind, n)
		}
	}
	c.want("exit-only-when-empty-and-dying", exits > 0, w, "the event loop never finishes")
	// Wait is the tomb's Wait
	rm.delegates(c, "wait-is-tomb-wait")
}

// removalSignal: whoever waits for an id to be free is told so when its entry
// has been removed, and not before.
func (rm *runnerModel) removalSignal(c *Check) {
	c.rule("removal-signalled", 1)
	for _, f := range rm.removalChans() {
		for _, t := range rm.kind("done") {
			e := rm.entry(rm.li.Start, t.id())
			cl := rm.closes(t.Evs, e, f)
			n := len(rm.removes(t.Evs))
			c.want("removal-signalled", len(cl) == n, t.at(nil), "the completion channel %s is closed %d times on a transition that removes %d entries", f, len(cl), n)
			for _, x := range cl {
				// not visible before the removal is
				closed, early := false, false
				for _, y := range t.Evs {
					closed = closed || y == x
					if y.Kind == EvMapDel && rm.isWorkersMap(y.T[0]) {
						break
					}
					locked := false
					for _, l := range y.Locks {
						locked = locked || rm.isMu(lockOf(l))
					}
					if closed && (!locked || y.Kind == EvUnlock && rm.isMu(y.T[0])) {
						early = true
					}
				}
				c.want("removal-signalled", !early, t.at(x), "the removal of an entry is signalled before the entry has been removed")
			}
		}
	}
	c.want("removal-signalled", len(rm.removalChans()) > 0, c.M.atS("removal"), "removal of a worker is not signalled to those waiting for it")
}

// killSeen: on this transition the variable that holds the Dying channel is
// nil; every iteration which makes it nil leaves the runner dying, and so
// does this one start.
func (rm *runnerModel) killSeen(t *Trans) bool {
	if rm.nilPhi == nil {
		rm.nilPhi = map[string]bool{}
		ok := true
		for _, x := range rm.tr {
			if x.Exit {
				continue
			}
			for phi, in := range x.P.In {
				if in.k == KCall && in.op == "tomb.Dying" {
					if out := x.P.Out[phi]; out != in {
						v, known := x.eval(rm.field(x.P.St, rm.dying))
						if !(known && v) {
							ok = false
						}
					}
				}
			}
		}
		// and it is not nil to begin with
		init := false
		for _, x := range rm.tr {
			for _, in := range x.P.In {
				if in.k == KCall && in.op == "tomb.Dying" {
					init = true
				}
			}
		}
		rm.nilPhi["ok"] = ok && init
	}
	if rm.nilPhi["ok"] {
		return true
	}
	return t.implies(rm.dyingTerm(), true)
}

// removalChans: the channels of an entry which are closed by some transition
// that removes it.
func (rm *runnerModel) removalChans() []*FieldRef {
	var out []*FieldRef
	for _, f := range leafFields(rm.entryT) {
		if _, ok := f.Typ.Underlying().(*types.Chan); !ok {
			continue
		}
		for _, t := range rm.kind("done") {
			if len(rm.removes(t.Evs)) > 0 && len(rm.closes(t.Evs, rm.entry(rm.li.Start, t.id()), f)) > 0 {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func (rm *runnerModel) closes(es []*Event, entry *Term, f *FieldRef) []*Event {
	var out []*Event
	ch := rm.entryField(rm.li.Start, entry, f)
	for _, e := range deep(es, EvClose) {
		if e.T[0] == ch || e.T[0].isField(f) && e.T[0].field0() == entry {
			out = append(out, e)
		}
	}
	return out
}

// field0 is what the field is one of, be it in a struct in it.
func (t *Term) field0() *Term {
	b, _, _, _ := t.field()
	for b != nil && b.k == KFldA {
		b = b.args[0]
	}
	return b
}

// delegates: Wait is the tomb's Wait and Kill the tomb's Kill(nil).
func (rm *runnerModel) delegates(c *Check, R string) {
	checkDelegation(c, R, pkgRoot, "Runner", rm.tomb, true)
}

func checkDelegation(c *Check, R, pkg, typ string, tomb *FieldRef, filterOK bool) {
	m := c.M
	w := m.method(pkg, typ, "Wait")
	for _, p := range m.root(w).Paths {
		n := evs(p.Events, EvTWait)
		ok := len(n) == 1 && tombOf(n[0].T[0], tomb) && len(p.Res) == 1
		c.want(R, ok && p.Kind == "ret", m.atP(w, p), "Wait does not wait for the tomb exactly once")
		if ok {
			c.want(R, len(p.Res) == 1 && (p.Res[0] == n[0].Res || knownEqual(p, p.Res[0], n[0].Res)), m.atP(w, p), "Wait does not return the tomb's error")
		}
	}
	k := m.method(pkg, typ, "Kill")
	for _, p := range m.root(k).Paths {
		n := 0
		for _, e := range evs(p.Events, EvKill) {
			if tombOf(e.T[0], tomb) && e.T[1].isNil() {
				n++
			}
		}
		c.want(R, n >= 1 && p.Kind == "ret", m.atP(k, p), "Kill does not kill the tomb with a nil error on every path")
		for _, e := range p.Events {
			blk := e.Kind == EvSend || e.Kind == EvRecv || e.Kind == EvSelect && e.Block || e.Kind == EvTWait || e.Kind == EvCondW || e.Kind == EvWgWait
			c.want(R, !blk, m.atE(e, p), "Kill may block")
		}
	}
}

// knownEqual: the path knows two error values to be equal.
func knownEqual(p *Path, a, b *Term) bool {
	if a == b {
		return true
	}
	v, known := p.St.eval(mkEq(a, b))
	return known && v
}

// tombOf: the term is the address of the tomb field.
func tombOf(t *Term, f *FieldRef) bool {
	return t.k == KFldA && f != nil && t.obj == f.Obj && t.op == f.Name
}

// P09 ---------------------------------------------------------------------------

func init() {
	register("P09", "Runner: stop and shutdown reach every worker, even one still starting",
		"inductive invariant over the event loop's transitions: a stop request, a kill and a fatal error mark every entry concerned with the same values (inferred from the code), which no other transition undoes; a marked entry's running worker is killed, one that starts later is killed as soon as it is announced, a pending restart is interrupted, and no transition possible for a marked entry starts it again",
		ruleP09)
}

func ruleP09(c *Check) {
	rm := c.M.runner()
	m := c.M
	ms := rm.marks(c)
	c.rule("stop-marks", 1)
	c.rule("kill-all-is-exhaustive", 2)
	c.rule("running-worker-killed", 2)
	c.rule("late-start-killed", 1)
	c.rule("marks-persist", 1)
	c.rule("never-restarted", 1)
	c.rule("pending-restart-interrupted", 1)
	c.rule("no-insert-while-dying", 1)
	c.rule("no-double-close", 0)
	rm.ledger(c)
	if len(ms) == 0 {
		c.fail("stop-marks", m.atFn(rm.loop.Fn, "stop"), "handling a stop request leaves nothing in the entry that says so on every path")
		return
	}
	var names []string
	for _, k := range ms {
		names = append(names, k.F.String()+"="+k.V.String())
	}
	c.note("an entry asked to stop is marked by %s", strings.Join(names, ", "))
	markChans := rm.markChans(ms)
	checkKill := func(R string, p *Path, es []*Event, st0 *State, entry *Term, at where) {
		w0 := rm.entryField(st0, entry, rm.eWorker)
		kills := methodCalls(es, "Kill", w0)
		if p.allows(lit(mkEq(w0, tNil), false)) {
			c.want(R, len(kills) >= 1, at, "the entry's running worker is not killed")
		}
		for _, k := range kills {
			c.want(R, p.implies(mkEq(w0, tNil), false), m.atE(k, p), "Kill is called on a worker that may not exist yet")
		}
	}
	checkMarked := func(R string, p *Path, st0 *State, entry *Term, at where) {
		was := rm.wasMarked(p, st0, entry, ms)
		for _, k := range ms {
			x := rm.entryField(p.St, entry, k.F)
			v, known := p.St.eval(mkEq(x, k.V))
			c.want(R, x == k.V || known && v || was && x == rm.entryField(st0, entry, k.F), at, "the entry is not marked as stopping (%s stays %s)", k.F, x)
		}
	}
	checkClose := func(p *Path, es []*Event, st0 *State, entry *Term, at where) {
		for _, f := range markChans {
			ch := rm.entryField(st0, entry, f)
			var cl []*Event
			for _, e := range evs(es, EvClose) {
				if e.T[0] == ch {
					cl = append(cl, e)
				}
			}
			if p.allows(rm.markedLits(st0, entry, ms, true)...) {
				c.want("no-double-close", len(cl) == 0, at, "%s can be closed twice: once when the entry was marked and again here", f)
			}
			if p.allows(rm.markedLits(st0, entry, ms, false)...) {
				c.want("pending-restart-interrupted", len(cl) == 1, at, "%s is closed %d times when an entry is first asked to stop; a worker waiting to be restarted would not notice", f, len(cl))
			}
		}
	}
	for _, t := range rm.kind("stop") {
		e := rm.entry(rm.li.Start, t.id())
		if t.implies(mkEq(e, tNil), true) {
			continue
		}
		checkMarked("stop-marks", t.P, rm.li.Start, e, t.at(nil))
		checkKill("running-worker-killed", t.P, t.Evs, rm.li.Start, e, t.at(nil))
		checkClose(t.P, t.Evs, rm.li.Start, e, t.at(nil))
	}
	c.want("stop-marks", len(rm.kind("stop")) > 0, m.atFn(rm.loop.Fn, ""), "the event loop does not handle stop requests")
	// shutdown
	for _, t := range rm.tr {
		if t.Exit {
			continue
		}
		d1 := rm.field(t.P.St, rm.dying)
		becomes := t.implies(d1, true) && t.P.allows(lit(rm.dyingTerm(), false))
		var loops []*Event
		for _, e := range allEvs(t) {
			if rm.entryLoop(e) != nil && rm.killLoop(e) {
				loops = append(loops, e)
			}
		}
		if becomes {
			none := t.implies(mkEq(t.P.St.mapLen(rm.mapT), mkInt(0)), true)
			c.want("kill-all-is-exhaustive", len(loops) > 0 || none, t.at(nil), "the runner starts dying on a %q event without stopping all its workers", t.Kind)
		}
		for _, le := range loops {
			c.want("kill-all-is-exhaustive", le.Exh, t.at(le), "the loop which stops all workers can end early")
			g := rm.entryLoop(le)
			for _, it := range le.Loop.Iters {
				at := m.atP(le.Loop.Fn, it)
				c.want("kill-all-is-exhaustive", it.Kind == "iter", at, "the loop which stops all workers can be left by %s", it.Kind)
				checkMarked("stop-marks", it, le.Loop.Start, g, at)
				checkKill("running-worker-killed", it, it.Events, le.Loop.Start, g, at)
				checkClose(it, it.Events, le.Loop.Start, g, at)
			}
			c.want("kill-all-is-exhaustive", len(le.Loop.Iters) > 0, t.at(le), "the loop which stops all workers does nothing")
		}
		if t.P.allows(lit(rm.dyingTerm(), true)) {
			for _, i := range rm.inserts(allEvs(t)) {
				c.fail("no-insert-while-dying", t.at(i), "a worker can be started while the runner is dying, and would never be stopped")
			}
			c.want("no-insert-while-dying", true, t.at(nil), "")
		}
		// marks persist
		for _, k := range ms {
			for _, s := range entryStores(allEvs(t), k.F) {
				if s.T[0].args[0].k == KAlloc {
					continue
				}
				c.want("marks-persist", s.T[1] == k.V, t.at(s), "%s is overwritten by a %q event, which undoes a stop request", k.F, t.Kind)
			}
		}
		c.want("marks-persist", true, t.at(nil), "")
	}
	// late start
	for _, t := range rm.kind("started") {
		e := rm.entry(rm.li.Start, t.id())
		w := t.worker()
		for _, s := range sits {
			if !t.P.allows(append(rm.sitLits(s, e, ms), lit(mkEq(w, tNil), false))...) {
				continue
			}
			kills := methodCalls(t.Evs, "Kill", w)
			if s.marked {
				c.want("late-start-killed", len(kills) >= 1, t.at(nil), "a worker that finishes starting after it (or the runner) was asked to stop is not killed (%s)", s.name)
			} else {
				c.want("late-start-killed", len(kills) == 0, t.at(nil), "a worker which nobody asked to stop is killed as soon as it has started")
				c.want("late-start-killed", rm.entryField(t.P.St, e, rm.eWorker) == w, t.at(nil), "a started worker is not recorded, so it cannot be stopped later")
			}
		}
	}
	// completions
	for _, t := range rm.kind("done") {
		e := rm.entry(rm.li.Start, t.id())
		for _, l := range rm.launchesOf(t) {
			for _, s := range sits {
				if s.marked {
					c.want("never-restarted", !t.P.allows(rm.sitLits(s, e, ms)...), t.at(l.E), "a worker asked to stop can be started again (%s)", s.name)
				}
			}
		}
		c.want("never-restarted", true, t.at(nil), "")
	}
	// pending restart
	for _, l := range rm.launches {
		if l.T.Kind != "done" {
			continue
		}
		for _, p := range l.Body.Paths {
			started := false
			for _, e := range p.Events {
				if isStartCall(e) {
					started = true
				}
				if started || !blocking(e) || e.isSend() && rm.chanKind(e.sentOn()) == "done" && e.Kind == EvSend {
					continue
				}
				ok := false
				if e.Kind == EvSelect {
					for _, cs := range e.Cases {
						if !cs.Send && rm.isMarkChan(cs.Ch, l, markChans) {
							ok = true
						}
					}
				}
				c.want("pending-restart-interrupted", ok, m.atE(e, p), "a worker waiting to be restarted is not woken up by a stop request or a shutdown")
				if ok && e.Chosen >= 0 && rm.isMarkChan(e.Cases[e.Chosen].Ch, l, markChans) {
					c.want("pending-restart-interrupted", !callsStartPath(p), m.atE(e, p), "a worker stopped while it was waiting to be restarted is started nevertheless")
				}
			}
		}
	}
	// while stopped or dying, a start after the delay is still caught by the
	// late-start rule
}

func callsStartPath(p *Path) bool {
	f := false
	walk(p.Events, func(e *Event) {
		if isStartCall(e) {
			f = true
		}
	})
	return f
}

func blocking(e *Event) bool {
	switch e.Kind {
	case EvSend, EvRecv, EvTWait, EvCondW, EvWgWait:
		return true
	case EvSelect:
		return e.Block
	}
	return false
}

// markChans: the channels of an entry which are closed when it is marked.
func (rm *runnerModel) markChans(ms []mark) []*FieldRef {
	var out []*FieldRef
	for _, f := range leafFields(rm.entryT) {
		if _, ok := f.Typ.Underlying().(*types.Chan); !ok {
			continue
		}
		found := false
		for _, t := range rm.tr {
			if len(rm.removes(t.Evs)) > 0 {
				continue
			}
			for _, e := range deep(t.Evs, EvClose) {
				if e.T[0].isField(f) {
					found = true
				}
			}
		}
		if found {
			out = append(out, f)
		}
	}
	return out
}

func (rm *runnerModel) isMarkChan(ch *Term, l launch, fs []*FieldRef) bool {
	e := rm.entry(rm.li.Start, l.T.id())
	for _, f := range fs {
		if ch == rm.entryField(rm.li.Start, e, f) || ch == rm.entryField(l.T.P.St, e, f) || ch == rm.entryField(l.E.Go.St, e, f) {
			return true
		}
	}
	return false
}

// killLoop: the loop marks or kills (a loop over all entries which only reads
// is something else).
func (rm *runnerModel) killLoop(e *Event) bool {
	found := false
	walk([]*Event{e}, func(x *Event) {
		if x.Kind == EvStore || x.Kind == EvCall && x.Method == "Kill" || x.Kind == EvClose {
			found = true
		}
	})
	return found
}

// P10 ---------------------------------------------------------------------------

func init() {
	register("P10", "Runner: restart policy (clean exit, fatal, ShouldRestart, delay)",
		"decision table checked over every completion transition and every valuation of {err==nil, asked to stop, dying, IsFatal(err), ShouldRestart(err)} consistent with the path facts: the outcome (remove, restart, shut the runner down) must be the one the policy prescribes; restarts wait for Clock.After(RestartDelay), first starts do not wait",
		ruleP10)
}

func ruleP10(c *Check) {
	rm := c.M.runner()
	m := c.M
	ms := rm.marks(c)
	if len(ms) == 0 {
		c.fail("decision-table", m.atFn(rm.loop.Fn, "stop"), "a stop request leaves no mark, so that completions cannot be judged")
		return
	}
	c.rule("decision-table", 8)
	rm.everyWorkerGoroutine(c)
	c.rule("callbacks-judge-this-error", 2)
	c.rule("restart-after-delay", 1)
	c.rule("first-start-immediate", 1)
	c.rule("restart-uses-same-function", 1)
	c.rule("parameters-as-configured", 4)
	rm.ctorDefaults(c, "parameters-as-configured", "IsFatal", "ShouldRestart", "RestartDelay", "Clock")
	for _, t := range rm.kind("done") {
		id, err := t.id(), t.err()
		if err == nil {
			c.fail("decision-table", t.at(nil), "the completion message carries no error")
			continue
		}
		e := rm.entry(rm.li.Start, id)
		var fatal, should *Term
		for _, ev := range t.Evs {
			if ev.Kind != EvCall || ev.Name != "dyn" {
				continue
			}
			if paramCall(ev, "IsFatal") {
				c.want("callbacks-judge-this-error", len(ev.T) == 2 && ev.T[1] == err, t.at(ev), "IsFatal is asked about something other than the worker's error")
				if fatal == nil {
					fatal = ev.Res
				}
			}
			if paramCall(ev, "ShouldRestart") {
				c.want("callbacks-judge-this-error", len(ev.T) == 2 && ev.T[1] == err, t.at(ev), "ShouldRestart is asked about something other than the worker's error")
				if should == nil {
					should = ev.Res
				}
			}
		}
		removed := len(rm.removes(t.Evs)) > 0
		restarted := len(rm.launchesOf(t)) > 0
		dies := t.implies(rm.field(t.P.St, rm.dying), true)
		for _, s := range sits {
			for n := 0; n < 8; n++ {
				isNil, f, r := n&1 != 0, n&2 != 0, n&4 != 0
				if isNil && (f || r) {
					continue
				}
				ls := rm.sitLits(s, e, ms)
				ls = append(ls, lit(mkEq(err, tNil), isNil))
				if fatal != nil {
					ls = append(ls, lit(fatal, f))
				}
				if should != nil {
					ls = append(ls, lit(should, r))
				}
				if !t.P.allows(ls...) {
					continue
				}
				desc := s.name
				if isNil {
					desc += ", clean exit"
				} else {
					desc += ", error"
					if f {
						desc += ", fatal"
					} else {
						desc += ", not fatal"
					}
					if r {
						desc += ", should restart"
					} else {
						desc += ", should not restart"
					}
				}
				wantRestart := !isNil && !f && r && !s.marked
				wantDie := !isNil && f || s.dying
				if wantRestart {
					c.want("decision-table", restarted && !removed, t.at(nil), "a worker that failed with a restartable error is not restarted (%s)", desc)
				} else {
					c.want("decision-table", removed && !restarted, t.at(nil), "a finished worker is not removed (%s)", desc)
				}
				if wantDie {
					st := t.P.St.clone()
					for _, l := range ls {
						st.assume(l.A, l.V)
					}
					v, known := st.eval(rm.field(t.P.St, rm.dying))
					c.want("decision-table", known && v, t.at(nil), "the runner keeps running after a fatal error (%s)", desc)
				} else {
					c.want("decision-table", !dies, t.at(nil), "the runner shuts down without a fatal error (%s)", desc)
				}
			}
		}
	}
	// only a kill or a fatal error make the runner die
	for _, t := range rm.tr {
		if t.Exit || t.Kind == "done" || t.Kind == "dying" {
			continue
		}
		if t.P.allows(lit(rm.dyingTerm(), false)) {
			c.want("decision-table", !t.implies(rm.field(t.P.St, rm.dying), true), t.at(nil), "a %q event makes the runner die", t.Kind)
		}
	}
	// delays
	for _, l := range rm.launches {
		e := rm.entry(rm.li.Start, l.T.id())
		for _, p := range l.Body.Paths {
			var after *Event
			for _, ev := range p.Events {
				if ev.Kind == EvCall && ev.Method == "After" || ev.Kind == EvCall && (ev.Name == "time.After" || ev.Name == "time.Sleep") {
					after = ev
				}
				if !isStartCall(ev) {
					continue
				}
				if l.T.Kind == "start" {
					c.want("first-start-immediate", after == nil, m.atE(ev, p), "a worker is started for the first time only after a delay")
					continue
				}
				if after == nil {
					// allowed only where the delay is not positive
					ok := false
					for a, v := range p.Facts {
						if !v && a.k == KOp && a.op == "<" && a.args[0] == mkInt(0) && rm.isDelay(a.args[1], l, e) {
							ok = true
						}
						if v && a.k == KOp && a.op == "==" && a.args[1] == mkInt(0) && rm.isDelay(a.args[0], l, e) {
							ok = true
						}
					}
					c.want("restart-after-delay", ok, m.atE(ev, p), "a worker is restarted without waiting for RestartDelay")
					continue
				}
				ok := after.Method == "After" && len(after.T) == 2 && rm.isDelay(after.T[1], l, e)
				c.want("restart-after-delay", ok, m.atE(after, p), "the delay before a restart is not RestartDelay on the runner's clock")
				got := false
				for _, x := range p.Events {
					if x == ev {
						break
					}
					if x.isRecv() && x.recvOn() == after.Res {
						got = true
					}
				}
				c.want("restart-after-delay", got, m.atE(ev, p), "a worker is restarted before its delay is over")
			}
		}
		// the function started
		calls := 0
		for _, p := range l.Body.Paths {
			started := p.Kind != "ret"
			for _, ev := range p.Events {
				if ev.isRecv() && !isAfter(ev.recvOn()) {
					started = true // told not to
				}
				if !isStartCall(ev) {
					continue
				}
				started = true
				if l.T.Kind == "start" || after(p, ev) {
					calls++
				}
				switch l.T.Kind {
				case "start":
					req := part(l.T.Msg, rm.startPred())
					c.want("restart-uses-same-function", ev.T[0] == req, m.atE(ev, p), "the function called is not the one given to StartWorker")
				case "done":
					f0 := rm.entryField(rm.li.Start, e, rm.eStart)
					c.want("restart-uses-same-function", ev.T[0] == f0, m.atE(ev, p), "the function called on restart is not the id's start function")
				}
			}
			c.want("restart-uses-same-function", started, m.atP(l.Body.Fn, p), "a worker's start function is not called although nothing has asked it to stop")
		}
		c.want("restart-uses-same-function", calls > 0, m.atFn(l.Body.Fn, "start"), "a worker is never started (after a %q event)", l.T.Kind)
	}
	if rm.eDelay != nil {
		p0 := rm.paramField("RestartDelay")
		for _, t := range rm.tr {
			for _, s := range entryStores(allEvs(t), rm.eDelay) {
				c.want("restart-after-delay", s.T[1] == p0, t.at(s), "an entry's restart delay is set to %s, not to RestartDelay", s.T[1])
			}
			for _, i := range rm.inserts(allEvs(t)) {
				x := rm.entryField(t.P.St, i.T[2], rm.eDelay)
				for _, l := range rm.launches {
					if l.T.Kind == "done" && launchUses(l, rm.eDelay) {
						c.want("restart-after-delay", x == p0, t.at(i), "an entry's restart delay starts as %s, not as RestartDelay", x)
						break
					}
				}
			}
		}
	}
	for _, t := range rm.kind("start") {
		for _, i := range rm.inserts(t.Evs) {
			req := part(t.Msg, rm.startPred())
			c.want("restart-uses-same-function", rm.entryField(t.P.St, i.T[2], rm.eStart) == req, t.at(i), "the entry does not keep the function given to StartWorker")
		}
	}
}

// after: the call comes after a timer has fired.
func after(p *Path, ev *Event) bool {
	for _, x := range p.Events {
		if x == ev {
			return false
		}
		if x.isRecv() && isAfter(x.recvOn()) {
			return true
		}
	}
	return false
}

func launchUses(l launch, f *FieldRef) bool {
	for _, a := range l.E.Go.Args {
		if a.contains(func(x *Term) bool { return x.isField(f) }) {
			return true
		}
	}
	return l.E.Go.Fn.contains(func(x *Term) bool { return x.isField(f) })
}

func (rm *runnerModel) startPred() fieldPred {
	return func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && s.Results().Len() == 2 && isWorkerType(s.Results().At(0).Type())
	}
}

// paramField is the value of a field of the runner's parameters.
func (rm *runnerModel) paramField(name string) *Term {
	pt := rm.params.Typ
	s := structOf(pt)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return rm.li.Start.load(mkFldA(fieldAddr(rm.base, rm.T, rm.params), pt, i), s.Field(i).Type())
		}
	}
	panic(undecided{"RunnerParams has no field " + name})
}

func (rm *runnerModel) isDelay(x *Term, l launch, e *Term) bool {
	if x == rm.paramField("RestartDelay") {
		return true
	}
	return rm.eDelay != nil && x == rm.entryField(rm.li.Start, e, rm.eDelay)
}

// P11 ---------------------------------------------------------------------------

func init() {
	register("P11", "Runner: Wait reports the most important fatal error",
		"every transition's effect on the stored error is compared with the specified one for every valuation of {err==nil, IsFatal, stored error nil, MoreImportant(err, stored)}; the loop returns the stored error; Kill adds none; missing callbacks get the documented defaults in the constructor",
		ruleP11)
}

func ruleP11(c *Check) {
	rm := c.M.runner()
	m := c.M
	c.rule("final-error-updates", 4)
	c.rule("loop-returns-final-error", 1)
	c.rule("kill-adds-no-error", 1)
	c.rule("defaults", 4)
	rm.everyWorkerGoroutine(c)
	f0 := rm.field(rm.li.Start, rm.final)
	for _, t := range rm.tr {
		f1 := rm.field(t.P.St, rm.final)
		if t.Exit {
			c.want("loop-returns-final-error", t.Res != nil && knownEqual(t.P, t.Res, f1), t.at(nil), "the event loop does not return the most important fatal error")
			continue
		}
		if t.Kind != "done" {
			c.want("final-error-updates", f1 == f0, t.at(nil), "a %q event changes the runner's error", t.Kind)
			continue
		}
		err := t.err()
		var fatal, more *Term
		for _, ev := range t.Evs {
			if paramCall(ev, "IsFatal") && ev.T[1] == err {
				fatal = ev.Res
			}
			if paramCall(ev, "MoreImportant") {
				ok := len(ev.T) == 3 && ev.T[1] == err && ev.T[2] == f0
				c.want("final-error-updates", ok, t.at(ev), "MoreImportant is not asked whether the new error is more important than the stored one")
				if ok {
					more = ev.Res
				}
			}
		}
		for n := 0; n < 16; n++ {
			isNil, f, z, mi := n&1 != 0, n&2 != 0, n&4 != 0, n&8 != 0
			if isNil && f || z && mi {
				continue
			}
			ls := []Fact{lit(mkEq(err, tNil), isNil), lit(mkEq(f0, tNil), z)}
			if fatal != nil {
				ls = append(ls, lit(fatal, f))
			}
			if more != nil {
				ls = append(ls, lit(more, mi))
			}
			if !t.P.allows(ls...) {
				continue
			}
			if !isNil && f && (z || mi) {
				c.want("final-error-updates", f1 == err, t.at(nil), "a fatal error that should become the runner's error does not (stored error nil: %v, more important: %v)", z, mi)
			} else {
				c.want("final-error-updates", f1 == f0 || z && f1 == tNil, t.at(nil), "the runner's error is replaced (clean exit: %v, fatal: %v, stored error nil: %v, more important: %v)", isNil, f, z, mi)
			}
		}
	}
	// initially nil
	for _, g := range m.gos(rm.ctor) {
		if m.body(rm.ctor, g) == rm.loop {
			x := g.Go.St.load(fieldAddr(rm.base, rm.T, rm.final), rm.final.Typ)
			c.want("final-error-updates", x.isNil(), m.atE(g, nil), "the runner starts with an error")
		}
	}
	for _, r := range rm.allRoots() {
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind == EvKill && tombOf(e.T[0], rm.tomb) {
				ok := e.T[1].isNil() || r == rm.loop && e.T[1] == rm.field(p.St, rm.final)
				c.want("kill-adds-no-error", ok, m.atE(e, p), "the runner's tomb is killed with an error of its own, which hides the workers' errors")
			}
			if r != rm.loop && e.Kind == EvStore && e.T[0].k == KFldA && e.T[0].obj == rm.final.Obj && e.T[0].op == rm.final.Name {
				c.fail("final-error-updates", m.atE(e, p), "the runner's error is changed outside the event loop")
			}
		})
	}
	rm.delegates(c, "kill-adds-no-error")
	rm.ctorDefaults(c, "defaults")
}

// ctorDefaults: each parameter is used as given when set, and has its default
// otherwise.
func (rm *runnerModel) ctorDefaults(c *Check, R string, only ...string) {
	m := c.M
	for _, p := range rm.ctor.Paths {
		if p.Kind != "ret" {
			continue
		}
		var g *Event
		for _, e := range p.Events {
			if e.Go != nil && e.Go.Kind == "tomb" {
				g = e
			}
		}
		if g == nil {
			continue
		}
		pt := rm.params.Typ
		s := structOf(pt)
		arg := rm.ctor.Args[0]
		for i := 0; i < s.NumFields(); i++ {
			name := s.Field(i).Name()
			if len(only) > 0 && !slices.Contains(only, name) {
				continue
			}
			given := mkFld(arg, pt, i)
			got := g.Go.St.load(mkFldA(fieldAddr(rm.base, rm.T, rm.params), pt, i), s.Field(i).Type())
			zero := mkEq(given, zeroTerm(s.Field(i).Type()))
			v, known := p.St.eval(zero)
			at := m.atE(g, p)
			at.S = name
			if got == given && !(known && v) {
				if !known {
					switch name {
					case "IsFatal", "ShouldRestart", "MoreImportant", "RestartDelay", "Clock", "Logger":
						c.fail(R, at, "%s has no default", name)
					}
				}
				c.want(R, true, at, "")
				continue
			}
			if !known || !v {
				c.fail(R, at, "%s is replaced although it was given", name)
				continue
			}
			switch name {
			case "IsFatal":
				c.want(R, m.alwaysReturns(got, tTrue), at, "without IsFatal not every error is fatal")
			case "ShouldRestart":
				c.want(R, m.alwaysReturns(got, tTrue), at, "without ShouldRestart a worker is not always restarted")
			case "MoreImportant":
				c.want(R, m.alwaysReturns(got, tFalse), at, "without MoreImportant the first fatal error is not kept")
			case "RestartDelay":
				k, ok := m.pkg(pkgRoot).Members["DefaultRestartDelay"].(*ssa.NamedConst)
				c.want(R, ok && got == constTerm(k.Value), at, "without RestartDelay the delay is not DefaultRestartDelay")
			case "Clock":
				c.want(R, !got.isNil() && strings.Contains(got.String(), "WallClock"), at, "without Clock the wall clock is not used")
			case "Logger":
				c.want(R, nonNil(got), at, "without Logger there is a nil logger")
			case "Name":
			}
		}
	}
}

// alwaysReturns: the function value returns the constant whatever it is given.
func (m *Model) alwaysReturns(f, v *Term) bool {
	if f.k != KFunc && f.k != KClosure {
		return false
	}
	fn := f.obj.(*ssa.Function)
	if fn.Blocks == nil {
		return false
	}
	r := m.root(fn)
	for _, p := range r.Paths {
		if p.Kind != "ret" || len(p.Res) != 1 || p.Res[0] != v {
			return false
		}
	}
	return len(r.Paths) > 0
}

var _ = sort.Strings
