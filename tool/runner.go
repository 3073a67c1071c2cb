package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgRoot = modPath
	pkgCat  = modPath + "/catacomb"
	pkgDep  = modPath + "/dependency"
	pkgDepT = modPath + "/dependency/testing"
	pkgWT   = modPath + "/workertest"
)

// Trans is one way the event loop handles one event.
type Trans struct {
	Kind string
	P    *Path
	Pre  []*Event // before the event is received
	Evs  []*Event // after it
	Sel  *Event
	Msg  *Term
	Exit bool
	Res  *Term
	Li   *LoopInfo
	Root *Root

	scopes []*scope
}

func (t *Trans) eval(a *Term) (bool, bool) { return t.P.St.eval(a) }

// implies reports whether the transition's facts force a to have value v.
func (t *Trans) implies(a *Term, v bool) bool {
	x, known := t.P.St.eval(a)
	return known && x == v
}

func (p *Path) implies(a *Term, v bool) bool {
	x, known := p.St.eval(a)
	return known && x == v
}

// transitions splits the loop root into transitions. classify names the event
// received.
func (m *Model) transitions(r *Root, classify func(e *Event) (string, *Term)) (*LoopInfo, []*Trans) {
	var main *LoopInfo
	isMain := func(li *LoopInfo) bool {
		found := false
		for _, it := range li.Iters {
			for _, e := range it.Events {
				if k, _ := classify(e); k != "" {
					found = true
				}
			}
		}
		return found
	}
	var out []*Trans
	mk := func(evs []*Event, p *Path, exit bool) {
		t := &Trans{P: p, Exit: exit, Li: main, Root: r, Kind: "none", Pre: evs}
		for i, e := range evs {
			if k, msg := classify(e); k != "" {
				t.Kind, t.Msg, t.Sel = k, msg, e
				t.Pre, t.Evs = evs[:i], evs[i+1:]
				break
			}
		}
		out = append(out, t)
	}
	for _, p := range r.Paths {
		for _, e := range p.Events {
			if e.Loop != nil && main == nil && isMain(e.Loop) {
				main = e.Loop
			}
		}
	}
	if main == nil {
		panic(undecided{"no event loop found in " + r.Name})
	}
	for _, it := range main.Iters {
		mk(it.Events, it, false)
	}
	for _, p := range r.Paths {
		if p.Kind != "ret" {
			continue
		}
		at := -1
		for i, e := range p.Events {
			if e.Loop == main || e.Loop != nil && e.Loop.Header == main.Header {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		mk(p.Events[at+1:], p, true)
		if len(p.Res) > 0 {
			out[len(out)-1].Res = p.Res[0]
		}
	}
	return main, out
}

type launch struct {
	T    *Trans
	E    *Event
	Body *Root
}

type runnerModel struct {
	m *Model
	T *types.Named
	tomb, mu, cond, workers, startc, stopc, donec, startedc, params,
	dying, final *FieldRef
	entryT                                       types.Type
	eWorker, eStart, eStopping, eDelay, eStarted *FieldRef
	ctor                                         *Root
	loop                                         *Root
	li                                           *LoopInfo
	base                                         *Term
	mapT                                         *Term
	tr                                           []*Trans
	launches                                     []launch
	nilPhi                                       map[string]bool
}

func (m *Model) runner() *runnerModel {
	if m.run != nil {
		return m.run
	}
	rm := &runnerModel{m: m, T: m.named(pkgRoot, "Runner")}
	workerP := fieldPred(isWorkerType)
	startFn := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && s.Results().Len() == 2 && isWorkerType(s.Results().At(0).Type())
	}
	rm.tomb = need(findField(rm.T, typeIs("gopkg.in/tomb.v2", "Tomb"), "tomb"), "the runner's tomb")
	rm.mu = need(findField(rm.T, func(t types.Type) bool {
		return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
	}, "mu"), "the runner's mutex")
	rm.cond = findField(rm.T, func(t types.Type) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return isNamed(t, "sync", "Cond")
	}, "workersChangedCond")
	rm.workers = need(findField(rm.T, func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) {
			return false
		}
		p, ok := mt.Elem().Underlying().(*types.Pointer)
		return ok && structOf(p.Elem()) != nil
	}, "workers"), "the runner's workers")
	rm.startc = need(findField(rm.T, chanOf(startFn), "startc"), "the start requests")
	rm.startedc = need(findField(rm.T, func(t types.Type) bool {
		return chanOf(workerP)(t) && structOf(chanElem(t)) != nil
	}, "startedc"), "the started workers")
	rm.donec = need(findField(rm.T, func(t types.Type) bool { return chanOf(isErrorType)(t) && structOf(chanElem(t)) != nil }, "donec"), "the finished workers")
	rm.stopc = need(findField(rm.T, func(t types.Type) bool {
		e := chanElem(t)
		if e == nil {
			return false
		}
		if isString(e) {
			return true
		}
		s := structOf(e)
		if s == nil || leafStruct(e) {
			return false
		}
		str := false
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isString(ft) {
				str = true
			}
			if isErrorType(ft) || isWorkerType(ft) || isFunc(ft) {
				return false
			}
		}
		return str
	}, "stopc"), "the stop requests")
	rm.params = need(findField(rm.T, typeIs(pkgRoot, "RunnerParams"), "params"), "the runner's parameters")
	rm.dying = need(findField(rm.T, isBool, "isDying"), "whether the runner is dying")
	rm.final = need(findField(rm.T, isErrorType, "finalError"), "the runner's final error")
	rm.entryT = rm.workers.Typ.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer).Elem()
	rm.eWorker = need(findField(rm.entryT, isWorkerType, "worker"), "the current worker of an id")
	rm.eStart = need(findField(rm.entryT, startFn, "start"), "the start function of an id")
	rm.eStopping = findField(rm.entryT, isBool, "stopping")
	rm.eDelay = findField(rm.entryT, func(t types.Type) bool { return isNamed(t, "time", "Duration") }, "restartDelay")
	rm.eStarted = findField(rm.entryT, func(t types.Type) bool { return isNamed(t, "time", "Time") }, "started")

	rm.ctor = m.root(m.fn(pkgRoot, "NewRunner"))
	for _, g := range m.gos(rm.ctor) {
		b := m.body(rm.ctor, g)
		if b.Loop {
			rm.loop = b
			if len(g.T) == 1 && g.T[0].k == KFldA {
				rm.base = g.T[0].args[0]
			}
		}
	}
	if rm.loop == nil || rm.base == nil {
		panic(undecided{"the runner's goroutine is not started by NewRunner with its tomb"})
	}
	rm.li, rm.tr = m.transitions(rm.loop, rm.classify)
	rm.mapT = rm.li.Start.load(fieldAddr(rm.base, rm.T, rm.workers), rm.workers.Typ)
	// A worker that starts or ends has an entry: its goroutine was launched
	// along with it, and only the handling of its end removes it (both are
	// checked by P07), so what would happen otherwise does not.
	feasible := rm.tr[:0]
	for _, t := range rm.tr {
		if (t.Kind == "started" || t.Kind == "done") && t.id() != nil && t.implies(mkEq(rm.entry(rm.li.Start, t.id()), tNil), true) {
			continue
		}
		feasible = append(feasible, t)
	}
	rm.tr = feasible
	for _, t := range rm.tr {
		walk(append(append([]*Event(nil), t.Pre...), t.Evs...), func(e *Event) {
			if e.Go != nil {
				b := m.body(rm.loop, e)
				if callsStart(b) {
					rm.launches = append(rm.launches, launch{t, e, b})
				}
			}
		})
	}
	m.run = rm
	return rm
}

// addr is the address of a field of the runner itself.
func fieldAddr(base *Term, t types.Type, f *FieldRef) *Term {
	if typeObj(t) == f.Obj {
		return mkFldA(base, t, f.Idx)
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if structOf(ft) != nil && !leafStruct(ft) {
			if a := fieldAddr(mkFldA(base, t, i), ft, f); a != nil {
				return a
			}
		}
	}
	return nil
}

func (rm *runnerModel) field(st *State, f *FieldRef) *Term {
	return st.load(fieldAddr(rm.base, rm.T, f), f.Typ)
}

func (rm *runnerModel) entryField(st *State, entry *Term, f *FieldRef) *Term {
	return st.load(fieldAddr(entry, rm.entryT, f), f.Typ)
}

func callsStart(r *Root) bool {
	found := false
	for _, p := range r.Paths {
		walk(p.Events, func(e *Event) {
			if isStartCall(e) {
				found = true
			}
		})
	}
	return found
}

func isStartCall(e *Event) bool {
	if e.Kind != EvCall || e.Name != "dyn" || e.T[0].typ == nil {
		return false
	}
	s, ok := e.T[0].typ.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 2 && isWorkerType(s.Results().At(0).Type()) && isErrorType(s.Results().At(1).Type())
}

func (rm *runnerModel) chanKind(ch *Term) string {
	switch {
	case ch.k == KCall && ch.op == "tomb.Dying":
		return "dying"
	case ch.isField(rm.startc):
		return "start"
	case ch.isField(rm.stopc):
		return "stop"
	case ch.isField(rm.startedc):
		return "started"
	case ch.isField(rm.donec):
		return "done"
	}
	return ""
}

func (rm *runnerModel) classify(e *Event) (string, *Term) {
	switch {
	case e.Kind == EvSelect && e.Chosen >= 0 && !e.Cases[e.Chosen].Send:
		return rm.chanKind(e.Cases[e.Chosen].Ch), e.Res
	case e.Kind == EvRecv:
		return rm.chanKind(e.T[0]), e.Res
	}
	return "", nil
}

// part selects the part of a message that satisfies pred.
func part(msg *Term, pred fieldPred) *Term {
	if msg == nil || msg.typ == nil {
		return nil
	}
	t := msg.typ
	if p, ok := t.Underlying().(*types.Pointer); ok && structOf(p.Elem()) != nil {
		_ = p
		return nil
	}
	s := structOf(t)
	if s == nil || leafStruct(t) {
		if pred(t) {
			return msg
		}
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			return mkFld(msg, t, i)
		}
	}
	return nil
}

func (t *Trans) id() *Term  { return part(t.Msg, isString) }
func (t *Trans) err() *Term { return part(t.Msg, isErrorType) }
func (t *Trans) worker() *Term {
	return part(t.Msg, isWorkerType)
}

func (rm *runnerModel) kind(k string) []*Trans {
	var out []*Trans
	for _, t := range rm.tr {
		if t.Kind == k {
			out = append(out, t)
		}
	}
	return out
}

// entry is the entry of id when the transition starts.
func (rm *runnerModel) entry(st *State, id *Term) *Term {
	s := st.clone()
	v, _ := s.mapGet(rm.mapT, id, rm.workers.Typ.Underlying().(*types.Map).Elem())
	return v
}

func (t *Trans) at(e *Event) where {
	if e == nil {
		e = t.Sel
	}
	return where{M: t.modelOf(), E: e, P: t.P, S: t.Kind, Fn: t.Root.Fn}
}

var theModel *Model

func (t *Trans) modelOf() *Model { return theModel }

func evs(es []*Event, kind string) []*Event {
	var out []*Event
	for _, e := range es {
		if e.Kind == kind {
			out = append(out, e)
		}
	}
	return out
}

// deep collects events of a kind, entering loops.
func deep(es []*Event, kind string) []*Event {
	var out []*Event
	walk(es, func(e *Event) {
		if e.Kind == kind {
			out = append(out, e)
		}
	})
	return out
}

func isMethodCall(e *Event, method string, recv *Term) bool {
	return e.Kind == EvCall && e.Method == method && len(e.T) > 0 && (recv == nil || e.T[0] == recv)
}

func methodCalls(es []*Event, method string, recv *Term) []*Event {
	var out []*Event
	for _, e := range es {
		if isMethodCall(e, method, recv) {
			out = append(out, e)
		}
	}
	return out
}

// entryLoop: the event is a loop over all entries of the workers map; it
// returns the loop's generic entry.
func (rm *runnerModel) entryLoop(e *Event) *Term {
	if e.Loop == nil {
		return nil
	}
	li := e.Loop
	switch li.Kind {
	case "map":
		if li.Container != rm.mapT {
			return nil
		}
		return rm.entry(li.Start, li.Key)
	case "slice":
		el := li.Elem
		if el == nil {
			return nil
		}
		c := li.Container
		if c.k == KCollect && c.args[2] == rm.mapT && len(c.sub) == 0 {
			if el.k == KKey {
				return rm.entry(li.Start, el)
			}
			return el
		}
	}
	return nil
}

func (rm *runnerModel) isWorkersMap(m *Term) bool { return m.isField(rm.workers) }

func (rm *runnerModel) at(t *Trans, e *Event) where { return t.at(e) }

func fnAt(m *Model, f *ssa.Function) where { return where{M: m, Fn: f} }

var _ = fmt.Sprint
