package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The dependency engine: fields, transitions of its event loop, and worker
// goroutines.

type engineModel struct {
	m *Model
	T *types.Named
	tomb, worst, manifolds, dependents, current,
	installc, startedc, stoppedc, reportc, config *FieldRef
	manT, infoT types.Type
	iStarting, iStopping, iCancel, iWorker, iErr,
	iTime, iCount, iErrors *FieldRef
	ctor, loop *Root
	li         *LoopInfo
	base       *Term
	curT       *Term // the map of worker infos
	manM       *Term
	depM       *Term
	tr         []*Trans
	starts     []*engStart
	byScope    map[*scope][]*engStart
	aborted    *Term
}

// scope is a stretch of straight-line events with the facts that hold on it: a
// transition, or one way through a loop inside it.
type scope struct {
	T     *Trans
	P     *Path
	Evs   []*Event
	Loop  *Event // the loop the scope is an iteration of
	Outer *scope
	Idx   int // position of Loop in Outer.Evs
}

func (s *scope) at(e *Event) where {
	if e == nil {
		if len(s.Evs) > 0 {
			e = s.Evs[len(s.Evs)-1]
		} else {
			return s.T.at(nil)
		}
	}
	return where{M: theModel, E: e, P: s.P, S: s.T.Kind, Fn: s.T.Root.Fn}
}

// scopes lists the transition itself and every iteration of loops inside it.
func scopes(t *Trans) []*scope {
	if t.scopes != nil {
		return t.scopes
	}
	var out []*scope
	var rec func(s *scope)
	rec = func(s *scope) {
		out = append(out, s)
		for i, e := range s.Evs {
			if e.Loop == nil {
				continue
			}
			for _, it := range e.Loop.Iters {
				rec(&scope{T: t, P: it, Evs: it.Events, Loop: e, Outer: s, Idx: i})
			}
		}
	}
	rec(&scope{T: t, P: t.P, Evs: allEvs(t)})
	t.scopes = out
	return out
}

// top is the scope of the transition itself.
func (t *Trans) top() *scope { return scopes(t)[0] }

// before visits the events which precede position i of the scope, from the
// nearest to the furthest, in the scope and those around it.
func (s *scope) before(i int, f func(e *Event) bool) bool {
	for ; s != nil; i, s = s.Idx, s.Outer {
		for j := i - 1; j >= 0; j-- {
			if f(s.Evs[j]) {
				return true
			}
		}
	}
	return false
}

// engStart is a goroutine started by the loop to start a worker.
type engStart struct {
	S    *scope
	I    int
	E    *Event
	Body *Root
	Name *Term
	Fn   *Term
	Dly  []*Term
	Ctx  *Term
	Get  *Term
}

func (m *Model) engine() *engineModel {
	if m.eng != nil {
		return m.eng
	}
	em := &engineModel{m: m, T: m.named(pkgDep, "Engine"), byScope: map[*scope][]*engStart{}}
	em.manT = m.named(pkgDep, "Manifold")
	isMan := fieldPred(func(t types.Type) bool { return types.Identical(t, em.manT) })
	mapOf := func(elem fieldPred) fieldPred {
		return func(t types.Type) bool {
			mt, ok := t.Underlying().(*types.Map)
			return ok && isString(mt.Key()) && elem(mt.Elem())
		}
	}
	hasWorker := fieldPred(func(t types.Type) bool {
		s := structOf(t)
		if s == nil || leafStruct(t) || types.Identical(t, em.manT) {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if isWorkerType(s.Field(i).Type()) {
				return true
			}
		}
		return false
	})
	em.tomb = need(findField(em.T, typeIs("gopkg.in/tomb.v2", "Tomb"), "tomb"), "the engine's tomb")
	em.worst = need(findField(em.T, isErrorType, "worstError"), "the engine's worst error")
	em.manifolds = need(findField(em.T, mapOf(isMan), "manifolds"), "the engine's manifolds")
	em.dependents = need(findField(em.T, mapOf(func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isString(s.Elem())
	}), "dependents"), "the dependents of a manifold")
	em.current = need(findField(em.T, mapOf(hasWorker), "current"), "the workers of the engine")
	em.installc = need(findField(em.T, chanOf(isMan), "install"), "the install requests")
	em.startedc = need(findField(em.T, chanOf(isWorkerType), "started"), "the started workers")
	em.stoppedc = need(findField(em.T, chanOf(isErrorType), "stopped"), "the stopped workers")
	em.reportc = need(findField(em.T, chanOf(func(t types.Type) bool {
		e := chanElem(t)
		if e == nil {
			return false
		}
		_, ok := e.Underlying().(*types.Map)
		return ok
	}), "report"), "the report requests")
	em.config = need(findField(em.T, typeIs(pkgDep, "EngineConfig"), "config"), "the engine's configuration")
	em.infoT = em.current.Typ.Underlying().(*types.Map).Elem()
	em.iWorker = need(findField(em.infoT, isWorkerType, "worker"), "the worker of a manifold")
	em.iErr = need(findField(em.infoT, isErrorType, "err"), "the error of a manifold")
	em.iCancel = findField(em.infoT, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && s.Params().Len() == 0 && s.Results().Len() == 0
	}, "cancel")
	em.iTime = findField(em.infoT, typeIs("time", "Time"), "startedTime")

	em.ctor = m.root(m.fn(pkgDep, "NewEngine"))
	for _, g := range m.gos(em.ctor) {
		b := m.body(em.ctor, g)
		if b.Loop {
			em.loop = b
			if len(g.T) == 1 && g.T[0].k == KFldA {
				em.base = g.T[0].args[0]
			}
		}
	}
	if em.loop == nil || em.base == nil {
		panic(undecided{"the engine's goroutine is not started by NewEngine with its tomb"})
	}
	em.li, em.tr = m.transitions(em.loop, em.classify)
	// A worker that starts or ends is that of an installed manifold: it was
	// started with it, and only the handling of its end removes it (P18).
	feasible := em.tr[:0]
	for _, t := range em.tr {
		gone := false
		if id := t.id(); id != nil && (t.Kind == "started" || t.Kind == "stopped") {
			for _, f := range []*FieldRef{em.manifolds, em.current} {
				st := em.li.Start.clone()
				mt := st.load(fieldAddr(em.base, em.T, f), f.Typ)
				_, has := st.mapGet(mt, id, f.Typ.Underlying().(*types.Map).Elem())
				v, known := t.P.St.eval(has)
				gone = gone || known && !v
			}
		}
		if !gone {
			feasible = append(feasible, t)
		}
	}
	em.tr = feasible
	em.curT = em.li.Start.load(fieldAddr(em.base, em.T, em.current), em.current.Typ)
	em.manM = em.li.Start.load(fieldAddr(em.base, em.T, em.manifolds), em.manifolds.Typ)
	em.depM = em.li.Start.load(fieldAddr(em.base, em.T, em.dependents), em.dependents.Typ)
	for _, t := range em.tr {
		for _, s := range scopes(t) {
			for i, e := range s.Evs {
				if e.Go == nil {
					continue
				}
				b := m.body(em.loop, e)
				if !callsStart(b) {
					continue
				}
				st := &engStart{S: s, I: i, E: e, Body: b}
				em.study(st)
				em.starts = append(em.starts, st)
				em.byScope[s] = append(em.byScope[s], st)
			}
		}
	}
	em.roles()
	m.eng = em
	return em
}

// study works out what a worker goroutine does.
func (em *engineModel) study(st *engStart) {
	dl := map[*Term]bool{}
	eachEvent(st.Body, func(p *Path, e *Event) {
		if isStartCall(e) {
			st.Fn = e.T[0]
			for _, a := range e.T[1:] {
				if a.typ != nil && isNamed(a.typ, "context", "Context") {
					st.Ctx = a
				} else {
					st.Get = unI(a)
				}
			}
		}
		if e.Kind == EvCall && e.Method == "After" && len(e.T) == 2 && !dl[e.T[1]] {
			dl[e.T[1]] = true
			st.Dly = append(st.Dly, e.T[1])
		}
		if e.isSend() && e.sentOn().isField(em.stoppedc) {
			st.Name = part(e.sentVal(), isString)
		}
	})
}

// roles finds out which flags and counters of a worker's info are which, from
// their use: the flag set when a worker is started, the other flag, the counter
// that goes up when a worker has started, and the one that goes up when one
// has failed.
func (em *engineModel) roles() {
	fields := leafFields(em.infoT)
	same := func(a, b *FieldRef) bool { return a != nil && b != nil && *a == *b }
	for _, st := range em.starts {
		set := em.setFor(st)
		if set == nil {
			continue
		}
		for _, f := range fields {
			if isBool(f.Typ) && em.info(set.T[2], f) == tTrue {
				if em.iStarting == nil || same(em.iStarting, f) {
					em.iStarting = f
				}
			}
		}
	}
	for _, f := range fields {
		if isBool(f.Typ) && !same(em.iStarting, f) {
			if em.iStopping == nil || f.Name == "stopping" {
				em.iStopping = f
			}
		}
	}
	need(em.iStarting, "that a worker is starting")
	need(em.iStopping, "that a worker is stopping")
	plusOne := func(kind string) *FieldRef {
		for _, t := range em.kind(kind) {
			for _, e := range em.curSets(t.Evs) {
				if e.T[1] != t.id() {
					continue
				}
				// what the start or the end of the worker itself records,
				// not what a restart that follows does
				for _, f := range fields {
					if !isIntType(f.Typ) {
						continue
					}
					if v := em.info(e.T[2], f); isIncr(v, em.info(e.Old, f)) {
						return f
					}
				}
				break
			}
		}
		return nil
	}
	em.iCount = plusOne("started")
	em.iErrors = plusOne("stopped")
}

func isIncr(v, old *Term) bool {
	return v == mkBin(tokADD, old, mkInt(1), intT, intT)
}

func (em *engineModel) chanKind(ch *Term) string {
	switch {
	case ch.k == KCall && ch.op == "tomb.Dying" && tombOf(ch.args[0], em.tomb):
		return "dying"
	case ch.isField(em.installc):
		return "install"
	case ch.isField(em.startedc):
		return "started"
	case ch.isField(em.stoppedc):
		return "stopped"
	case ch.isField(em.reportc):
		return "report"
	}
	return ""
}

func (em *engineModel) classify(e *Event) (string, *Term) {
	switch {
	case e.Kind == EvSelect && e.Block && e.Chosen >= 0 && !e.Cases[e.Chosen].Send:
		return em.chanKind(e.Cases[e.Chosen].Ch), e.Res
	case e.Kind == EvRecv:
		return em.chanKind(e.T[0]), e.Res
	}
	return "", nil
}

func (em *engineModel) kind(k string) []*Trans {
	var out []*Trans
	for _, t := range em.tr {
		if t.Kind == k {
			out = append(out, t)
		}
	}
	return out
}

func (em *engineModel) isCur(m *Term) bool { return m.isField(em.current) }
func (em *engineModel) isMan(m *Term) bool { return m.isField(em.manifolds) }
func (em *engineModel) isDep(m *Term) bool { return m.isField(em.dependents) }
func (em *engineModel) isTomb(t *Term) bool {
	return tombOf(t, em.tomb)
}

// info gives a field of a worker info.
func (em *engineModel) info(v *Term, f *FieldRef) *Term { return valField(v, em.infoT, f) }

// curSets lists the updates of worker infos (not those inside loops).
func (em *engineModel) curSets(es []*Event) []*Event {
	var out []*Event
	for _, e := range es {
		if e.Kind == EvMapSet && em.isCur(e.T[0]) {
			out = append(out, e)
		}
	}
	return out
}

// setFor is the update of the info of the manifold by which a start is
// recorded: the last before the goroutine is started, else the first after.
func (em *engineModel) setFor(st *engStart) *Event {
	if st.Name == nil {
		return nil
	}
	var last *Event
	for _, e := range em.curSets(st.S.Evs[:st.I]) {
		if e.T[1] == st.Name {
			last = e
		}
	}
	if last != nil && em.iStarting != nil && em.info(last.T[2], em.iStarting) != tTrue {
		last = nil
	}
	if last == nil {
		for _, e := range em.curSets(st.S.Evs[st.I:]) {
			if e.T[1] == st.Name {
				last = e
				break
			}
		}
	}
	return last
}

// was is the info of the manifold when the transition starts.
func (em *engineModel) was(name *Term) *Term {
	s := em.li.Start.clone()
	v, _ := s.mapGet(em.curT, name, em.infoT)
	return v
}

// infoAt is the info in a state.
func (em *engineModel) infoAt(st *State, name *Term) *Term {
	s := st.clone()
	v, _ := s.mapGet(em.curT, name, em.infoT)
	return v
}

// idle evaluates whether an info has neither a worker nor one starting.
func (em *engineModel) idle(p *Path, v *Term) (val, known bool) {
	a, k1 := p.St.eval(mkEq(em.info(v, em.iWorker), tNil))
	b, k2 := p.St.eval(em.info(v, em.iStarting))
	if k1 && !a || k2 && b {
		return false, true
	}
	return true, k1 && k2
}

func (em *engineModel) dyingT() *Term {
	return dyingAtom(fieldAddr(em.base, em.T, em.tomb))
}

// dyingSeen: the path knows the engine to be dying.
func (em *engineModel) dyingSeen(p *Path) bool {
	for f, v := range p.Facts {
		if v && f.k == KCall && f.op == "isdying" && em.isTomb(f.args[0]) {
			return true
		}
	}
	return false
}

// cfg is a field of the engine's configuration.
func (em *engineModel) isCfg(t *Term, name string) bool {
	if t == nil {
		return false
	}
	_, o, n, ok := t.field()
	return ok && n == name && o == typeObj(em.config.Typ)
}

func (em *engineModel) isCfgCall(e *Event, name string) bool {
	return e.Kind == EvCall && e.Name == "dyn" && em.isCfg(e.T[0], name)
}

// api lists the roots of the exported methods of the engine.
func (em *engineModel) api() []*Root {
	var out []*Root
	for _, f := range em.m.exportedMethods(pkgDep, "Engine") {
		out = append(out, em.m.root(f))
	}
	return out
}

func (em *engineModel) allRoots() []*Root {
	seen := map[*Root]bool{}
	var out []*Root
	add := func(rs []*Root) {
		for _, r := range rs {
			if !seen[r] {
				seen[r] = true
				out = append(out, r)
			}
		}
	}
	add(em.m.tree(em.ctor))
	for _, r := range em.api() {
		add(em.m.tree(r))
	}
	return out
}

// bodies lists the distinct worker goroutines.
func (em *engineModel) bodies() []*engStart {
	seen := map[*Root]bool{}
	var out []*engStart
	for _, s := range em.starts {
		if !seen[s.Body] {
			seen[s.Body] = true
			out = append(out, s)
		}
	}
	return out
}

// isSelf: the path knows the worker to be the engine itself.
func (em *engineModel) isSelf(p *Path, w *Term) (bool, bool) {
	for f, v := range p.Facts {
		if f.k != KOp || f.op != "==" {
			continue
		}
		a, b := unI(f.args[0]), unI(f.args[1])
		if (a == em.base && b == w) || (b == em.base && a == w) {
			return v, true
		}
	}
	return false, false
}

var _ *ssa.Function

// exitIters tells, for a loop left because it was exhausted, which iterations
// may have happened and which were the last to change the loop's variables (one
// of those has happened).
func exitIters(e *Event) (may, last []*Path) {
	type st map[*ssa.Phi]*Term
	same := func(a, b st) bool {
		for phi, v := range a {
			if b[phi] != v {
				return false
			}
		}
		return true
	}
	goal := st{}
	for _, x := range e.Exit {
		goal[x.Phi] = x.V
	}
	reach := []st{goal}
	for changed := true; changed; {
		changed = false
		for _, it := range e.Loop.Iters {
			in := st(it.In)
			ok := false
			for _, g := range reach {
				if same(g, st(it.Out)) {
					ok = true
				}
			}
			if !ok {
				continue
			}
			have := false
			for _, g := range reach {
				have = have || same(g, in)
			}
			if !have {
				reach = append(reach, in)
				changed = true
			}
		}
	}
	for _, it := range e.Loop.Iters {
		for _, g := range reach {
			if same(g, st(it.Out)) {
				may = append(may, it)
				break
			}
		}
		if same(goal, st(it.Out)) && !same(goal, st(it.In)) {
			last = append(last, it)
		}
	}
	// the loop may have ended as it began
	init := st{}
	for _, x := range e.Loop.Init {
		init[x.Phi] = x.V
	}
	if same(goal, init) {
		last = nil
	}
	return
}
