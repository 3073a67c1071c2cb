package main

import "strings"

// P21 -------------------------------------------------------------------------

// depLoop: the event is a complete loop over all dependents of the manifold.
func (em *engineModel) depLoop(e *Event, id *Term) bool {
	if e.Loop == nil || e.Loop.Kind != "slice" || e.Loop.Elem == nil {
		return false
	}
	ct := copyOf(e.Loop.Container)
	return ct.k == KLookup && em.isDep(ct.args[0]) && ct.args[1] == id
}

// copyOf strips what only copies a slice.
func copyOf(t *Term) *Term {
	for {
		switch {
		case t.k == KCall && t.op == "appendslice" && emptySlice(t.args[0]):
			t = t.args[1]
		case t.k == KCall && strings.HasSuffix(t.op, "slices.Clone") && len(t.args) == 1:
			t = t.args[0]
		case t.k == KCollect && len(t.sub) == 0 && emptySlice(t.args[0]) && t.args[1].k == KElem:
			t = t.args[2]
		default:
			return t
		}
	}
}

func emptySlice(t *Term) bool {
	return t.isNil() || t.k == KAlloc && t.op != "filled" || t.k == KCall && (t.op == "slicelit" && len(t.args) == 0 || t.op == "makeslice" || t.op == "empty")
}

// bounces: the loop handles every dependent in the way it must.
func (em *engineModel) bounces(c *Check, s *scope, i int) {
	const R = "dependents-bounced"
	li := s.Evs[i].Loop
	for _, in := range scopes(s.T) {
		if in.Outer != s || in.Idx != i {
			continue
		}
		v := em.infoAt(li.Start, li.Elem)
		if em.notInstalled(in.P, li.Elem) && len(em.startsOf(in, li.Elem)) == 0 && len(em.curSets(in.Evs)) == 0 {
			continue
		}
		if b, known := em.idle(in.P, v); known && b {
			sts := em.startsOf(in, li.Elem)
			if len(sts) == 0 {
				c.want(R, em.dyingSeen(in.P), in.at(nil), "a dependent that is not running is not started when an input of it changes")
				continue
			}
			got := em.delayBase(sts[0])
			c.want(R, got == "BounceDelay" || got == whichever, in.at(sts[0].E), "a dependent is started after %s instead of BounceDelay", got)
			continue
		}
		em.stops(c, R, in, li.Elem, v)
		c.want(R, len(em.startsOf(in, li.Elem)) == 0, in.at(nil), "a dependent that may be running is started again")
	}
}

func ruleP21(c *Check) {
	em := c.M.engine()
	em.infoStates(c)
	c.rule("dependents-bounced", 10)
	c.rule("bounced-after-the-change", 4)
	c.rule("bounced-only-on-a-change", 4)
	c.rule("dependents-recorded", 4)
	c.rule("dependents-removed", 2)
	c.rule("dependents-otherwise-kept", 0)
	bounce := map[*scope]map[int]bool{}
	for _, t := range em.tr {
		id := t.id()
		if t.Kind != "started" && t.Kind != "stopped" {
			continue
		}
		top := t.top()
		set := -1
		for i, e := range top.Evs {
			if e.Kind != EvMapSet || !em.isCur(e.T[0]) || e.T[1] != id {
				continue
			}
			if set < 0 {
				set = i
			}
		}
		if set < 0 {
			continue
		}
		was := em.was(id)
		nilWas, known := t.eval(mkEq(em.info(was, em.iWorker), tNil))
		must := t.Kind == "started" && em.info(top.Evs[set].T[2], em.iWorker) == t.worker() ||
			t.Kind == "stopped" && !(known && nilWas)
		n := 0
		for i, e := range top.Evs {
			if !em.depLoop(e, id) {
				continue
			}
			acts := false
			for _, it := range e.Loop.Iters {
				if len(em.curSets(it.Events)) > 0 {
					acts = true
				}
			}
			if !acts {
				continue
			}
			n++
			if bounce[top] == nil {
				bounce[top] = map[int]bool{}
			}
			bounce[top][i] = true
			c.want("bounced-after-the-change", i > set && e.Exh, top.at(e), "the dependents are bounced before the change is recorded, or not all of them are")
			em.bounces(c, top, i)
		}
		if must {
			if n == 0 && em.dyingSeen(t.P) {
				continue
			}
			c.want("dependents-bounced", n == 1, t.at(nil), "a worker has started or stopped, but not all manifolds that depend on it are bounced")
		} else {
			c.want("bounced-only-on-a-change", n == 0, t.at(nil), "dependents are bounced although the worker they depend on has not changed")
		}
	}
	// nothing else starts or stops a worker
	for _, st := range em.starts {
		s := st.S
		ok := s.Loop == nil && st.Name == s.T.id() && (s.T.Kind == "install" || s.T.Kind == "stopped")
		if s.Loop != nil && s.Outer != nil && bounce[s.Outer][s.Idx] {
			ok = st.Name == s.Loop.Loop.Elem
		}
		c.want("bounced-only-on-a-change", ok, s.at(st.E), "a worker is started which was neither installed nor stopped, and does not depend on one that changed")
	}
	for _, t := range em.tr {
		for _, s := range scopes(t) {
			for _, e := range em.curSets(s.Evs) {
				if em.info(e.T[2], em.iStopping) != tTrue || em.info(e.Old, em.iStopping) == tTrue {
					continue
				}
				ok := t.Kind == "dying" || s.Loop != nil && s.Outer != nil && bounce[s.Outer][s.Idx] && e.T[1] == s.Loop.Loop.Elem
				c.want("bounced-only-on-a-change", ok || em.dyingSeen(s.P), s.at(e), "a worker is stopped although nothing it depends on has changed")
			}
		}
	}
	em.depIndex(c)
}

// depIndex checks that the index of dependents follows the manifolds.
func (em *engineModel) depIndex(c *Check) {
	for _, t := range em.tr {
		var add, del *Event
		for _, e := range t.top().Evs {
			if e.Kind == EvMapSet && em.isMan(e.T[0]) {
				add = e
			}
			if e.Kind == EvMapDel && em.isMan(e.T[0]) {
				del = e
			}
		}
		nAdd, nDel := 0, 0
		for _, s := range scopes(t) {
			for _, e := range s.Evs {
				switch {
				case e.Kind == EvMapBad && em.isDep(e.T[0]):
					c.fail("dependents-otherwise-kept", s.at(e), "the index of dependents is changed wholesale")
				case e.Kind == EvMapDel && em.isDep(e.T[0]):
					// only an entry that is empty
					v, known := s.P.St.eval(mkEq(mk(KLen, "", 0, nil, intT, e.Old), mkInt(0)))
					c.want("dependents-otherwise-kept", known && v, s.at(e), "the dependents of a manifold are forgotten")
				case e.Kind == EvMapSet && em.isDep(e.T[0]):
					li := s.Loop
					switch {
					case add != nil && li != nil && em.isInputsOf(li.Loop, add.T[2]) && li.Exh && s.Outer == t.top():
						ok := e.T[1] == li.Loop.Elem && appended(e.T[2], e.Old, add.T[1])
						if c.want("dependents-recorded", ok, s.at(e), "installing a manifold changes the dependents of %s to %s", e.T[1], e.T[2]) {
							nAdd++
						}
					case del != nil && li != nil && li.Exh && em.depKeys(li.Loop) != nil && s.Outer == t.top():
						ok := e.T[1] == em.depKeys(li.Loop) && removed(e.T[2], e.Old, del.T[1])
						if c.want("dependents-removed", ok, s.at(e), "removing a manifold changes the dependents of %s to %s", e.T[1], e.T[2]) {
							nDel++
						}
					case del != nil && li != nil && em.isInputsOf(li.Loop, em.installed(t, del.T[1])) && li.Exh && s.Outer == t.top():
						// it is recorded there and nowhere else
						ok := e.T[1] == li.Loop.Elem && removed(e.T[2], e.Old, del.T[1])
						if c.want("dependents-removed", ok, s.at(e), "removing a manifold changes the dependents of %s to %s", e.T[1], e.T[2]) {
							nDel++
						}
					default:
						c.fail("dependents-otherwise-kept", s.at(e), "the index of dependents is changed although no manifold is installed or removed")
					}
				}
			}
		}
		if add != nil {
			c.want("dependents-recorded", nAdd > 0, t.at(add), "a manifold is installed without being recorded as a dependent of all of its inputs")
		}
		if del != nil {
			c.want("dependents-removed", nDel > 0, t.at(del), "a manifold is removed but remains recorded as a dependent")
		}
		// every iteration does it
		for _, e := range t.top().Evs {
			if e.Loop == nil || !e.Exh {
				continue
			}
			isAdd := add != nil && em.isInputsOf(e.Loop, add.T[2])
			isDel := del != nil && (em.depKeys(e.Loop) != nil || em.isInputsOf(e.Loop, em.installed(t, del.T[1])))
			if !isAdd && !isDel {
				continue
			}
			n, idle := 0, 0
			for _, it := range e.Loop.Iters {
				sets := false
				for _, x := range it.Events {
					if x.Kind == EvMapSet && em.isDep(x.T[0]) {
						sets = true
					}
				}
				switch {
				case sets:
					n++
				case del != nil && em.notAmong(it, del.T[1]):
					idle++
				}
			}
			if n > 0 {
				c.want("dependents-recorded", n+idle == len(e.Loop.Iters), t.at(e), "some inputs, or dependents, are skipped when a manifold is installed or removed")
			}
		}
	}
}

// notAmong: the manifold is known not to be among the dependents looked at.
func (em *engineModel) notAmong(p *Path, name *Term) bool {
	for _, f := range sortedFacts(p.Facts) {
		if !f.V && f.A.k == KCall && strings.Contains(f.A.op, "ontains") && len(f.A.args) == 2 && f.A.args[1] == name &&
			f.A.args[0].contains(func(x *Term) bool { return em.isDep(x) }) {
			return true
		}
	}
	return false
}

// installed is the manifold of that name at the start of the transition.
func (em *engineModel) installed(t *Trans, name *Term) *Term {
	v, _ := em.li.Start.clone().mapGet(em.manM, name, em.manT)
	return v
}

func (em *engineModel) isInputsOf(li *LoopInfo, man *Term) bool {
	if li.Kind != "slice" || li.Elem == nil {
		return false
	}
	b, o, n, ok := copyOf(li.Container).field()
	return ok && n == "Inputs" && o == typeObj(em.manT) && b == man
}

// depKeys is the generic key of a loop over the index of dependents.
func (em *engineModel) depKeys(li *LoopInfo) *Term {
	switch {
	case li.Kind == "map" && em.isDep(li.Container):
		return li.Key
	case li.Kind == "slice" && li.Elem != nil && li.Elem.k == KKey:
		ct := li.Container
		if ct.k == KCollect && len(ct.sub) == 0 && em.isDep(ct.args[2]) {
			return li.Elem
		}
	}
	return nil
}

// appended: v is the list old with name added to it.
func appended(v, old, name *Term) bool {
	if v.k == KAppend && len(v.args) == 2 {
		return v.args[0] == old && v.args[1] == name
	}
	if v.k == KCall && v.op == "setvalues" {
		s := v.args[0]
		if s.k == KCall && s.op == "setplus" && s.args[1] == name {
			s = s.args[0]
			return s.k == KCall && s.op == "set" && len(s.args) == 1 && s.args[0] == old
		}
	}
	return false
}

// removed: v is the list old without name.
func removed(v, old, name *Term) bool {
	switch {
	case v.k == KCall && v.op == "setvalues":
		s := v.args[0]
		if s.k == KCall && s.op == "setminus" && s.args[1] == name {
			s = s.args[0]
			return s.k == KCall && s.op == "set" && len(s.args) == 1 && s.args[0] == old
		}
		if s.k == KCall && s.op == "setdiff" {
			a, b := s.args[0], s.args[1]
			return a.k == KCall && a.op == "set" && len(a.args) == 1 && a.args[0] == old &&
				b.k == KCall && b.op == "set" && b.has(name)
		}
	case v.k == KCollect:
		if !emptyInit(v.args[0], old) || v.args[1].k != KElem || v.args[2] != old || len(v.sub) != 1 {
			return false
		}
		f := v.sub[0]
		return f.A == mkEq(v.args[1], name) && !f.V
	case v.k == KCall && v.op == "slices.DeleteFunc":
		return false
	}
	return false
}

func emptyInit(t, old *Term) bool {
	if emptySlice(t) {
		return true
	}
	// old[:0]
	return t.k == KCall && strings.HasPrefix(t.op, "slice") && len(t.args) > 0 && t.args[0] == old
}

// P22 -------------------------------------------------------------------------

func ruleP22(c *Check) {
	em := c.M.engine()
	em.deaths(c)
	em.waitResult(c)
}

// deaths checks when the engine ends by itself, and what it remembers then.
func (em *engineModel) deaths(c *Check) {
	m := c.M
	c.rule("fatality-asked", 4)
	c.rule("fatal-stops-engine", 2)
	c.rule("worst-error-kept", 2)
	c.rule("internal-errors-only", 2)
	worstA := fieldAddr(em.base, em.T, em.worst)
	isWorst := func(a *Term) bool {
		return a == worstA || a.k == KFldA && a.obj == em.worst.Obj && a.n == em.worst.Idx
	}
	for _, t := range em.tr {
		var asks, worse, stores []*Event
		var kills []*Event
		walk(allEvs(t), func(e *Event) {
			switch {
			case em.isCfgCall(e, "IsFatal"):
				asks = append(asks, e)
			case em.isCfgCall(e, "WorstError"):
				worse = append(worse, e)
			case e.Kind == EvStore && isWorst(e.T[0]):
				stores = append(stores, e)
			}
		})
		for _, s := range scopes(t) {
			for i, e := range s.Evs {
				if e.Kind == EvKill && em.isTomb(e.T[0]) {
					if len(e.T) > 1 && !e.T[1].isNil() {
						em.internalKill(c, t, s, i, e)
					} else if s.Loop == nil {
						kills = append(kills, e)
					} else {
						c.fail("internal-errors-only", s.at(e), "the engine is stopped inside a loop")
					}
				}
			}
		}
		if t.Kind != "stopped" {
			c.want("internal-errors-only", len(kills) == 0, t.at(nil), "the engine is stopped without a fatal error")
			for _, e := range append(append(append([]*Event(nil), asks...), worse...), stores...) {
				c.fail("worst-error-kept", t.at(e), "the worst error is touched although no worker has stopped")
			}
			continue
		}
		x, okX := em.filtered(t)
		if !okX {
			c.fail("fatality-asked", t.at(nil), "the manifold's filter is not applied to the error of its worker")
			continue
		}
		unexpected, known := em.idle(t.P, em.was(t.id()))
		if known && unexpected {
			continue // an internal error, checked above
		}
		if !c.want("fatality-asked", len(asks) == 1 && len(asks[0].T) == 2 && asks[0].T[1] == x, t.at(nil), "IsFatal is not asked once about the filtered error of the worker that stopped (%d)", len(asks)) {
			continue
		}
		fatal, known := t.eval(asks[0].Res)
		if !known {
			c.fail("fatality-asked", t.at(asks[0]), "the answer of IsFatal is not used")
			continue
		}
		if !fatal {
			c.want("fatal-stops-engine", len(kills) == 0, t.at(asks[0]), "the engine is stopped by an error that is not fatal")
			c.want("worst-error-kept", len(stores) == 0 && len(worse) == 0, t.at(asks[0]), "an error that is not fatal is recorded as the worst one")
			continue
		}
		c.want("fatal-stops-engine", len(kills) >= 1, t.at(asks[0]), "the engine is not stopped by a fatal error")
		old := em.li.Start.clone().load(worstA, em.worst.Typ)
		ok := len(worse) == 1 && len(worse[0].T) == 3 && worse[0].T[1] == x && worse[0].T[2] == old && len(stores) == 1 && stores[0].T[1] == worse[0].Res
		if !ok && len(worse) == 1 && len(worse[0].T) == 3 && worse[0].T[2] == x && worse[0].T[1] == old && len(stores) == 1 {
			ok = stores[0].T[1] == worse[0].Res
		}
		c.want("worst-error-kept", ok, t.at(asks[0]), "the worst error is not WorstError(the new one, the one recorded)")
		// recorded before the engine can be seen dead
	}
	for _, r := range em.allRoots() {
		if r == em.loop {
			continue
		}
		eachEvent(r, func(p *Path, e *Event) {
			if e.Kind == EvStore && isWorst(e.T[0]) {
				c.fail("worst-error-kept", m.atE(e, p), "the worst error is written outside the event loop")
			}
			if e.Kind == EvKill && em.isTomb(e.T[0]) {
				c.want("internal-errors-only", len(e.T) < 2 || e.T[1].isNil(), m.atE(e, p), "the engine is killed with an error by %s", r.Name)
			}
			if em.isCfgCall(e, "IsFatal") || em.isCfgCall(e, "WorstError") {
				c.fail("worst-error-kept", m.atE(e, p), "IsFatal or WorstError is called outside the event loop")
			}
		})
	}
}

// internalKill: the engine may fail by itself only when its own invariants
// are broken.
func (em *engineModel) internalKill(c *Check, t *Trans, s *scope, i int, e *Event) {
	err := e.T[1]
	ok := false
	p := s.P
	// the kill is conditional on one of: the manifold is not installed, a
	// start when the manifold is not idle, a second worker, a stop when idle
	for f, v := range p.Facts {
		if f.k == KHas && em.isMan(f.args[0]) && !v {
			ok = true
		}
	}
	for _, n := range []*Term{t.id(), loopElem(s)} {
		if n == nil {
			continue
		}
		was := em.was(n)
		if v, known := em.idle(p, was); known && (t.Kind == "stopped" && v || t.Kind != "stopped" && !v) {
			ok = true
		}
		if s.Loop != nil {
			if v, known := em.idle(p, em.infoAt(s.Loop.Loop.Start, n)); known && !v {
				ok = true
			}
		}
	}
	ok = ok && err.k != KFld && isErrMake(stripErr(err))
	c.want("internal-errors-only", ok, s.at(e), "the engine is killed with %s although none of its invariants is broken", err)
}

func loopElem(s *scope) *Term {
	if s.Loop == nil {
		return nil
	}
	return s.Loop.Loop.Elem
}

// waitResult checks what Wait returns.
func (em *engineModel) waitResult(c *Check) {
	c.rule("wait-reports-worst", 2)
	m := c.M
	r := m.root(m.method(pkgDep, "Engine", "Wait"))
	for _, p := range r.Paths {
		if p.Kind != "ret" || len(p.Res) != 1 {
			continue
		}
		at := m.atP(r.Fn, p)
		var tw *Event
		var filters []*Event
		twi := -1
		for i, e := range p.Events {
			if e.Kind == EvTWait && em.isTomb(e.T[0]) {
				tw, twi = e, i
			}
			if em.isCfgCall(e, "Filter") {
				filters = append(filters, e)
				c.want("wait-reports-worst", twi >= 0 && i > twi, m.atE(e, p), "the worst error is filtered before the engine has ended")
			}
		}
		if !c.want("wait-reports-worst", tw != nil && tw.Res != nil, at, "Wait returns although the engine may not have ended") {
			continue
		}
		res := p.Res[0]
		isNil, known := p.St.eval(mkEq(tw.Res, tNil))
		if !known {
			c.want("wait-reports-worst", res == tw.Res, at, "Wait returns %s whether or not the engine itself failed", res)
			continue
		}
		if !isNil {
			c.want("wait-reports-worst", stripErr(res) == tw.Res, at, "Wait returns %s instead of the engine's own error", res)
			continue
		}
		worst := func(t *Term) bool { return t.isField(em.worst) && em.afterWait(t, tw) }
		if len(filters) == 0 {
			noF := false
			for f, v := range p.Facts {
				if v && f.k == KOp && f.op == "==" && f.args[1].isNil() && em.isCfg(f.args[0], "Filter") {
					noF = true
				}
			}
			ok := worst(res) && noF
			if res.isNil() {
				for f, v := range p.Facts {
					if v && f.k == KOp && f.op == "==" && f.args[1].isNil() && worst(f.args[0]) {
						ok = noF
					}
				}
			}
			c.want("wait-reports-worst", ok, at, "Wait returns %s instead of the worst error", res)
			continue
		}
		ok := len(filters) == 1 && res == filters[0].Res && len(filters[0].T) == 2 && worst(filters[0].T[1])
		c.want("wait-reports-worst", ok, at, "Wait does not return what Filter made of the worst error")
	}
	k := m.root(m.method(pkgDep, "Engine", "Kill"))
	for _, p := range k.Paths {
		n := 0
		for _, e := range p.Events {
			if e.Kind == EvKill && em.isTomb(e.T[0]) {
				n++
			}
		}
		c.want("wait-reports-worst", n == 1 && p.Kind == "ret", m.atP(k.Fn, p), "Kill does not stop the engine")
	}
}

// afterWait: the field is read after the engine has ended.
func (em *engineModel) afterWait(t *Term, tw *Event) bool {
	return t.k != KInit || t.n >= tw.Ver
}

// notInstalled: the path has found that there is no such manifold.
func (em *engineModel) notInstalled(p *Path, name *Term) bool {
	for f, v := range p.Facts {
		if !v && f.k == KHas && f.args[1] == name && (em.isMan(f.args[0]) || em.isCur(f.args[0])) {
			return true
		}
	}
	return false
}
