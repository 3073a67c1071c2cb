package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Rules about goroutines, locks and blocking which apply to every component.

// sameLock: two lock terms denote the same mutex (of the same object, as there
// is one object per analysis).
func sameLock(a, b *Term) bool {
	a, b = lockOf(a), lockOf(b)
	if a == b {
		return true
	}
	return a.k == KFldA && b.k == KFldA && a.obj == b.obj && a.op == b.op
}

func isRead(l *Term) bool { return l.k == KCall && l.op == "rlock" }

// protected: two accesses hold a common lock strongly enough.
func protected(a, b *Access) bool {
	for _, x := range a.Locks {
		for _, y := range b.Locks {
			if !sameLock(x, y) {
				continue
			}
			if a.Write && isRead(x) || b.Write && isRead(y) {
				continue
			}
			return true
		}
	}
	return false
}

// raceRule checks every pair of accesses to a field of the types, from code
// which may run at the same time.
func raceRule(c *Check, R string, roots []*Root, mine func(field string) bool) {
	m := c.M
	by := map[string][]*Access{}
	var keys []string
	for _, r := range roots {
		var ks []string
		for k := range r.acc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			a := r.acc[k]
			f := a.Field
			if !mine(f) {
				continue
			}
			if by[f] == nil {
				keys = append(keys, f)
			}
			by[f] = append(by[f], a)
		}
	}
	sort.Strings(keys)
	for _, f := range keys {
		as := by[f]
		atomic := strings.HasSuffix(f, "@atomic")
		if atomic {
			for _, o := range by[strings.TrimSuffix(f, "@atomic")] {
				c.want(R, false, where{M: m, Fn: o.Fn, In: o.Instr}, "%s is used atomically elsewhere but not here", f)
			}
			c.want(R, true, where{M: m, Fn: as[0].Fn, In: as[0].Instr}, "")
			continue
		}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.Write && !b.Write {
					continue
				}
				if a.Root.Loop && b.Root.Loop {
					continue // one goroutine
				}
				if a.Root.Loop && b.Dead || b.Root.Loop && a.Dead {
					continue // after the loop has finished
				}
				if a.Dead && b.Dead && !a.Write && !b.Write {
					continue
				}
				if a == b && !a.Root.multi() {
					continue
				}
				w := a
				o := b
				if !w.Write {
					w, o = b, a
				}
				c.want(R, protected(a, b), where{M: m, Fn: w.Fn, In: w.Instr}, "%s is written here (%s) and used at %s (%s) without a common lock", shortName(f), rootShort(w.Root), where{M: m, Fn: o.Fn, In: o.Instr}.pos(), rootShort(o.Root))
			}
		}
		c.want(R, true, where{M: m, Fn: as[0].Fn, In: as[0].Instr}, "")
	}
}

func rootShort(r *Root) string {
	s := r.Name
	s = strings.ReplaceAll(s, "github.com/juju/worker/v4", "worker")
	return s
}

func (r *Root) multi() bool { return !r.Loop }

// held counts the locks held in the state.
func held(st *State, mine func(l *Term) bool) int {
	n := 0
	for _, l := range st.locks {
		if mine(lockOf(l)) {
			n++
		}
	}
	return n
}

// lockRule: locks are released on every path, never taken twice, and nothing
// that may block happens while one is held.
func lockRule(c *Check, R string, roots []*Root, mine func(l *Term) bool, okBlock func(r *Root, p *Path, e *Event) bool) {
	m := c.M
	for _, r := range roots {
		for _, p := range r.Paths {
			for _, l := range p.St.locks {
				if mine(lockOf(l)) && p.Kind != "panic" {
					c.want(R+"-released", false, m.atP(r.Fn, p), "%s is still locked when the function ends by %s", lockOf(l), p.Kind)
				}
			}
			c.want(R+"-released", true, m.atFn(r.Fn, ""), "")
			walk(p.Events, func(e *Event) {
				if e.Loop != nil && e.Loop.Start != nil {
					for _, it := range e.Loop.Iters {
						bad := ""
						if a, b := held(e.Loop.Start, mine), held(it.St, mine); a != b {
							bad = "held"
							if a > b {
								bad = "released"
							}
						}
						c.want(R+"-released", bad == "", m.atP(e.Loop.Fn, it), "a lock is still %s when the next iteration begins, unlike before", bad)
					}
				}
				held := false
				for _, l := range e.Locks {
					if mine(lockOf(l)) {
						held = true
					}
				}
				if e.Kind == EvLock && mine(e.T[0]) {
					dup := false
					for _, l := range e.Locks {
						if sameLock(l, e.T[0]) {
							dup = true
						}
					}
					c.want(R+"-not-reentered", !dup, m.atE(e, p), "%s is locked while it is already held", e.T[0])
				}
				if e.Kind == EvUnlock && mine(e.T[0]) {
					has := false
					for _, l := range e.Locks {
						if sameLock(l, e.T[0]) {
							has = true
						}
					}
					c.want(R+"-released", has, m.atE(e, p), "%s is unlocked without being held", e.T[0])
				}
				if !held {
					return
				}
				blk := blocking(e) || e.Kind == EvCall && e.Method == "Wait"
				if !blk {
					return
				}
				ok := e.Kind == EvCondW || okBlock != nil && okBlock(r, p, e)
				c.want(R+"-no-blocking", ok, m.atE(e, p), "%s may block while a lock is held", describe(e))
			})
		}
	}
}

func describe(e *Event) string {
	switch e.Kind {
	case EvSend:
		return "a send on " + e.T[0].String()
	case EvRecv:
		return "a receive from " + e.T[0].String()
	case EvSelect:
		return "a select"
	case EvTWait:
		return "waiting for a tomb"
	case EvCall:
		return "calling " + shortName(e.Name)
	}
	return e.Kind
}

// bufferedOnce: a send on a channel of the function's own with room for it.
func bufferedOnce(p *Path, e *Event) bool {
	if !e.isSend() {
		return false
	}
	ch := e.sentOn()
	if ch.k != KAlloc || ch.op == "" || ch.op == "0" {
		return false
	}
	n := 0
	for _, x := range p.Events {
		if x.isSend() && x.sentOn() == ch {
			n++
		}
	}
	inLoop := false
	for _, x := range p.Events {
		if x.Loop != nil {
			walk([]*Event{x}, func(y *Event) {
				if y.isSend() && y.sentOn() == ch {
					inLoop = true
				}
			})
		}
	}
	return n <= 1 && !inLoop
}

func fieldOwner(key string) string {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return key
	}
	return key[:i]
}

func typeKeyName(t types.Type) string {
	if o, ok := typeObj(t).(types.Object); ok {
		return o.Pkg().Path() + "." + o.Name()
	}
	return fmt.Sprint(typeObj(t))
}
