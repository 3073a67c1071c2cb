package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event kinds.
const (
	EvCall    = "call"   // opaque call (callback, interface method, external)
	EvSend    = "send"   // channel send (T[0]=chan, T[1]=value)
	EvRecv    = "recv"   // channel receive (T[0]=chan, Res=value)
	EvSelect  = "select" // select statement
	EvGo      = "go"     // goroutine launch
	EvClose   = "close"  // T[0]=chan
	EvStore   = "store"  // T[0]=addr T[1]=value, shared memory only
	EvMapSet  = "mapset" // T[0]=map T[1]=key T[2]=value
	EvMapDel  = "mapdel" // T[0]=map T[1]=key
	EvMapBad  = "mapbad" // map handed to unknown code
	EvLock    = "lock"   // T[0]=mutex
	EvUnlock  = "unlock" // T[0]=mutex
	EvCondW   = "condwait"
	EvBcast   = "broadcast"
	EvKill    = "tombkill" // T[0]=tomb T[1]=err
	EvTWait   = "tombwait"
	EvWgAdd   = "wgadd"
	EvWgDone  = "wgdone"
	EvWgWait  = "wgwait"
	EvCAS     = "cas"
	EvLoop    = "loop"
	EvNotDie  = "notdying" // tomb T[0] observed not dying
	EvDie     = "dying"    // tomb T[0] observed dying, other than by receiving from Dying
	EvRecurse = "recurse"  // recursive call not followed
)

type SelCase struct {
	Send bool
	Ch   *Term
	Val  *Term
}

type Event struct {
	Kind   string
	Instr  ssa.Instruction
	Fn     *ssa.Function
	Cx     *actx
	Name   string
	Method string // for interface method calls
	T      []*Term
	Res    *Term
	Locks  []*Term
	Cases  []SelCase
	Chosen int // index in Cases, -1 default
	Block  bool
	Loop   *LoopInfo
	Exh    bool // loop left because exhausted
	Go     *GoInfo
	NFacts int
	Dead   bool
	Old    *Term // EvMapSet, EvMapDel: the value replaced, and whether there was one
	OldHas *Term
	Ver    int // version of shared memory when the event happens
	Exit   []PhiVal
	Post   int            // EvLock, EvCondW: the version afterwards
	Facts  map[*Term]bool // EvCondW: what is known when it happens
}

// PhiVal is the value of a loop variable.
type PhiVal struct {
	Phi *ssa.Phi
	V   *Term
}

type GoInfo struct {
	Fn    *Term
	Args  []*Term
	St    *State
	Wg    *Term // sync.WaitGroup.Go
	Kind  string
	Locks []*Term
	body  *Root
}

// LoopInfo summarises a loop: every way in which a generic iteration can go
// back to the loop header.
type LoopInfo struct {
	ID        int
	Fn        *ssa.Function
	Header    *ssa.BasicBlock
	Kind      string // "map", "slice", "other"
	Container *Term
	Elem      *Term
	Key       *Term
	Iters     []*Path
	Start     *State // memory at the start of a generic iteration
	FromStart bool
	Init      []PhiVal
	Entry     []PhiVal // of all loop variables
}

type evNode struct {
	prev *evNode
	e    *Event
	n    int
	h    uint64
}

type mapUpd struct {
	key, val *Term // val nil: deleted
}

type panicSt struct {
	kind      string
	val       *Term
	recovered bool
}

// State is an abstract state along one set of paths.
type State struct {
	mem   map[*Term]*Term
	memH  uint64
	maps  map[*Term][]mapUpd
	mver  map[*Term]int
	mapH  uint64
	facts map[*Term]bool
	factH uint64
	fver  map[string]int
	gver  int
	verH  uint64
	ev    *evNode
	locks []*Term
	sym   map[*Term]bool
	pub   map[*Term]bool
	pan   *panicSt
	dead  bool
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, maps: map[*Term][]mapUpd{}, mver: map[*Term]int{}, facts: map[*Term]bool{},
		fver: map[string]int{}, sym: map[*Term]bool{}, pub: map[*Term]bool{}}
}

func (s *State) clone() *State {
	c := *s
	c.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		c.mem[k] = v
	}
	c.maps = make(map[*Term][]mapUpd, len(s.maps))
	for k, v := range s.maps {
		c.maps[k] = v
	}
	c.mver = make(map[*Term]int, len(s.mver))
	for k, v := range s.mver {
		c.mver[k] = v
	}
	c.facts = make(map[*Term]bool, len(s.facts)+2)
	for k, v := range s.facts {
		c.facts[k] = v
	}
	c.fver = make(map[string]int, len(s.fver))
	for k, v := range s.fver {
		c.fver[k] = v
	}
	c.sym = make(map[*Term]bool, len(s.sym))
	for k, v := range s.sym {
		c.sym[k] = v
	}
	c.pub = make(map[*Term]bool, len(s.pub))
	for k, v := range s.pub {
		c.pub[k] = v
	}
	c.locks = append([]*Term(nil), s.locks...)
	return &c
}

func memHash(a, v *Term) uint64 { return mix(a.h, v.h) }
func factHash(a *Term, v bool) uint64 {
	if v {
		return mix(a.h, 1)
	}
	return mix(a.h, 2)
}

func (s *State) setCell(a, v *Term) {
	if old, ok := s.mem[a]; ok {
		s.memH -= memHash(a, old)
	}
	s.mem[a] = v
	s.memH += memHash(a, v)
}

func (s *State) delCell(a *Term) {
	if old, ok := s.mem[a]; ok {
		s.memH -= memHash(a, old)
		delete(s.mem, a)
	}
}

func (s *State) setFact(a *Term, v bool) {
	if old, ok := s.facts[a]; ok {
		if old == v {
			return
		}
		s.factH -= factHash(a, old)
	}
	s.facts[a] = v
	s.factH += factHash(a, v)
}

func (s *State) delFact(a *Term) {
	if old, ok := s.facts[a]; ok {
		s.factH -= factHash(a, old)
		delete(s.facts, a)
	}
}

func (s *State) add(e *Event) {
	h := uint64(17)
	n := 1
	if s.ev != nil {
		h = s.ev.h
		n = s.ev.n + 1
	}
	h = mix(h, strH(e.Kind))
	h = mix(h, ptrH(e.Instr))
	for _, t := range e.T {
		h = mix(h, t.h)
	}
	if e.Res != nil {
		h = mix(h, e.Res.h)
	}
	h = mix(h, uint64(e.Chosen+7))
	for _, cs := range e.Cases {
		h = mix(h, cs.Ch.h)
		if cs.Val != nil {
			h = mix(h, cs.Val.h)
		}
	}
	for _, t := range []*Term{e.Old, e.OldHas} {
		if t != nil {
			h = mix(h, t.h)
		}
	}
	var fh uint64
	for f, v := range e.Facts {
		fh += factHash(f, v)
	}
	h = mix(h, fh)
	if e.Exh {
		h = mix(h, 3)
	}
	for _, x := range e.Exit {
		if x.V != nil {
			h = mix(h, x.V.h)
		}
	}
	if e.Loop != nil {
		h = mix(h, uint64(e.Loop.ID)*31)
		for _, it := range e.Loop.Iters {
			h = mix(h, it.key)
		}
	}
	if e.Go != nil {
		h = mix(h, e.Go.Fn.h)
		if e.Go.St != nil {
			h = mix(h, e.Go.St.memH)
			h = mix(h, e.Go.St.mapH)
		}
		for _, a := range e.Go.Args {
			h = mix(h, a.h)
		}
	}
	e.Locks = append([]*Term(nil), s.locks...)
	e.NFacts = len(s.facts)
	e.Dead = s.dead
	e.Ver = s.gver
	s.ev = &evNode{prev: s.ev, e: e, n: n, h: h}
}

var ptrIDs = map[any]uint64{}

func ptrH(p any) uint64 {
	if p == nil {
		return 0
	}
	id, ok := ptrIDs[p]
	if !ok {
		id = uint64(len(ptrIDs)+1) * 0x9e3779b97f4a7c15
		ptrIDs[p] = id
	}
	return id
}

func strH(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (s *State) lockHash() uint64 {
	h := uint64(0)
	for _, l := range s.locks {
		h = mix(h, l.h)
	}
	return h
}

// stateKey identifies everything about the state but its facts.
func (s *State) key() uint64 {
	h := uint64(99)
	if s.ev != nil {
		h = s.ev.h
	}
	h = mix(h, s.memH)
	h = mix(h, s.mapH)
	h = mix(h, s.verH)
	h = mix(h, s.lockHash())
	var ph uint64
	for k := range s.pub {
		ph += mix(k.h, 5)
	}
	for k := range s.sym {
		ph += mix(k.h, 6)
	}
	h = mix(h, ph)
	if s.pan != nil {
		h = mix(h, strH(s.pan.kind))
		if s.pan.val != nil {
			h = mix(h, s.pan.val.h)
		}
		if s.pan.recovered {
			h = mix(h, 9)
		}
	}
	if s.dead {
		h = mix(h, 4)
	}
	return h
}

func (s *State) events(from int) []*Event {
	n := 0
	if s.ev != nil {
		n = s.ev.n
	}
	if n <= from {
		return nil
	}
	out := make([]*Event, n-from)
	for x := s.ev; x != nil && x.n > from; x = x.prev {
		out[x.n-from-1] = x.e
	}
	return out
}

// eval gives the truth of a boolean term under the facts, if known.
func (s *State) eval(t *Term) (val, known bool) {
	switch {
	case t == tTrue:
		return true, true
	case t == tFalse:
		return false, true
	case t.k == KOp && t.op == "!":
		v, k := s.eval(t.args[0])
		return !v, k
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch {
	case t.k == KOp && t.op == "==":
		a, b := t.args[0], t.args[1]
		// x == c where another x == c' is known
		if b.k == KConst || b.k == KMkI {
			for f, v := range s.facts {
				if !v || f.k != KOp || f.op != "==" || f.args[0] != a {
					continue
				}
				o := f.args[1]
				if o != b {
					if e := mkEq(o, b); e == tTrue || e == tFalse {
						return e == tTrue, true
					}
				}
			}
		}
		// equality classes: a == x known and x == b known
		if v, ok := s.evalEqVia(a, b); ok {
			return v, true
		}
		if c, ok := intConst(b); ok {
			if v, ok := s.facts[mk(KOp, "<", 0, nil, boolT, mkInt(c), a)]; ok && v {
				return false, true
			}
		}
		if b.isNil() {
			// Known members of a type, or known errors, are not nil.
			for f, v := range s.facts {
				if !v {
					continue
				}
				if f.k == KIsType && f.args[0] == a {
					return false, true
				}
				if f.k == KCall && f.op == "errors.Is" && f.args[0] == a && f.args[1] != tNil {
					return false, true
				}
			}
			if l := lookupOf(a); l != nil {
				if v, ok := s.facts[hasOf(l)]; ok && !v {
					return true, true
				}
			}
		}
	case t.k == KOp && t.op == "<":
		if c, ok := intConst(t.args[0]); ok {
			for f, v := range s.facts {
				if v && f.k == KOp && f.op == "==" && f.args[0] == t.args[1] {
					if d, ok := intConst(f.args[1]); ok {
						return c < d, true
					}
				}
				// c' < x known with c' >= c
				if v && f.k == KOp && f.op == "<" && f.args[1] == t.args[1] {
					if d, ok := intConst(f.args[0]); ok && d >= c {
						return true, true
					}
				}
				if !v && f.k == KOp && f.op == "<" && f.args[1] == t.args[1] {
					if d, ok := intConst(f.args[0]); ok && d <= c {
						return false, true
					}
				}
			}
		}
		if v, ok := s.facts[mk(KOp, "<", 0, nil, boolT, t.args[1], t.args[0])]; ok && v {
			return false, true
		}
	case t.k == KCall && t.op == "errors.Is":
		if v, ok := s.facts[mkEq(t.args[0], tNil)]; ok && v && !t.args[1].isNil() {
			return false, true
		}
		if v, ok := s.facts[mkEq(t.args[0], t.args[1])]; ok && v {
			return true, true
		}
		// err known to be equal to another constant error
		for f, v := range s.facts {
			if v && f.k == KOp && f.op == "==" && (f.args[0] == t.args[0] || f.args[1] == t.args[0]) {
				o := f.args[0]
				if o == t.args[0] {
					o = f.args[1]
				}
				if o.k == KMkI && t.args[1].k == KMkI {
					if e := mkEq(o, t.args[1]); e == tFalse && o.args[0].k == KConst && t.args[1].args[0].k == KConst {
						return false, true
					}
				}
			}
		}
	case t.k == KIsType:
		if v, ok := s.facts[mkEq(t.args[0], tNil)]; ok && v {
			return false, true
		}
	case t.k == KFld:
		// an element a map does not have is all zero
		if l := lookupOf(t); l != nil && s.facts[hasOf(l)] == false {
			if _, ok := s.facts[hasOf(l)]; ok {
				return false, true
			}
		}
	case t.k == KHas:
		for f, v := range s.facts {
			x := f
			if f.k == KOp && f.op == "==" && f.args[1].isNil() {
				x, v = f.args[0], !v
			}
			if !v {
				continue
			}
			if l := lookupOf(x); l != nil && l.n == t.n && l.args[0] == t.args[0] && l.args[1] == t.args[1] {
				return true, true
			}
		}
	}
	return false, false
}

// lookupOf is the element of a map that the term is (a field of).
func lookupOf(t *Term) *Term {
	for t.k == KFld {
		t = t.args[0]
	}
	if t.k == KLookup {
		return t
	}
	return nil
}

// hasOf says whether the map has the element.
func hasOf(l *Term) *Term { return mk(KHas, "", l.n, nil, boolT, l.args[0], l.args[1]) }

func (s *State) evalEqVia(a, b *Term) (bool, bool) {
	for f, v := range s.facts {
		if !v || f.k != KOp || f.op != "==" {
			continue
		}
		var o *Term
		var tgt *Term
		switch {
		case f.args[0] == a:
			o, tgt = f.args[1], b
		case f.args[1] == a:
			o, tgt = f.args[0], b
		case f.args[0] == b:
			o, tgt = f.args[1], a
		case f.args[1] == b:
			o, tgt = f.args[0], a
		default:
			continue
		}
		e := mkEq(o, tgt)
		if e == tTrue || e == tFalse {
			return e == tTrue, true
		}
		if v, ok := s.facts[e]; ok {
			return v, true
		}
	}
	return false, false
}

// assume adds a fact; false if it contradicts what is known.
func (s *State) assume(t *Term, v bool) bool {
	for t.k == KOp && t.op == "!" {
		t, v = t.args[0], !v
	}
	if val, known := s.eval(t); known {
		return val == v
	}
	s.setFact(t, v)
	return true
}

func sortedFacts(m map[*Term]bool) []Fact {
	var fs []Fact
	for a, v := range m {
		fs = append(fs, Fact{a, v})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].A.id < fs[j].A.id })
	return fs
}

// Memory ------------------------------------------------------------------

func rootOf(a *Term) *Term {
	for a.k == KFldA || a.k == KIdxA {
		a = a.args[0]
	}
	return a
}

func fieldKey(a *Term) string {
	if a.k == KFldA {
		if o, ok := a.obj.(types.Object); ok {
			return o.Pkg().Path() + "." + o.Name() + "." + a.op
		}
		return fmt.Sprint(a.obj) + "." + a.op
	}
	if a.k == KIdxA {
		return "[]"
	}
	return ""
}

// ownFresh: the cell belongs to an object allocated on this path whose whole
// content is known.
func (s *State) ownFresh(a *Term) bool {
	r := rootOf(a)
	return r.k == KAlloc && !s.sym[r]
}

func (s *State) load(a *Term, t types.Type) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	if st := structOf(t); st != nil && !leafStruct(t) {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.load(mkFldA(a, t, i), st.Field(i).Type())
		}
		return mkStruct(t, fs)
	}
	if st := structOf(t); st != nil && s.ownFresh(a) {
		// another package's struct, some of whose fields have been set
		for c := range s.mem {
			if c.k == KFldA && c.args[0] == a {
				fs := make([]*Term, st.NumFields())
				for i := range fs {
					fs[i] = s.load(mkFldA(a, t, i), st.Field(i).Type())
				}
				return mkStruct(t, fs)
			}
		}
	}
	if a.k == KFldA {
		if v := s.mem[a.args[0]]; v != nil && v.k == KStruct && v.typ != nil && leafStruct(v.typ) {
			return mkFld(v, v.typ, a.n)
		}
	}
	if a.k == KFldA && a.args[0].k == KIdxA && a.args[0].args[0].k == KCall && a.args[0].args[0].op == "slicelit" {
		if i, ok := intConst(a.args[0].args[1]); ok {
			if c := a.args[0].args[0]; int(i) < len(c.args) && structOf(c.args[i].typ) != nil {
				return mkFld(c.args[i], c.args[i].typ, a.n)
			}
		}
	}
	if a.k == KIdxA {
		c, idx := a.args[0], a.args[1]
		if c.k == KCall && c.op == "slicelit" {
			if i, ok := intConst(idx); ok && int(i) < len(c.args) {
				return c.args[i]
			}
		}
		if idx.k == KIdx {
			if c.k == KCollect {
				return c.args[1]
			}
			return mk(KElem, "", idx.n, nil, t, c)
		}
	}
	if s.ownFresh(a) {
		return zeroTerm(t)
	}
	return mk(KInit, "", s.version(a), nil, t, a)
}

func (s *State) version(a *Term) int {
	if immutable(a) {
		return 0
	}
	if a.k == KFldA {
		if v, ok := s.fver[fieldKey(a)]; ok {
			return v
		}
	}
	r := rootOf(a)
	if r.k == KGlobal {
		return 0
	}
	return s.gver
}

func (s *State) store(a *Term, t types.Type, v *Term) {
	if st := structOf(t); st != nil && !leafStruct(t) {
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkFldA(a, t, i), st.Field(i).Type(), mkFld(v, t, i))
		}
		return
	}
	if arr, ok := t.Underlying().(*types.Array); ok && v.isConst("zero") {
		for i := int64(0); i < arr.Len(); i++ {
			s.store(mk(KIdxA, "", 0, nil, arr.Elem(), a, mkInt(i)), arr.Elem(), zeroTerm(arr.Elem()))
		}
		return
	}
	if s.ownFresh(a) && v == zeroTerm(t) {
		if _, ok := s.mem[a]; !ok {
			return // fresh memory is zero already
		}
	}
	// A store through a possibly aliasing address of the same field makes
	// the other cells of that field unknown, unless the bases must differ.
	if a.k == KFldA {
		for c := range s.mem {
			if c != a && c.k == KFldA && c.obj == a.obj && c.n == a.n {
				if e, known := s.eval(mkEq(c.args[0], a.args[0])); known && !e {
					continue
				}
				if mustDiffer(c.args[0], a.args[0]) {
					continue
				}
				cv := s.mem[c]
				if cv == v {
					continue
				}
				s.delCell(c)
				s.setCell(c, mk(KInit, "alias", len(s.mem)*7919+a.id, nil, t, c))
			}
		}
	}
	s.setCell(a, v)
}

// mustDiffer: two object addresses which cannot be the same object.
func mustDiffer(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.k == KAlloc && b.k == KAlloc {
		return true
	}
	if ra, rb := rootOf(a), rootOf(b); ra != rb && ra.k == KAlloc && rb.k == KAlloc {
		return true
	}
	if a.k == KIdxA && b.k == KIdxA {
		i, ok1 := intConst(a.args[1])
		j, ok2 := intConst(b.args[1])
		if ok1 && ok2 && i != j {
			return true
		}
	}
	// an object allocated on this path differs from one that existed before,
	// which is what symbols, initial contents and lookups denote
	old := func(t *Term) bool {
		return t.k == KSym || t.k == KInit || t.k == KLookup && t.n < 1<<30 || t.k == KGlobal || t.k == KElem || t.k == KFldA || t.k == KRes
	}
	if a.k == KAlloc && old(b) || b.k == KAlloc && old(a) {
		return true
	}
	return false
}

// Maps --------------------------------------------------------------------

func (s *State) mapHash(m *Term) uint64 {
	h := m.h
	for _, u := range s.maps[m] {
		h = mix(h, u.key.h)
		if u.val != nil {
			h = mix(h, u.val.h)
		}
	}
	return mix(h, uint64(s.mver[m]))
}

func (s *State) mapSet(m, k, v *Term) {
	s.mapH -= s.mapHash(m)
	l := s.maps[m]
	s.maps[m] = append(append([]mapUpd(nil), l...), mapUpd{k, v})
	s.mapH += s.mapHash(m)
}

func (s *State) mapHavoc(m *Term, ver int) {
	s.mapH -= s.mapHash(m)
	delete(s.maps, m)
	s.mver[m] = ver
	s.mapH += s.mapHash(m)
}

// mapGet returns the value and presence terms for key k.
func (s *State) mapGet(m, k *Term, elem types.Type) (val, has *Term) {
	if m.isNil() {
		return zeroTerm(elem), tFalse
	}
	l := s.maps[m]
	for i := len(l) - 1; i >= 0; i-- {
		u := l[i]
		eq := mkEq(u.key, k)
		if v, known := s.eval(eq); known {
			if v {
				if u.val == nil {
					return zeroTerm(elem), tFalse
				}
				return u.val, tTrue
			}
			continue
		}
		// unknown alias: opaque
		ver := int(mix(s.mapHash(m), uint64(i))>>33) | 1<<30
		return s.mkLookup(m, k, ver, elem)
	}
	if m.k == KAlloc && s.mver[m] == 0 {
		return zeroTerm(elem), tFalse
	}
	ver := s.mver[m]
	if ver == 0 && m.k != KAlloc {
		ver = s.gver
	}
	return s.mkLookup(m, k, ver, elem)
}

func (s *State) mkLookup(m, k *Term, ver int, elem types.Type) (val, has *Term) {
	val = mk(KLookup, "", ver, nil, elem, m, k)
	has = mk(KHas, "", ver, nil, boolT, m, k)
	if k.k == KKey && k.args[0] == m {
		has = tTrue
	}
	if _, ok := elem.Underlying().(*types.Pointer); ok {
		// Maps to pointers only ever hold non-nil pointers (checked by the
		// rules that rely on it), so presence is being non-nil.
		if has != tTrue {
			has = mkNot(mkEq(val, tNil))
		} else {
			s.setFact(mkEq(val, tNil), false)
		}
	}
	if v, known := s.eval(has); known && !v {
		return zeroTerm(elem), tFalse
	}
	return val, has
}

func (s *State) mapLen(m *Term) *Term {
	if m.isNil() {
		return mkInt(0)
	}
	if len(s.maps[m]) == 0 {
		if m.k == KAlloc && s.mver[m] == 0 {
			return mkInt(0)
		}
		ver := s.mver[m]
		if ver == 0 && m.k != KAlloc {
			ver = s.gver
		}
		return mk(KLen, "", ver, nil, intT, m)
	}
	return mk(KLen, "", int(s.mapHash(m)>>33)|1<<30, nil, intT, m)
}

// freeze makes the object symbolic, keeping the zero values of its write-once
// fields.
func (s *State) freeze(r *Term) {
	if s.sym[r] {
		return
	}
	s.keepZeros(r, r.typ, s.mem)
	if _, ok := s.mem[r]; !ok && structOf(r.typ) == nil && immutable(r) {
		s.setCell(r, zeroTerm(r.typ))
	}
	s.sym[r] = true
}

func (s *State) keepZeros(a *Term, t types.Type, set map[*Term]*Term) {
	st := structOf(t)
	if st == nil || leafStruct(t) {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := mkFldA(a, t, i)
		ft := st.Field(i).Type()
		if structOf(ft) != nil {
			s.keepZeros(f, ft, set)
			continue
		}
		if _, ok := set[f]; !ok && immutable(f) {
			s.setCell(f, zeroTerm(ft))
		}
	}
}

// bump makes all shared memory unknown, as another goroutine may have run.
func (s *State) bump(ver int) {
	for a := range s.mem {
		r := rootOf(a)
		if r.k == KAlloc && !s.sym[r] && !s.pub[r] {
			continue
		}
		if r.k == KGlobal || immutable(a) {
			continue
		}
		s.delCell(a)
		if r.k == KAlloc {
			s.freeze(r)
		}
	}
	for r := range s.pub {
		if _, ok := r.obj.(*ssa.Alloc); ok && !s.sym[r] {
			s.freeze(r)
		}
	}
	for m := range s.maps {
		if m.k == KAlloc && !s.pub[m] {
			continue
		}
		s.mapHavoc(m, ver)
	}
	for m := range s.mver {
		if m.k == KAlloc && !s.pub[m] {
			continue
		}
		s.mapHavoc(m, ver)
	}
	s.fver = map[string]int{}
	s.gver = ver
	s.verH = mix(s.verH, uint64(ver))
}

// Path is a finished abstract path (of a root, or of one loop iteration).
type Path struct {
	Events []*Event
	Facts  map[*Term]bool
	St     *State
	Kind   string // "ret", "panic", "goexit", "iter"
	Res    []*Term
	In     map[*ssa.Phi]*Term // loop variables before and after the iteration
	Out    map[*ssa.Phi]*Term
	key    uint64
}

func (p *Path) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "[%s]", p.Kind)
	for _, f := range sortedFacts(p.Facts) {
		if f.V {
			fmt.Fprintf(&sb, " {%s}", f.A)
		} else {
			fmt.Fprintf(&sb, " {not %s}", f.A)
		}
	}
	sb.WriteString("\n")
	dumpEvents(&sb, p.Events, "    ")
	if len(p.Res) > 0 {
		fmt.Fprintf(&sb, "    return %v\n", p.Res)
	}
	return sb.String()
}

var dumped = map[*LoopInfo]bool{}

func dumpEvents(sb *strings.Builder, evs []*Event, ind string) {
	for _, e := range evs {
		fmt.Fprintf(sb, "%s%s\n", ind, e)
		if e.Loop != nil && !dumped[e.Loop] {
			dumped[e.Loop] = true
			for _, it := range e.Loop.Iters {
				fmt.Fprintf(sb, "%s  iter:", ind)
				for _, f := range sortedFacts(it.Facts) {
					fmt.Fprintf(sb, " {%v %s}", f.V, f.A)
				}
				sb.WriteString("\n")
				dumpEvents(sb, it.Events, ind+"    ")
			}
		}
	}
}

func (e *Event) String() string {
	s := e.Kind
	if e.Name != "" {
		s += " " + shortName(e.Name)
	}
	if e.Method != "" {
		s += " ." + e.Method
	}
	for _, t := range e.T {
		s += " | " + t.String()
	}
	if e.Kind == EvSelect {
		s += fmt.Sprintf(" blocking=%v", e.Block)
		for i, c := range e.Cases {
			m := ""
			if i == e.Chosen {
				m = "*"
			}
			d := "<-"
			v := ""
			if c.Send {
				d = "->"
				v = " " + c.Val.String()
			}
			s += fmt.Sprintf(" [%s%s%s%s]", m, d, c.Ch, v)
		}
		if e.Chosen < 0 {
			s += " [*default]"
		}
	}
	if e.Go != nil {
		s += fmt.Sprintf(" %s %v", e.Go.Fn, e.Go.Args)
	}
	if e.Loop != nil {
		s += fmt.Sprintf(" %s over %v exhausted=%v", e.Loop.Kind, e.Loop.Container, e.Exh)
	}
	if len(e.Locks) > 0 {
		s += fmt.Sprintf(" locks=%v", e.Locks)
	}
	return s
}
