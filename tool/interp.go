package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// actx is the activation context of an inlined call.
type actx struct {
	id     int
	fn     *ssa.Function
	parent *actx
	root   *Root
	defer_ bool // activation of a deferred call
}

// Root is an analysed entry point: an API function or a goroutine body.
type Root struct {
	Name  string
	Fn    *ssa.Function
	Paths []*Path
	Loop  bool // runs on the event loop goroutine
	acc   map[string]*Access
	needs map[string]*Need
	Fns   map[*ssa.Function]bool
	Args  []*Term
	err   error
}

// Access records the use of a field of shared memory.
type Access struct {
	Root  *Root
	Field string
	Write bool
	Locks []*Term
	Dead  bool
	Fn    *ssa.Function
	Instr ssa.Instruction
	Base  *Term
}

type Interp struct {
	prog     *ssa.Program
	cxTab    map[string]int
	verTab   map[string]int
	bodies   map[string]*Root
	Roots    []*Root
	steps    int
	abnormal func(e *Event) bool
	inlined  map[*ssa.Function]int
	maxPaths int
	noBump   func(root *Root) bool
	trace    bool
}

type deferred struct {
	instr ssa.CallInstruction
	fn    *Term
	args  []*Term
	call  *ssa.CallCommon
	recv  *Term
}

type path struct {
	st     *State
	env    []*Term
	defers []deferred
	pred   *ssa.BasicBlock
}

func (p *path) clone() *path {
	return &path{st: p.st.clone(), env: append([]*Term(nil), p.env...), defers: append([]deferred(nil), p.defers...), pred: p.pred}
}

type outcome struct {
	st   *State
	res  *Term
	kind string // ret, panic, goexit
}

type edge struct {
	from, to *ssa.BasicBlock
	p        *path
}

type undecided struct{ msg string }

func (ip *Interp) intern(tab map[string]int, s string) int {
	id, ok := tab[s]
	if !ok {
		id = len(tab) + 1
		tab[s] = id
	}
	return id
}

func (ip *Interp) newCx(parent *actx, site ssa.Instruction, fn *ssa.Function) *actx {
	pid := 0
	var root *Root
	if parent != nil {
		pid = parent.id
		root = parent.root
	}
	id := ip.intern(ip.cxTab, fmt.Sprintf("%d/%d/%d", pid, ptrH(site), ptrH(fn)))
	return &actx{id: id, fn: fn, parent: parent, root: root}
}

func (cx *actx) onStack(fn *ssa.Function) bool {
	for c := cx; c != nil; c = c.parent {
		if c.fn == fn {
			return true
		}
	}
	return false
}

// execFunc runs fn abstractly and returns every outcome.
func (ip *Interp) execFunc(cx *actx, fn *ssa.Function, args, binds []*Term, st *State) []outcome {
	fi := info(fn)
	cx.root.Fns[fn] = true
	p := &path{st: st, env: make([]*Term, fi.nvals)}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[fi.num[prm]] = args[i]
		} else {
			p.env[fi.num[prm]] = mk(KSym, fmt.Sprintf("%s.%s", fn.Name(), prm.Name()), 0, prm, prm.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			p.env[fi.num[fv]] = binds[i]
		} else {
			p.env[fi.num[fv]] = mk(KSym, fmt.Sprintf("%s.%s", fn.Name(), fv.Name()), 0, fv, fv.Type())
		}
	}
	_, outs := ip.runRegion(cx, fi, fn.Blocks[0], nil, []*path{p})
	// Forget stack cells of this activation.
	for _, o := range outs {
		ip.prune(o.st, cx, o.res)
	}
	ms := ip.mergeOutcomes(outs)
	if ip.trace {
		fmt.Printf("TRACE %s: %d outcomes, %d merged, steps %d\n", fn.Name(), len(outs), len(ms), ip.steps)
	}
	return ms
}

func (ip *Interp) prune(st *State, cx *actx, res *Term) {
	for a := range st.mem {
		r := rootOf(a)
		if r.k == KAlloc && r.n == cx.id {
			if al, ok := r.obj.(*ssa.Alloc); ok && !al.Heap {
				st.delCell(a)
			}
		}
	}
}

func (ip *Interp) mergeOutcomes(outs []outcome) []outcome {
	if len(outs) < 2 {
		return outs
	}
	type grp struct{ idx []int }
	groups := map[uint64]*grp{}
	var order []uint64
	for i, o := range outs {
		k := o.st.key()
		if o.res != nil {
			k = mix(k, o.res.h)
		}
		k = mix(k, strH(o.kind))
		g := groups[k]
		if g == nil {
			g = &grp{}
			groups[k] = g
			order = append(order, k)
		}
		g.idx = append(g.idx, i)
	}
	var res []outcome
	for _, k := range order {
		g := groups[k]
		sts := make([]*State, len(g.idx))
		for j, i := range g.idx {
			sts[j] = outs[i].st
		}
		for _, s := range mergeFacts(sts) {
			o := outs[g.idx[0]]
			o.st = s
			res = append(res, o)
		}
	}
	return res
}

// mergeFacts joins states that are equal but for one fact taken both ways.
func mergeFacts(sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	byH := map[uint64]*State{}
	var order []uint64
	for _, s := range sts {
		if _, ok := byH[s.factH]; !ok {
			byH[s.factH] = s
			order = append(order, s.factH)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, h := range order {
			s := byH[h]
			if s == nil {
				continue
			}
			for _, f := range sortedFacts(s.facts) {
				oh := h - factHash(f.A, f.V) + factHash(f.A, !f.V)
				o := byH[oh]
				if o == nil {
					continue
				}
				m := s.clone()
				m.delFact(f.A)
				delete(byH, h)
				delete(byH, oh)
				if byH[m.factH] == nil {
					byH[m.factH] = m
					order = append(order, m.factH)
				}
				changed = true
				break
			}
		}
	}
	// drop states whose facts include another's
	var out []*State
	for _, h := range order {
		if s := byH[h]; s != nil {
			byH[h] = nil
			out = append(out, s)
		}
	}
	if len(out) > 1 && len(out) < 400 {
		var keep []*State
		for i, s := range out {
			sub := false
			for j, o := range out {
				if i != j && len(o.facts) < len(s.facts) && subsetFacts(o.facts, s.facts) {
					sub = true
					break
				}
			}
			if !sub {
				keep = append(keep, s)
			}
		}
		out = keep
	}
	return out
}

func subsetFacts(a, b map[*Term]bool) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// numericPhi: durations and floats are joined as sets of alternatives.
func numericPhi(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Duration" {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func alternatives(t *Term) []*Term {
	if t.k == KCall && t.op == "oneof" {
		return t.args
	}
	return []*Term{t}
}

func oneOf(a, b *Term) *Term {
	if a == b {
		return a
	}
	m := map[*Term]bool{}
	for _, x := range append(append([]*Term(nil), alternatives(a)...), alternatives(b)...) {
		m[x] = true
	}
	var l []*Term
	for x := range m {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mk(KCall, "oneof", 0, nil, a.typ, l...)
}

// mkIte is the value a if the condition holds, and else b.
func mkIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	return mk(KCall, "ite", 0, nil, a.typ, c, a, b)
}

func (ip *Interp) mergePaths(fi *fnInfo, b *ssa.BasicBlock, ps []*path) []*path {
	if len(ps) < 2 {
		return ps
	}
	numeric := map[int]bool{}
	var nums []int
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if numericPhi(phi.Type()) && !fi.skip[phi] {
			numeric[fi.num[phi]] = true
			nums = append(nums, fi.num[phi])
		}
	}
	groups := map[uint64][]*path{}
	var order []uint64
	for _, p := range ps {
		k := p.st.key()
		for _, v := range fi.live[b] {
			if numeric[v] {
				continue
			}
			if t := p.env[v]; t != nil {
				k = mix(k, t.h)
			} else {
				k = mix(k, 13)
			}
		}
		for _, d := range p.defers {
			k = mix(k, ptrH(d.instr))
			for _, t := range append([]*Term{d.fn, d.recv}, d.args...) {
				if t != nil {
					k = mix(k, t.h)
				}
			}
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	var out []*path
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		byH := map[uint64]*path{}
		var ord []uint64
		put := func(p *path) {
			h := p.st.factH
			if o := byH[h]; o != nil {
				for _, n := range nums {
					o.env[n] = oneOf(o.env[n], p.env[n])
				}
				return
			}
			byH[h] = p
			ord = append(ord, h)
		}
		for _, p := range g {
			put(p)
		}
		for changed := true; changed; {
			changed = false
			for i := 0; i < len(ord); i++ {
				h := ord[i]
				p := byH[h]
				if p == nil {
					continue
				}
				for _, f := range sortedFacts(p.st.facts) {
					oh := h - factHash(f.A, f.V) + factHash(f.A, !f.V)
					o := byH[oh]
					if o == nil {
						continue
					}
					m := p.clone()
					m.st.delFact(f.A)
					for _, n := range nums {
						if f.V {
							m.env[n] = mkIte(f.A, p.env[n], o.env[n])
						} else {
							m.env[n] = mkIte(f.A, o.env[n], p.env[n])
						}
					}
					delete(byH, h)
					delete(byH, oh)
					put(m)
					changed = true
					break
				}
			}
		}
		for _, h := range ord {
			if p := byH[h]; p != nil {
				byH[h] = nil
				out = append(out, p)
			}
		}
	}
	return out
}

// runRegion executes the blocks reachable from entry. If l is not nil, the
// region is the body of the loop l and entry its header: edges back to the
// header and edges leaving the loop are returned.
func (ip *Interp) runRegion(cx *actx, fi *fnInfo, entry *ssa.BasicBlock, l *loop, in []*path) ([]edge, []outcome) {
	pending := map[*ssa.BasicBlock][]*path{}
	pending[entry] = in
	var edges []edge
	var outs []outcome
	start := fi.rpoIdx[entry]
	for i := start; i < len(fi.rpo); i++ {
		b := fi.rpo[i]
		ps := pending[b]
		if len(ps) == 0 {
			continue
		}
		delete(pending, b)
		deliver := func(es []edge) {
			for _, e := range es {
				if l != nil && (e.to == l.header || !l.blocks[e.to]) {
					edges = append(edges, e)
				} else {
					e.p.pred = e.from
					pending[e.to] = append(pending[e.to], e.p)
				}
			}
		}
		if b != entry || l == nil {
			if inner := fi.loops[b]; inner != nil && (l == nil || inner != l) {
				for _, p := range ps {
					es, os := ip.execLoop(cx, fi, inner, p)
					deliver(es)
					outs = append(outs, os...)
				}
				continue
			}
			for _, p := range ps {
				ip.phis(cx, fi, b, p)
			}
			ps = ip.mergePaths(fi, b, ps)
		}
		if len(ps) > ip.maxPaths {
			panic(undecided{fmt.Sprintf("more than %d abstract states in %s", ip.maxPaths, fi.fn)})
		}
		for _, p := range ps {
			es, os := ip.execBlock(cx, fi, b, p)
			deliver(es)
			outs = append(outs, os...)
		}
	}
	return edges, outs
}

func (ip *Interp) phis(cx *actx, fi *fnInfo, b *ssa.BasicBlock, p *path) {
	if p.pred == nil {
		return
	}
	pi := -1
	for j, pr := range b.Preds {
		if pr == p.pred {
			pi = j
		}
	}
	if pi < 0 {
		return
	}
	var vals []*Term
	var idx []int
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if fi.skip[phi] {
			continue
		}
		vals = append(vals, ip.val(cx, fi, p, phi.Edges[pi]))
		idx = append(idx, fi.num[phi])
	}
	for i, n := range idx {
		p.env[n] = vals[i]
	}
}

func (ip *Interp) val(cx *actx, fi *fnInfo, p *path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk(KGlobal, "", 0, x, x.Type())
	case *ssa.Function:
		return mk(KFunc, "", 0, x, x.Type())
	case *ssa.Builtin:
		return mk(KSym, "builtin."+x.Name(), 0, nil, nil)
	}
	n, ok := fi.num[v]
	if !ok {
		panic(undecided{fmt.Sprintf("unknown value %s in %s", v, fi.fn)})
	}
	t := p.env[n]
	if t == nil {
		// defined by a skipped instruction
		t = mk(KSym, "skipped:"+v.Name(), cx.id, v, v.Type())
	}
	return t
}

// execBlock runs b for one path.
func (ip *Interp) execBlock(cx *actx, fi *fnInfo, b *ssa.BasicBlock, p *path) ([]edge, []outcome) {
	cur := []*path{p}
	var edges []edge
	var outs []outcome
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if fi.skip[in] {
			continue
		}
		ip.steps += len(cur)
		switch x := in.(type) {
		case *ssa.Jump:
			for _, q := range cur {
				edges = append(edges, edge{b, b.Succs[0], q})
			}
			return edges, outs
		case *ssa.If:
			for _, q := range cur {
				c := ip.val(cx, fi, q, x.Cond)
				if v, known := q.st.eval(c); known {
					s := b.Succs[1]
					if v {
						s = b.Succs[0]
					}
					edges = append(edges, edge{b, s, q})
					continue
				}
				qt := q.clone()
				if qt.st.assume(c, true) {
					edges = append(edges, edge{b, b.Succs[0], qt})
				}
				if q.st.assume(c, false) {
					edges = append(edges, edge{b, b.Succs[1], q})
				}
			}
			return edges, outs
		case *ssa.Return:
			for _, q := range cur {
				var rs []*Term
				for _, r := range x.Results {
					rs = append(rs, ip.val(cx, fi, q, r))
				}
				outs = append(outs, outcome{q.st, mkTuple(rs), "ret"})
			}
			return edges, outs
		case *ssa.Panic:
			for _, q := range cur {
				v := ip.val(cx, fi, q, x.X)
				q.st.pan = &panicSt{kind: "panic", val: v}
				outs = append(outs, ip.unwind(cx, fi, q, "panic")...)
			}
			return edges, outs
		case *ssa.RunDefers:
			var next []*path
			for _, q := range cur {
				ns, os := ip.runDefers(cx, fi, q)
				next = append(next, ns...)
				outs = append(outs, os...)
			}
			cur = next
		case *ssa.Call:
			var next []*path
			for _, q := range cur {
				rs := ip.doCall(cx, fi, q, x, &x.Call)
				for i, r := range rs {
					nq := &path{st: r.st, env: q.env, defers: q.defers, pred: q.pred}
					if i < len(rs)-1 {
						nq.env = append([]*Term(nil), q.env...)
						nq.defers = append([]deferred(nil), q.defers...)
					}
					if r.kind != "ret" {
						outs = append(outs, ip.unwind(cx, fi, nq, r.kind)...)
						continue
					}
					nq.env[fi.num[x]] = r.res
					next = append(next, nq)
				}
			}
			cur = next
		case *ssa.Select:
			var next []*path
			for _, q := range cur {
				next = append(next, ip.doSelect(cx, fi, q, x)...)
			}
			cur = next
		case *ssa.Next:
			var next []*path
			for _, q := range cur {
				next = append(next, ip.doNext(cx, fi, q, x)...)
			}
			cur = next
		case *ssa.TypeAssert:
			var next []*path
			for _, q := range cur {
				next = append(next, ip.doAssert(cx, fi, q, x)...)
			}
			cur = next
		default:
			for _, q := range cur {
				ip.simple(cx, fi, q, in)
			}
		}
		if len(cur) == 0 {
			return edges, outs
		}
	}
	return edges, outs
}

func mkTuple(rs []*Term) *Term {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return mk(KTuple, "", 0, nil, nil, rs...)
}

// unwind runs the deferred calls after a panic or Goexit.
func (ip *Interp) unwind(cx *actx, fi *fnInfo, p *path, kind string) []outcome {
	type item struct {
		p    *path
		kind string
	}
	work := []item{{p, kind}}
	var outs []outcome
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		q := it.p
		if len(q.defers) == 0 {
			if it.kind == "recovered" {
				q.st.pan = nil
				if fi.fn.Recover != nil {
					q.pred = nil
					_, os := ip.runRegion(cx, fi, fi.fn.Recover, nil, []*path{q})
					outs = append(outs, os...)
				} else {
					outs = append(outs, outcome{q.st, nil, "ret"})
				}
				continue
			}
			outs = append(outs, outcome{q.st, nil, it.kind})
			continue
		}
		d := q.defers[len(q.defers)-1]
		q.defers = q.defers[:len(q.defers)-1]
		rs := ip.callDeferred(cx, q.st, d)
		for i, r := range rs {
			nq := q
			if i < len(rs)-1 {
				nq = q.clone()
			}
			nq.st = r.st
			k := it.kind
			if r.kind != "ret" {
				k = r.kind
			} else if k == "panic" && nq.st.pan != nil && nq.st.pan.recovered {
				k = "recovered"
				nq.st.pan = nil
			}
			work = append(work, item{nq, k})
		}
	}
	return outs
}

func (ip *Interp) runDefers(cx *actx, fi *fnInfo, p *path) ([]*path, []outcome) {
	work := []*path{p}
	var done []*path
	var outs []outcome
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		if len(q.defers) == 0 {
			done = append(done, q)
			continue
		}
		d := q.defers[len(q.defers)-1]
		q.defers = q.defers[:len(q.defers)-1]
		rs := ip.callDeferred(cx, q.st, d)
		for i, r := range rs {
			nq := q
			if i < len(rs)-1 {
				nq = q.clone()
			}
			nq.st = r.st
			if r.kind != "ret" {
				outs = append(outs, ip.unwind(cx, fi, nq, r.kind)...)
				continue
			}
			work = append(work, nq)
		}
	}
	return done, outs
}

func (ip *Interp) callDeferred(cx *actx, st *State, d deferred) []outcome {
	return ip.invoke(cx, st, d.instr, d.call, d.fn, d.recv, d.args, true)
}

// fieldAccess records an access to shared memory.
func (ip *Interp) access(cx *actx, st *State, a *Term, write bool, in ssa.Instruction, fn *ssa.Function, suffix string) {
	for x := a; x.k == KFldA || x.k == KIdxA; x = x.args[0] {
		if x.k != KFldA {
			continue
		}
		base := x.args[0]
		r := rootOf(x)
		if r.k == KAlloc && !st.pub[r] && !st.sym[r] {
			return
		}
		key := fieldKey(x) + suffix
		lk := ""
		var ls []string
		for _, l := range st.locks {
			ls = append(ls, fmt.Sprint(l.id))
		}
		sort.Strings(ls)
		lk = strings.Join(ls, ",")
		k := fmt.Sprintf("%s|%v|%s|%v|%d", key, write, lk, st.dead, ptrH(in))
		if cx.root.acc[k] == nil {
			cx.root.acc[k] = &Access{Root: cx.root, Field: key, Write: write, Locks: append([]*Term(nil), st.locks...), Dead: st.dead, Fn: fn, Instr: in, Base: base}
		}
		return
	}
}

func (ip *Interp) mapAccess(cx *actx, st *State, m *Term, write bool, in ssa.Instruction, fn *ssa.Function) {
	if m.k == KInit && m.args[0].k == KFldA {
		ip.access(cx, st, m.args[0], write, in, fn, "[]")
	}
}

// publish marks the objects reachable from t as visible to other goroutines.
func (ip *Interp) publish(st *State, t *Term) {
	switch t.k {
	case KAlloc:
		if st.pub[t] {
			return
		}
		st.pub[t] = true
		for a, v := range st.mem {
			if rootOf(a) == t {
				ip.publish(st, v)
			}
		}
	case KMkI, KStruct, KTuple, KClosure, KAppend:
		for _, a := range t.args {
			ip.publish(st, a)
		}
	case KFldA, KIdxA:
		ip.publish(st, rootOf(t))
	}
}

func (ip *Interp) mapTermPub(st *State, m *Term) bool { return m.k != KAlloc || st.pub[m] }

func (ip *Interp) simple(cx *actx, fi *fnInfo, p *path, in ssa.Instruction) {
	st := p.st
	set := func(v ssa.Value, t *Term) { p.env[fi.num[v]] = t }
	val := func(v ssa.Value) *Term { return ip.val(cx, fi, p, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := mk(KAlloc, "", cx.id, x, x.Type().Underlying().(*types.Pointer).Elem())
		// Re-executing an allocation (in a loop) makes a new object: forget
		// what was known of the previous one.
		for a := range st.mem {
			if rootOf(a) == t {
				st.delCell(a)
			}
		}
		delete(st.sym, t)
		delete(st.pub, t)
		set(x, t)
	case *ssa.BinOp:
		set(x, mkBin(x.Op, val(x.X), val(x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := val(x.X)
			ip.needPtr(cx, st, a, in)
			ip.access(cx, st, a, false, in, fi.fn, "")
			set(x, st.load(a, x.Type()))
		case token.ARROW:
			ip.doRecv(cx, fi, p, x)
		case token.NOT:
			set(x, mkNot(val(x.X)))
		default:
			v := val(x.X)
			if i, ok := intConst(v); ok && x.Op == token.SUB {
				set(x, mkInt(-i))
			} else {
				set(x, mk(KOp, "u"+x.Op.String(), 0, nil, x.Type(), v))
			}
		}
	case *ssa.Store:
		a, v := val(x.Addr), val(x.Val)
		t := x.Val.Type()
		ip.needPtr(cx, st, a, in)
		ip.access(cx, st, a, true, in, fi.fn, "")
		if !st.ownFresh(a) || st.pub[rootOf(a)] {
			ip.publish(st, v)
			st.add(&Event{Kind: EvStore, Instr: in, Fn: fi.fn, Cx: cx, T: []*Term{a, v}})
		}
		st.store(a, t, v)
	case *ssa.FieldAddr:
		set(x, mkFldA(val(x.X), x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field))
	case *ssa.Field:
		set(x, mkFld(val(x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		base := val(x.X)
		if isTail(base) {
			if i := mkBin(token.ADD, base.args[1], val(x.Index), intT, intT); i != nil {
				set(x, mk(KIdxA, "", 0, nil, x.Type(), base.args[0], i))
				return
			}
		}
		set(x, mk(KIdxA, "", 0, nil, x.Type(), base, val(x.Index)))
	case *ssa.Index:
		set(x, mk(KCall, "index", 0, nil, x.Type(), val(x.X), val(x.Index)))
	case *ssa.Lookup:
		m, k := val(x.X), val(x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			ip.mapAccess(cx, st, m, false, in, fi.fn)
			v, has := st.mapGet(m, k, mt.Elem())
			if x.CommaOk {
				set(x, mk(KTuple, "", 0, nil, nil, v, has))
			} else {
				set(x, v)
			}
		} else {
			set(x, mk(KCall, "index", 0, nil, x.Type(), m, k))
		}
	case *ssa.MapUpdate:
		m, k, v := val(x.Map), val(x.Key), val(x.Value)
		ip.need(cx, st, m, in, "write to a map")
		ip.mapAccess(cx, st, m, true, in, fi.fn)
		if ip.mapTermPub(st, m) {
			ip.publish(st, v)
		}
		old, has := st.mapGet(m, k, x.Map.Type().Underlying().(*types.Map).Elem())
		st.add(&Event{Kind: EvMapSet, Instr: in, Fn: fi.fn, Cx: cx, T: []*Term{m, k, v}, Old: old, OldHas: has})
		st.mapSet(m, k, v)
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		v := in.(ssa.Value)
		t := mk(KAlloc, "", cx.id, v, v.Type())
		delete(st.sym, t)
		delete(st.pub, t)
		if _, ok := st.maps[t]; ok || st.mver[t] != 0 {
			st.mapH -= st.mapHash(t)
			delete(st.maps, t)
			delete(st.mver, t)
			st.mapH += st.mapHash(t)
		}
		if mc, ok := in.(*ssa.MakeChan); ok {
			sz := val(mc.Size)
			t = mk(KAlloc, sz.op, cx.id, v, v.Type())
		}
		if ms, ok := in.(*ssa.MakeSlice); ok {
			if n := val(ms.Len); !n.isConst("0") {
				t = mk(KAlloc, "filled", cx.id, v, v.Type())
			}
			st.setCell(makeLen(t), val(ms.Len))
		}
		set(v, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, val(b))
		}
		set(x, mk(KClosure, "", 0, x.Fn, x.Type(), bs...))
	case *ssa.MakeInterface:
		v := val(x.X)
		set(x, mk(KMkI, "", 0, nil, x.X.Type(), v))
	case *ssa.ChangeInterface:
		set(x, val(x.X))
	case *ssa.ChangeType:
		set(x, val(x.X))
	case *ssa.SliceToArrayPointer:
		set(x, val(x.X))
	case *ssa.MultiConvert, *ssa.Convert:
		v := in.(ssa.Value)
		var ops []*ssa.Value
		o := val(*in.Operands(ops)[0])
		if isIntType(v.Type()) && isIntType((*in.Operands(ops)[0]).Type()) {
			set(v, o)
		} else {
			set(v, mk(KCall, "convert "+typKey(v.Type().Underlying()), 0, nil, v.Type(), o))
		}
	case *ssa.Slice:
		base := val(x.X)
		if base.k == KAlloc && x.Low == nil && x.High == nil {
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					var es []*Term
					for i := int64(0); i < at.Len(); i++ {
						es = append(es, st.load(mk(KIdxA, "", 0, nil, at.Elem(), base, mkInt(i)), at.Elem()))
					}
					set(x, mk(KCall, "slicelit", 0, nil, x.Type(), es...))
					return
				}
			}
		}
		if x.Low == nil && x.High != nil {
			if c, ok := intConst(val(x.High)); ok && c == 0 {
				set(x, mk(KCall, "slicelit", 0, nil, x.Type()))
				return
			}
		}
		args := []*Term{base}
		for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
			if o != nil {
				args = append(args, val(o))
			} else {
				args = append(args, tNil)
			}
		}
		set(x, mk(KCall, "slice", 0, nil, x.Type(), args...))
	case *ssa.Extract:
		t := val(x.Tuple)
		if t.k == KTuple {
			set(x, t.args[x.Index])
		} else {
			set(x, mk(KCall, fmt.Sprintf("extract/%d", x.Index), 0, nil, x.Type(), t))
		}
	case *ssa.Range:
		set(x, mk(KCall, "range", 0, nil, x.X.Type(), val(x.X)))
	case *ssa.Send:
		ch, v := val(x.Chan), val(x.X)
		ip.publish(st, v)
		st.add(&Event{Kind: EvSend, Instr: in, Fn: fi.fn, Cx: cx, T: []*Term{ch, v}, Block: true})
		ip.maybeBump(cx, st, in)
	case *ssa.Go:
		ip.doGo(cx, fi, p, x)
	case *ssa.Defer:
		d := deferred{instr: x, call: &x.Call}
		for _, a := range x.Call.Args {
			d.args = append(d.args, val(a))
		}
		if x.Call.IsInvoke() {
			d.recv = val(x.Call.Value)
		} else {
			d.fn = val(x.Call.Value)
		}
		p.defers = append(p.defers, d)
	case *ssa.DebugRef:
	default:
		panic(undecided{fmt.Sprintf("unsupported instruction %T in %s", in, fi.fn)})
	}
}

func (ip *Interp) maybeBump(cx *actx, st *State, in ssa.Instruction) {
	if ip.noBump != nil && ip.noBump(cx.root) {
		return
	}
	st.bump(ip.intern(ip.verTab, fmt.Sprintf("b%d/%d", cx.id, ptrH(in))))
}

func (ip *Interp) afterRecv(st *State, ch *Term) {
	if ch.k == KCall && ch.op == "tomb.Dying" {
		st.setFact(dyingAtom(ch.args[0]), true)
	}
	if ch.k == KCall && ch.op == "tomb.Dead" {
		st.setFact(dyingAtom(ch.args[0]), true)
		st.setFact(deadAtom(ch.args[0]), true)
		st.dead = true
	}
}

func dyingAtom(t *Term) *Term { return mk(KCall, "isdying", 0, nil, boolT, t) }
func deadAtom(t *Term) *Term  { return mk(KCall, "isdead", 0, nil, boolT, t) }

// recvVal names the value received at a site.
func (ip *Interp) recvVal(cx *actx, in ssa.Instruction, ch *Term, t types.Type, i int) *Term {
	return mk(KRes, fmt.Sprintf("recv/%d", i), cx.id, in, t, ch)
}

func (ip *Interp) doRecv(cx *actx, fi *fnInfo, p *path, x *ssa.UnOp) {
	ch := ip.val(cx, fi, p, x.X)
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	v := ip.recvVal(cx, x, ch, et, 0)
	p.st.add(&Event{Kind: EvRecv, Instr: x, Fn: fi.fn, Cx: cx, T: []*Term{ch}, Res: v, Block: true})
	ip.maybeBump(cx, p.st, x)
	ip.afterRecv(p.st, ch)
	if x.CommaOk {
		ok := mk(KRes, "recvok", cx.id, x, boolT, ch)
		p.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, v, ok)
	} else {
		p.env[fi.num[x]] = v
	}
}

func (ip *Interp) doSelect(cx *actx, fi *fnInfo, p *path, x *ssa.Select) []*path {
	var cases []SelCase
	for _, s := range x.States {
		c := SelCase{Send: s.Dir == types.SendOnly, Ch: ip.val(cx, fi, p, s.Chan)}
		if c.Send {
			c.Val = ip.val(cx, fi, p, s.Send)
		}
		cases = append(cases, c)
	}
	var out []*path
	tup := x.Type().(*types.Tuple)
	build := func(chosen int) {
		q := p.clone()
		st := q.st
		ev := &Event{Kind: EvSelect, Instr: x, Fn: fi.fn, Cx: cx, Cases: cases, Chosen: chosen, Block: x.Blocking}
		var rs []*Term
		rs = append(rs, mkInt(int64(chosen)))
		rs = append(rs, nil) // recvOk
		ok := tFalse
		ri := 0
		for i, s := range x.States {
			if s.Dir == types.SendOnly {
				continue
			}
			et := tup.At(2 + ri).Type()
			if i == chosen {
				v := ip.recvVal(cx, x, cases[i].Ch, et, i)
				rs = append(rs, v)
				ev.Res = v
				ok = mk(KRes, "recvok", cx.id, x, boolT, cases[i].Ch)
			} else {
				rs = append(rs, zeroTerm(et))
			}
			ri++
		}
		rs[1] = ok
		if chosen >= 0 && cases[chosen].Send {
			ip.publish(st, cases[chosen].Val)
		}
		st.add(ev)
		if x.Blocking {
			ip.maybeBump(cx, st, x)
		}
		if chosen >= 0 && !cases[chosen].Send {
			ip.afterRecv(st, cases[chosen].Ch)
		}
		if chosen < 0 {
			for _, c := range cases {
				if !c.Send && c.Ch.k == KCall && c.Ch.op == "tomb.Dying" {
					st.add(&Event{Kind: EvNotDie, Instr: x, Fn: fi.fn, Cx: cx, T: []*Term{c.Ch.args[0]}})
				}
			}
		}
		q.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, rs...)
		out = append(out, q)
	}
	ready := false
	for i, c := range cases {
		if c.Ch.isNil() {
			continue
		}
		if v, known := p.st.eval(mkEq(c.Ch, tNil)); known && v {
			continue
		}
		if !c.Send && c.Ch.k == KCall && c.Ch.op == "tomb.Dying" {
			if v, ok := p.st.facts[dyingAtom(c.Ch.args[0])]; ok && v {
				ready = true
			}
		}
		build(i)
	}
	if !x.Blocking && !ready {
		build(-1)
	}
	return out
}

func (ip *Interp) loopID(cx *actx, b *ssa.BasicBlock) int {
	return ip.intern(ip.verTab, fmt.Sprintf("L%d/%d", cx.id, ptrH(b)))
}

func (ip *Interp) doNext(cx *actx, fi *fnInfo, p *path, x *ssa.Next) []*path {
	r := ip.val(cx, fi, p, x.Iter)
	if x.IsString || r.k != KCall || r.op != "range" {
		panic(undecided{"unsupported range in " + fi.fn.String()})
	}
	m := r.args[0]
	mt := r.typ.Underlying().(*types.Map)
	ip.mapAccess(cx, p.st, m, false, x, fi.fn)
	lid := ip.loopID(cx, x.Block())
	key := mk(KKey, "", lid, nil, mt.Key(), m)
	q := p.clone()
	v, _ := q.st.mapGet(m, key, mt.Elem())
	if m.k == KAlloc && q.st.mver[m] == 0 {
		// a map built on this path: its values are those put in it
		v = mk(KLookup, "", 0, nil, mt.Elem(), m, key)
	}
	q.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, tTrue, key, v)
	p.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, tFalse, zeroTerm(mt.Key()), zeroTerm(mt.Elem()))
	if fi.loops[x.Block()] == nil {
		// Not a loop at all: it asks whether there is an entry.
		empty := mkEq(p.st.mapLen(m), mkInt(0))
		var r []*path
		if v, known := p.st.eval(empty); !known || !v {
			q.st.setFact(empty, false)
			r = append(r, q)
		}
		if v, known := p.st.eval(empty); !known || v {
			p.st.setFact(empty, true)
			r = append(r, p)
		}
		return r
	}
	return []*path{q, p}
}

func (ip *Interp) doAssert(cx *actx, fi *fnInfo, p *path, x *ssa.TypeAssert) []*path {
	v := ip.val(cx, fi, p, x.X)
	T := x.AssertedType
	res := mk(KAssert, "", 0, nil, T, v)
	ok := mk(KIsType, "", 0, nil, T, v)
	_, isI := T.Underlying().(*types.Interface)
	if v.k == KMkI && v.typ != nil {
		if isI {
			ok = mkBool(types.Implements(v.typ, T.Underlying().(*types.Interface)))
		} else {
			ok = mkBool(types.Identical(v.typ, T))
		}
		res = v.args[0]
		if isI {
			res = v
		}
	}
	if isI && v.k != KMkI {
		res = v // same dynamic value
	}
	if v.isNil() {
		ok = tFalse
	}
	if !x.CommaOk {
		if val, known := p.st.eval(ok); !known || !val {
			ip.record(cx, p.st, v, x, "type assertion", known)
		}
		p.env[fi.num[x]] = res
		return []*path{p}
	}
	if val, known := p.st.eval(ok); known {
		if !val {
			res = zeroTerm(T)
		}
		p.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, res, mkBool(val))
		return []*path{p}
	}
	q := p.clone()
	var out []*path
	if q.st.assume(ok, true) {
		q.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, res, tTrue)
		out = append(out, q)
	}
	if p.st.assume(ok, false) {
		p.env[fi.num[x]] = mk(KTuple, "", 0, nil, nil, zeroTerm(T), tFalse)
		out = append(out, p)
	}
	return out
}

// doCall evaluates a call instruction.
func (ip *Interp) doCall(cx *actx, fi *fnInfo, p *path, in ssa.CallInstruction, c *ssa.CallCommon) []outcome {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ip.val(cx, fi, p, a))
	}
	var fn, recv *Term
	if c.IsInvoke() {
		recv = ip.val(cx, fi, p, c.Value)
	} else {
		fn = ip.val(cx, fi, p, c.Value)
	}
	return ip.invoke(cx, p.st, in, c, fn, recv, args, false)
}

func (ip *Interp) doGo(cx *actx, fi *fnInfo, p *path, x *ssa.Go) {
	st := p.st
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, ip.val(cx, fi, p, a))
	}
	var fn *Term
	if x.Call.IsInvoke() {
		recv := ip.val(cx, fi, p, x.Call.Value)
		fn = mk(KCall, "method "+x.Call.Method.Name(), 0, nil, nil, recv)
	} else {
		fn = ip.val(cx, fi, p, x.Call.Value)
	}
	ip.launch(cx, st, x, fi.fn, fn, args, "go", nil)
}

func (ip *Interp) launch(cx *actx, st *State, in ssa.Instruction, from *ssa.Function, fn *Term, args []*Term, kind string, wg *Term) {
	ip.publish(st, fn)
	for _, a := range args {
		ip.publish(st, a)
	}
	gi := &GoInfo{Fn: fn, Args: args, St: st.clone(), Wg: wg, Kind: kind, Locks: append([]*Term(nil), st.locks...)}
	st.add(&Event{Kind: EvGo, Instr: in, Fn: from, Cx: cx, Name: kind, Go: gi})
	if fn.k == KFunc || fn.k == KClosure {
		if f := fn.obj.(*ssa.Function); f.Blocks != nil && handsOver(gi, f) {
			st.locks = nil // the goroutine is given the locks
		}
	}
}

// execLoop analyses a loop entered by p.
func (ip *Interp) execLoop(cx *actx, fi *fnInfo, l *loop, p *path) ([]edge, []outcome) {
	lid := ip.loopID(cx, l.header)
	ver := lid<<8 | 1
	ip.phis(cx, fi, l.header, p)
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if !fi.skip[phi] {
				phis = append(phis, phi)
			}
		} else {
			break
		}
	}
	inits := make([]*Term, len(phis))
	for i, phi := range phis {
		inits[i] = p.env[fi.num[phi]]
	}
	if n, ok := ip.tripCount(cx, fi, l, p); ok {
		return ip.unroll(cx, fi, l, p, n)
	}
	widened := make([]*Term, len(phis))
	counts := make([]*Term, len(phis))
	// induction variables
	for i, phi := range phis {
		if !isIntType(phi.Type()) {
			continue
		}
		step, ok := ip.inductionStep(l, phi)
		if !ok {
			continue
		}
		idx := mk(KIdx, "", lid, nil, phi.Type())
		if c, ok := intConst(inits[i]); ok && step == 1 {
			widened[i] = mkBin(token.ADD, idx, mkInt(c), intT, intT)
		} else if step == -1 {
			// counting down from len(c)-1
			if t := inits[i]; t.k == KOp && t.op == "+" && t.args[0].k == KLen && t.args[1].isConst("-1") {
				widened[i] = mk(KIdx, "rev", lid, nil, phi.Type(), t.args[0].args[0])
			}
		}
	}
	// slices consumed from the front
	for i, phi := range phis {
		if widened[i] == nil && inits[i].k != KConst && consumed(l, phi) {
			idx := mk(KIdx, "", lid, nil, intT)
			widened[i] = mk(KCall, "tail", 0, nil, phi.Type(), inits[i], idx)
			widened[i].loop = true
		}
	}
	type tuple = []*Term
	tkey := func(t tuple) string {
		var sb strings.Builder
		for _, x := range t {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
		return sb.String()
	}
	apply := func(t tuple) tuple {
		r := make(tuple, len(t))
		for i := range t {
			if widened[i] != nil {
				r[i] = widened[i]
			} else {
				r[i] = t[i]
			}
		}
		return r
	}
	havocCells := map[*Term]types.Type{}
	havocFields := map[string]bool{}
	havocMaps := map[*Term]bool{}
	havocPub := map[*Term]bool{} // shared by an iteration
	havocAll := false            // another goroutine may run in an iteration
	baseN := 0
	if p.st.ev != nil {
		baseN = p.st.ev.n
	}
	var edges []edge
	var outs []outcome
	var backs []edge
	var startSts []*State
	inOut := map[*State][2]map[*ssa.Phi]*Term{}
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided{"loop analysis does not converge in " + fi.fn.String()})
		}
		edges, outs, backs = nil, nil, nil
		startSts = nil
		done := map[string]bool{}
		queue := []tuple{apply(inits)}
		restart := false
		for len(queue) > 0 && !restart {
			tp := queue[0]
			queue = queue[1:]
			if done[tkey(tp)] {
				continue
			}
			done[tkey(tp)] = true
			q := p.clone()
			for r := range havocPub {
				q.st.pub[r] = true
			}
			if havocAll {
				q.st.bump(ver)
			}
			ip.havoc(q.st, havocCells, havocFields, havocMaps, ver)
			for i, phi := range phis {
				q.env[fi.num[phi]] = tp[i]
				if counts[i] != nil && tp[i] == counts[i] {
					c, _ := intConst(inits[i])
					q.st.setFact(mkEq(counts[i], mkInt(c)), false)
					q.st.setFact(mkBin(token.LSS, mkInt(c), counts[i], boolT, intT), true)
				}
			}
			start := q.st.clone()
			startSts = append(startSts, start)
			es, os := ip.runRegion(cx, fi, l.header, l, []*path{q})
			outs = append(outs, os...)
			for _, e := range es {
				if e.to != l.header {
					edges = append(edges, e)
					continue
				}
				if xs, ok := ip.leaves(cx, fi, l, phis, tp, e); ok {
					edges = append(edges, xs...)
					continue
				}
				// new modifications?
				grew := false
				for a, v := range e.p.st.mem {
					if ov, ok := start.mem[a]; ok && ov == v {
						continue
					}
					r := rootOf(a)
					if r.k == KAlloc && ip.insideLoop(r, l, cx, start) {
						continue
					}
					if _, ok := start.mem[a]; !ok {
						if t := cellType(a); t != nil && v == start.load(a, t) {
							continue
						}
					}
					if a.loop || rootOf(a).loop {
						k := fieldKey(a)
						if k == "" || havocFields[k] {
							continue
						}
						havocFields[k] = true
						grew = true
					} else if _, ok := havocCells[a]; !ok {
						havocCells[a] = cellType(a)
						grew = true
					}
				}
				for m, us := range e.p.st.maps {
					if len(us) != len(start.maps[m]) && !havocMaps[m] {
						if m.k == KAlloc && ip.insideLoop(m, l, cx, start) {
							continue
						}
						havocMaps[m] = true
						grew = true
					}
				}
				for m, v := range e.p.st.mver {
					if start.mver[m] != v && !havocMaps[m] {
						if m.k == KAlloc && ip.insideLoop(m, l, cx, start) {
							continue
						}
						havocMaps[m] = true
						grew = true
					}
				}
				for f, v := range e.p.st.fver {
					if start.fver[f] != v && !havocFields[f] {
						havocFields[f] = true
						grew = true
					}
				}
				for r := range e.p.st.pub {
					if !start.pub[r] && !havocPub[r] && !ip.insideLoop(r, l, cx, start) {
						havocPub[r] = true
						grew = true
					}
				}
				if e.p.st.gver != start.gver && !havocAll {
					havocAll = true
					grew = true
				}
				// phi values
				e.p.pred = e.from
				nq := &path{st: e.p.st, env: append([]*Term(nil), e.p.env...), pred: e.from}
				ip.phis(cx, fi, l.header, nq)
				nt := make(tuple, len(phis))
				for i, phi := range phis {
					nt[i] = nq.env[fi.num[phi]]
					if widened[i] != nil {
						continue
					}
					// counters: the initial value, or more
					if _, ok := intConst(inits[i]); ok && isIntType(phi.Type()) && (tp[i] == inits[i] || counts[i] != nil && tp[i] == counts[i]) && nt[i] == mkBin(token.ADD, tp[i], mkInt(1), phi.Type(), intT) {
						if counts[i] == nil {
							counts[i] = mk(KSym, fmt.Sprintf("loopcount:%s:%s", fi.fn.Name(), phi.Comment), lid*100+i, nil, phi.Type())
							counts[i].loop = true
						}
						nt[i] = counts[i]
						nq.env[fi.num[phi]] = counts[i]
						continue
					}
					if nt[i] != tp[i] && !simpleTerm(nt[i]) {
						widened[i] = mk(KSym, fmt.Sprintf("loopvar:%s:%s", fi.fn.Name(), phi.Comment), lid*100+i, nil, phi.Type())
						widened[i].loop = true
						grew = true
					}
				}
				if grew {
					restart = true
				}
				backs = append(backs, edge{e.from, e.to, nq})
				io := [2]map[*ssa.Phi]*Term{{}, {}}
				for i, phi := range phis {
					io[0][phi], io[1][phi] = tp[i], nt[i]
				}
				inOut[nq.st] = io
				at := apply(nt)
				if !done[tkey(at)] {
					if len(done) > 8 {
						for i := range phis {
							if widened[i] == nil && at[i] != tp[i] {
								widened[i] = mk(KSym, fmt.Sprintf("loopvar:%s:%s", fi.fn.Name(), phis[i].Comment), lid*100+i, nil, phis[i].Type())
								widened[i].loop = true
							}
						}
						restart = true
					} else {
						queue = append(queue, at)
					}
				}
			}
		}
		if !restart {
			break
		}
	}
	// Build the summary.
	li := &LoopInfo{ID: lid, Fn: fi.fn, Header: l.header, Kind: "other", Start: startSts[0]}
	for i, t := range inits {
		li.Entry = append(li.Entry, PhiVal{phis[i], t})
		if widened[i] == nil {
			li.Init = append(li.Init, PhiVal{phis[i], t})
		}
	}
	ip.loopKind(cx, fi, l, li, edges, backs, p)
	seen := map[uint64]bool{}
	var sts []*State
	groups := map[uint64][]*State{}
	var order []uint64
	for _, b := range backs {
		k := b.p.st.key()
		for _, phi := range phis {
			k = mix(k, inOut[b.p.st][0][phi].h)
			k = mix(k, inOut[b.p.st][1][phi].h)
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], b.p.st)
	}
	for _, k := range order {
		io := inOut[groups[k][0]]
		for _, s := range mergeFacts(groups[k]) {
			inOut[s] = io
			sts = append(sts, s)
		}
	}
	for _, s := range sts {
		pt := &Path{Events: s.events(baseN), Facts: s.facts, St: s, Kind: "iter", In: inOut[s][0], Out: inOut[s][1]}
		pt.key = mix(s.key(), s.factH)
		for _, phi := range phis {
			pt.key = mix(mix(pt.key, pt.In[phi].h), pt.Out[phi].h)
		}
		if seen[pt.key] {
			continue
		}
		seen[pt.key] = true
		li.Iters = append(li.Iters, pt)
	}
	// collected slices
	for i, phi := range phis {
		if widened[i] == nil || li.Container == nil {
			continue
		}
		if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if t := ip.collect(widened[i], inits[i], fi, phi, backs, li); t != nil {
			for _, e := range edges {
				if e.from == l.header {
					for j, v := range e.p.env {
						if v == widened[i] {
							e.p.env[j] = t
						}
					}
				}
			}
		}
	}
	// slices filled by index
	if li.FromStart && li.Container != nil && (li.Kind == "map" || li.Kind == "slice") {
		idx := mk(KIdx, "", lid, nil, intT)
		for r, elem := range filledAt(backs, idx) {
			n := startSts[0].mem[makeLen(r)]
			if n == nil {
				continue
			}
			var want *Term
			if li.Kind == "map" {
				want = startSts[0].mapLen(li.Container)
			} else {
				want = mk(KLen, "", 0, nil, intT, li.Container)
			}
			if n != want {
				continue
			}
			if li.Kind == "map" && !countsUp(phis, inits, widened, idx) {
				continue
			}
			t := mk(KCollect, "", li.ID, nil, r.typ, tNil, elem, li.Container)
			t.loop = false
			for _, e := range edges {
				if e.from == l.header {
					for j, v := range e.p.env {
						if v == r {
							e.p.env[j] = t
						}
					}
				}
			}
		}
	}
	// Insert the loop event before the events of the last, partial iteration.
	fix := func(st *State, env []*Term, from *ssa.BasicBlock) {
		tail := st.events(baseN)
		st.ev = p.st.evAt(baseN)
		ex := from == l.header && li.Container != nil && len(tail) == 0 && li.FromStart
		le := &Event{Kind: EvLoop, Instr: l.header.Instrs[len(l.header.Instrs)-1], Fn: fi.fn, Cx: cx, Loop: li, Exh: ex}
		if ex {
			for i, phi := range phis {
				if widened[i] == nil {
					le.Exit = append(le.Exit, PhiVal{phi, env[fi.num[phi]]})
				}
			}
		}
		st.add(le)
		st.ev.e.Locks = append([]*Term(nil), p.st.locks...)
		for _, e := range tail {
			ls, nf, d := e.Locks, e.NFacts, e.Dead
			st.add(e)
			e.Locks, e.NFacts, e.Dead = ls, nf, d
		}
	}
	for _, e := range edges {
		fix(e.p.st, e.p.env, e.from)
	}
	for _, o := range outs {
		fix(o.st, nil, nil)
	}
	return edges, outs
}

// leaves: an iteration which sets a variable of the loop so that the next test
// ends it, is the last one; it is continued to the loop's exits.
func (ip *Interp) leaves(cx *actx, fi *fnInfo, l *loop, phis []*ssa.Phi, tp []*Term, e edge) ([]edge, bool) {
	q := e.p.clone()
	q.pred = e.from
	ip.phis(cx, fi, l.header, q)
	flag := false
	for i, phi := range phis {
		b, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
			continue
		}
		if v := q.env[fi.num[phi]]; v.k == KConst && v != tp[i] {
			flag = true
		}
	}
	if !flag {
		return nil, false
	}
	n := 0
	if q.st.ev != nil {
		n = q.st.ev.n
	}
	es, os := ip.runRegion(cx, fi, l.header, l, []*path{q})
	if len(os) > 0 || len(es) == 0 {
		return nil, false
	}
	for _, x := range es {
		if x.to == l.header || len(x.p.st.events(n)) > 0 {
			return nil, false
		}
	}
	return es, true
}

// tripCount: the number of iterations of a loop over a literal or up to a
// constant, if it is small and the loop simple enough to be unrolled.
func (ip *Interp) tripCount(cx *actx, fi *fnInfo, l *loop, p *path) (int, bool) {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return 0, false
	}
	x, first := bo.X, int64(0)
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == l.header {
		if c, ok := a.Y.(*ssa.Const); ok && c.Value != nil {
			first, _ = intConst(constTerm(c))
			x = a.X
		}
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != l.header || fi.skip[phi] || !isIntType(phi.Type()) {
		return 0, false
	}
	if step, ok := ip.inductionStep(l, phi); !ok || step != 1 {
		return 0, false
	}
	c, ok := intConst(p.env[fi.num[phi]])
	if !ok {
		return 0, false
	}
	first += c
	var bound int64
	switch y := bo.Y.(type) {
	case *ssa.Const:
		if bound, ok = intConst(constTerm(y)); !ok {
			return 0, false
		}
	case *ssa.Call:
		b, isB := y.Call.Value.(*ssa.Builtin)
		if !isB || b.Name() != "len" {
			return 0, false
		}
		arg := y.Call.Args[0]
		if in, ok := arg.(ssa.Instruction); ok && l.blocks[in.Block()] {
			return 0, false
		}
		v := ip.val(cx, fi, p, arg)
		if v.k != KCall || v.op != "slicelit" {
			return 0, false
		}
		bound = int64(len(v.args))
	default:
		return 0, false
	}
	n := bound - first
	if n < 0 || n > 16 {
		return 0, false
	}
	for b := range l.blocks {
		if b != l.header && fi.loops[b] != nil {
			return 0, false
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if in.Heap && in.Comment != "varargs" {
					return 0, false
				}
			case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Go, *ssa.Defer, *ssa.Select:
				return 0, false
			}
		}
	}
	return int(n), true
}

// unroll runs the loop's n iterations one after the other.
func (ip *Interp) unroll(cx *actx, fi *fnInfo, l *loop, p *path, n int) ([]edge, []outcome) {
	var edges []edge
	var outs []outcome
	ps := []*path{p}
	for i := 0; len(ps) > 0; i++ {
		if i > n {
			panic(undecided{"a loop of " + fi.fn.String() + " does not end when it should"})
		}
		es, os := ip.runRegion(cx, fi, l.header, l, ps)
		outs = append(outs, os...)
		ps = nil
		for _, e := range es {
			if e.to != l.header {
				edges = append(edges, e)
				continue
			}
			e.p.pred = e.from
			ip.phis(cx, fi, l.header, e.p)
			ps = append(ps, e.p)
		}
		ps = ip.mergePaths(fi, l.header, ps)
	}
	return edges, outs
}

// makeLen is the cell holding the length of a slice made by make.
func makeLen(t *Term) *Term { return mk(KSym, "makelen", 0, nil, intT, t) }

// filledAt finds fresh slices whose element idx is set, to the same thing, by
// every iteration.
func filledAt(backs []edge, idx *Term) map[*Term]*Term {
	res := map[*Term]*Term{}
	for i, b := range backs {
		here := map[*Term]*Term{}
		for a, v := range b.p.st.mem {
			if a.k == KIdxA && a.args[1] == idx && a.args[0].k == KAlloc {
				here[a.args[0]] = v
			}
		}
		if i == 0 {
			res = here
		}
		for r, v := range res {
			if here[r] != v {
				delete(res, r)
			}
		}
	}
	return res
}

// countsUp: idx counts the iterations, from zero.
func countsUp(phis []*ssa.Phi, inits, widened []*Term, idx *Term) bool {
	for i := range phis {
		if widened[i] == idx {
			if c, ok := intConst(inits[i]); ok && c == 0 {
				return true
			}
		}
	}
	return false
}

func (s *State) evAt(n int) *evNode {
	x := s.ev
	for x != nil && x.n > n {
		x = x.prev
	}
	return x
}

// insideLoop: the object is allocated within the loop.
func (ip *Interp) insideLoop(r *Term, l *loop, cx *actx, start *State) bool {
	in, ok := r.obj.(ssa.Instruction)
	if !ok {
		return false
	}
	if r.n == cx.id {
		return l.blocks[in.Block()]
	}
	// allocated in some other activation: inside if it is a callee's, that
	// is, if nothing was known about it when the loop started
	for a := range start.mem {
		if rootOf(a) == r {
			return false
		}
	}
	return !start.pub[r] && !start.sym[r]
}

func cellType(a *Term) types.Type {
	switch a.k {
	case KFldA:
		return a.typ
	case KAlloc:
		return a.typ
	case KGlobal:
		return a.typ.Underlying().(*types.Pointer).Elem()
	case KIdxA:
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return a.typ
	case KSym:
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// simpleTerm: values that may be tracked individually around a loop.
func simpleTerm(t *Term) bool {
	if t.loop {
		return false
	}
	switch t.k {
	case KConst, KFunc, KGlobal, KSym:
		return t.k != KConst || t.typ != intT
	case KMkI:
		return simpleTerm(t.args[0])
	case KCall:
		return t.op == "tomb.Dying" || t.op == "tomb.Dead"
	case KInit:
		return t.n == 0
	}
	return false
}

func (ip *Interp) havoc(st *State, cells map[*Term]types.Type, fields map[string]bool, maps map[*Term]bool, ver int) {
	for a, t := range cells {
		if t == nil {
			st.delCell(a)
			continue
		}
		st.delCell(a)
		st.setCell(a, mk(KInit, "", ver, nil, t, a))
	}
	for f := range fields {
		for a := range st.mem {
			if fieldKey(a) == f {
				r := rootOf(a)
				if r.k == KAlloc && !st.pub[r] {
					continue
				}
				st.delCell(a)
			}
		}
		st.fver[f] = ver
		st.verH += mix(strH(f), uint64(ver))
	}
	for m := range maps {
		st.mapHavoc(m, ver)
	}
}

// inductionStep: phi is changed by a constant on every way round the loop.
func (ip *Interp) inductionStep(l *loop, phi *ssa.Phi) (int64, bool) {
	var step int64
	found := false
	for j, pr := range l.header.Preds {
		if !l.blocks[pr] {
			continue
		}
		bo, ok := phi.Edges[j].(*ssa.BinOp)
		if !ok || bo.X != phi {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		v, ok := intConst(constTerm(c))
		if !ok {
			return 0, false
		}
		if bo.Op == token.SUB {
			v = -v
		} else if bo.Op != token.ADD {
			return 0, false
		}
		if found && v != step {
			return 0, false
		}
		step, found = v, true
	}
	return step, found && (step == 1 || step == -1)
}

// isTail recognises what is left of a slice that is consumed by a loop.
func isTail(t *Term) bool { return t.k == KCall && t.op == "tail" }

// consumed tells whether each iteration takes the first element off the slice.
func consumed(l *loop, phi *ssa.Phi) bool {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	n := 0
	for j, pr := range l.header.Preds {
		if !l.blocks[pr] {
			continue
		}
		s, ok := phi.Edges[j].(*ssa.Slice)
		if !ok || s.X != phi || s.High != nil || s.Max != nil {
			return false
		}
		c, ok := s.Low.(*ssa.Const)
		if !ok || c.Value == nil || !constTerm(c).isConst("1") {
			return false
		}
		n++
	}
	return n > 0
}

// loopKind works out what the loop iterates over.
func (ip *Interp) loopKind(cx *actx, fi *fnInfo, l *loop, li *LoopInfo, edges, backs []edge, p *path) {
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			r := ip.val(cx, fi, p, nx.Iter)
			li.Kind = "map"
			li.Container = r.args[0]
			li.FromStart = true
			mt := r.typ.Underlying().(*types.Map)
			li.Key = mk(KKey, "", li.ID, nil, mt.Key(), li.Container)
			return
		}
	}
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	for _, e := range append(append([]edge(nil), backs...), edges...) {
		q := e.p
		n, ok := fi.num[iff.Cond]
		if !ok || q.env[n] == nil {
			continue
		}
		_ = bo
		c := q.env[n]
		for c.k == KOp && c.op == "!" {
			c = c.args[0]
		}
		if c.k == KOp && (c.op == "<" || c.op == "==") && len(c.args) == 2 {
			a, b := c.args[0], c.args[1]
			if b.k == KIdx {
				a, b = b, a
			}
			if a.k == KIdx && a.op == "" && b.k == KLen {
				li.Kind = "slice"
				li.Container = b.args[0]
				li.FromStart = true
				li.Key = a
				break
			}
			if a.k == KIdx && a.op == "rev" {
				li.Kind = "slice"
				li.Container = a.args[0]
				li.FromStart = true
				li.Key = a
				break
			}
		}
	}
	if li.Kind == "slice" {
		if c := li.Container; c.k == KCollect {
			li.Elem = c.args[1]
		} else {
			li.Elem = mk(KElem, "", li.ID, nil, nil, c)
		}
	}
}

// collect recognises slices built by appending one element per iteration.
func (ip *Interp) collect(sym, init *Term, fi *fnInfo, phi *ssa.Phi, backs []edge, li *LoopInfo) *Term {
	var elem *Term
	var appendFacts, skipFacts []map[*Term]bool
	for _, b := range backs {
		v := b.p.env[fi.num[phi]]
		switch {
		case v == sym:
			skipFacts = append(skipFacts, b.p.st.facts)
		case v.k == KAppend && len(v.args) == 2 && v.args[0] == sym:
			if elem != nil && elem != v.args[1] {
				return nil
			}
			elem = v.args[1]
			appendFacts = append(appendFacts, b.p.st.facts)
		default:
			return nil
		}
	}
	if elem == nil {
		return nil
	}
	var conds []Fact
	if len(skipFacts) > 0 {
		if len(appendFacts) != 1 {
			return nil
		}
		for _, f := range sortedFacts(appendFacts[0]) {
			differs := false
			for _, s := range skipFacts {
				if v, ok := s[f.A]; !ok || v != f.V {
					differs = true
				}
			}
			if differs {
				conds = append(conds, f)
			}
		}
	}
	cont := li.Container
	args := []*Term{init, elem, cont}
	op := ""
	for _, c := range conds {
		args = append(args, c.A)
		op += fmt.Sprint(c.V) + ","
	}
	t := mk(KCollect, op, li.ID, nil, phi.Type(), args...)
	t.loop = false
	t.sub = conds
	return t
}
