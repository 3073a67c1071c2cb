package main

import (
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Model is the analysed program.
type Model struct {
	nilMemo  map[string]bool
	prog     *ssa.Program
	pkgs     []*ssa.Package
	ip       *Interp
	fns      []*ssa.Function
	roots    map[*ssa.Function]*Root
	goMemo   map[*Root][]*Event
	loadTime time.Duration
	run      *runnerModel
	eng      *engineModel
	cat      *catModel
}

func newModel(prog *ssa.Program, pkgs []*ssa.Package) *Model {
	m := &Model{prog: prog, pkgs: pkgs, roots: map[*ssa.Function]*Root{}, goMemo: map[*Root][]*Event{}}
	m.fns = allFunctions(prog, pkgs)
	buildImmut(m.fns)
	m.ip = newInterp(prog)
	theModel = m
	m.ip.noBump = func(r *Root) bool { return r.Loop }
	m.ip.abnormal = func(e *Event) bool {
		// Work and Start functions may panic or call runtime.Goexit.
		if e.Kind != EvCall || e.Name != "dyn" {
			return false
		}
		t := e.T[0].typ
		if t == nil {
			return false
		}
		sig, ok := t.Underlying().(*types.Signature)
		if !ok {
			return false
		}
		rs := sig.Results()
		switch rs.Len() {
		case 1:
			return sig.Params().Len() == 0 && isErrorType(rs.At(0).Type())
		case 2:
			return isErrorType(rs.At(1).Type()) && isWorkerType(rs.At(0).Type())
		}
		return false
	}
	return m
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// isWorkerType: an interface with Kill() and Wait() error, or the named type.
func isWorkerType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Worker" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func (m *Model) pkg(path string) *ssa.Package {
	for _, p := range m.pkgs {
		if p.Pkg.Path() == path {
			return p
		}
	}
	panic(undecided{"package " + path + " not found"})
}

func (m *Model) fn(pkg, name string) *ssa.Function {
	f, ok := m.pkg(pkg).Members[name].(*ssa.Function)
	if !ok {
		panic(undecided{"function " + pkg + "." + name + " not found"})
	}
	return f
}

func (m *Model) methodIn(p *ssa.Package, typ, name string) *ssa.Function {
	t, ok := p.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if sel := m.prog.MethodSets.MethodSet(x).Lookup(p.Pkg, name); sel != nil {
			f := m.prog.MethodValue(sel)
			if f != nil && f.Synthetic != "" {
				if o, ok := sel.Obj().(*types.Func); ok {
					if g := m.prog.FuncValue(o); g != nil {
						return g
					}
				}
			}
			return f
		}
	}
	return nil
}

func (m *Model) method(pkg, typ, name string) *ssa.Function {
	f := m.methodIn(m.pkg(pkg), typ, name)
	if f == nil {
		panic(undecided{"method " + pkg + "." + typ + "." + name + " not found"})
	}
	return f
}

func (m *Model) named(pkg, typ string) *types.Named {
	t, ok := m.pkg(pkg).Members[typ].(*ssa.Type)
	if !ok {
		panic(undecided{"type " + pkg + "." + typ + " not found"})
	}
	n, ok := types.Unalias(t.Type()).(*types.Named)
	if !ok {
		panic(undecided{"type " + pkg + "." + typ + " is not a defined type"})
	}
	return n
}

// exportedMethods lists the exported methods of a type, by name.
func (m *Model) exportedMethods(pkg, typ string) []*ssa.Function {
	n := m.named(pkg, typ)
	ms := m.prog.MethodSets.MethodSet(types.NewPointer(n))
	var out []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if !o.Exported() {
			continue
		}
		f := m.prog.MethodValue(ms.At(i))
		if f != nil && f.Synthetic != "" {
			if g := m.prog.FuncValue(o.(*types.Func)); g != nil {
				f = g
			}
		}
		if f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// root analyses fn as an entry point with symbolic arguments.
func (m *Model) root(fn *ssa.Function) *Root {
	if r := m.roots[fn]; r != nil {
		if r.err != nil {
			panic(undecided{r.err.Error()})
		}
		return r
	}
	r := m.ip.RunRoot(fn.RelString(nil), fn, nil, nil, nil, false)
	m.roots[fn] = r
	if r.err != nil {
		panic(undecided{r.err.Error()})
	}
	return r
}

// walk visits events, entering loops.
func walk(evs []*Event, f func(e *Event)) {
	seen := map[*LoopInfo]bool{}
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, e := range evs {
			f(e)
			if e.Loop != nil && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, it := range e.Loop.Iters {
					rec(it.Events)
				}
			}
		}
	}
	rec(evs)
}

// gos lists the goroutine launches of a root.
func (m *Model) gos(r *Root) []*Event {
	if l, ok := m.goMemo[r]; ok {
		return l
	}
	var out []*Event
	seen := map[*Event]bool{}
	loops := map[*LoopInfo]bool{}
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, e := range evs {
			if e.Go != nil && !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
			if e.Loop != nil && !loops[e.Loop] {
				loops[e.Loop] = true
				for _, it := range e.Loop.Iters {
					rec(it.Events)
				}
			}
		}
	}
	for _, p := range r.Paths {
		rec(p.Events)
	}
	m.goMemo[r] = out
	return out
}

func (m *Model) body(r *Root, e *Event) *Root {
	b := m.ip.Body(r, e)
	if b.err != nil {
		panic(undecided{b.err.Error()})
	}
	return b
}

// tree lists the root and all goroutines it (transitively) starts.
func (m *Model) tree(r *Root) []*Root {
	seen := map[*Root]bool{}
	var out []*Root
	var rec func(r *Root)
	rec = func(r *Root) {
		if seen[r] {
			return
		}
		seen[r] = true
		out = append(out, r)
		for _, g := range m.gos(r) {
			rec(m.body(r, g))
		}
	}
	rec(r)
	return out
}

func (m *Model) analysed() map[string]bool {
	out := map[string]bool{}
	for _, r := range m.ip.Roots {
		for f := range r.Fns {
			out[f.RelString(nil)] = true
		}
	}
	return out
}

func (m *Model) rootNames() []string {
	seen := map[string]bool{}
	var out []string
	for _, r := range m.ip.Roots {
		if !seen[r.Name] {
			seen[r.Name] = true
			out = append(out, r.Name)
		}
	}
	return out
}

func (m *Model) pathCount() int {
	n := 0
	seen := map[*LoopInfo]bool{}
	var rec func(es []*Event)
	rec = func(es []*Event) {
		for _, e := range es {
			if e.Loop == nil || seen[e.Loop] {
				continue
			}
			seen[e.Loop] = true
			n += len(e.Loop.Iters)
			for _, it := range e.Loop.Iters {
				rec(it.Events)
			}
		}
	}
	for _, r := range m.ip.Roots {
		n += len(r.Paths)
		for _, p := range r.Paths {
			rec(p.Events)
		}
	}
	return n
}

// Field roles -------------------------------------------------------------

type fieldPred func(t types.Type) bool

// findField looks for the field of the struct that satisfies pred, looking
// into nested structs of the module; hints break ties.
func findField(t types.Type, pred fieldPred, hints ...string) *FieldRef {
	var cands []*FieldRef
	var rec func(t types.Type, depth int)
	rec = func(t types.Type, depth int) {
		s := structOf(t)
		if s == nil || depth > 2 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if pred(ft) {
				cands = append(cands, &FieldRef{Obj: typeObj(t), Name: s.Field(i).Name(), Idx: i, Typ: ft})
			} else if structOf(ft) != nil && !leafStruct(ft) && (s.Field(i).Embedded() || depth == 0) && !exportedStruct(ft) {
				rec(ft, depth+1)
			}
		}
	}
	rec(t, 0)
	if len(cands) == 1 {
		return cands[0]
	}
	for _, h := range hints {
		for _, c := range cands {
			if c.Name == h {
				return c
			}
		}
	}
	if len(cands) > 1 && len(hints) == 0 {
		return cands[0]
	}
	return nil
}

// leafFields lists the fields of a struct and of the unexported ones in it.
func leafFields(t types.Type) []*FieldRef {
	var out []*FieldRef
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if structOf(ft) != nil && !leafStruct(ft) && !exportedStruct(ft) && !isPointer(ft) {
			out = append(out, leafFields(ft)...)
			continue
		}
		out = append(out, &FieldRef{Obj: typeObj(t), Name: s.Field(i).Name(), Idx: i, Typ: ft})
	}
	return out
}

// valField is a field of a struct value, or of a struct in it.
func valField(v *Term, t types.Type, f *FieldRef) *Term {
	if x := valFieldIn(v, t, f); x != nil {
		return x
	}
	return mkFld(v, t, f.Idx)
}

func valFieldIn(v *Term, t types.Type, f *FieldRef) *Term {
	if typeObj(t) == f.Obj {
		return mkFld(v, t, f.Idx)
	}
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if structOf(ft) != nil && !leafStruct(ft) && !isPointer(ft) {
			if x := valFieldIn(mkFld(v, t, i), ft, f); x != nil {
				return x
			}
		}
	}
	return nil
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func exportedStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Exported()
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func typeIs(path, name string) fieldPred {
	return func(t types.Type) bool { return isNamed(t, path, name) }
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func chanElem(t types.Type) types.Type {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	return c.Elem()
}

// chanOf: a channel whose element (a struct, or the value itself) has a field
// satisfying pred.
func chanOf(pred fieldPred) fieldPred {
	return func(t types.Type) bool {
		e := chanElem(t)
		if e == nil {
			return false
		}
		if p, ok := e.Underlying().(*types.Pointer); ok {
			e = p.Elem()
		}
		s := structOf(e)
		if s == nil || leafStruct(e) {
			return pred(e)
		}
		for i := 0; i < s.NumFields(); i++ {
			if pred(s.Field(i).Type()) {
				return true
			}
		}
		return false
	}
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func need(f *FieldRef, what string) *FieldRef {
	if f == nil {
		panic(undecided{"cannot find the field that holds " + what})
	}
	return f
}
