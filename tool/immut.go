package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Write-once memory. A field that is stored to only while the object holding
// it is being built (before anybody else can see the object), and a captured
// variable that no closure assigns, keep their content whatever other
// goroutines do.

type storeChain struct {
	comps []string // outermost first
	root  string   // type of the local object, "" if the root is a pointer value
}

var (
	mutChains []storeChain
	mutSet    = map[string]bool{}
	immutMemo = map[*Term]int8{}
	allocMemo = map[*ssa.Alloc]int8{}
)

func fieldComp(st types.Type, i int) string {
	s := structOf(st)
	return fmt.Sprintf("%v.%s", compObj(typeObj(st)), s.Field(i).Name())
}

func compObj(o any) string {
	if t, ok := o.(types.Object); ok {
		if t.Pkg() != nil {
			return t.Pkg().Path() + "." + t.Name()
		}
		return t.Name()
	}
	return fmt.Sprint(o)
}

func chainOf(v ssa.Value) (comps []string, root ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			comps = append([]string{fieldComp(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)}, comps...)
			v = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				comps = append([]string{"[]"}, comps...)
				v = x.X
				continue
			}
		}
		return comps, v
	}
}

// buildImmut collects the stores of the whole module.
func buildImmut(fns []*ssa.Function) {
	add := func(c storeChain) {
		k := fmt.Sprint(c)
		if !mutSet[k] {
			mutSet[k] = true
			mutChains = append(mutChains, c)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				globalUses(fn, in)
				switch x := in.(type) {
				case *ssa.Store:
					comps, root := chainOf(x.Addr)
					if al := heldIn(root); al != nil && len(comps) > 0 {
						root = al
					}
					if al, ok := root.(*ssa.Alloc); ok {
						if len(comps) == 0 || initStore(al, x) {
							continue
						}
						add(storeChain{comps, typKey(al.Type().Underlying().(*types.Pointer).Elem())})
						continue
					}
					if len(comps) == 0 {
						// *p = v
						if _, ok := root.(*ssa.Global); ok {
							continue
						}
						t := x.Val.Type()
						if s := structOf(t); s != nil {
							for i := 0; i < s.NumFields(); i++ {
								add(storeChain{[]string{fieldComp(t, i)}, ""})
							}
						}
						continue
					}
					add(storeChain{comps, ""})
				case *ssa.FieldAddr:
					if structOf(x.Type().Underlying().(*types.Pointer).Elem()) != nil {
						continue
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == x && y.Val != x {
								continue
							}
						case *ssa.UnOp:
							if y.Op == token.MUL {
								continue
							}
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							continue
						}
						comps, _ := chainOf(x)
						add(storeChain{comps, ""})
					}
				}
			}
		}
	}
}

// heldIn: v is the content of a variable which only ever holds this object.
func heldIn(v ssa.Value) *ssa.Alloc {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	c, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var al *ssa.Alloc
	n := 0
	var look func(v ssa.Value, depth int)
	look = func(v ssa.Value, depth int) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					n++
					al, _ = x.Val.(*ssa.Alloc)
				} else {
					n = 2
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && depth < 5 {
						look(f.FreeVars[i], depth+1)
					}
				}
			default:
				n = 2
			}
		}
	}
	look(c, 0)
	if n != 1 {
		return nil
	}
	return al
}

// initStore: the store initialises the object right after its allocation,
// before any call could have been given it.
func initStore(al *ssa.Alloc, s *ssa.Store) bool {
	if al.Block() != s.Block() {
		return false
	}
	started := false
	cells := map[*ssa.Alloc]bool{} // variables that hold it
	var mine func(v ssa.Value) bool
	mine = func(v ssa.Value) bool {
		_, r := chainOf(v)
		if mi, ok := r.(*ssa.MakeInterface); ok {
			return mine(mi.X)
		}
		if c, ok := r.(*ssa.Alloc); ok && cells[c] {
			return true
		}
		return r == al || heldIn(r) == al
	}
	for _, in := range al.Block().Instrs {
		if in == ssa.Instruction(al) {
			started = true
			continue
		}
		if !started {
			continue
		}
		if in == ssa.Instruction(s) {
			return true
		}
		switch x := in.(type) {
		case *ssa.Store:
			if mine(x.Val) {
				c, ok := x.Addr.(*ssa.Alloc)
				if !ok {
					return false
				}
				cells[c] = true
			}
		case ssa.CallInstruction:
			for _, a := range x.Common().Args {
				if mine(a) {
					return false
				}
			}
			if x.Common().IsInvoke() && mine(x.Common().Value) {
				return false
			}
		case *ssa.MakeClosure:
			for _, a := range x.Bindings {
				if mine(a) {
					return false
				}
			}
		case *ssa.MapUpdate:
			if mine(x.Value) {
				return false
			}
		case *ssa.Send:
			if mine(x.X) {
				return false
			}
		}
	}
	return false
}

// immutable reports whether the cell is write-once.
func immutable(a *Term) bool {
	if v, ok := immutMemo[a]; ok {
		return v == 1
	}
	r := immutable1(a)
	if r {
		immutMemo[a] = 1
	} else {
		immutMemo[a] = 2
	}
	return r
}

func immutable1(a *Term) bool {
	var comps []string
	x := a
	for x.k == KFldA || x.k == KIdxA {
		if x.k == KIdxA {
			return false
		}
		comps = append([]string{compObj(x.obj) + "." + x.op}, comps...)
		x = x.args[0]
	}
	if len(comps) == 0 {
		if x.k == KAlloc {
			if al, ok := x.obj.(*ssa.Alloc); ok {
				return finalVar(al)
			}
		}
		if x.k == KGlobal {
			g, ok := x.obj.(*ssa.Global)
			return ok && globalInit[g] != nil && !globalMut[g]
		}
		return false
	}
	rt := ""
	if x.k == KAlloc && x.typ != nil {
		rt = typKey(x.typ)
	} else if x.typ != nil {
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			rt = typKey(p.Elem())
		}
	}
	for _, c := range mutChains {
		if c.root != "" {
			if c.root == rt && prefixOf(c.comps, comps) {
				return false
			}
			continue
		}
		// c.comps must match somewhere so that the store may cover the cell:
		// the store's components, aligned at any position, are a suffix of a
		// prefix of comps.
		for i := range comps {
			if i+len(c.comps) <= len(comps) && prefixOf(c.comps, comps[i:]) {
				return false
			}
		}
	}
	return true
}

func prefixOf(p, s []string) bool {
	if len(p) > len(s) {
		return false
	}
	for i := range p {
		if p[i] != s[i] {
			return false
		}
	}
	return true
}

// finalVar: a captured variable that no closure assigns, and that its owner
// assigns only before it is captured.
func finalVar(al *ssa.Alloc) bool {
	if v, ok := allocMemo[al]; ok {
		return v == 1
	}
	allocMemo[al] = 2
	r := finalVar1(al)
	if r {
		allocMemo[al] = 1
	}
	return r
}

func finalVar1(al *ssa.Alloc) bool {
	var stores []*ssa.Store
	var clos []*ssa.MakeClosure
	var addrOK func(v ssa.Value, owner bool) bool
	addrOK = func(v ssa.Value, owner bool) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					return false
				}
				if !owner {
					return false
				}
				stores = append(stores, x)
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.FieldAddr:
				// fields of a struct variable
				if !addrOK(x, owner) {
					return false
				}
			case *ssa.IndexAddr:
				if !addrOK(x, owner) {
					return false
				}
			case *ssa.Slice:
			case *ssa.MakeClosure:
				if owner {
					clos = append(clos, x)
				}
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						if !addrOK(fn.FreeVars[i], false) {
							return false
						}
					}
				}
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				return false
			default:
				return false
			}
		}
		return true
	}
	if !addrOK(al, true) {
		return false
	}
	for _, s := range stores {
		for _, c := range clos {
			if !instrDominates(s, c) {
				return false
			}
		}
	}
	return true
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
		return false
	}
	return a.Block().Dominates(b.Block())
}

// allFunctions lists every function of the module, closures included.
func allFunctions(prog *ssa.Program, pkgs []*ssa.Package) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			out = append(out, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pkgs {
		for _, name := range sortedMembers(p) {
			switch m := p.Members[name].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

// Package variables: what each is set to at start, and whether anything else
// may change it.
var (
	globalInit = map[*ssa.Global]ssa.Value{}
	globalMut  = map[*ssa.Global]bool{}
)

func globalUses(fn *ssa.Function, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		g, ok := (*op).(*ssa.Global)
		if !ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				continue
			}
		case *ssa.Store:
			if x.Addr == g && x.Val != g && fn.Name() == "init" && fn.Synthetic != "" && globalInit[g] == nil {
				globalInit[g] = x.Val
				continue
			}
		case *ssa.DebugRef:
			continue
		}
		globalMut[g] = true
	}
}

// globalNonNil: the variable holds what it was set to at start, which is not
// nil.
func globalNonNil(g *ssa.Global) bool {
	v := globalInit[g]
	if v == nil || globalMut[g] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return nonNilCalls[f.RelString(nil)]
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.Function:
		return true
	}
	return false
}
