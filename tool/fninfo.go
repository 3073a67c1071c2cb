package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/juju/worker/v4"

func inModulePath(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func inModule(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return inModulePath(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		// wrappers and bound-method thunks: follow when they have a body
		return true
	}
	return f.Synthetic != ""
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	id     int
}

type fnInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	nvals  int
	rpo    []*ssa.BasicBlock
	rpoIdx map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loop
	live   map[*ssa.BasicBlock][]int // live-in value numbers
	skip   map[ssa.Instruction]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}
var loopCount int

func info(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, rpoIdx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, live: map[*ssa.BasicBlock][]int{}}
	add := func(v ssa.Value) {
		if _, ok := fi.num[v]; !ok {
			fi.num[v] = fi.nvals
			fi.nvals++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoIdx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					loopCount++
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: loopCount}
					fi.loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	fi.skip = skippable(fn)
	fi.liveness()
	fnInfos[fn] = fi
	return fi
}

func (fi *fnInfo) liveness() {
	liveIn := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fi.rpo {
		liveIn[b] = map[int]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				for v := range liveIn[s] {
					cur[v] = true
				}
				// phi uses on this edge
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if fi.skip[phi] {
						continue
					}
					for j, p := range s.Preds {
						if p == b {
							if n, ok := fi.num[phi.Edges[j]]; ok {
								cur[n] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, fi.num[v])
				}
				if fi.skip[in] {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					if n, ok := fi.num[*o]; ok {
						cur[n] = true
					}
				}
			}
			// phis are defined at the block start
			old := liveIn[b]
			for v := range cur {
				if !old[v] {
					old[v] = true
					changed = true
				}
			}
		}
	}
	for b, m := range liveIn {
		// phi results are live at the merge point, after phi evaluation
		var l []int
		for v := range m {
			l = append(l, v)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && !fi.skip[phi] {
				l = append(l, fi.num[phi])
			}
		}
		fi.live[b] = l
	}
}

// isLoggerIface reports whether t is an interface of logging methods, all of
// the form (string, ...interface{}) without results.
func isLoggerIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		sig := i.Method(j).Type().(*types.Signature)
		if sig.Results().Len() != 0 || !sig.Variadic() || sig.Params().Len() != 2 {
			return false
		}
		if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return false
		}
	}
	return true
}

func isLogCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	return c.Call.IsInvoke() && isLoggerIface(c.Call.Value.Type())
}

// skippable finds the instructions whose only purpose is to log.
func skippable(fn *ssa.Function) map[ssa.Instruction]bool {
	skip := map[ssa.Instruction]bool{}
	if noSkip {
		return skip
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if isLogCall(in) {
				skip[in] = true
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				skip[in] = true
			}
		}
	}
	effectFree := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface,
			*ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.Alloc, *ssa.Extract, *ssa.TypeAssert, *ssa.MakeClosure:
			return true
		case *ssa.UnOp:
			return x.Op.String() != "<-"
		case *ssa.Lookup:
			return true
		case *ssa.Call:
			if x.Call.IsInvoke() {
				m := x.Call.Method.Name()
				return m == "Error" || m == "String" || m == "StackTrace"
			}
			if f := x.Call.StaticCallee(); f != nil {
				n := extName(f)
				return pureExternal(n)
			}
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "append", "min", "max":
					return true
				}
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if skip[in] {
					continue
				}
				if st, ok := in.(*ssa.Store); ok {
					// store into an object used for logging only
					if al := allocRoot(st.Addr); al != nil && onlyLogged(al, skip) {
						skip[in] = true
						changed = true
					}
					continue
				}
				v, ok := in.(ssa.Value)
				if !ok || !effectFree(in) {
					continue
				}
				refs := v.Referrers()
				if refs == nil {
					continue
				}
				if al, ok := in.(*ssa.Alloc); ok {
					if onlyLogged(al, skip) && len(*refs) > 0 {
						skip[in] = true
						changed = true
					}
					continue
				}
				all := len(*refs) > 0
				for _, r := range *refs {
					if !skip[r] {
						all = false
						break
					}
				}
				if all {
					skip[in] = true
					changed = true
				}
			}
		}
	}
	return skip
}

func allocRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// onlyLogged: the (array) object is only written to and sliced for skipped uses.
func onlyLogged(al *ssa.Alloc, skip map[ssa.Instruction]bool) bool {
	if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
		return false
	}
	sliced := false
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				if _, ok := rr.(*ssa.Store); !ok && !skip[rr] {
					return false
				}
			}
		case *ssa.Slice:
			sliced = true
			if !skip[x] {
				for _, rr := range *x.Referrers() {
					if !skip[rr] {
						return false
					}
				}
			}
		default:
			if !skip[r] {
				return false
			}
		}
	}
	return sliced
}

// extName is the canonical name of a function.
func extName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

var purePkgs = []string{
	"fmt.Sprint", "fmt.Errorf", "strings.", "errors.", "github.com/juju/errors.", "math.", "math/rand.", "strconv.",
	"(time.Time).", "(time.Duration).", "time.Since", "time.Until", "time.Unix", "reflect.", "(reflect.", "runtime/debug.Stack",
	"runtime/pprof.Labels", "unicode", "maps.Keys", "maps.Values", "maps.Clone", "maps.Equal",
	"slices.Contains", "slices.Index", "slices.Sorted", "slices.Collect", "slices.Clone", "slices.Equal", "slices.Concat", "slices.Values", "slices.All",
	"context.Background", "context.TODO", "context.WithValue", "math/rand/v2.", "cmp.", "path.", "sync/atomic.Load", "(*sync/atomic.Int32).Load", "(*sync/atomic.Bool).Load",
	"github.com/juju/collections/set.NewStrings", "(github.com/juju/collections/set.Strings).Values", "(github.com/juju/collections/set.Strings).SortedValues",
	"(github.com/juju/collections/set.Strings).Contains", "(github.com/juju/collections/set.Strings).Size", "(github.com/juju/collections/set.Strings).IsEmpty",
	"(github.com/juju/collections/set.Strings).Difference", "(github.com/juju/collections/set.Strings).Union",
}

func pureExternal(n string) bool {
	if strings.HasPrefix(n, "(reflect.Value).") {
		for _, x := range []string{"Set", "Call", "Send", "TrySend", "Recv", "TryRecv", "Clear", "Grow", "Close"} {
			if strings.HasPrefix(n[len("(reflect.Value)."):], x) {
				return false
			}
		}
	}
	if n == "reflect.Copy" || n == "reflect.Select" {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
