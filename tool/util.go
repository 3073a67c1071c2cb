package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func newInterp(prog *ssa.Program) *Interp {
	return &Interp{prog: prog, cxTab: map[string]int{}, verTab: map[string]int{}, bodies: map[string]*Root{}, inlined: map[*ssa.Function]int{}, maxPaths: 60000}
}

func sortedMembers(p *ssa.Package) []string {
	var l []string
	for n := range p.Members {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
