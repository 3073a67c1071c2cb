package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir, tags string) (*ssa.Program, []*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	var keep []*ssa.Package
	for _, p := range sp {
		if p != nil {
			keep = append(keep, p)
		}
	}
	return prog, keep, nil
}

func main() {
	prop := flag.String("p", "", "property id(s), comma separated, or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verif := flag.String("verif", "", "directory of the framework")
	flag.StringVar(&repoDir, "repo", "/repo", "repository to analyse")
	dump := flag.String("dump", "", "dump the analysis of Func or Type.Method")
	trans := flag.String("trans", "", "dump the transitions of this kind of the engine")
	tags := flag.String("tags", "", "build tags")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if *verif == "" {
		*verif, _ = os.Getwd()
	}
	repoDir, _ = filepath.Abs(repoDir)
	begin := time.Now()
	prog, sp, err := load(repoDir, *tags)
	if err != nil {
		// Code that does not compile has no behaviour to judge; that is
		// reported, never ignored.
		fmt.Println(err)
		for _, id := range strings.Split(*prop, ",") {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, repoDir)
		}
		os.Exit(1)
	}
	m := newModel(prog, sp)
	m.loadTime = time.Since(begin)
	if *dump != "" {
		m.dump(*dump)
		return
	}
	if *trans == "bodies" {
		for _, st := range m.engine().bodies() {
			fmt.Printf("=== name=%s fn=%s ctx=%s get=%s delays=%v\n", st.Name, st.Fn, st.Ctx, st.Get, st.Dly)
			for i, p := range st.Body.Paths {
				fmt.Printf("path %d %s", i, p)
			}
		}
		return
	}
	if *trans != "" {
		for i, t := range m.engine().kind(*trans) {
			if i > 20 {
				break
			}
			dumped = map[*LoopInfo]bool{}
			fmt.Printf("--- %d exit=%v %s", i, t.Exit, t.P)
		}
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	ok := true
	for _, id := range ids {
		if props[id] == nil {
			fmt.Printf("unknown property %q\n", id)
			os.Exit(2)
		}
		if !runProperty(m, id, *tier, *verif, false) {
			ok = false
		}
		if *tier == "thorough" && !otherConfigs(id, *verif) {
			ok = false
		}
	}
	if !ok {
		os.Exit(1)
	}
}

func (m *Model) dump(what string) {
	var fn *ssa.Function
	if i := strings.Index(what, "."); i >= 0 {
		for _, p := range m.pkgs {
			if f := m.methodIn(p, what[:i], what[i+1:]); f != nil {
				fn = f
			}
		}
	} else {
		for _, p := range m.pkgs {
			if f, ok := p.Members[what].(*ssa.Function); ok {
				fn = f
			}
		}
	}
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	r := m.root(fn)
	seen := map[*Root]bool{}
	var rec func(r *Root)
	rec = func(r *Root) {
		if seen[r] {
			return
		}
		seen[r] = true
		fmt.Printf("=== %s err=%v paths=%d\n", r.Name, r.err, len(r.Paths))
		for i, p := range r.Paths {
			if os.Getenv("QUIET") == "" && i < 60 {
				fmt.Printf("path %d %s", i, p)
			}
		}
		for _, g := range m.gos(r) {
			rec(m.ip.Body(r, g))
		}
	}
	rec(r)
}
