package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects what one property's rules established.
type Check struct {
	ID    string
	M     *Model
	rules map[string]*ruleStat
	order []string
	viols []Viol
	vseen map[string]bool
	notes []string
	own   *Model // the model this property was decided on, if not M
}

type ruleStat struct {
	Name       string   `json:"rule"`
	Obligation int      `json:"obligations"`
	Discharged int      `json:"discharged"`
	Min        int      `json:"minimum"`
	Samples    []string `json:"samples,omitempty"`
}

// Viol is one violation: a rule broken at a construct.
type Viol struct {
	Rule string `json:"rule"`
	Func string `json:"function"`
	Pos  string `json:"position"`
	Msg  string `json:"message"`
	Path string `json:"path,omitempty"`
}

func (v Viol) key() string { return v.Rule + "|" + v.Func + "|" + v.Msg }

// rule declares a rule and the least number of obligations it must find.
func (c *Check) rule(name string, min int) {
	if c.rules == nil {
		c.rules = map[string]*ruleStat{}
		c.vseen = map[string]bool{}
	}
	if c.rules[name] == nil {
		c.rules[name] = &ruleStat{Name: name}
		c.order = append(c.order, name)
	}
	c.rules[name].Min = min
}

// want records an obligation: ok tells whether it is discharged.
func (c *Check) want(name string, ok bool, at where, format string, args ...any) bool {
	if c.rules == nil || c.rules[name] == nil {
		c.rule(name, 1)
	}
	r := c.rules[name]
	r.Obligation++
	if ok {
		r.Discharged++
		if len(r.Samples) < 3 && r.Obligation < 50 {
			s := at.String()
			dup := false
			for _, x := range r.Samples {
				dup = dup || x == s
			}
			if !dup {
				r.Samples = append(r.Samples, s)
			}
		}
		return true
	}
	v := Viol{Rule: name, Func: at.fn(), Pos: at.pos(), Msg: fmt.Sprintf(format, args...)}
	if c.vseen[v.key()] {
		return false
	}
	if at.P != nil {
		dumped = map[*LoopInfo]bool{}
		s := at.P.String()
		if len(s) > 6000 {
			s = s[:6000] + "…"
		}
		v.Path = s
	}
	c.vseen[v.key()] = true
	c.viols = append(c.viols, v)
	return false
}

// fail records something the rules cannot decide, which is a violation.
func (c *Check) fail(name string, at where, format string, args ...any) {
	c.want(name, false, at, format, args...)
}

func (c *Check) note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// where locates a construct.
type where struct {
	M  *Model
	E  *Event
	P  *Path
	Fn *ssa.Function
	In ssa.Instruction
	S  string
}

func (w where) fn() string {
	switch {
	case w.E != nil && w.E.Fn != nil:
		return w.E.Fn.RelString(nil)
	case w.Fn != nil:
		return w.Fn.RelString(nil)
	}
	return w.S
}

func (w where) pos() string {
	var p token.Pos
	var fn *ssa.Function
	if w.E != nil {
		if w.E.Instr != nil {
			p = w.E.Instr.Pos()
		}
		fn = w.E.Fn
	}
	if w.In != nil && !p.IsValid() {
		p = w.In.Pos()
	}
	if fn == nil {
		fn = w.Fn
	}
	if !p.IsValid() && fn != nil {
		p = fn.Pos()
	}
	if !p.IsValid() || w.M == nil {
		return w.S
	}
	ps := w.M.prog.Fset.Position(p)
	f, err := filepath.Rel(repoDir, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (w where) String() string {
	s := w.pos()
	if w.S != "" && w.S != s {
		s += " (" + w.S + ")"
	}
	if f := w.fn(); f != "" && f != w.S {
		s += " in " + shortName(f)
	}
	return s
}

func (m *Model) atE(e *Event, p *Path) where          { return where{M: m, E: e, P: p} }
func (m *Model) atFn(f *ssa.Function, s string) where { return where{M: m, Fn: f, S: s} }
func (m *Model) atS(s string) where                   { return where{M: m, S: s} }
func (m *Model) atP(f *ssa.Function, p *Path) where {
	w := where{M: m, Fn: f, P: p}
	if p != nil {
		for i := len(p.Events) - 1; i >= 0; i-- {
			if p.Events[i].Instr != nil && p.Events[i].Instr.Pos().IsValid() {
				w.E = p.Events[i]
				break
			}
		}
	}
	return w
}

// property registry
type propDef struct {
	ID    string
	Title string
	Run   func(c *Check)
	Rule  string // what is decided and how, for the evidence
}

var props = map[string]*propDef{}

func register(id, title, rule string, run func(c *Check)) {
	props[id] = &propDef{id, title, run, rule}
}

var repoDir = "/repo"

type knownFinding struct{ prop, text string }

func readKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " ")
		if i < 0 {
			continue
		}
		out = append(out, knownFinding{l[:i], strings.TrimSpace(l[i:])})
	}
	return out
}

// runProperty decides one property and reports it. It returns false if the
// property is violated (or cannot be decided).
func runProperty(m *Model, id, tier, verif string, verbose bool) bool {
	def := props[id]
	begin := time.Now()
	c := &Check{ID: id, M: m, rules: map[string]*ruleStat{}, vseen: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(undecided); ok {
					c.fail("undecided", m.atS(""), "the analysis cannot decide the property: %s", u.msg)
					return
				}
				if verbose || os.Getenv("WV_PANIC") != "" {
					panic(e)
				}
				c.fail("undecided", m.atS(""), "the analysis cannot decide the property: %v", e)
			}
		}()
		def.Run(c)
	}()
	total, done := 0, 0
	var rs []*ruleStat
	for _, n := range c.order {
		r := c.rules[n]
		if r.Obligation < r.Min {
			c.fail(n, m.atS("no construct found"), "only %d constructs to which rule %q applies, expected at least %d", r.Obligation, n, r.Min)
		}
		total += r.Obligation
		done += r.Discharged
		rs = append(rs, r)
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var fresh []Viol
	for _, v := range c.viols {
		k := false
		for _, f := range known {
			if f.prop == id && f.text == v.key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.Msg)
				k = true
			}
		}
		if !k {
			fresh = append(fresh, v)
		}
	}
	wall := time.Since(begin).Seconds() + m.loadTime.Seconds()
	if c.own != nil {
		m = c.own
	}
	var fns []string
	for f := range m.analysed() {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":        def.Rule,
		"obligations":        total,
		"discharged":         done,
		"rules":              rs,
		"functions_analysed": len(fns),
		"functions":          fns,
		"entry_points":       m.rootNames(),
		"abstract_paths":     m.pathCount(),
		"instruction_steps":  m.ip.steps,
		"packages":           len(m.pkgs),
		"checker_cmd":        "bash /verif/run.sh " + id,
		"trusted_base":       []string{"golang.org/x/tools/go/ssa", "the models of sync, context, tomb.v2, juju/errors in tool/models.go"},
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seedEnv(), "level": "other", "coverage": cov, "wall_s": wall,
		"violations":  len(fresh),
		"assumptions": assumptions,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	for _, r := range rs {
		fmt.Printf("%s %-34s %d/%d\n", id, r.Name, r.Discharged, r.Obligation)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d abstract paths, %.1fs\n", id, total, done, len(fns), m.pathCount(), wall)
	if len(fresh) == 0 {
		return true
	}
	os.MkdirAll(filepath.Join(verif, "reports"), 0o755)
	rep := filepath.Join(verif, "reports", id+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n\n", id, def.Title)
	for _, v := range fresh {
		fmt.Fprintf(&sb, "rule %s at %s (%s)\n  %s\n", v.Rule, v.Pos, v.Func, v.Msg)
		if v.Path != "" {
			fmt.Fprintf(&sb, "  abstract path:\n%s\n", v.Path)
		}
		fmt.Fprintf(&sb, "\n")
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	for i, v := range fresh {
		if i == 8 {
			fmt.Printf("  … %d more in %s\n", len(fresh)-i, rep)
			break
		}
		fmt.Printf("  %s: [%s] %s (%s)\n", v.Pos, v.Rule, v.Msg, shortName(v.Func))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return false
}

var assumptions = []string{
	"user callbacks (StartFunc, Work, IsFatal, Filter, Kill, Wait, ...) return, panic or call Goexit, and do not modify unexported state of juju/worker",
	"tomb.v2, sync, context and juju/errors behave as documented",
	"no unsafe or reflective access to unexported fields",
}

func seedEnv() int {
	var n int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
