package main

import (
	"go/types"
	"math"
	"math/big"
	"strings"
)

// The delay of a start is decided by an abstract evaluation over quantities:
// the configured delay B, the factor F (0, or at least 1), the maximum M
// (0: none) and the number n of recent errors. What is required is
//
//	F = 0:  B
//	F > 0:  min(G, M) if M > 0, G otherwise, where G = B * F^max(0, n-1)
//
// up to the fuzz. Every leaf of the delay's term is a coefficient interval
// times a unit, together with what the conditions on the way to it say.

// dval is a value.
type dval struct {
	// unit: "1" a number, "n" the count plus lo, "s" max(0, count-1) plus lo,
	// "F", "F^s", "B", "G", "M", "G!" (converted to an integer while it may
	// overflow), "?" unknown.
	unit   string
	lo, hi float64
	cx     dctx
	why    string
}

// dctx is what is known.
type dctx struct {
	nMin, nMax float64
	f, m, b    int8 // 1 positive, -1 zero
	cap        int8 // 1: M <= G, -1: G <= M
}

func (a dctx) meet(b dctx) (dctx, bool) {
	r := a
	r.nMin, r.nMax = math.Max(a.nMin, b.nMin), math.Min(a.nMax, b.nMax)
	ok := r.nMin <= r.nMax
	m8 := func(x, y int8) int8 {
		if x == 0 {
			return y
		}
		if y != 0 && x != y {
			ok = false
		}
		return x
	}
	r.f, r.m, r.b = m8(a.f, b.f), m8(a.m, b.m), m8(a.b, b.b)
	if a.cap != 0 && b.cap != 0 && a.cap != b.cap {
		// equal
		r.cap = a.cap
	} else {
		r.cap = m8(a.cap, b.cap)
	}
	return r, ok
}

// flat: G is B.
func (c dctx) flat() bool { return c.nMax <= 1 }

type delayEval struct {
	em   *engineModel
	base string
	n    *Term // the count when the worker is started
	nb   *Term
	nk   float64
}

// linear splits x + k.
func linear(t *Term) (*Term, float64) {
	k := 0.0
	for t.k == KOp && len(t.args) == 2 && (t.op == "+" || t.op == "-") {
		if c, ok := constNum(t.args[1]); ok {
			if t.op == "-" {
				c = -c
			}
			k += c
			t = t.args[0]
			continue
		}
		if c, ok := constNum(t.args[0]); ok && t.op == "+" {
			k += c
			t = t.args[1]
			continue
		}
		break
	}
	return t, k
}

func constNum(t *Term) (float64, bool) {
	if t.k != KConst {
		return 0, false
	}
	if r, ok := new(big.Rat).SetString(strings.TrimPrefix(t.op, "f")); ok {
		f, _ := r.Float64()
		return f, true
	}
	return 0, false
}

func (d *delayEval) start() dctx {
	cx := dctx{nMax: math.Inf(1)}
	if d.n == nil {
		return cx
	}
	if v, ok := constNum(d.n); ok {
		cx.nMin, cx.nMax = v, v
		return cx
	}
	d.nb, d.nk = linear(d.n)
	cx.nMin = d.nk // counts are never negative
	return cx
}

// norm simplifies a value by what is known.
func (d *delayEval) norm(v dval) []dval {
	switch v.unit {
	case "n":
		if v.cx.nMin >= 1 && d.n != nil {
			return []dval{{unit: "s", lo: v.lo + 1, hi: v.lo + 1, cx: v.cx}}
		}
		if v.cx.nMin == v.cx.nMax {
			return []dval{{unit: "1", lo: v.lo + v.cx.nMin, hi: v.lo + v.cx.nMin, cx: v.cx}}
		}
	case "s":
		if v.cx.flat() {
			return []dval{{unit: "1", lo: v.lo, hi: v.lo, cx: v.cx}}
		}
	case "F^s":
		if v.cx.flat() {
			return []dval{{unit: "1", lo: v.lo, hi: v.hi, cx: v.cx}}
		}
	case "G", "G!":
		if v.cx.flat() {
			return []dval{{unit: "B", lo: v.lo, hi: v.hi, cx: v.cx}}
		}
	}
	return []dval{v}
}

func (d *delayEval) eval(t *Term, cx dctx) []dval {
	var out []dval
	for _, v := range d.eval1(t, cx) {
		out = append(out, d.norm(v)...)
	}
	return out
}

func (d *delayEval) eval1(t *Term, cx dctx) []dval {
	em := d.em
	one := func(unit string, lo, hi float64) []dval { return []dval{{unit: unit, lo: lo, hi: hi, cx: cx}} }
	if d.nb != nil {
		if b, k := linear(t); b == d.nb {
			return one("n", k-d.nk, k-d.nk)
		}
	}
	if v, ok := constNum(t); ok {
		return one("1", v, v)
	}
	is := func(s string) bool {
		return (t.k == KCall || t.k == KRes) && strings.HasSuffix(t.op, s)
	}
	switch {
	case em.isCfg(t, d.base):
		return one("B", 1, 1)
	case em.isCfg(t, "MaxDelay"):
		return one("M", 1, 1)
	case em.isCfg(t, "BackoffFactor"):
		return one("F", 1, 1)
	case t.k == KCall && t.op == "oneof":
		var out []dval
		for _, a := range t.args {
			out = append(out, d.eval(a, cx)...)
		}
		return out
	case t.k == KCall && t.op == "ite":
		var out []dval
		for i, a := range t.args[1:] {
			for _, c := range d.assume(t.args[0], i == 0, cx) {
				out = append(out, d.eval(a, c)...)
			}
		}
		return out
	case t.k == KCall && strings.HasPrefix(t.op, "convert "):
		out := d.eval(t.args[0], cx)
		if isIntType(t.typ) && !isIntType(t.args[0].typ) {
			for i, v := range out {
				if v.unit == "G" && v.cx.cap != -1 && v.cx.m != -1 {
					out[i].unit = "G!"
				}
			}
		}
		return out
	case is("Duration).Round") || is("Duration).Truncate"):
		// to a granule too small to matter
		if g, ok := constNum(t.args[1]); ok && g <= 1e6 {
			return d.eval(t.args[0], cx)
		}
	case t.k == KRes && strings.Contains(t.op, "rand.Float64"):
		return one("1", 0, 1)
	case is("math.Max") && len(t.args) == 2 || is("math.Min") && len(t.args) == 2 || t.k == KCall && (t.op == "max" || t.op == "min") && len(t.args) == 2:
		max := strings.HasSuffix(t.op, "ax")
		return d.bin(t, cx, func(a, b dval) []dval { return d.maxmin(a, b, max) })
	case is("math.Pow") && len(t.args) == 2:
		return d.bin(t, cx, func(a, b dval) []dval {
			switch {
			case b.unit == "1" && b.lo == 0 && b.hi == 0:
				return []dval{{unit: "1", lo: 1, hi: 1}}
			case a.unit == "F" && a.lo == 1 && a.hi == 1 && b.unit == "s" && b.lo == 0:
				return []dval{{unit: "F^s", lo: 1, hi: 1}}
			}
			return nil
		})
	case t.k == KOp && len(t.args) == 2:
		switch t.op {
		case "*":
			return d.bin(t, cx, func(a, b dval) []dval {
				if a.unit != "1" {
					a, b = b, a
				}
				u := b.unit
				switch {
				case a.unit == "1" && a.lo >= 0 && b.lo >= 0 && u != "n" && u != "s":
				case a.unit == "F^s" && u == "B":
					u = "G"
				case a.unit == "B" && u == "F^s":
					u = "G"
				default:
					return nil
				}
				return []dval{{unit: u, lo: a.lo * b.lo, hi: mulInf(a.hi, b.hi)}}
			})
		case "+", "-":
			return d.bin(t, cx, func(a, b dval) []dval {
				if t.op == "-" {
					b.lo, b.hi = -b.hi, -b.lo
				} else if a.unit == "1" {
					a, b = b, a
				}
				switch {
				case a.unit == b.unit && a.unit != "n" && a.unit != "s" && a.unit != "G!":
				case (a.unit == "n" || a.unit == "s") && b.unit == "1" && b.lo == b.hi:
				default:
					return nil
				}
				return []dval{{unit: a.unit, lo: a.lo + b.lo, hi: a.hi + b.hi}}
			})
		case "/":
			return d.bin(t, cx, func(a, b dval) []dval {
				if b.unit == "1" && b.lo > 0 && a.lo >= 0 && a.unit != "n" && a.unit != "s" {
					return []dval{{unit: a.unit, lo: a.lo / b.hi, hi: a.hi / b.lo}}
				}
				return nil
			})
		}
	}
	return []dval{{unit: "?", why: t.String(), cx: cx}}
}

func (d *delayEval) bin(t *Term, cx dctx, f func(a, b dval) []dval) []dval {
	var out []dval
	for _, a := range d.eval(t.args[0], cx) {
		for _, b := range d.eval(t.args[1], a.cx) {
			a := a
			c, ok := a.cx.meet(b.cx)
			if !ok {
				continue
			}
			a.cx, b.cx = c, c
			if a.unit == "?" || b.unit == "?" {
				out = append(out, dval{unit: "?", why: t.String(), cx: c})
				continue
			}
			rs := f(a, b)
			if rs == nil {
				out = append(out, dval{unit: "?", why: t.String(), cx: c})
			}
			for _, r := range rs {
				if r.cx, ok = c.meet(r.cx.orAny()); ok {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

// orAny: the zero context stands for "nothing further known".
func (c dctx) orAny() dctx {
	if c == (dctx{}) {
		c.nMax = math.Inf(1)
	}
	return c
}

func (d *delayEval) maxmin(a, b dval, max bool) []dval {
	if a.unit == b.unit && a.unit != "n" && a.unit != "s" {
		if max {
			return []dval{{unit: a.unit, lo: math.Max(a.lo, b.lo), hi: math.Max(a.hi, b.hi)}}
		}
		return []dval{{unit: a.unit, lo: math.Min(a.lo, b.lo), hi: math.Min(a.hi, b.hi)}}
	}
	if a.unit == "1" {
		a, b = b, a
	}
	if b.unit == "1" && b.lo == b.hi && max {
		// max(n + k, c) is max(0, n-1) + c if k is c - 1
		if a.unit == "n" && a.lo == b.lo-1 {
			return []dval{{unit: "s", lo: b.lo, hi: b.lo}}
		}
		if a.unit == "s" && b.lo <= a.lo {
			return []dval{a}
		}
		if a.unit == "B" && b.lo <= 0 {
			return []dval{a}
		}
	}
	var out []dval
	for _, le := range []bool{true, false} {
		for _, cx := range d.compare(a, b, le) {
			v := a
			if le == max {
				v = b
			}
			v.cx = cx
			out = append(out, v)
		}
	}
	return out
}

// compare assumes a < b (or not).
func (d *delayEval) compare(a, b dval, lt bool) []dctx {
	cx, ok := a.cx.meet(b.cx)
	if !ok {
		return nil
	}
	near := func(v dval) bool { return v.lo >= 0.899 && v.hi <= 1.101 }
	isG := func(v dval) bool { return near(v) && (v.unit == "G" || v.unit == "B" && cx.flat()) }
	num := func(v dval) bool { return v.unit == "1" && v.lo == v.hi }
	sgn := func(p *int8, pos bool) {
		n := int8(-1)
		if pos {
			n = 1
		}
		if *p == 0 {
			*p = n
		} else if *p != n {
			ok = false
		}
	}
	switch {
	case a.unit == "M" && near(a) && (isG(b) || lt && b.unit == "B" && near(b)):
		cx.cap = 1
		if !lt {
			cx.cap = -1
		}
	case b.unit == "M" && near(b) && (isG(a) || !lt && a.unit == "B" && near(a)):
		cx.cap = -1
		if !lt {
			cx.cap = 1
		}
	case a.unit == "n" && num(b):
		// n + lo < c
		if lt {
			cx.nMax = math.Min(cx.nMax, math.Ceil(b.lo-a.lo)-1)
		} else {
			cx.nMin = math.Max(cx.nMin, math.Ceil(b.lo-a.lo))
		}
	case b.unit == "n" && num(a):
		if lt {
			cx.nMin = math.Max(cx.nMin, math.Floor(a.lo-b.lo)+1)
		} else {
			cx.nMax = math.Min(cx.nMax, math.Floor(a.lo-b.lo))
		}
	case a.unit == "s" && num(b):
		// max(0, n-1) + lo < c
		k := b.lo - a.lo
		if lt && k <= 0 {
			return nil
		}
		if lt {
			cx.nMax = math.Min(cx.nMax, math.Ceil(k))
		} else if k > 0 {
			cx.nMin = math.Max(cx.nMin, math.Ceil(k)+1)
		}
	case b.unit == "s" && num(a):
		k := a.lo - b.lo
		if lt && k >= 0 {
			cx.nMin = math.Max(cx.nMin, math.Floor(k)+2)
		} else if !lt {
			if k < 0 {
				return nil
			}
			cx.nMax = math.Min(cx.nMax, math.Floor(k)+1)
		}
	case num(a) && num(b):
		if (a.lo < b.lo) != lt {
			return nil
		}
	case num(a) && (b.unit == "M" || b.unit == "B" || b.unit == "F") && b.lo > 0:
		// c < x
		p := &cx.m
		switch b.unit {
		case "B":
			p = &cx.b
		case "F":
			p = &cx.f
		}
		switch {
		case lt && a.lo >= 0:
			sgn(p, true)
		case !lt && a.lo == 0:
			sgn(p, false)
		case !lt && a.lo < 0:
			return nil
		case !lt && b.unit == "F" && a.lo*1 < b.lo && a.lo >= 0:
			sgn(p, false) // F <= c < 1
		}
	case num(b) && (a.unit == "M" || a.unit == "B" || a.unit == "F") && a.lo > 0:
		// x < c
		p := &cx.m
		switch a.unit {
		case "B":
			p = &cx.b
		case "F":
			p = &cx.f
		}
		switch {
		case lt && b.lo <= 0:
			return nil
		case !lt && b.lo > 0:
			sgn(p, true)
		case lt && a.unit == "F" && b.lo <= 1:
			sgn(p, false)
		}
	}
	if !ok || cx.nMin > cx.nMax {
		return nil
	}
	return []dctx{cx}
}

// assume adds a condition.
func (d *delayEval) assume(c *Term, v bool, cx dctx) []dctx {
	if c.k != KOp || len(c.args) != 2 || c.op != "<" && c.op != "==" {
		return []dctx{cx}
	}
	for _, a := range c.args {
		if a.typ != nil && !isNumType(a.typ) {
			return []dctx{cx}
		}
	}
	var out []dctx
	add := func(xs ...dctx) {
		for _, x := range xs {
			dup := false
			for _, y := range out {
				dup = dup || x == y
			}
			if !dup {
				out = append(out, x)
			}
		}
	}
	for _, a := range d.eval(c.args[0], cx) {
		for _, b := range d.eval(c.args[1], a.cx) {
			a := a
			m, ok := a.cx.meet(b.cx)
			if !ok {
				continue
			}
			a.cx, b.cx = m, m
			if a.unit == "?" || b.unit == "?" || a.unit == "G!" || b.unit == "G!" {
				// the conditions inside are not conditions on this path
				return []dctx{cx}
			}
			if c.op == "<" {
				add(d.compare(a, b, v)...)
				continue
			}
			if v {
				for _, x := range d.compare(a, b, false) {
					a, b := a, b
					a.cx, b.cx = x, x
					add(d.compare(b, a, false)...)
				}
				continue
			}
			add(d.compare(a, b, true)...)
			add(d.compare(b, a, true)...)
		}
	}
	return out
}

func isNumType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// leaf says what is wrong with a delay.
func (v dval) leaf() string {
	near := v.lo >= 0.899 && v.hi <= 1.101
	cx := v.cx
	unlimited := cx.cap == -1 || cx.m == -1
	switch v.unit {
	case "B":
		switch {
		case cx.b == -1:
		case v.lo < 0.899:
			return "a start may be delayed by less than is configured"
		case !near:
			return "a start may be delayed by more than the configured delay without being multiplied by the BackoffFactor"
		case cx.f == -1:
		case !cx.flat():
			return "the delay does not grow with the BackoffFactor and the number of recent errors"
		case !unlimited:
			return "a start may be delayed by more than MaxDelay"
		}
	case "G", "G!":
		switch {
		case cx.b == -1 && v.unit == "G":
		case !near:
			return "a start is not delayed by what was computed"
		case cx.f != 1:
			return "the delay vanishes when there is no BackoffFactor"
		case !unlimited:
			return "a start may be delayed by more than MaxDelay"
		}
	case "M":
		switch {
		case !near:
			return "a start may be delayed by something else than MaxDelay"
		case cx.m != 1:
			return "the MaxDelay is used although no maximum may be set"
		case cx.cap != 1:
			return "the MaxDelay is used although the delay may be smaller"
		case cx.f != 1:
			return "the MaxDelay is used although there may be no BackoffFactor"
		}
	case "1":
		if cx.b != -1 || v.lo != 0 || v.hi != 0 {
			return "a start's delay does not depend on the configuration"
		}
	default:
		return "cannot decide the delay of a start: " + v.unit + " " + v.why
	}
	return ""
}

// countAt is the number of recent errors with which the worker is started.
func (em *engineModel) countAt(st *engStart) *Term {
	var v *Term
	for _, e := range em.curSets(st.S.Evs[:st.I]) {
		if e.T[1] == st.Name && em.info(e.T[2], em.iStarting) == tTrue {
			v = em.info(e.T[2], em.iErrors)
		}
	}
	return v
}

// delayWrong decides the delay of a start; possible tells whether its path is.
func (em *engineModel) delayWrong(st *engStart, base string) (out []string, possible bool) {
	d := &delayEval{em: em, base: base, n: em.countAt(st)}
	cxs := []dctx{d.start()}
	for _, f := range sortedFacts(st.S.P.Facts) {
		var next []dctx
		for _, cx := range cxs {
			next = append(next, d.assume(f.A, f.V, cx)...)
		}
		cxs = next
	}
	seen := map[string]bool{}
	for _, cx := range cxs {
		for _, v := range d.eval(st.Dly[0], cx) {
			if why := v.leaf(); why != "" && !seen[why] {
				seen[why] = true
				out = append(out, why)
			}
		}
	}
	return out, len(cxs) > 0
}
