package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P37", "Runner: a start function's context ends with the runner or its caller",
		"derivation of the context passed to every call of a start function, through the goroutine that makes it, the event loop and the request: it is derived from the tomb's context, for a first start from the context given to StartWorker, for a restart from no request, and by nothing that ends it for another reason",
		ruleP37)
}

func isContext(t types.Type) bool { return isNamed(t, "context", "Context") }

func ruleP37(c *Check) {
	m := c.M
	rm := m.runner()
	const R, S = "start-context", "request-context"
	c.rule(R, 2)
	c.rule(S, 1)
	// what the requests carry
	tombSent := true
	sw := m.root(m.method(pkgRoot, "Runner", "StartWorker"))
	var given *Term
	for i, p := range sw.Fn.Params {
		if isContext(p.Type()) {
			given = sw.Args[i]
		}
	}
	for _, p := range sw.Paths {
		for _, e := range p.Events {
			if !e.isSend() || rm.chanKind(e.sentOn()) != "start" {
				continue
			}
			x := part(e.sentVal(), isContext)
			if !c.want(S, x != nil && given != nil, m.atE(e, p), "the request to start a worker carries no context") {
				tombSent = false
				continue
			}
			base, tomb, bad := rm.ctxBase(x)
			tombSent = tombSent && tomb
			c.want(S, base == given && !bad, m.atE(e, p), "the context in the request to start a worker, %s, is not just the one given to StartWorker", x)
		}
	}
	seen := map[*Term]bool{}
	for _, l := range rm.launches {
		req := part(l.T.Msg, isContext)
		for _, p := range l.Body.Paths {
			for _, e := range p.Events {
				if !isStartCall(e) {
					continue
				}
				at := m.atE(e, p)
				var x *Term
				sig := e.T[0].typ.Underlying().(*types.Signature)
				for i := 0; i < sig.Params().Len() && i+1 < len(e.T); i++ {
					if isContext(sig.Params().At(i).Type()) {
						x = e.T[i+1]
					}
				}
				if !c.want(R, x != nil && !x.isNil(), at, "a start function is given no context") || seen[x] {
					continue
				}
				base, tomb, bad := rm.ctxBase(x)
				c.want(R, !bad, at, "the context given to a start function, %s, can end although neither the runner is dying nor its caller's context has ended", x)
				if l.T.Kind == "start" {
					c.want(R, req != nil && base == req, at, "the context given to a start function, %s, does not end with that given to StartWorker", x)
					c.want(R, tomb || tombSent, at, "the context given to a start function, %s, does not end when the runner is dying", x)
				} else {
					c.want(R, tomb, at, "the context given to a start function for a restart, %s, does not end when the runner is dying", x)
					c.want(R, base != nil && base.k == KCall && (base.op == "context.Background" || base.op == "context.TODO"), at, "the context given to a start function for a restart, %s, ends with something else than the runner", x)
				}
			}
		}
	}
}

// ctxBase follows what a context is derived from: its base, whether the
// runner's tomb ends it, and whether something else may do so.
func (rm *runnerModel) ctxBase(x *Term) (base *Term, tomb, bad bool) {
	x = unI(x)
	for x.k == KCall {
		next := (*Term)(nil)
		switch {
		case x.op == "tomb.Context":
			if !x.args[0].isField(rm.tomb) && !(x.args[0].k == KFldA && x.args[0].op == rm.tomb.Name) {
				bad = true
			}
			tomb = true
			next = x.args[1]
			if next.isNil() { // the tomb's own context
				return mk(KCall, "context.Background", 0, nil, x.typ), true, bad
			}
		case x.op == "pprof.ctx" || strings.HasPrefix(x.op, "context.WithValue") || strings.HasPrefix(x.op, "context.WithoutCancel"):
			next = x.args[0]
			if strings.HasPrefix(x.op, "context.WithoutCancel") {
				next = nil
			}
		}
		if next == nil {
			if x.op != "context.Background" && x.op != "context.TODO" {
				bad = true
			}
			return x, tomb, bad
		}
		x = unI(next)
	}
	return x, tomb, bad
}
