package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P29", checkP29) }

const mEvery = "lightstep/sdk/metric/internal/doevery"

func checkP29(p *Prog, r *Report) {
	ruleRateLimit(p, r)
	ruleRateSites(p, r)
}

// isLimiter: an exported function of the package taking a period and an action.
func isLimiter(p *Prog, f *ssa.Function) bool {
	if f == nil || !inPkg(p, f, mEvery) || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Params().Len() != 2 {
		return false
	}
	_, fun := tupT(f.Signature.Params(), 1).Underlying().(*types.Signature)
	return fun && types.TypeString(tupT(f.Signature.Params(), 0), nil) == "time.Duration"
}

// elapsedOf: what the path says about the period having passed since prev.
func elapsedOf(o *Outcome, prev func(*Ex) bool) (val, known bool) {
	dur := func(x *Ex) bool { return isParam(x, 0) }
	call := func(x *Ex, name string) bool {
		return x.Op == "call" && strings.HasPrefix(x.Sub, name) && (len(x.Sub) == len(name) || x.Sub[len(name)] == '#')
	}
	now := func(x *Ex) bool { return call(x, "time.Now") }
	el := func(x *Ex) bool {
		return call(x, "time.Since") && prev(x.Args[0]) || call(x, "time.Time.Sub") && now(x.Args[0]) && prev(x.Args[1])
	}
	due := func(x *Ex) bool { return call(x, "time.Time.Add") && prev(x.Args[0]) && dur(x.Args[1]) }
	for _, c := range o.Conds {
		a := c.A
		switch {
		case a.Op == "<" && len(a.Args) == 2 && dur(a.Args[0]) && el(a.Args[1]):
			return c.Val, true
		case a.Op == "<" && len(a.Args) == 2 && el(a.Args[0]) && dur(a.Args[1]):
			return !c.Val, true
		case call(a, "time.Time.After") && now(a.Args[0]) && due(a.Args[1]), call(a, "time.Time.Before") && due(a.Args[0]) && now(a.Args[1]):
			return c.Val, true
		case call(a, "time.Time.Before") && now(a.Args[0]) && due(a.Args[1]), call(a, "time.Time.After") && due(a.Args[0]) && now(a.Args[1]):
			return !c.Val, true
		}
	}
	return false, false
}

func ruleRateLimit(p *Prog, r *Report) {
	const R = "rate-limit"
	r.Rule(R, "on every path the action runs exactly once, outside the lock, if the place (file and line of the immediate caller) has no last time or more than the period has passed since it, and then the last time of that place becomes the present; otherwise neither happens; look-up and update are in one critical section")
	n := 0
	for _, fn := range p.all {
		if !isLimiter(p, fn) {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, Lookups: true}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && e.Cut == 0 && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		ran, held := 0, 0
		for _, o := range os {
			if o.Panic {
				neg, known := o.Cond("<($0,0)")
				r.Ob(R, known && neg, fn, "panics", pos, "although the period is valid", o.Trace()...)
				continue
			}
			var caller *Ex
			runs, updates, lookedAt := 0, 0, -1
			locked := 0
			var table, key *Ex
			for i, ev := range o.Ev {
				switch {
				case ev.Kind == "call" && strings.HasPrefix(ev.Name, "runtime.Caller"):
					caller = ev.Res
					depth := int64(1)
					for g := ev.In.Parent(); g != nil && g != fn; g = nil {
						depth = 2
					}
					sk, ok := ev.Args[0].int()
					r.Ob(R, ok && sk == depth, fn, "place", ev.Pos, "is not that of the immediate caller", o.Trace()...)
				case ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn") && isParam(ev.Args[0], 1), ev.Kind == "go" && len(ev.Args) > 0 && isParam(ev.Args[0], 1):
					runs++
					r.Ob(R, lockBefore(o, i) == 0, fn, "action", ev.Pos, "runs with the lock held: other places wait for it", o.Trace()...)
				case ev.Kind == "call" && (strings.HasSuffix(ev.Name, "Mutex.Lock") || strings.HasSuffix(ev.Name, "Mutex.Unlock") || strings.HasSuffix(ev.Name, "Mutex.RLock") || strings.HasSuffix(ev.Name, "Mutex.RUnlock")):
					locked++
				case ev.Kind == "lookup":
					lookedAt = locked
					table, key = ev.Args[0], ev.Args[1]
				case ev.Kind == "mapupdate":
					updates++
					r.Ob(R, lockBefore(o, i) == 1, fn, "last time", ev.Pos, "is set without the lock", o.Trace()...)
					r.Ob(R, lookedAt == locked, fn, "last time", ev.Pos, "is set in another critical section than it is read", o.Trace()...)
					r.Ob(R, table != nil && table.Key() == ev.Args[0].Key() && key.Key() == ev.Args[1].Key(), fn, "last time", ev.Pos, "is not set for the place looked up", o.Trace()...)
					r.Ob(R, ev.Args[2].Op == "call" && strings.HasPrefix(ev.Args[2].Sub, "time.Now"), fn, "last time", ev.Pos, "is not the present", o.Trace()...)
				case ev.Kind == "builtin" && (ev.Name == "delete" || ev.Name == "clear"):
					r.Ob(R, false, fn, "last time", ev.Pos, "is forgotten", o.Trace()...)
				}
			}
			r.Ob(R, lockBefore(o, len(o.Ev)) == 0, fn, "lock", pos, "is kept on a path", o.Trace()...)
			r.Ob(R, runs <= 1, fn, "action", pos, "runs more than once", o.Trace()...)
			if !r.Ob(R, caller != nil && len(caller.Args) == 4, fn, "place", pos, "is not determined on a path", o.Trace()...) {
				continue
			}
			if v, known := o.Cond(caller.Args[3].Key()); known && !v {
				r.Ob(R, runs == 1, fn, "action", pos, "is lost where the place is unknown", o.Trace()...)
				continue
			}
			if !r.Ob(R, table != nil && lookedAt >= 0, fn, "last time", pos, "is not looked up on a path", o.Trace()...) {
				continue
			}
			r.Ob(R, key.Has(caller.Args[1].Key()) && key.Has(caller.Args[2].Key()), fn, "place", pos, "is not identified by file and line: "+short(key.Key()), o.Trace()...)
			has, known := o.Cond("has(" + table.Key() + "," + key.Key() + ")")
			due := known && !has
			if !known || has {
				v, k := elapsedOf(o, func(x *Ex) bool {
					return x.Op == "lookup" && x.Args[0].Key() == table.Key() && x.Args[1].Key() == key.Key()
				})
				// the zero time of a missing entry is long ago
				if !r.Ob(R, k, fn, "period", pos, "does not decide on a path", o.Trace()...) {
					continue
				}
				due = v
			}
			want := 0
			if due {
				want = 1
				ran++
			} else {
				held++
			}
			r.Ob(R, runs == want, fn, "action", pos, fmt.Sprintf("runs %d times, %d expected", runs, want), o.Trace()...)
			r.Ob(R, updates == want, fn, "last time", pos, fmt.Sprintf("is set %d times, %d expected", updates, want), o.Trace()...)
		}
		r.Ob(R, ran > 0 && held > 0, fn, "action", pos, "is not rate-limited")
	}
	r.AtLeast(R, n, 1, "rate limiters")
	// nobody else touches the table
	for _, m := range p.pkg(mEvery).Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if _, ok := derefT(g.Type()).Underlying().(*types.Map); !ok {
			continue
		}
		for _, f := range p.all {
			if pkgOf(f) != p.pkg(mEvery).Pkg || f.Name() == "init" || f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						r.Ob(R, false, f, "table", p.posOf(in), "of last times is replaced")
					}
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
							r.Ob(R, false, f, "table", p.posOf(in), "of last times loses entries")
						}
					}
				}
			}
		}
	}
}

func ruleRateSites(p *Prog, r *Report) {
	const R = "rate-sites"
	r.Rule(R, "every rate-limited place calls the limiter directly, on a line of its own, with a positive constant period and an action made at that place which reports through the global error handler on every path")
	seen := map[token.Pos]bool{}
	lines := map[string]ssa.Instruction{}
	for _, f := range p.all {
		if f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				switch x := in.(type) {
				case *ssa.Call:
					cc = &x.Call
				case *ssa.Go:
					cc = &x.Call
				case *ssa.Defer:
					cc = &x.Call
				default:
					continue
				}
				for _, a := range cc.Args {
					if g, ok := a.(*ssa.Function); ok && isLimiter(p, g) {
						r.Ob(R, false, f, "limiter", p.posOf(in), "is called indirectly: all its users share one place")
					}
				}
				g := cc.StaticCallee()
				if !isLimiter(p, g) {
					continue
				}
				pos := p.posOf(in)
				seen[in.Pos()] = true
				_, direct := in.(*ssa.Call)
				r.Ob(R, direct, f, "limiter", pos, "is not called directly: the place is not this line")
				c, isC := cc.Args[0].(*ssa.Const)
				r.Ob(R, isC && c.Int64() > 0, f, "period", pos, "is not a positive constant")
				ln := p.pos(in.Pos())
				if other := lines[ln]; other != nil && other.Pos() != in.Pos() {
					r.Ob(R, false, f, "limiter", pos, "is called twice on the same line: the places share their last time")
				}
				lines[ln] = in
				mc, isM := cc.Args[1].(*ssa.MakeClosure)
				var act *ssa.Function
				if isM {
					act, _ = mc.Fn.(*ssa.Function)
				} else {
					act, _ = cc.Args[1].(*ssa.Function)
				}
				if !r.Ob(R, act != nil, f, "action", pos, "is given by the caller: all callers share this place") {
					continue
				}
				if generic(act) {
					continue
				}
				os := (&Effects{P: p, Opaque: func(g *ssa.Function) bool { return true }}).Run(act, nil)
				for _, o := range os {
					k := 0
					for _, ev := range o.Ev {
						if ev.Kind == "call" && strings.HasSuffix(ev.Name, "otel.Handle") {
							k++
						}
					}
					r.Ob(R, k == 1 || o.Panic, f, "action", pos, "does not report once on a path", o.Trace()...)
				}
			}
		}
	}
	r.AtLeast(R, len(seen), 4, "rate-limited places")
}
