package main

// P17: asynchronous observations count only inside a running callback.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P17", ruleAsync) }

func ruleAsync(p *Prog, r *Report) {
	ruleObserveGate(p, r)
	ruleCallbackRun(p, r)
	ruleCallbackValid(p, r)
	ruleRegistration(p, r)
	ruleLastValue(p, r)
}

func (p *Prog) isAsyncStore(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k := namedOf(derefT(m.Key()))
	_, inner := m.Elem().Underlying().(*types.Map)
	return inner && k != nil && originName(k) == p.repoName(mAsync, "Observer")
}

// isMembers: the set of instruments a callback was registered with.
func (p *Prog) isMembers(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k := namedOf(derefT(m.Key()))
	if k == nil || originName(k) != p.repoName(mAsync, "Observer") {
		return false
	}
	switch e := m.Elem().Underlying().(type) {
	case *types.Struct:
		return e.NumFields() == 0
	case *types.Basic:
		return e.Kind() == types.Bool
	}
	return false
}

func isOtelHandle(ci CallInfo) bool {
	return ci.Callee != nil && ci.Callee.Name() == "Handle" && strings.HasPrefix(fullName(ci.Callee), "go.opentelemetry.io/otel.")
}

type asyncGateSt struct {
	live, member, inrange, off bool
	handled, upd               int8
	obs                        string
}

func ruleObserveGate(p *Prog, r *Report) {
	const R = "observation-gate"
	r.Rule(R, "path typestate of every observation method: the accumulator is updated, once and with the observed value, only after the branches 'callback still running', 'instrument registered with that callback' and 'value accepted by the range test'; every other path records nothing and reports an error, except a value the range test already reported and an instrument disabled by its view")
	n := 0
	for _, fn := range p.pkgFuncs(mAsync) {
		if fn.Signature.Recv() == nil || fn.Name() != "ObserveInt64" && fn.Name() != "ObserveFloat64" || len(fn.Blocks) == 0 {
			continue
		}
		n++
		isCb := func(t *Term) bool {
			if t.Typ == nil || !isNamedType(derefT(t.Typ), p.repoName(mAsync, "Callback")) {
				return false
			}
			root, _ := t.Strip().Path()
			return root.Key() == "$0"
		}
		rangeTest := p.repoName(mAgg, "RangeTest")
		h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
			return p.isLocal(g) && fullName(g) != rangeTest && pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mAsync
		}}
		h.Call = func(c *Ctx, ci CallInfo) {
			s := c.A().(asyncGateSt)
			switch {
			case ci.Full() == rangeTest:
				r.Ob(R, c.Arg(0).Strip().Key() == "$2", c.F.Fn, "range-tested value", c.Pos(), "another value than the observed one is tested: "+c.Arg(0).Key())
				ok := s
				ok.inrange = true
				bad := s
				bad.off = true
				c.Fork(ok, map[int]Fact{0: factBool(true)})
				c.Fork(bad, map[int]Fact{0: factBool(false)})
			case isOtelHandle(ci):
				s.handled = inc(s.handled)
				c.Set(s)
			case ci.Invoke && ci.Method == "Update":
				s.upd = inc(s.upd)
				r.Ob(R, s.live, c.F.Fn, "accumulator update after return", c.Pos(), "an observation is recorded although the callback may have returned", c.Trace()...)
				r.Ob(R, s.member, c.F.Fn, "accumulator update of foreign instrument", c.Pos(), "an observation is recorded for an instrument the callback was not registered with", c.Trace()...)
				r.Ob(R, s.inrange, c.F.Fn, "accumulator update out of range", c.Pos(), "an observation is recorded before the range test accepted it", c.Trace()...)
				r.Ob(R, c.Arg(0).Strip().Key() == "$2", c.F.Fn, "observed value", c.Pos(), "the value recorded is not the one observed: "+c.Arg(0).Key())
				rc := c.T(ci.Common.Value)
				r.Ob(R, s.obs == "" || rc.Any(func(x *Term) bool { return refKey(x) == s.obs }), c.F.Fn, "observed instrument", c.Pos(), "the series updated is not one of the instrument observed: "+rc.Key())
				r.Ob(R, s.upd == 1, c.F.Fn, "update count", c.Pos(), "an observation is recorded twice", c.Trace()...)
				c.Set(s)
			case ci.Invoke && ci.Method == "NewAccumulator":
				r.Ob(R, s.live && s.member, c.F.Fn, "new series", c.Pos(), "a series is created by an observation that is not allowed", c.Trace()...)
			}
		}
		h.Instr = func(c *Ctx) {
			if mu, ok := c.In.(*ssa.MapUpdate); ok {
				s := c.A().(asyncGateSt)
				r.Ob(R, s.live && s.member, c.F.Fn, "collection state", c.Pos(), "the collection state is changed by an observation that is not allowed", c.Trace()...)
				_ = mu
			}
		}
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			t := c.T(cond)
			for t.Op == "un" && t.Sub == "!" {
				t, taken = t.Args[0], !taken
			}
			s := c.A().(asyncGateSt)
			switch {
			case t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && t.Args[1].Sub == "nil" && isCb(t.Args[0]):
				if (t.Sub == "!=") == taken {
					s.live = true
				}
			case t.Op == "has" && p.isMembers(t.Args[0].Typ):
				root, path := t.Args[0].Strip().Path()
				own := root.Key() == "$0" && len(path) > 1
				if taken && own {
					s.member, s.obs = true, refKey(t.Args[1])
				}
			case t.Op == "lookup" && p.isMembers(t.Args[0].Typ):
				root, path := t.Args[0].Strip().Path()
				if taken && root.Key() == "$0" && len(path) > 1 {
					s.member, s.obs = true, refKey(t.Args[1])
				}
			case isNilCmp(t, taken) && (cmpType(c, cond) == p.repoName(mView, "Instrument") || cmpType(c, cond) == p.repoName(mView, "Accumulator")):
				s.off = true // the view disabled the instrument
			}
			c.Set(s)
		}
		ups := 0
		h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
			if panics {
				return
			}
			s := c.A().(asyncGateSt)
			if s.upd > 0 {
				ups++
			}
			switch {
			case s.off:
				r.Ob(R, s.upd == 0, fn, "rejected observation", p.pos(fn.Pos()), "a rejected observation is recorded", c.Trace()...)
			case s.live && s.member && s.inrange:
				r.Ob(R, s.upd == 1, fn, "accepted observation", p.pos(fn.Pos()), fmt.Sprintf("an accepted observation is recorded %d times", s.upd), c.Trace()...)
			default:
				r.Ob(R, s.upd == 0 && s.handled > 0, fn, "refused observation", p.pos(fn.Pos()), fmt.Sprintf("an observation that is not allowed is recorded %d times and reported %d times", s.upd, s.handled), c.Trace()...)
			}
		}
		e := newEngine(p, h)
		e.Run(fn, asyncGateSt{})
		r.Engine(e)
		r.Ob(R, ups > 0, fn, "recording path", p.pos(fn.Pos()), "no path records an accepted observation")
	}
	r.AtLeast(R, n, 2, "observation method")
}

func ruleCallbackRun(p *Prog, r *Report) {
	const R = "callback-window"
	r.Rule(R, "typestate of a callback run: the user's function is called exactly once, with an observer that refers to this callback until the call returns and to none on every path after it")
	fn := p.methodOf(mAsync, "Callback", "Run")
	if !r.Need(R, fn != nil, "Callback.Run", "not found") {
		return
	}
	cbT := p.repoName(mAsync, "Callback")
	type st struct {
		set, cleared bool
		n            int8
	}
	h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return p.isLocal(g) }}
	h.Call = func(c *Ctx, ci CallInfo) {
		if ci.Callee == nil && !ci.Invoke && !strings.HasPrefix(ci.Full(), "builtin") {
			s := c.A().(st)
			s.n = inc(s.n)
			f := c.T(ci.Common.Value)
			root, _ := f.Strip().Path()
			r.Ob(R, root.Key() == "$0", c.F.Fn, "called function", c.Pos(), "not the function the callback was registered with")
			r.Ob(R, s.set && !s.cleared, c.F.Fn, "observer during the call", c.Pos(), "the observer does not refer to the callback while it runs", c.Trace()...)
			r.Ob(R, !ci.Go && !ci.Defer, c.F.Fn, "synchronous call", c.Pos(), "the callback is not run to completion by the collection")
			c.Set(s)
		}
	}
	h.Instr = func(c *Ctx) {
		if s, ok := c.In.(*ssa.Store); ok && isNamedType(derefT(s.Val.Type()), cbT) {
			if _, ok := s.Addr.(*ssa.FieldAddr); !ok {
				return
			}
			a := c.A().(st)
			v := c.T(s.Val)
			if v.Sub == "nil" {
				a.cleared = a.n > 0
				r.Ob(R, a.n > 0, c.F.Fn, "observer invalidated", c.Pos(), "the observer is invalidated before the callback has run", c.Trace()...)
			} else {
				r.Ob(R, v.Strip().Key() == "$0", c.F.Fn, "observer's callback", c.Pos(), "the observer refers to another callback")
				a.set, a.cleared = true, false
			}
			c.Set(a)
		}
	}
	h.Exit = func(c *Ctx, _ []ssa.Value, panics bool) {
		s := c.A().(st)
		if !panics {
			r.Ob(R, s.n == 1, fn, "function called once", p.pos(fn.Pos()), fmt.Sprintf("the function is called %d times on a path", s.n), c.Trace()...)
			r.Ob(R, s.cleared, fn, "observer invalidated on return", p.pos(fn.Pos()), "the observer stays usable after the callback has returned", c.Trace()...)
		}
	}
	e := newEngine(p, h)
	e.Run(fn, st{})
	r.Engine(e)
	// the callback of an observer is nil'd by nothing else and set by nothing else
}

func ruleCallbackValid(p *Prog, r *Report) {
	const R = "callback-validation"
	r.Rule(R, "a callback is created only with a function and at least one instrument, and only when every instrument given is of this SDK and of the registering meter; all of them, and only them, are recorded as its instruments")
	fn := p.fn(mAsync, "NewCallback")
	if !r.Need(R, fn != nil, "NewCallback", "not found") {
		return
	}
	// parameters by type
	names := map[string]string{}
	for i, q := range fn.Params {
		ts := types.TypeString(q.Type(), nil)
		switch {
		case strings.HasPrefix(ts, "[]"):
			names["insts"] = "$" + itoa(i)
		case strings.HasSuffix(ts, "metric.Callback"):
			names["func"] = "$" + itoa(i)
		default:
			names["opaque"] = "$" + itoa(i)
		}
	}
	isInsts := func(t *Term) bool { return t.Strip().Key() == names["insts"] }
	type st struct {
		fnOK, some, impl, own bool
		rec                   int8
		in, done, failed      bool
	}
	h := Hooks{Inline: inlineRelevant(p, func(in ssa.Instruction) bool {
		if fa, ok := in.(*ssa.FieldAddr); ok && fieldOf(fa).Name() == p.opaqueField() {
			return true
		}
		mu, ok := in.(*ssa.MapUpdate)
		return ok && p.isMembers(mu.Map.Type())
	})}
	isObs := func(t *Term) bool {
		return t.Any(func(x *Term) bool { return isElemOf(x, isInsts) })
	}
	loops := loopsOf(fn)
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		s := c.A().(st)
		if t.Op == "bin" && len(t.Args) == 2 {
			x, y := t.Args[0].Strip(), t.Args[1].Strip()
			switch {
			case x.Key() == names["func"] && y.Sub == "nil":
				s.fnOK = (t.Sub == "!=") == taken
			case (x.IsField(p.opaqueField()) && y.Key() == names["opaque"] || y.IsField(p.opaqueField()) && x.Key() == names["opaque"]) && (isObs(x) || isObs(y)):
				s.own = (t.Sub == "==") == taken && (t.Sub == "==" || t.Sub == "!=")
			}
		}
		c.Set(s)
	}
	h.Instr = func(c *Ctx) {
		if mu, ok := c.In.(*ssa.MapUpdate); ok && p.isMembers(mu.Map.Type()) {
			s := c.A().(st)
			s.rec = inc(s.rec)
			k := c.T(mu.Key)
			r.Ob(R, s.own, c.F.Fn, "recorded instrument's meter", c.Pos(), "an instrument of another meter can be recorded", c.Trace()...)
			r.Ob(R, isObs(k), c.F.Fn, "recorded instrument", c.Pos(), "the instrument recorded is not one of those given: "+k.Key())
			c.Set(s)
		}
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		if c.F.Parent != nil {
			return
		}
		s := c.A().(st)
		if l := loops[to]; l != nil && isBack(from, to) && l.Coll != nil && isInsts(c.T(l.Coll)) {
			r.Ob(R, s.rec == 1, c.F.Fn, "every instrument is recorded", p.posOf(to.Instrs[len(to.Instrs)-1]), fmt.Sprintf("an instrument given is recorded %d times", s.rec), c.Trace()...)
			s.rec, s.own, s.in = 0, false, false
		}
		if l := loops[from]; l != nil && l.Coll != nil && isInsts(c.T(l.Coll)) && len(from.Succs) == 2 {
			if to == from.Succs[0] {
				s.in = true
				r.Ob(R, l.Full, c.F.Fn, "all instruments are checked", p.posOf(from.Instrs[len(from.Instrs)-1]), "the loop does not visit every instrument: "+l.Why)
			} else {
				s.done, s.in = true, false
			}
		}
		c.Set(s)
	}
	okExits := 0
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
		if panics || len(res) != 2 {
			return
		}
		s := c.A().(st)
		errNil, known := c.E.nilness(c.St.F, VRef{c.F, res[1]})
		cb := c.T(res[0])
		if known && !errNil {
			r.Ob(R, cb.Sub == "nil", fn, "refused callback", p.pos(fn.Pos()), "a callback is returned along with an error", c.Trace()...)
			return
		}
		okExits++
		r.Ob(R, known, fn, "error result", p.pos(fn.Pos()), "the error result is not decided on a path", c.Trace()...)
		r.Ob(R, s.fnOK, fn, "function required", p.pos(fn.Pos()), "a callback without a function is accepted", c.Trace()...)
		r.Ob(R, s.done && !s.in, fn, "instruments required", p.pos(fn.Pos()), "a callback is accepted before every instrument was checked", c.Trace()...)
		r.Ob(R, cb.Sub != "nil", fn, "callback result", p.pos(fn.Pos()), "success without a callback", c.Trace()...)
	}
	e := newEngine(p, h)
	e.Run(fn, st{})
	r.Engine(e)
	r.Ob(R, okExits > 0, fn, "accepting path", p.pos(fn.Pos()), "no path accepts a callback")
	// with no instruments: an error
	d := &Decide{P: p, Fn: fn, A0: 0}
	d.Inline = noInline
	d.Vals = nil
	nE := 0
	d.Cmp = nil
	d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
		if panics {
			return
		}
		nE++
		n, known := c.E.nilness(c.St.F, VRef{c.F, refs[1]})
		r.Ob(R, known && !n, fn, "no instruments", p.pos(fn.Pos()), "a callback without instruments is accepted", c.Trace()...)
	}
	d.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "bin" && isLenOf(t.Args[0], isInsts) {
			if k, ok := constInt(t.Args[1]); ok && cmpInt(t.Sub, 0, k) != taken {
				c.Stop()
			}
		}
		if t.Op == "bin" && isLenOf(t.Args[1], isInsts) {
			// i < len
			if t.Sub == "<" && taken {
				c.Stop()
			}
		}
	}
	d.Run()
	r.Ob(R, nE > 0, fn, "no instruments handled", p.pos(fn.Pos()), "no path for an empty instrument list")
}

// opaqueField: the field of Observer that holds the owner handed to its constructor.
func (p *Prog) opaqueField() string {
	fn := p.fn(mAsync, "New")
	if fn == nil {
		return "?"
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if pr, ok := st.Val.(*ssa.Parameter); ok && types.IsInterface(pr.Type()) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						return fieldOf(fa).Name()
					}
				}
			}
		}
	}
	return "?"
}

func isLenOf(t *Term, coll func(*Term) bool) bool {
	t = t.Strip()
	return (t.Op == "pure" || t.Op == "len" || t.Op == "builtin") && (t.Sub == "len" || t.Op == "len") && len(t.Args) == 1 && coll(t.Args[0])
}

func cmpInt(op string, x, y int64) bool {
	switch op {
	case "==":
		return x == y
	case "!=":
		return x != y
	case "<":
		return x < y
	case "<=":
		return x <= y
	case ">":
		return x > y
	case ">=":
		return x >= y
	}
	return false
}

func ruleRegistration(p *Prog, r *Report) {
	const R = "callback-registration"
	r.Rule(R, "registering adds the validated callback to its meter exactly when validation succeeded, returning the error otherwise; every collection runs every registered callback once and processes every asynchronous instrument once; unregistering removes exactly that callback, once, and a second attempt is an error")
	isCbs := func(t *Term) bool {
		return t.Typ != nil && types.TypeString(t.Typ.Underlying(), nil) == "[]*"+p.repoName(mAsync, "Callback")
	}
	isCbStore := func(in ssa.Instruction) (*ssa.Store, bool) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return nil, false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return st, ok && types.TypeString(fieldOf(fa).Type().Underlying(), nil) == "[]*"+p.repoName(mAsync, "Callback")
	}
	// RegisterCallback
	newCb := p.repoName(mAsync, "NewCallback")
	if fn := p.methodOf(mMetric, "meter", "RegisterCallback"); r.Need(R, fn != nil, "meter.RegisterCallback", "not found") {
		type st struct {
			made, ok bool
			app      int8
		}
		h := Hooks{Inline: inlineRelevant(p, func(in ssa.Instruction) bool { _, ok := isCbStore(in); return ok })}
		h.Call = func(c *Ctx, ci CallInfo) {
			if ci.Full() != newCb {
				return
			}
			s := c.A().(st)
			for i := range ci.Common.Args {
				t := c.Arg(i).Strip()
				switch ts := types.TypeString(ci.Common.Args[i].Type(), nil); {
				case strings.HasPrefix(ts, "[]"):
					r.Ob(R, t.Key() == "$2", c.F.Fn, "validated instruments", c.Pos(), "not the instruments given: "+t.Key())
				case strings.HasSuffix(ts, "metric.Callback"):
					r.Ob(R, t.Key() == "$1", c.F.Fn, "validated function", c.Pos(), "not the function given: "+t.Key())
				default:
					r.Ob(R, t.Any(func(x *Term) bool { return x.Key() == "$0" }), c.F.Fn, "validating meter", c.Pos(), "instruments are not checked against this meter: "+t.Key())
				}
			}
			s.made = true
			s.ok = true
			c.Fork(s, map[int]Fact{0: {K: FNonNil}, 1: {K: FNil}})
			s.ok = false
			c.Fork(s, map[int]Fact{0: {K: FNil}, 1: {K: FNonNil}})
		}
		h.Instr = func(c *Ctx) {
			if x, ok := isCbStore(c.In); ok {
				s := c.A().(st)
				s.app = inc(s.app)
				v := c.T(x.Val)
				fresh := v.Op == "pure" && v.Sub == "append" && v.Args[0].Typ != nil && isCbs(v.Args[0]) && v.Any(func(y *Term) bool { return y.CallTo(newCb) || y.Op == "call" && y.Sub == newCb })
				r.Ob(R, s.ok && fresh, c.F.Fn, "meter's callbacks", c.Pos(), "not the previous callbacks with the validated one appended: "+v.Key(), c.Trace()...)
				c.Set(s)
			}
		}
		h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
			if panics {
				return
			}
			s := c.A().(st)
			n, known := c.E.nilness(c.St.F, VRef{c.F, res[1]})
			if s.ok {
				r.Ob(R, s.app == 1, fn, "registered", p.pos(fn.Pos()), fmt.Sprintf("a valid callback is added %d times", s.app), c.Trace()...)
				r.Ob(R, known && n, fn, "registered without error", p.pos(fn.Pos()), "an error is returned for a registered callback", c.Trace()...)
			} else {
				r.Ob(R, s.app == 0 && known && !n, fn, "refused", p.pos(fn.Pos()), "an invalid callback is registered or its error lost", c.Trace()...)
			}
		}
		e := newEngine(p, h)
		e.Run(fn, st{})
		r.Engine(e)
	}
	// Unregister
	if fn := p.methodOf(mMetric, "metricRegistration", "Unregister"); r.Need(R, fn != nil, "Unregister", "not found") {
		isReg := func(t *Term) bool {
			return t.Typ != nil && isNamedType(derefT(t.Typ), p.repoName(mAsync, "Callback"))
		}
		inl := inlineRelevant(p, func(in ssa.Instruction) bool { _, ok := isCbStore(in); return ok || isCbAppend(p, in) })
		own := func(t *Term) bool {
			root, path := t.Strip().Path()
			return isReg(t) && root.Key() == "$0" && len(path) == 1
		}
		already := func(c *Ctx, t *Term, taken bool) bool { return isNilCmp(t, taken) && own(t.Args[0]) }
		(&ForAll{P: p, R: r, Rule: R, Fn: fn, What: "every other callback is kept", Coll: isCbs, Inline: inl,
			Event: func(c *Ctx, ci CallInfo) bool {
				return isAppend(ci) && isCbs(c.T(ci.Common.Args[0])) && c.Arg(1).Any(func(x *Term) bool { return isElemOf(x, isCbs) })
			},
			Exempt: func(c *Ctx, t *Term, taken bool) bool {
				if t.Op != "bin" || len(t.Args) != 2 {
					return false
				}
				x, y := t.Args[0], t.Args[1]
				return (t.Sub == "==" && taken || t.Sub == "!=" && !taken) && (isElemOf(x, isCbs) && own(y) || isElemOf(y, isCbs) && own(x))
			},
			Off:  already,
			Skip: "a callback that is not the one unregistered can be dropped"}).Run()
		type st struct {
			again       bool
			same        bool
			kept, clear bool
			put         int8
		}
		h := Hooks{Inline: inl}
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			t := c.T(cond)
			for t.Op == "un" && t.Sub == "!" {
				t, taken = t.Args[0], !taken
			}
			s := c.A().(st)
			if already(c, t, taken) {
				s.again = true
			}
			if t.Op == "bin" && len(t.Args) == 2 && (t.Sub == "==" || t.Sub == "!=") {
				x, y := t.Args[0], t.Args[1]
				if isElemOf(x, isCbs) && own(y) || isElemOf(y, isCbs) && own(x) {
					s.same = (t.Sub == "==") == taken
				}
			}
			c.Set(s)
		}
		h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
			if isBack(from, to) {
				s := c.A().(st)
				s.same = false
				c.Set(s)
			}
		}
		h.Call = func(c *Ctx, ci CallInfo) {
			s := c.A().(st)
			if isAppend(ci) && isCbs(c.T(ci.Common.Args[0])) {
				r.Ob(R, !s.same, c.F.Fn, "unregistered callback", c.Pos(), "the callback being unregistered is kept", c.Trace()...)
				shared := c.Arg(0).Any(func(x *Term) bool {
					sl, ok := x.Ref.V.(*ssa.Slice)
					return x.Op == "slice" && ok && !(sl.Max != nil && isConstInt(sl.Max, 0)) && isCbs(x.Args[0])
				})
				root, path := c.Arg(0).Strip().Path()
				r.Ob(R, !shared && !(root.Op == "param" && len(path) > 0), c.F.Fn, "new list", c.Pos(), "the list a running collection iterates over is modified in place", c.Trace()...)
			}
		}
		h.Instr = func(c *Ctx) {
			s := c.A().(st)
			if x, ok := isCbStore(c.In); ok {
				s.put = inc(s.put)
				v := c.T(x.Val)
				// nil: an empty list, once the others have been gone through
				r.Ob(R, v.Sub == "nil" || v.Any(func(y *Term) bool { return y.Op == "pure" && y.Sub == "append" || y.Op == "make" || y.Op == "alloc" }), c.F.Fn, "meter's callbacks after unregistering", c.Pos(), "not the list without the callback: "+v.Key())
			}
			if x, ok := c.In.(*ssa.Store); ok && isNamedType(derefT(x.Val.Type()), p.repoName(mAsync, "Callback")) {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && c.T(fa.X).Strip().Key() == "$0" && c.T(x.Val).Sub == "nil" {
					s.clear = true
				}
			}
			c.Set(s)
		}
		h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
			if panics {
				return
			}
			s := c.A().(st)
			n, known := c.E.nilness(c.St.F, VRef{c.F, res[0]})
			if s.again {
				r.Ob(R, c.T(res[0]).Sub != "nil" && !(known && n), fn, "unregistered twice", p.pos(fn.Pos()), "unregistering again is not an error", c.Trace()...)
				r.Ob(R, s.put == 0, fn, "unregistered twice: list", p.pos(fn.Pos()), "unregistering again changes the meter", c.Trace()...)
				return
			}
			r.Ob(R, s.put == 1 && s.clear, fn, "unregistered", p.pos(fn.Pos()), "a path returns without removing the callback and marking it removed", c.Trace()...)
			r.Ob(R, known && n, fn, "unregistered without error", p.pos(fn.Pos()), "the first unregistration returns an error", c.Trace()...)
		}
		e := newEngine(p, h)
		e.Run(fn, st{})
		r.Engine(e)
	}
	// the collection runs them all
	prod := findProduce(p, r, R)
	if prod == nil {
		return
	}
	run, snap := p.repoName(mAsync, "Callback")+".Run", p.repoName(mAsync, "Observer")+".SnapshotAndProcess"
	rel := inlineRelevant(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && (fullName(c.Common().StaticCallee()) == run || fullName(c.Common().StaticCallee()) == snap)
	})
	runPerMeter(&ForAll{P: p, R: r, Rule: R, Fn: prod, What: "every registered callback runs", Coll: isCbs, Inline: rel,
		Event: func(c *Ctx, ci CallInfo) bool { return ci.Full() == run && isElemOf(c.Arg(0), isCbs) }})
	isIns := func(t *Term) bool {
		return t.Typ != nil && types.TypeString(t.Typ.Underlying(), nil) == "[]*"+p.repoName(mAsync, "Observer")
	}
	runPerMeter(&ForAll{P: p, R: r, Rule: R, Fn: prod, What: "every asynchronous instrument is processed", Coll: isIns, Inline: rel,
		Event: func(c *Ctx, ci CallInfo) bool { return ci.Full() == snap && isElemOf(c.Arg(0), isIns) }})
	// callbacks before processing
	type ord struct{ ran, snapped bool }
	h := Hooks{Inline: rel}
	h.Call = func(c *Ctx, ci CallInfo) {
		s := c.A().(ord)
		switch ci.Full() {
		case run:
			r.Ob(R, !s.snapped, c.F.Fn, "callbacks first", c.Pos(), "a callback runs after observations of this collection were processed", c.Trace()...)
		case snap:
			s.snapped = true
			c.Set(s)
		}
	}
	isMeters := func(t *Term) bool {
		return t.Typ != nil && types.TypeString(t.Typ.Underlying(), nil) == "[]*"+p.repoName(mMetric, "meter")
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		if isBack(from, to) {
			if l := analyseLoop(c.F.Fn, to); l.Coll != nil && isMeters(c.T(l.Coll)) {
				c.Set(ord{})
			}
		}
	}
	e := newEngine(p, h)
	e.Run(prod, ord{})
	r.Engine(e)
}

func isCbAppend(p *Prog, in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append" && types.TypeString(c.Type(), nil) == "[]*"+p.repoName(mAsync, "Callback")
}

// ruleLastValue: the last observation of an attribute set wins.
func ruleLastValue(p *Prog, r *Report) {
	const R = "last-observation"
	r.Rule(R, "each observed attribute set has one accumulator per collection: looked up and inserted under the same key computed from the caller's attributes; updating it replaces the value on every path; processing it applies the stored value to the output exactly once")
	n := 0
	for _, fn := range p.pkgFuncs(mView) {
		if fn.Name() != "Update" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 {
			continue
		}
		stt, ok := derefT(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		vt := tupT(fn.Signature.Params(), 0)
		var cur *types.Var
		for i := 0; i < stt.NumFields(); i++ {
			if types.Identical(stt.Field(i).Type(), vt) {
				cur = stt.Field(i)
			}
		}
		if cur == nil {
			continue
		}
		if _, ok := vt.(*types.TypeParam); ok {
			continue
		}
		n++
		h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return p.isLocal(g) }}
		h.Instr = func(c *Ctx) {
			st, ok := c.In.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && sameField(fieldOf(fa), cur) {
				r.Ob(R, c.T(st.Val).Strip().Key() == "$1", c.F.Fn, "stored observation", c.Pos(), "the observed value does not replace the previous one: "+c.T(st.Val).Key())
				c.Set(inc(c.A().(int8)))
			}
		}
		h.Exit = func(c *Ctx, _ []ssa.Value, panics bool) {
			if !panics {
				r.Ob(R, c.A().(int8) >= 1, fn, "observation stored", p.pos(fn.Pos()), "a path returns without storing the observation", c.Trace()...)
			}
		}
		e := newEngine(p, h)
		e.Run(fn, int8(0))
		r.Engine(e)
		sp := p.method(derefT(fn.Signature.Recv().Type()), "SnapshotAndProcess")
		if !r.Ob(R, sp != nil, fn, "SnapshotAndProcess sibling", p.pos(fn.Pos()), "accumulator type without SnapshotAndProcess") {
			continue
		}
		h2 := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
			return p.isLocal(g) && aggCall(p, g) == ""
		}}
		h2.Call = func(c *Ctx, ci CallInfo) {
			if a := aggCall(p, ci.Callee); a != "" {
				r.Ob(R, a == "Update" && sameField(lastField(c.Arg(2)), cur), c.F.Fn, "processed observation", c.Pos(), "the stored observation is not what is applied to the output")
				root, path := c.Arg(1).NoAddr().Path()
				r.Ob(R, root.Key() == "$0" && len(path) >= 2, c.F.Fn, "processed output", c.Pos(), "the observation is applied to storage that is not the accumulator's output: "+c.Arg(1).Key())
				c.Set(inc(c.A().(int8)))
			}
		}
		h2.Exit = func(c *Ctx, _ []ssa.Value, panics bool) {
			if !panics {
				r.Ob(R, c.A().(int8) == 1, sp, "processed once", p.pos(sp.Pos()), fmt.Sprintf("an observation is applied %d times on a path", c.A().(int8)), c.Trace()...)
			}
		}
		e2 := newEngine(p, h2)
		e2.Run(sp, int8(0))
		r.Engine(e2)
	}
	r.AtLeast(R, n, 2, "asynchronous accumulator")
	// one accumulator per attribute set
	m := 0
	for _, fn := range asyncRoots(p) {
		m += walkAsync(p, r, R, fn, asyncWalk{series: true})
	}
	r.AtLeast(R, m, 4, "series lookup")
}

func isOptions(t types.Type) bool {
	if t == nil {
		return false
	}
	return strings.HasSuffix(types.TypeString(t, nil), "metric.ObserveOption")
}

// cmpType names the type of the operands of a comparison.
func cmpType(c *Ctx, v ssa.Value) string {
	r := VRef{c.F, v}
	for i := 0; i < 20; i++ {
		r = c.E.strip(r)
		if u, ok := r.V.(*ssa.UnOp); ok && u.Op == token.NOT {
			r.V = u.X
			continue
		}
		if b, ok := r.V.(*ssa.BinOp); ok {
			return types.TypeString(b.X.Type(), nil)
		}
		ft, ok := c.St.F.m[vkey(r)]
		if !ok || ft.K != FSym {
			break
		}
		r = ft.Ref
	}
	return ""
}
