package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// ForAll decides: on every path of Fn, the loop over the collection selected
// by Coll runs to its end and performs Event exactly once for each element.
type ForAll struct {
	P    *Prog
	R    *Report
	Rule string
	Fn   *ssa.Function
	What string
	// Coll selects the collection by its term (evaluated in the loop's frame).
	Coll func(t *Term) bool
	// Event recognises the per-element action.
	Event func(c *Ctx, ci CallInfo) bool
	// InstrEvent recognises a non-call action.
	InstrEvent func(c *Ctx) bool
	// Exempt recognises a branch after which this element needs no event.
	Exempt func(c *Ctx, t *Term, taken bool) bool
	// ExitOK recognises a branch after which the whole loop need not run.
	ExitOK func(c *Ctx, t *Term, taken bool) bool
	// Off recognises a branch after which nothing is required any more.
	Off    func(c *Ctx, t *Term, taken bool) bool
	Inline func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool
	// Inner: completing a loop over such a collection is the per-element action.
	Inner func(t *Term) bool
	// Outer: the loop runs once in each iteration of a loop over such a
	// collection, unless its own collection is empty.
	Outer func(t *Term) bool
	// MayNotRun: the loop is inside another one and need not be reached.
	MayNotRun bool
	// AtMost: allow more than one event per element.
	Many bool
	Init map[string]Fact
	// Detail text for a skipped element
	Skip string
	// BreakOK: leaving the loop early is fine when this holds at the exit
	OnCall func(c *Ctx, ci CallInfo)
}

type faSt struct {
	in   bool
	done bool
	ex   bool
	n    int8
	free bool
	off  bool
	emp  bool // the collection is empty
	brk  bool // left an iteration through its middle
}

func (fa *ForAll) Run() int {
	p, r := fa.P, fa.R
	loops := map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}
	lp := func(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
		if loops[f] == nil {
			loops[f] = loopsOf(f)
		}
		return loops[f]
	}
	nLoops, nEv := 0, 0
	match := func(c *Ctx, b *ssa.BasicBlock) *Loop {
		l := lp(c.F.Fn)[b]
		if l == nil || l.Coll == nil {
			return nil
		}
		if !fa.Coll(c.T(l.Coll)) {
			return nil
		}
		return l
	}
	h := Hooks{Inline: fa.Inline}
	h.Call = func(c *Ctx, ci CallInfo) {
		if fa.OnCall != nil {
			fa.OnCall(c, ci)
		}
		if fa.Event != nil && fa.Event(c, ci) {
			nEv++
			st := c.A().(faSt)
			st.n = inc(st.n)
			c.Set(st)
		}
	}
	if fa.InstrEvent != nil {
		h.Instr = func(c *Ctx) {
			if fa.InstrEvent(c) {
				nEv++
				st := c.A().(faSt)
				st.n = inc(st.n)
				c.Set(st)
			}
		}
	}
	outer := func(c *Ctx, b *ssa.BasicBlock) bool {
		l := lp(c.F.Fn)[b]
		return fa.Outer != nil && l != nil && l.Coll != nil && fa.Outer(c.T(l.Coll))
	}
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		if fa.Exempt == nil && fa.ExitOK == nil && fa.Off == nil && fa.Outer == nil {
			return
		}
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		st := c.A().(faSt)
		if fa.Outer != nil && saysEmpty(t, taken, fa.Coll) {
			st.emp = true
		}
		if fa.Exempt != nil && fa.Exempt(c, t, taken) {
			st.ex = true
		}
		if fa.ExitOK != nil && fa.ExitOK(c, t, taken) {
			st.free = true
		}
		if fa.Off != nil && fa.Off(c, t, taken) {
			st.off = true
		}
		c.Set(st)
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		st := c.A().(faSt)
		if isBack(from, to) && outer(c, to) {
			r.Ob(fa.Rule, (st.done || st.emp) && !st.in, c.F.Fn, fa.What+": every time", p.posOf(to.Instrs[len(to.Instrs)-1]), "an iteration of the enclosing loop ends without going through the whole collection", c.Trace()...)
		}
		if outer(c, from) && len(from.Succs) == 2 {
			if to == from.Succs[0] {
				st.done, st.emp, st.free = false, false, false
			} else {
				st.free = true
			}
			c.Set(st)
		}
		if fa.Inner != nil && st.in && len(from.Succs) == 2 && to == from.Succs[1] {
			if l := lp(c.F.Fn)[from]; l != nil && l.Coll != nil && l.Full && fa.Inner(c.T(l.Coll)) {
				nEv++
				st.n = inc(st.n)
				c.Set(st)
			}
		}
		if isBack(from, to) {
			if l := match(c, to); l != nil {
				if st.in && !st.off {
					ok := st.n == 1 || fa.Many && st.n >= 1 || st.n == 0 && st.ex
					msg := fa.Skip
					if msg == "" {
						msg = "an element can be skipped"
					}
					r.Ob(fa.Rule, ok, c.F.Fn, fa.What+": each element", p.posOf(to.Instrs[len(to.Instrs)-1]), fmt.Sprintf("%s (%d actions on a path through the loop body)", msg, st.n), c.Trace()...)
				}
				st.n, st.in, st.ex = 0, false, false
				c.Set(st)
			}
			return
		}
		if st.in {
			for _, l := range lp(c.F.Fn) {
				if l.Coll != nil && l.Header != from && l.Body[from] && !l.Body[to] && match(c, l.Header) != nil {
					st.brk = true
					c.Set(st)
				}
			}
		}
		if l := match(c, from); l != nil && len(from.Succs) == 2 {
			if to == from.Succs[0] {
				nLoops++
				r.Ob(fa.Rule, l.Full, c.F.Fn, fa.What+": whole collection", p.posOf(from.Instrs[len(from.Instrs)-1]), "the loop does not visit every element: "+l.Why)
				st.in, st.n, st.ex = true, 0, false
			} else {
				st.done, st.in = true, false
			}
			c.Set(st)
		}
	}
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
		st := c.A().(faSt)
		if panics || st.off || st.free && !st.in {
			return
		}
		r.Ob(fa.Rule, (st.done || fa.MayNotRun) && !st.in && !st.brk, fa.Fn, fa.What+": loop completes", p.pos(fa.Fn.Pos()), "a path returns without finishing the iteration over all elements", c.Trace()...)
	}
	e := newEngine(p, h)
	e.RunWith(fa.Fn, faSt{}, fa.Init)
	r.Engine(e)
	r.Ob(fa.Rule, nLoops > 0, fa.Fn, fa.What+": iteration present", p.pos(fa.Fn.Pos()), "no iteration over the collection found")
	r.Ob(fa.Rule, nEv > 0, fa.Fn, fa.What+": action present", p.pos(fa.Fn.Pos()), "the per-element action is never performed")
	return nLoops
}

// isElemOf: t is an element of a collection satisfying coll.
func isElemOf(t *Term, coll func(*Term) bool) bool {
	t = t.Strip()
	for t.Op == "assert" || t.Op == "load" {
		t = t.Args[0].Strip()
	}
	switch t.Op {
	case "index", "elem":
		return coll(t.Args[0])
	}
	return false
}

// saysEmpty: the branch establishes that a collection has no elements.
func saysEmpty(t *Term, taken bool, coll func(*Term) bool) bool {
	if t.Op != "bin" || len(t.Args) != 2 {
		return false
	}
	x, y := t.Args[0], t.Args[1]
	isLen := func(z *Term) bool {
		return z.Any(func(w *Term) bool { return w.Op == "pure" && w.Sub == "len" && len(w.Args) == 1 && coll(w.Args[0]) })
	}
	num := func(z *Term, n string) bool { return z.Op == "const" && z.C != nil && z.C.ExactString() == n }
	switch {
	case isLen(x) && num(y, "0"):
		return t.Sub == "==" && taken || t.Sub == "!=" && !taken || t.Sub == ">" && !taken || t.Sub == "<=" && taken
	case isLen(x) && num(y, "1"):
		return t.Sub == "<" && taken || t.Sub == ">=" && !taken
	case isLen(y) && num(x, "0"):
		return t.Sub == "==" && taken || t.Sub == "!=" && !taken || t.Sub == "<" && !taken
	case coll(x) && y.Op == "const" && y.Sub == "nil":
		return t.Sub == "==" && taken || t.Sub == "!=" && !taken
	}
	return false
}
