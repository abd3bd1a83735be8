package main

// P01: every accepted synchronous measurement reaches every output exactly once.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P01", ruleExactlyOnce) }

type syncRoles struct {
	refcount  *types.Var // CASed field
	updateCnt *types.Var // atomically incremented by Observe and loaded by the collector
	observer  *types.Named
}

// pkgFuncs: all concrete functions whose package is rel.
func (p *Prog) pkgFuncs(rel string) []*ssa.Function {
	want := p.Module + "/" + rel
	return p.instancesOf(func(f *ssa.Function) bool {
		pk := pkgOf(f)
		return pk != nil && pk.Path() == want
	})
}

func addrField(v ssa.Value) *types.Var {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return fieldOf(x)
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return nil
		}
	}
}

func sameField(a, b *types.Var) bool {
	if a == nil || b == nil {
		return false
	}
	return a.Origin() == b.Origin()
}

func atomicCallOp(c ssa.CallInstruction) (string, bool) {
	return atomicOp(CallInfo{Callee: c.Common().StaticCallee()})
}

func findSyncRoles(p *Prog, r *Report) *syncRoles {
	ro := &syncRoles{observer: p.typ(mSync, "Observer")}
	if !r.Need("anchors", ro.observer != nil, "syncstate.Observer", "type syncstate.Observer") {
		return nil
	}
	added := map[*types.Var]bool{}
	loaded := map[*types.Var]bool{}
	for _, f := range p.pkgFuncs(mSync) {
		for _, c := range callsIn(f) {
			op, ok := atomicCallOp(c)
			if !ok {
				continue
			}
			fl := addrField(c.Common().Args[0])
			if fl == nil {
				continue
			}
			fl = fl.Origin()
			switch op {
			case "cas":
				ro.refcount = fl
			case "add":
				added[fl] = true
			case "load":
				loaded[fl] = true
			}
		}
	}
	for f := range added {
		if f != ro.refcount && loaded[f] {
			ro.updateCnt = f
		}
	}
	if !r.Need("anchors", ro.refcount != nil, "mapping reference count", "no compare-and-swapped field in syncstate") {
		return nil
	}
	if !r.Need("anchors", ro.updateCnt != nil, "update counter", "no counter both incremented and loaded atomically in syncstate") {
		return nil
	}
	return ro
}

// aggCall: a call to an aggregator Methods method; returns its name.
func aggCall(p *Prog, callee *ssa.Function) string {
	if callee == nil {
		return ""
	}
	o := callee
	if o.Origin() != nil {
		o = o.Origin()
	}
	rc := o.Signature.Recv()
	if rc == nil {
		return ""
	}
	n := namedOf(rc.Type())
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), p.Module+"/"+mAgg+"/") {
		return ""
	}
	switch o.Name() {
	case "Init", "Update", "Move", "Copy", "Merge", "HasChange", "SubtractSwap", "ToAggregation", "ToStorage", "Kind":
		return o.Name()
	}
	return ""
}

type obsSt struct {
	held, upd, cnt, unref int8
	drop                  bool
	lock                  int8
	linked                bool
}

func inc(x int8) int8 {
	if x < 3 {
		return x + 1
	}
	return x
}

func ruleExactlyOnce(p *Prog, r *Report) {
	ro := findSyncRoles(p, r)
	if ro == nil {
		return
	}
	r.Rule("anchors", "the constructs the rules rest on exist")
	ruleObserve(p, r, ro)
	ruleRefConsts(p, r, ro)
	ruleCollectRecords(p, r, ro)
	ruleAccumulatorSnapshot(p, r)
	ruleNewAccumulator(p, r)
	ruleLowMemoryDelete(p, r)
	ruleMulti(p, r)
	ruleSnapshotBeforeCollect(p, r)
}

func ruleObserve(p *Prog, r *Report, ro *syncRoles) {
	const R = "observe-once"
	r.Rule(R, "on every path of a synchronous measurement that is neither range-rejected nor disabled: exactly one Update with the measured value, made while a mapped reference is held, then exactly one counter increment, then exactly one reference release")
	next := selfField(p, ro)
	for _, name := range []string{"ObserveInt64", "ObserveFloat64"} {
		fn := p.method(ro.observer, name)
		if !r.Need(R, fn != nil, "Observer."+name, name) {
			continue
		}
		var valueParam string
		for i, prm := range fn.Params {
			if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				valueParam = fmt.Sprintf("$%d", i)
			}
		}
		nUpd := 0
		h := Hooks{}
		h.Inline = inlineRelevant(p, func(in ssa.Instruction) bool {
			if _, ok := in.(*ssa.MapUpdate); ok {
				return true
			}
			c, ok := in.(ssa.CallInstruction)
			return isAtomic(in) || isInvokeOf(in, "Update") || ok && callName(c.Common().StaticCallee(), c.Common()) == p.repoName(mAgg, "RangeTest")
		})
		h.Call = func(c *Ctx, ci CallInfo) {
			st := c.A().(obsSt)
			full := ci.Full()
			if full == p.repoName(mAgg, "RangeTest") {
				ok := c.Arg(0).Strip().Key() == valueParam
				r.Ob(R, ok, c.F.Fn, "range-tested value", c.Pos(), "the range test is not applied to the measured value")
				d := st
				d.drop = true
				c.Fork(st, map[int]Fact{0: factBool(true)})
				c.Fork(d, map[int]Fact{0: factBool(false)})
				return
			}
			switch lockOp(ci.Callee) {
			case "Lock":
				st.lock, st.linked = 2, false
				c.Set(st)
			case "RLock":
				st.lock, st.linked = 1, false
				c.Set(st)
			case "Unlock", "RUnlock":
				st.lock, st.linked = 0, false
				c.Set(st)
			}
			if op, ok := atomicOp(ci); ok {
				fl := lastField(c.Arg(0))
				switch {
				case op == "add" && sameField(fl, ro.refcount):
					d, isc := constInt(c.Arg(1))
					if !isc {
						return
					}
					if d > 0 {
						a := st
						a.held = inc(st.held)
						for k := int64(1); k <= 2; k++ {
							c.Fork(a, map[int]Fact{0: factInt(k * d)})
							c.Fork(st, map[int]Fact{0: factInt(k*d + 1)})
						}
					} else {
						r.Ob(R, st.upd >= 1 && st.cnt >= 1 || st.held == 0, c.F.Fn, "reference release", c.Pos(),
							"the record reference is released before the update and its counter increment are complete, so a collection can unmap the record and lose the measurement", c.Trace()...)
						st.unref = inc(st.unref)
						c.Set(st)
					}
				case op == "add" && sameField(fl, ro.updateCnt):
					r.Ob(R, st.upd == 1, c.F.Fn, "update counter increment", c.Pos(),
						"the update counter is incremented before the aggregator update: a collection in between marks the measurement as collected and never picks it up", c.Trace()...)
					st.cnt = inc(st.cnt)
					c.Set(st)
				}
				return
			}
			if ci.Invoke && ci.Method == "Update" {
				nUpd++
				r.Ob(R, st.held == 1 && st.unref == 0, c.F.Fn, "aggregator update", c.Pos(),
					fmt.Sprintf("aggregator update with %d mapped reference(s) held", st.held), c.Trace()...)
				if len(ci.Common.Args) == 1 {
					r.Ob(R, c.Arg(0).Strip().Key() == valueParam && c.Arg(0).Op != "conv", c.F.Fn, "updated value", c.Pos(), "the value passed to the aggregator is not the measured value")
				}
				st.upd = inc(st.upd)
				c.Set(st)
			}
		}
		h.Instr = func(c *Ctx) {
			if mu, ok := c.In.(*ssa.MapUpdate); ok {
				st := c.A().(obsSt)
				if pt, ok := mu.Value.Type().Underlying().(*types.Pointer); ok && containsField(pt.Elem(), ro.refcount, 4) {
					r.Ob(R, st.lock == 2, c.F.Fn, "insertion lock", c.Pos(), "a record is inserted without the exclusive instrument lock", c.Trace()...)
					r.Ob(R, st.linked || next == nil, c.F.Fn, "insertion keeps colliding records", c.Pos(), "a record is inserted without linking the records already stored under its fingerprint: their uncollected measurements are lost", c.Trace()...)
					st.held = inc(st.held)
					c.Set(st)
				}
			}
			if s, ok := c.In.(*ssa.Store); ok && next != nil && sameField(addrField(s.Addr), next) {
				if t := c.T(s.Val); t.Op == "lookup" || t.Any(func(x *Term) bool { return x.Op == "lookup" }) {
					st := c.A().(obsSt)
					st.linked = true
					c.Set(st)
				}
			}
		}
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			t := c.T(cond)
			if t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && t.Args[0].Op == "lookup" && t.Args[1].Sub == "nil" && (t.Sub == "==") == taken {
				st := c.A().(obsSt)
				st.linked = true
				c.Set(st)
			}
			if t.Op == "has" && !taken {
				st := c.A().(obsSt)
				st.linked = true
				c.Set(st)
			}
			if t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && t.Args[0].Key() == "$0" && t.Args[1].Sub == "nil" {
				if (t.Sub == "==") == taken {
					st := c.A().(obsSt)
					st.drop = true
					c.Set(st)
				}
			}
		}
		h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
			if panics {
				return
			}
			st := c.A().(obsSt)
			if st.drop {
				r.Ob(R, st.held == 0 && st.upd == 0 && st.cnt == 0 && st.unref == 0, fn, "rejected measurement", p.pos(fn.Pos()), "a rejected measurement still has effects", c.Trace()...)
				return
			}
			r.Ob(R, st.held == 1 && st.upd == 1 && st.cnt == 1 && st.unref == 1, fn, "accepted measurement", p.pos(fn.Pos()),
				fmt.Sprintf("a path through %s ends with references taken=%d, aggregator updates=%d, counter increments=%d, references released=%d (each must be exactly 1)", name, st.held, st.upd, st.cnt, st.unref), c.Trace()...)
		}
		e := newEngine(p, h)
		e.Run(fn, obsSt{})
		r.Engine(e)
		r.AtLeast(R, nUpd, 1, "aggregator update in "+name)
	}
}

func containsField(t types.Type, f *types.Var, depth int) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth == 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if sameField(s.Field(i), f) || containsField(s.Field(i).Type(), f, depth-1) {
			return true
		}
	}
	return false
}

// The constants of the reference count fit together.
func ruleRefConsts(p *Prog, r *Report, ro *syncRoles) {
	const R = "refcount-encoding"
	r.Rule(R, "taking and releasing a reference are inverse even steps, a new record starts with exactly one reference, and unmapping swaps exactly zero for an odd value")
	var takes, gives, inits []int64
	for _, f := range p.pkgFuncs(mSync) {
		e := newEngine(p, Hooks{})
		fr := e.frame(nil, nil, f, nil, nil)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					op, ok := atomicCallOp(x)
					if !ok || !sameField(addrField(x.Common().Args[0]), ro.refcount) {
						continue
					}
					arg := func(i int) (int64, bool) { return constInt(e.term(VRef{fr, x.Common().Args[i]}, nil, 0)) }
					switch op {
					case "add":
						d, ok := arg(1)
						r.Ob(R, ok && d != 0 && d%2 == 0, f, "reference step", p.posOf(in), "reference count steps must be even constants")
						if ok && d > 0 {
							takes = append(takes, d)
						} else if ok {
							gives = append(gives, -d)
						}
					case "cas":
						o, ok1 := arg(1)
						n, ok2 := arg(2)
						r.Ob(R, ok1 && ok2 && o == 0 && n%2 != 0, f, "unmap", p.posOf(in), "a record may be unmapped only by swapping a reference count of zero for an odd value")
					case "store", "swap":
						if v, ok := arg(1); ok {
							inits = append(inits, v)
						}
					}
				case *ssa.Store:
					if sameField(addrField(x.Addr), ro.refcount) {
						if v, ok := constInt(e.term(VRef{fr, x.Val}, nil, 0)); ok {
							inits = append(inits, v)
						}
					}
				}
			}
		}
	}
	r.AtLeast(R, len(takes), 1, "reference acquisition")
	r.AtLeast(R, len(gives), 1, "reference release")
	r.AtLeast(R, len(inits), 1, "reference count initialisation")
	for _, x := range append(append(append([]int64{}, takes...), gives...), inits...) {
		r.Ob(R, len(takes) > 0 && x == takes[0], nil, "matching steps", "-", fmt.Sprintf("acquire steps %v, release steps %v and initial values %v disagree", takes, gives, inits))
	}
}

type collSt struct {
	ld     string // site of the last atomic load of the update counter in this record's turn
	snapLd string // load that preceded the last snapshot
	snap   int8   // 0 none 1 snapshot(false) 2 snapshot(true)
	eq     bool   // saw loaded == collected
	cas    int8   // 0 none 1 success 2 failure
	seen   bool   // a record was visited in this turn
	// per list
	kept, dropped, dropFirst, term, del, mapset, ptreq bool
	locked                                             int8
}

func ruleCollectRecords(p *Prog, r *Report, ro *syncRoles) {
	const R = "collect-records"
	r.Rule(R, "the collector, holding the instrument lock exclusively, visits every record; it snapshots a record unless its update counter equals the collected one; the collected counter is the value loaded before the snapshot; a record leaves the list iff it was unmapped, and only after a releasing snapshot; lists stay terminated and reachable")
	fn := p.method(ro.observer, "SnapshotAndProcess")
	if !r.Need(R, fn != nil, "Observer.SnapshotAndProcess", "collector entry point") {
		return
	}
	next := selfField(p, ro)
	nsnap, ncas, nkeep := 0, 0, 0
	h := Hooks{}
	var linkSeen bool
	type edgeChk struct {
		st   collSt
		kept bool
		fn   *ssa.Function
		pos  string
		tr   []string
	}
	var edges []edgeChk
	h.Call = func(c *Ctx, ci CallInfo) {
		st := c.A().(collSt)
		if op, ok := atomicOp(ci); ok {
			fl := lastField(c.Arg(0))
			switch {
			case op == "load" && sameField(fl, ro.updateCnt):
				st.ld = vkey(VRef{c.F, ci.Site.Value()})
				st.seen = true
				c.Set(st)
			case op == "cas" && sameField(fl, ro.refcount):
				ncas++
				a, b := st, st
				a.cas, b.cas = 1, 2
				a.snap = 0
				c.Fork(a, map[int]Fact{0: factBool(true)})
				c.Fork(b, map[int]Fact{0: factBool(false)})
			}
			return
		}
		if op := lockOp(ci.Callee); op != "" {
			switch op {
			case "Lock":
				st.locked = 2
			case "RLock":
				st.locked = 1
			default:
				st.locked = 0
			}
			c.Set(st)
			return
		}
		if ci.Invoke && ci.Method == "SnapshotAndProcess" {
			nsnap++
			v, known := constBool(c.Arg(0))
			r.Ob(R, known, c.F.Fn, "release argument", c.Pos(), "the release flag of a snapshot is not determined by the outcome of unmapping", c.Trace()...)
			r.Ob(R, !known || v == (st.cas == 1), c.F.Fn, "release flag agrees with unmapping", c.Pos(),
				fmt.Sprintf("snapshot with release=%v although the record was unmapped=%v", v, st.cas == 1), c.Trace()...)
			r.Ob(R, st.locked == 2, c.F.Fn, "exclusive instrument lock at snapshot", c.Pos(), "records are collected without the exclusive instrument lock")
			if v {
				st.snap = 2
			} else {
				st.snap = 1
			}
			st.snapLd = st.ld
			c.Set(st)
		}
		if ci.Method == "builtin:delete" {
			r.Ob(R, !st.kept, c.F.Fn, "map delete", c.Pos(), "the map entry is deleted although a record of its list is kept", c.Trace()...)
			st.del = true
			c.Set(st)
		}
	}
	h.Instr = func(c *Ctx) {
		st := c.A().(collSt)
		switch x := c.In.(type) {
		case *ssa.Store:
			fl := addrField(x.Addr)
			if next != nil && sameField(fl, next) {
				linkSeen = true
				t := c.T(x.Val)
				if t.Sub == "nil" || t.Sub == "zero" {
					st.term = true
				} else {
					st.term = false
				}
				c.Set(st)
				return
			}
			if fl != nil {
				t := c.T(x.Val).Strip()
				isLoad := t.Op == "call" && strings.HasPrefix(t.Sub, "sync/atomic.") && strings.Contains(t.Sub, "Load")
				if isLoad || isCollectedField(p, ro, fl) {
					if t.Op == "const" {
						return
					}
					ok := isLoad && st.snapLd != "" && vkey(t.Ref) == st.snapLd
					r.Ob(R, ok, c.F.Fn, "collected counter", c.Pos(),
						"the collected counter is not the update counter loaded before the snapshot: an update between the two is marked collected and lost", c.Trace()...)
				}
			}
		case *ssa.MapUpdate:
			if pt, ok := x.Value.Type().Underlying().(*types.Pointer); ok && containsField(pt.Elem(), ro.refcount, 4) {
				st.mapset = true
				c.Set(st)
			}
		}
	}
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		t := c.T(cond)
		neg := false
		for t.Op == "un" && t.Sub == "!" {
			t = t.Args[0]
			neg = !neg
		}
		if t.Op != "bin" || t.Sub != "==" && t.Sub != "!=" {
			return
		}
		eq := ((t.Sub == "==") == taken) != neg
		st := c.A().(collSt)
		isLd := func(x *Term) bool {
			x = x.Strip()
			return x.Op == "call" && strings.HasPrefix(x.Sub, "sync/atomic.") && len(x.Args) > 0 && sameField(lastField(x.Args[0]), ro.updateCnt)
		}
		isColl := func(x *Term) bool { f := lastField(x); return f != nil && isCollectedField(p, ro, f) }
		if isLd(t.Args[0]) && isColl(t.Args[1]) || isLd(t.Args[1]) && isColl(t.Args[0]) {
			st.eq = eq
			c.Set(st)
			return
		}
		if eq && t.Args[0].Typ != nil && t.Args[1].Op != "const" {
			if pt, ok := t.Args[0].Typ.Underlying().(*types.Pointer); ok && containsField(pt.Elem(), ro.refcount, 4) {
				// with the list the map has
				for _, x := range t.Args {
					if x = x.Strip(); x.Op != "phi" && x.Any(func(y *Term) bool { return y.Op == "elem" || y.Op == "lookup" || y.Op == "next" }) {
						st.ptreq = true
						c.Set(st)
					}
				}
			}
		}
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		if !isBack(from, to) {
			return
		}
		st := c.A().(collSt)
		// the list loop: some phi advances along the link field
		adv := -1
		var rec *Term
		var phis []*ssa.Phi
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			t := c.T(phi.Edges[pred])
			if next != nil && t.Op == "field" && sameField(t.Fld, next) {
				if base := t.Args[0]; base.Ref.V == phi || rec == nil {
					if adv < 0 {
						adv = len(phis) - 1
						rec = base
					}
				}
			}
		}
		if adv >= 0 && st.seen {
			kept := false
			for i, phi := range phis {
				if i == adv {
					continue
				}
				t := c.T(phi.Edges[pred])
				for _, a := range append(t.Alts(), t) {
					if a.Key() == rec.Key() || a.Op == "&" && a.Any(func(x *Term) bool { return x.Key() == rec.Key() }) ||
						a.Op == "pure" && a.Sub == "append" && a.Any(func(x *Term) bool { return x.Key() == rec.Key() }) {
						kept = true
					}
				}
			}
			edges = append(edges, edgeChk{st, kept, c.F.Fn, p.pos(phis[adv].Pos()), c.Trace()})
			if kept {
				nkeep++
				st.kept = true
			} else {
				st.dropped = true
				if !st.kept {
					st.dropFirst = true
				}
			}
			st = collSt{kept: st.kept, dropped: st.dropped, dropFirst: st.dropFirst, term: false, del: st.del, mapset: st.mapset, locked: st.locked}
			c.Set(st)
			return
		}
		for _, in := range to.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				if st.kept || st.dropped {
					r.Ob(R, st.del || st.kept, c.F.Fn, "empty list removed", p.posOf(from.Instrs[len(from.Instrs)-1]), "a map entry whose records were all removed stays in the map", c.Trace()...)
					r.Ob(R, st.del || st.term || !linkSeen, c.F.Fn, "list terminated", p.posOf(from.Instrs[len(from.Instrs)-1]), "the rebuilt record list is not terminated: removed records stay reachable and are never usable again", c.Trace()...)
					r.Ob(R, st.del || st.mapset || st.ptreq || !st.dropFirst, c.F.Fn, "list head updated", p.posOf(from.Instrs[len(from.Instrs)-1]), "the head of the record list was removed but the map still points to it", c.Trace()...)
				}
				c.Set(collSt{locked: st.locked})
				return
			}
		}
	}
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {}
	e := newEngine(p, h)
	e.Run(fn, collSt{})
	r.Engine(e)
	for _, x := range edges {
		r.Ob(R, x.st.snap > 0 || x.st.eq, x.fn, "record collected", x.pos, "a record with updates since the last collection can be skipped", x.tr...)
		r.Ob(R, x.st.cas != 1 || x.st.snap == 2, x.fn, "unmapped record released", x.pos, "a record is unmapped without a releasing snapshot afterwards: its last updates are lost", x.tr...)
		if nkeep > 0 {
			if x.st.cas == 1 {
				r.Ob(R, !x.kept, x.fn, "unmapped record removed", x.pos, "an unmapped record stays in the list: later measurements with its attributes spin forever", x.tr...)
			} else {
				r.Ob(R, x.kept, x.fn, "mapped record kept", x.pos, "a record that is still mapped is removed from the list: measurements in flight or made later through it are lost", x.tr...)
			}
		}
	}
	r.AtLeast(R, nsnap, 1, "accumulator snapshot in the collector")
	r.AtLeast(R, ncas, 1, "unmap attempt in the collector")
	r.AtLeast(R, len(edges), 1, "record loop")
	for _, f := range p.pkgFuncs(mSync) {
		for h, l := range loopsOf(f) {
			if l.Coll == nil || !e.Funcs[f] {
				continue
			}
			if _, ok := l.Coll.Type().Underlying().(*types.Map); ok {
				r.Ob(R, l.Full, f, "map iteration", p.posOf(h.Instrs[0]), l.Why)
			}
		}
	}
}

// selfField: the link field of the record type (pointer to its own struct).
func selfField(p *Prog, ro *syncRoles) *types.Var {
	for _, n := range p.localNamed() {
		if n.Obj().Pkg().Path() != p.Module+"/"+mSync || !containsField(n, ro.refcount, 4) {
			continue
		}
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok && namedOf(pt) == n {
				return s.Field(i)
			}
		}
	}
	return nil
}

var collectedCache = map[*types.Var]int{}

// isCollectedField: a plain field compared with the atomically loaded update counter.
func isCollectedField(p *Prog, ro *syncRoles, fl *types.Var) bool {
	fl = fl.Origin()
	if v, ok := collectedCache[fl]; ok {
		return v == 1
	}
	res := 0
	for _, f := range p.pkgFuncs(mSync) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				chk := func(x, y ssa.Value) bool {
					ld, ok := y.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL || !sameField(addrField(ld.X), fl) {
						return false
					}
					b, ok := fl.Type().Underlying().(*types.Basic)
					ub, ok2 := ro.updateCnt.Type().Underlying().(*types.Basic)
					if ok && ok2 {
						return b.Kind() == ub.Kind()
					}
					return ok
				}
				if chk(bo.X, bo.Y) || chk(bo.Y, bo.X) {
					res = 1
				}
			}
		}
	}
	collectedCache[fl] = res
	return res == 1
}

type snapSt struct {
	lock             int8
	moved, merged, d int8
	mid              string
}

func ruleAccumulatorSnapshot(p *Prog, r *Report) {
	const R = "snapshot-move-merge"
	r.Rule(R, "a synchronous accumulator's snapshot moves exactly the storage that Update writes into a private one and then merges exactly that into the output storage, under its own mutex; the output reference is dropped iff released and only after the merge")
	n := 0
	for _, fn := range p.pkgFuncs(mView) {
		if fn.Name() != "SnapshotAndProcess" || fn.Signature.Recv() == nil {
			continue
		}
		if _, ok := derefT(fn.Signature.Recv().Type()).Underlying().(*types.Struct); !ok {
			continue
		}
		upd := p.method(derefT(fn.Signature.Recv().Type()), "Update")
		if !r.Ob(R, upd != nil, fn, "Update sibling", p.pos(fn.Pos()), "accumulator type without Update") {
			continue
		}
		// role of the storage Update writes
		var cur *types.Var
		eu := newEngine(p, Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, cal *ssa.Function) bool {
			return p.isLocal(cal) && aggCall(p, cal) == ""
		}})
		eu.H.Call = func(c *Ctx, ci CallInfo) {
			if aggCall(p, ci.Callee) == "Update" {
				cur = lastField(c.Arg(1))
				r.Ob(R, c.Arg(2).Key() == "$1", c.F.Fn, "updated value", c.Pos(), "Update does not pass its argument to the aggregator")
			}
		}
		nu := 0
		eu.H.Exit = func(c *Ctx, _ []ssa.Value, pn bool) { nu++ }
		eu.Run(upd, 0)
		r.Engine(eu)
		for _, rel := range []bool{false, true} {
			usesMove := false
			h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, cal *ssa.Function) bool {
				return p.isLocal(cal) && aggCall(p, cal) == ""
			}}
			h.Call = func(c *Ctx, ci CallInfo) {
				st := c.A().(snapSt)
				switch lockOp(ci.Callee) {
				case "Lock":
					st.lock = 1
					c.Set(st)
					return
				case "Unlock":
					st.lock = 0
					c.Set(st)
					return
				}
				switch aggCall(p, ci.Callee) {
				case "Move", "Copy":
					usesMove = true
					r.Ob(R, aggCall(p, ci.Callee) == "Move", c.F.Fn, "current storage is moved", c.Pos(), "the current storage is copied, not moved: its content is merged again by the next collection")
					r.Ob(R, sameField(lastField(c.Arg(1)), cur), c.F.Fn, "moved storage", c.Pos(), "the storage moved is not the one Update writes")
					r.Ob(R, st.lock == 1, c.F.Fn, "lock at move", c.Pos(), "snapshot storage is used without the accumulator lock", c.Trace()...)
					st.moved = inc(st.moved)
					st.mid = c.Arg(2).Key()
					c.Set(st)
				case "Merge":
					usesMove = true
					r.Ob(R, st.moved == 1 && c.Arg(1).Key() == st.mid, c.F.Fn, "merged storage", c.Pos(), "the storage merged into the output is not the one just moved from current", c.Trace()...)
					r.Ob(R, st.lock == 1, c.F.Fn, "lock at merge", c.Pos(), "snapshot storage is used without the accumulator lock", c.Trace()...)
					st.merged = inc(st.merged)
					c.Set(st)
				}
				if op, ok := atomicOp(ci); ok && op == "add" {
					d, isc := constInt(c.Arg(1))
					r.Ob(R, isc && d == -1, c.F.Fn, "output reference step", c.Pos(), "the output reference count must be decremented by one")
					r.Ob(R, st.merged == 1, c.F.Fn, "output reference released after merge", c.Pos(), "the output reference is dropped before the merge: the output entry can be removed with data still to come", c.Trace()...)
					st.d = inc(st.d)
					c.Set(st)
				}
			}
			h.Exit = func(c *Ctx, _ []ssa.Value, panics bool) {
				st := c.A().(snapSt)
				if panics || !usesMove {
					return
				}
				r.Ob(R, st.moved == 1 && st.merged == 1, fn, "move then merge", p.pos(fn.Pos()), fmt.Sprintf("a path performs %d move(s) and %d merge(s); exactly one of each is required", st.moved, st.merged), c.Trace()...)
				want := int8(0)
				if rel {
					want = 1
				}
				r.Ob(R, st.d == want, fn, fmt.Sprintf("output reference with release=%v", rel), p.pos(fn.Pos()), fmt.Sprintf("%d decrement(s) of the output reference, want %d", st.d, want), c.Trace()...)
			}
			e := newEngine(p, h)
			init := map[string]Fact{}
			if len(fn.Params) > 1 {
				init[fn.Params[1].Name()] = factBool(rel)
			}
			e.RunWith(fn, snapSt{}, init)
			r.Engine(e)
			if usesMove {
				n++
				r.Ob(R, cur != nil, upd, "Update writes aggregator storage", p.pos(upd.Pos()), "Update does not reach the aggregator")
			}
		}
	}
	r.AtLeast(R, n, 2, "accumulator snapshot with Move/Merge")
}

type naSt struct {
	locked, looked, added bool
	n                     int8
}

func ruleNewAccumulator(p *Prog, r *Report) {
	const R = "output-reference"
	r.Rule(R, "creating a synchronous accumulator looks up its output entry and counts a reference to it in one critical section of the view's lock, exactly once")
	n := 0
	for _, fn := range p.pkgFuncs(mView) {
		if fn.Name() != "NewAccumulator" || fn.Signature.Recv() == nil || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		adds := 0
		h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, cal *ssa.Function) bool {
			return p.isLocal(cal) && aggCall(p, cal) == "" && !strings.Contains(fullName(cal), "/doevery.")
		}}
		h.Call = func(c *Ctx, ci CallInfo) {
			st := c.A().(naSt)
			switch lockOp(ci.Callee) {
			case "Lock":
				c.Set(naSt{locked: true, n: st.n})
				return
			case "Unlock":
				r.Ob(R, !st.looked || st.added || adds == 0, c.F.Fn, "reference counted before unlock", c.Pos(), "the view lock is released after the lookup but before the reference is counted: a collection in between can remove the entry", c.Trace()...)
				st.locked = false
				c.Set(st)
				return
			}
			if op, ok := atomicOp(ci); ok && op == "add" {
				d, isc := constInt(c.Arg(1))
				if isc {
					adds++
					r.Ob(R, d == 1, c.F.Fn, "reference step", c.Pos(), "output references are counted by one")
					r.Ob(R, st.locked && st.looked, c.F.Fn, "reference counted under lock", c.Pos(), "the output reference is not counted in the critical section that looked the entry up: a collection in between can remove the entry", c.Trace()...)
					st.added = true
					st.n = inc(st.n)
					c.Set(st)
				}
			}
		}
		h.Instr = func(c *Ctx) {
			st := c.A().(naSt)
			switch x := c.In.(type) {
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					r.Ob(R, st.locked, c.F.Fn, "lookup under lock", c.Pos(), "output entries are looked up without the view lock", c.Trace()...)
					st.looked = true
					c.Set(st)
				}
			case *ssa.MapUpdate:
				r.Ob(R, st.locked, c.F.Fn, "insert under lock", c.Pos(), "output entries are inserted without the view lock", c.Trace()...)
				st.looked = true
				c.Set(st)
			}
		}
		var finals []naSt
		h.Exit = func(c *Ctx, _ []ssa.Value, panics bool) {
			if !panics {
				finals = append(finals, c.A().(naSt))
			}
		}
		e := newEngine(p, h)
		// two passes: the first discovers whether the type counts references
		e.Run(fn, naSt{})
		r.Engine(e)
		if adds == 0 {
			continue
		}
		n++
		for _, st := range finals {
			r.Ob(R, st.n == 1, fn, "one reference per accumulator", p.pos(fn.Pos()), fmt.Sprintf("a path counts %d output references for one accumulator", st.n))
		}
	}
	r.AtLeast(R, n, 2, "reference-counting accumulator constructor")
}

type lmSt struct {
	ld, ldBeforeMove string
	moved            bool
	zero             bool
	changed          int8 // 0 unknown 1 yes 2 no
}

func ruleLowMemoryDelete(p *Prog, r *Report) {
	const R = "output-entry-removal"
	r.Rule(R, "an output entry is removed from the map only when its reference count, loaded before its storage was moved out, was zero and the moved data is unchanged")
	n := 0
	for _, fn := range p.pkgFuncs(mView) {
		if fn.Name() != "Collect" || fn.Signature.Recv() == nil {
			continue
		}
		h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, cal *ssa.Function) bool {
			return p.isLocal(cal) && aggCall(p, cal) == ""
		}}
		h.Call = func(c *Ctx, ci CallInfo) {
			st := c.A().(lmSt)
			if op, ok := atomicOp(ci); ok && op == "load" {
				st.ld = vkey(VRef{c.F, ci.Site.Value()})
				c.Set(st)
				return
			}
			switch aggCall(p, ci.Callee) {
			case "Move":
				st.moved = true
				st.ldBeforeMove = st.ld
				c.Set(st)
			case "HasChange":
				a, b := st, st
				a.changed, b.changed = 1, 2
				c.Fork(a, map[int]Fact{0: factBool(true)})
				c.Fork(b, map[int]Fact{0: factBool(false)})
			}
			if ci.Method == "builtin:delete" {
				n++
				r.Ob(R, st.zero, c.F.Fn, "removal requires no references", c.Pos(), "an output entry is removed although accumulators may still refer to it (or the reference count was read after its data was moved): their data is lost", c.Trace()...)
				r.Ob(R, st.moved && st.changed == 2, c.F.Fn, "removal requires no change", c.Pos(), "an output entry is removed without its data having been checked for changes", c.Trace()...)
			}
		}
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			t := c.T(cond)
			neg := false
			for t.Op == "un" && t.Sub == "!" {
				t, neg = t.Args[0], !neg
			}
			if t.Op != "bin" {
				return
			}
			tk := taken != neg
			a := t.Args[0].Strip()
			if a.Op != "call" || !strings.HasPrefix(a.Sub, "sync/atomic.") {
				return
			}
			k, ok := constInt(t.Args[1])
			if !ok {
				return
			}
			isZero := t.Sub == "==" && k == 0 && tk || t.Sub == "!=" && k == 0 && !tk || t.Sub == "<=" && k == 0 && tk || t.Sub == ">" && k == 0 && !tk || t.Sub == "<" && k == 1 && tk || t.Sub == ">=" && k == 1 && !tk
			st := c.A().(lmSt)
			if isZero && st.ldBeforeMove != "" && vkey(a.Ref) == st.ldBeforeMove || isZero && !st.moved && vkey(a.Ref) == st.ld {
				st.zero = true
				c.Set(st)
			}
		}
		h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
			for _, in := range to.Instrs {
				if _, ok := in.(*ssa.Next); ok {
					c.Set(lmSt{})
				}
			}
		}
		e := newEngine(p, h)
		e.Run(fn, lmSt{})
		r.Engine(e)
	}
	r.AtLeast(R, n, 1, "removal of output entries")
}

// Fan-out: instruments and accumulators combined from several views/readers forward to every part.
func ruleMulti(p *Prog, r *Report) {
	const R = "fan-out"
	r.Rule(R, "a combined instrument or accumulator forwards every operation, with the same arguments, to each of its parts")
	n := 0
	for _, fn := range p.pkgFuncs(mView) {
		rc := fn.Signature.Recv()
		if rc == nil || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		if _, ok := derefT(rc.Type()).Underlying().(*types.Slice); !ok {
			continue
		}
		switch fn.Name() {
		case "Update", "SnapshotAndProcess", "NewAccumulator":
		default:
			continue
		}
		n++
		coll := func(t *Term) bool { return t.Strip().Key() == "$0" || t.Key() == "load(&($0))" }
		name := fn.Name()
		fa := &ForAll{P: p, R: r, Rule: R, Fn: fn, What: name + " of every part", Coll: coll,
			Event: func(c *Ctx, ci CallInfo) bool {
				if ci.Method != name || !ci.Invoke {
					return false
				}
				r.Ob(R, c.Arg(0).Strip().Key() == "$1", c.F.Fn, name+" argument", c.Pos(), "the argument is not forwarded unchanged")
				return isElemOf(c.T(ci.Common.Value), coll)
			}}
		fa.Run()
		if name == "NewAccumulator" {
			// the parts' accumulators all become part of the result
			app := 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							app++
						}
					}
					if st, ok := in.(*ssa.Store); ok {
						if _, ok := st.Addr.(*ssa.IndexAddr); ok {
							app++
						}
					}
				}
			}
			r.Ob(R, app > 0, fn, "accumulators collected", p.pos(fn.Pos()), "the parts' accumulators are not collected into the result")
		}
	}
	r.AtLeast(R, n, 6, "fan-out method")
}

type orderSt struct{ collected bool }

// collectFor: everything is snapshotted before any output is read.
func ruleSnapshotBeforeCollect(p *Prog, r *Report) {
	const R = "snapshot-before-output"
	r.Rule(R, "a collection snapshots every synchronous instrument before any output of that meter is read")
	prod := findProduce(p, r, R)
	if prod == nil {
		return
	}
	snaps, colls := 0, 0
	h := Hooks{}
	h.Inline = func(fr *Frame, call ssa.CallInstruction, cal *ssa.Function) bool {
		pk := pkgOf(cal)
		return p.isLocal(cal) && pk.Path() == p.Module+"/"+mMetric
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		st := c.A().(orderSt)
		switch ci.Full() {
		case p.repoName(mSync, "Observer.SnapshotAndProcess"):
			snaps++
			r.Ob(R, !st.collected, c.F.Fn, "synchronous snapshot", c.Pos(), "a synchronous instrument is snapshotted after outputs of its meter were already read: its measurements miss this collection", c.Trace()...)
		case p.repoName(mAsync, "Observer.SnapshotAndProcess"):
			r.Ob(R, !st.collected, c.F.Fn, "asynchronous snapshot", c.Pos(), "an asynchronous instrument is snapshotted after outputs of its meter were already read", c.Trace()...)
		case p.repoName(mAsync, "Callback.Run"):
			r.Ob(R, !st.collected, c.F.Fn, "callback", c.Pos(), "a callback runs after outputs of its meter were already read", c.Trace()...)
		case "invoke " + p.repoName(mData, "Collector.Collect"):
			colls++
			st.collected = true
			c.Set(st)
		}
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		// a new meter starts a new scope
		if isBack(from, to) {
			l := analyseLoop(c.F.Fn, to)
			if l.Coll != nil && strings.HasSuffix(types.TypeString(l.Coll.Type(), nil), ".meter") {
				c.Set(orderSt{})
			}
		}
	}
	e := newEngine(p, h)
	e.Run(prod, orderSt{})
	r.Engine(e)
	r.AtLeast(R, snaps, 1, "synchronous snapshot")
	r.AtLeast(R, colls, 1, "output collection")
	coll := func(want string) func(t *Term) bool {
		return func(t *Term) bool {
			return t.Typ != nil && types.TypeString(t.Typ.Underlying(), nil) == want
		}
	}
	for _, x := range []struct{ what, typ, ev string }{
		{"every synchronous instrument", "[]*" + p.repoName(mSync, "Observer"), p.repoName(mSync, "Observer.SnapshotAndProcess")},
		{"every asynchronous instrument", "[]*" + p.repoName(mAsync, "Observer"), p.repoName(mAsync, "Observer.SnapshotAndProcess")},
		{"every callback", "[]*" + p.repoName(mAsync, "Callback"), p.repoName(mAsync, "Callback.Run")},
		{"every collector", "[]" + p.repoName(mData, "Collector"), "invoke " + p.repoName(mData, "Collector.Collect")},
	} {
		fa := &ForAll{P: p, R: r, Rule: R, Fn: prod, What: x.what, Coll: coll(x.typ), Inline: h.Inline,
			Event: func(c *Ctx, ci CallInfo) bool {
				if ci.Full() != x.ev {
					return false
				}
				if ci.Invoke {
					return isElemOf(c.T(ci.Common.Value), coll(x.typ))
				}
				return isElemOf(c.Arg(0), coll(x.typ))
			},
			// a provider with no meters does not enter the loops
			ExitOK: func(c *Ctx, t *Term, taken bool) bool { return false },
			Exempt: func(c *Ctx, t *Term, taken bool) bool {
				return t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && t.Args[1].Sub == "nil" && (t.Sub == "==") == taken
			},
		}
		runPerMeter(fa)
	}
}

// runPerMeter runs a ForAll nested in the loop over meters: paths on which no
// meter exists are fine.
func runPerMeter(fa *ForAll) {
	p := fa.P
	fa.Outer = func(t *Term) bool {
		return t.Typ != nil && types.TypeString(t.Typ.Underlying(), nil) == "[]*"+p.repoName(mMetric, "meter")
	}
	fa.Run()
}

func findProduce(p *Prog, r *Report, rule string) *ssa.Function {
	for _, f := range p.pkgFuncs(mMetric) {
		if f.Name() == "Produce" && f.Signature.Recv() != nil && f.Synthetic == "" {
			return f
		}
	}
	r.Need(rule, false, "Produce", "producer method")
	return nil
}
