package main

// P08: readers and meters are isolated.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P08", ruleReaders) }

func ruleReaders(p *Prog, r *Report) {
	rulePipeIndex(p, r)
	ruleReaderSetup(p, r)
	ruleCollectionScope(p, r)
	ruleAsyncState(p, r)
}

// perReader: the type is a table with one element per reader.
func perReader(p *Prog, t types.Type) bool {
	t = derefT(t)
	if n := namedOf(t); n != nil && originName(n) == p.repoName(mPipe, "Register") {
		return true
	}
	switch types.TypeString(t.Underlying(), nil) {
	case "[]" + p.repoName(mMetric, "Reader"), "[][]" + p.repoName(mViewP, "Option"), "[]*" + p.repoName(mViewP, "Views"):
		return true
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// pipeClass decides whether an index identifies a reader: the position in an
// iteration over a per-reader table, or a stored reader number.
type pipeClass struct {
	p     *Prog
	e     *Engine
	memo  map[string]string // "" ok, else the reason
	loops map[*ssa.Function]map[*ssa.BasicBlock]*Loop
}

func (pc *pipeClass) value(fn *ssa.Function, v ssa.Value, d int) string {
	if d > 12 {
		return "origin too deep"
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return pc.value(fn, x.X, d+1)
	case *ssa.ChangeType:
		return pc.value(fn, x.X, d+1)
	case *ssa.Phi, *ssa.BinOp:
		if pc.loops[fn] == nil {
			pc.loops[fn] = loopsOf(fn)
		}
		for _, l := range pc.loops[fn] {
			if l.Coll != nil && (l.Index == v || l.Index != nil && fmt.Sprint(l.Index) == fmt.Sprint(v)) {
				if perReader(pc.p, l.Coll.Type()) {
					return ""
				}
				return "position in a table that is not per reader"
			}
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for _, ed := range ph.Edges {
				if ed != v {
					if w := pc.value(fn, ed, d+1); w != "" {
						return w
					}
				}
			}
			return ""
		}
		return "computed: " + v.String()
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			_ = nx
			return "key of an iteration that is not per reader"
		}
		return "result " + v.String()
	case *ssa.Parameter:
		return pc.param(fn, x, d+1)
	case *ssa.FreeVar:
		for _, b := range x.Parent().Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() {
					for i, fv := range x.Parent().FreeVars {
						if fv == x {
							return pc.value(x.Parent().Parent(), mc.Bindings[i], d+1)
						}
					}
				}
			}
		}
		return "captured variable"
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return pc.field(fieldOf(a), d+1)
		case *ssa.Alloc:
			return pc.stores(fn, a, d+1)
		case *ssa.FreeVar:
			return pc.value(fn, a, d+1)
		}
	case *ssa.Alloc:
		return pc.stores(fn, x, d+1)
	case *ssa.Field:
		return pc.field(structOf(x.X.Type()).Field(x.Field), d+1)
	case *ssa.Const:
		return "the constant " + x.Name()
	}
	return "unrecognised " + v.String()
}

func (pc *pipeClass) stores(fn *ssa.Function, a *ssa.Alloc, d int) string {
	n := 0
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a {
			n++
			if w := pc.value(fn, st.Val, d); w != "" {
				return w
			}
		}
	}
	if n == 0 {
		return "never set"
	}
	return ""
}

func (pc *pipeClass) param(fn *ssa.Function, x *ssa.Parameter, d int) string {
	key := fullName(fn) + "#" + x.Name()
	if w, ok := pc.memo[key]; ok {
		return w
	}
	pc.memo[key] = ""
	idx := -1
	for i, q := range fn.Params {
		if q == x {
			idx = i
		}
	}
	n := 0
	for _, g := range pc.p.all {
		if !pc.p.isLocal(g) {
			continue
		}
		for _, c := range callsIn(g) {
			cal := c.Common().StaticCallee()
			if cal == nil || fullName(cal) != fullName(fn) || idx >= len(c.Common().Args) {
				continue
			}
			n++
			if w := pc.value(g, c.Common().Args[idx], d); w != "" {
				pc.memo[key] = w + " (passed by " + g.Name() + ")"
			}
		}
	}
	if n == 0 {
		pc.memo[key] = "a parameter no caller sets"
	}
	return pc.memo[key]
}

func (pc *pipeClass) field(f *types.Var, d int) string {
	key := fieldKey(f)
	if w, ok := pc.memo[key]; ok {
		return w
	}
	pc.memo[key] = ""
	n := 0
	for _, g := range pc.p.all {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fieldOf(fa)) == key {
						n++
						if w := pc.value(g, st.Val, d); w != "" {
							pc.memo[key] = w + " (stored by " + g.Name() + ")"
						}
					}
				}
			}
		}
	}
	if n == 0 {
		pc.memo[key] = "a field that is never set"
	}
	return pc.memo[key]
}

func rulePipeIndex(p *Prog, r *Report) {
	const R = "reader-index"
	const R2 = "reader-index-agreement"
	r.Rule(R, "inductive provenance: every index into a per-reader table (compilers, compiled views, readers, view options, views) is the position in an iteration over such a table or a reader number that itself only ever comes from one")
	r.Rule(R2, "at every call and store that combines per-reader data, all of it belongs to the same reader: one index term")
	e := newEngine(p, Hooks{})
	pc := &pipeClass{p: p, e: e, memo: map[string]string{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}}
	n, m := 0, 0
	for _, fn := range p.all {
		if !p.isLocal(fn) || pkgOf(fn) == nil || !strings.HasPrefix(pkgOf(fn).Path(), p.Module+"/"+mMetric) || len(fn.Blocks) == 0 || fn.Name() == "init" {
			continue
		}
		var fr *Frame
		frame := func() *Frame {
			if fr == nil {
				fr = e.frame(nil, nil, fn, nil, nil)
			}
			return fr
		}
		idxOf := map[string]bool{}
		collect := func(t *Term, into map[string]bool) {
			t.Any(func(x *Term) bool {
				if x.Op == "index" && len(x.Args) == 2 && x.Args[0].Typ != nil && perReader(p, x.Args[0].Typ) {
					into[refKey(x.Args[1])] = true
				}
				return false
			})
		}
		_ = idxOf
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if perReader(p, x.X.Type()) && !onlyVarargs(x.X) {
						n++
						w := pc.value(fn, x.Index, 0)
						r.Ob(R, w == "", fn, "index of "+types.TypeString(x.X.Type(), shortQual), p.posOf(in), "the index does not identify a reader: "+w)
					}
				case *ssa.Index:
					if perReader(p, x.X.Type()) {
						n++
						w := pc.value(fn, x.Index, 0)
						r.Ob(R, w == "", fn, "index of "+types.TypeString(x.X.Type(), shortQual), p.posOf(in), "the index does not identify a reader: "+w)
					}
				case *ssa.Slice:
					if perReader(p, x.X.Type()) && (x.Low != nil || x.High != nil) {
						n++
						r.Ob(R, false, fn, "slice of "+types.TypeString(x.X.Type(), shortQual), p.posOf(in), "part of a per-reader table is taken")
					}
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !perReader(p, ia.X.Type()) || onlyVarargs(ia.X) {
						continue
					}
					m++
					got := map[string]bool{refKey(e.Term(emptyFacts, VRef{frame(), ia.Index})): true}
					collect(e.Term(emptyFacts, VRef{frame(), x.Val}), got)
					r.Ob(R2, len(got) == 1, fn, "element of "+types.TypeString(ia.X.Type(), shortQual), p.posOf(in), "data of several readers is combined: "+joinS(got))
				case ssa.CallInstruction:
					got := map[string]bool{}
					cc := x.Common()
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for _, a := range args {
						if a.Type() == nil {
							continue
						}
						t := e.Term(emptyFacts, VRef{frame(), a})
						if isInt(a.Type()) && pc.value(fn, a, 0) == "" {
							got[refKey(t)] = true
							continue
						}
						collect(t, got)
					}
					if len(got) > 0 {
						m++
						r.Ob(R2, len(got) == 1, fn, "call of "+callName(cc.StaticCallee(), cc), p.posOf(in), "data of several readers is combined: "+joinS(got))
					}
				}
			}
		}
	}
	r.AtLeast(R, n, 6, "index of a per-reader table")
	r.AtLeast(R2, m, 4, "combination of per-reader data")
}

// onlyVarargs: the slice is the argument list of a variadic call.
func onlyVarargs(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

func ruleReaderSetup(p *Prog, r *Report) {
	const R = "reader-setup"
	r.Rule(R, "whole-iteration rule: provider construction gives every reader its own views and registers it with the producer of its own number; a new meter gets a compiler for every reader; a new instrument is compiled for every reader, and every compiled view is kept")
	readers := "[]" + p.repoName(mMetric, "Reader")
	isReaders := func(t *Term) bool {
		return t.Typ != nil && types.TypeString(derefT(t.Typ).Underlying(), nil) == readers
	}
	isReg := func(elem string) func(t *Term) bool {
		return func(t *Term) bool {
			if t.Typ == nil {
				return false
			}
			sl, ok := derefT(t.Typ).Underlying().(*types.Slice)
			return ok && strings.HasSuffix(types.TypeString(sl.Elem(), nil), elem)
		}
	}
	prov := p.fn(mMetric, "NewMeterProvider")
	if r.Need(R, prov != nil, "NewMeterProvider", "function not found") {
		inl := inlineRelevant(p, func(in ssa.Instruction) bool { return isInvokeOf(in, "Register") })
		(&ForAll{P: p, R: r, Rule: R, Fn: prov, What: "every reader is registered", Coll: isReaders, Inline: inl,
			Event: func(c *Ctx, ci CallInfo) bool {
				if !ci.Invoke || ci.Method != "Register" || !isElemOf(c.T(ci.Common.Value), isReaders) {
					return false
				}
				return true
			}}).Run()
		(&ForAll{P: p, R: r, Rule: R, Fn: prov, What: "every reader gets its views", Coll: isReaders, Inline: inl,
			InstrEvent: func(c *Ctx) bool {
				st, ok := c.In.(*ssa.Store)
				if !ok {
					return false
				}
				want := "[]*" + p.repoName(mViewP, "Views")
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					return types.TypeString(derefT(ia.X.Type()).Underlying(), nil) == want && !onlyVarargs(ia.X)
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.TypeString(st.Val.Type(), nil) == want {
					_ = fa
					cl, ok := st.Val.(*ssa.Call)
					if !ok {
						return false
					}
					b, ok := cl.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "append"
				}
				return false
			}}).Run()
		// the views come from validating views built from this reader's options
		n := 0
		e := newEngine(p, Hooks{})
		for _, g := range p.pkgFuncs(mMetric) {
			for _, c := range callsIn(g) {
				cc := c.Common()
				if cc.StaticCallee() == nil || fullName(cc.StaticCallee()) != p.repoName(mViewP, "New") {
					continue
				}
				n++
				t := e.Term(emptyFacts, VRef{e.frame(nil, nil, g, nil, nil), cc.Args[len(cc.Args)-1]}).Strip()
				r.Ob(R, t.Op == "index" && t.Args[0].Typ != nil && perReader(p, t.Args[0].Typ), g, "view options", p.posOf(c), "the views are not built from the reader's options: "+t.Key())
			}
		}
		r.AtLeast(R, n, 1, "view construction")
	}
	// both per-reader option tables grow together
	for _, fn := range p.all {
		if !p.isLocal(fn) || pkgOf(fn) == nil || pkgOf(fn).Path() != p.Module+"/"+mMetric {
			continue
		}
		grow := map[string]int{}
		pos := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !perReader(p, st.Val.Type()) || !isNamedType(derefT(fa.X.Type()), p.repoName(mMetric, "config")) {
					continue
				}
				pos = p.posOf(in)
				grow[fieldOf(fa).Name()]++
			}
		}
		if len(grow) == 0 {
			continue
		}
		okG := len(grow) == 2
		for _, k := range grow {
			okG = okG && k == 1
		}
		got := map[string]bool{}
		d := &Decide{P: p, Fn: fn, A0: ""}
		d.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return false }
		d.Instr = func(c *Ctx) {
			if st, ok := c.In.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && perReader(p, st.Val.Type()) {
					nm := fieldOf(fa).Name()
					if !appendsOne(st.Val, nm) {
						nm += " badly: " + st.Val.String()
					}
					c.Set(c.A().(string) + nm + " ")
				}
			}
		}
		d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) { got[c.A().(string)] = true }
		d.Run()
		r.Engine(d.E)
		okP := len(got) == 1 && (got["readers vopts "] || got["vopts readers "])
		r.Ob(R, okG && okP, fn, "option tables", pos, "the reader and its view options are not added together, one each: "+joinS(got))
	}
	if fn := p.methodOf(mMetric, "MeterProvider", "Meter"); r.Need(R, fn != nil, "MeterProvider.Meter", "not found") {
		coll := isReg("viewstate.Compiler")
		inl := inlineRelevant(p, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				return ok && perReader(p, ia.X.Type())
			}
			return false
		})
		fa := &ForAll{P: p, R: r, Rule: R, Fn: fn, What: "every reader gets a compiler", Coll: func(t *Term) bool { return coll(t) || t.Typ != nil && perReader(p, t.Typ) }, Inline: inl,
			InstrEvent: func(c *Ctx) bool {
				st, ok := c.In.(*ssa.Store)
				if !ok {
					return false
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				return ok && coll(c.T(ia.X)) && strings.HasSuffix(c.T(st.Val).Strip().Sub, "viewstate.New")
			},
			Off: func(c *Ctx, t *Term, taken bool) bool {
				// the meter exists already, or there are none after shutdown
				return isHit(t, taken) || isNilCmp(t, taken) && strings.HasSuffix(t.Args[0].Strip().Key(), ".meters")
			}}
		fa.Run()
	}
	for _, fn := range registrars(p) {
		coll := isReg("viewstate.Compiler")
		inl := inlineHere(p, p.Module+"/"+mMetric, isCallTo(p.repoName(mView, "Compiler")+".Compile"))
		(&ForAll{P: p, R: r, Rule: R, Fn: fn, What: "every reader compiles the instrument", Coll: coll, Inline: inl,
			Event: func(c *Ctx, ci CallInfo) bool {
				return ci.Callee != nil && fullName(ci.Callee) == p.repoName(mView, "Compiler")+".Compile" && isElemOf(c.Arg(0), coll)
			}}).Run()
		(&ForAll{P: p, R: r, Rule: R, Fn: fn, What: "every compiled view is kept", Coll: coll, Inline: inl,
			Off: func(c *Ctx, t *Term, taken bool) bool { return isHit(t, taken) },
			InstrEvent: func(c *Ctx) bool {
				st, ok := c.In.(*ssa.Store)
				if !ok {
					return false
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				return ok && perReader(p, ia.X.Type()) && !onlyVarargs(ia.X) && strings.Contains(c.T(st.Val).Key(), "Compiler.Compile")
			},
		}).Run()
	}
	ruleObserverTables(p, r, R)
}

// registrars are the innermost functions of the metric package that both
// compile an instrument and register it under its descriptor.
func registrars(p *Prog) []*ssa.Function {
	in := func(f *ssa.Function) bool { return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mMetric }
	comp := newReach(p, func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		return g != nil && fullName(g) == p.repoName(mView, "Compiler")+".Compile"
	})
	reg := newReach(p, func(i ssa.Instruction) bool {
		mu, ok := i.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		m, ok := mu.Map.Type().Underlying().(*types.Map)
		return ok && isNamedType(m.Key(), p.repoName(mInst, "Descriptor"))
	})
	both := func(f *ssa.Function) bool { return in(f) && comp.has(f) && reg.has(f) }
	return p.instancesOf(func(f *ssa.Function) bool {
		if !both(f) || f.Signature.Params().Len() == 0 {
			return false
		}
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil && g != f && both(g) {
				return false
			}
		}
		return true
	})
}

// inlineHere enters the helpers of package path from which a relevant instruction is reachable.
func inlineHere(p *Prog, path string, pred func(ssa.Instruction) bool) func(*Frame, ssa.CallInstruction, *ssa.Function) bool {
	inl := inlineRelevant(p, pred)
	return func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
		return pkgOf(g) != nil && pkgOf(g).Path() == path && inl(fr, c, g)
	}
}

func isCallTo(names ...string) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return false
		}
		for _, n := range names {
			if fullName(g) == n {
				return true
			}
		}
		return false
	}
}

// isHit: the branch on which a map lookup found its key.
func isHit(t *Term, taken bool) bool {
	if t.Op == "has" {
		return taken
	}
	return t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && len(t.Args) == 2 && t.Args[0].Strip().Op == "lookup" && t.Args[1].Sub == "nil" && (t.Sub == "!=") == taken
}

// isNilCmp: the branch on which the compared value is nil.
func isNilCmp(t *Term, taken bool) bool {
	return t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && len(t.Args) == 2 && t.Args[1].Sub == "nil" && (t.Sub == "==") == taken
}

// ruleObserverTables: instruments keep every reader's compiled view.
func ruleObserverTables(p *Prog, r *Report, R string) {
	isComp := func(t *Term) bool { return t.Strip().Key() == "$3" }
	if fn := p.fn(mSync, "New"); r.Need(R, fn != nil, "syncstate.New", "not found") {
		(&ForAll{P: p, R: r, Rule: R, Fn: fn, What: "every compiled view of a synchronous instrument", Coll: isComp,
			Event: func(c *Ctx, ci CallInfo) bool {
				return isAppend(ci) && len(ci.Common.Args) == 2 && c.Arg(1).Any(func(t *Term) bool { return t.Op == "index" && isComp(t.Args[0]) })
			},
			Exempt: func(c *Ctx, t *Term, taken bool) bool {
				return isNilCmp(t, taken) && isElemOf(t.Args[0], isComp)
			}}).Run()
		n := 0
		for _, c := range callsIn(fn) {
			if g := c.Common().StaticCallee(); g != nil && fullName(g) == p.repoName(mView, "Combine") {
				n++
				e := newEngine(p, Hooks{})
				t := e.Term(emptyFacts, VRef{e.frame(nil, nil, fn, nil, nil), c.Common().Args[1]})
				r.Ob(R, !t.Any(func(x *Term) bool { return x.Op == "slice" && (len(x.Args) > 1) }) && t.Any(func(x *Term) bool { return x.Op == "pure" && x.Sub == "append" || isComp(x) }), fn, "combined views", p.posOf(c), "not all collected views are combined: "+t.Key())
			}
		}
		r.AtLeast(R, n, 1, "combination of a synchronous instrument's views")
	}
	if fn := p.fn(mAsync, "New"); r.Need(R, fn != nil, "asyncstate.New", "not found") {
		n := 0
		e := newEngine(p, Hooks{})
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && perReader(p, st.Val.Type()) {
					n++
					t := e.Term(emptyFacts, VRef{e.frame(nil, nil, fn, nil, nil), st.Val})
					r.Ob(R, isComp(t), fn, "compiled views of an asynchronous instrument", p.posOf(in), "not the table compiled for the instrument: "+t.Key())
				}
			}
		}
		r.AtLeast(R, n, 1, "asynchronous instrument's views")
	}
}

type scSt struct {
	state string // the asynchronous state created
	scope string // the scope added
	lib   bool
	meter string
}

// ruleCollectionScope: what one collection of one meter touches.
func ruleCollectionScope(p *Prog, r *Report) {
	const R = "collection-scope"
	r.Rule(R, "path-sensitive provenance in a collection: every meter is visited once for the producer's own reader, with a fresh asynchronous state for that reader used by all its callbacks and asynchronous instruments, one new output scope labelled with the meter's own library, and collectors of that reader writing only into that scope")
	prod := findProduce(p, r, R)
	if prod == nil {
		return
	}
	isMeters := func(t *Term) bool {
		return t.Typ != nil && types.TypeString(t.Typ.Underlying(), nil) == "[]*"+p.repoName(mMetric, "meter")
	}
	newState, run, snap := p.repoName(mAsync, "NewState"), p.repoName(mAsync, "Callback")+".Run", p.repoName(mAsync, "Observer")+".SnapshotAndProcess"
	isColl := func(ci CallInfo) bool {
		return ci.Invoke && ci.Method == "Collect" && strings.HasPrefix(ci.Full(), "invoke "+p.repoName(mData, "Collector"))
	}
	rel := inlineRelevant(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if g := c.Common().StaticCallee(); g != nil {
			switch fullName(g) {
			case newState, run, snap, p.repoName(mData, "ReallocateFrom"):
				return pkgOf(in.Parent()) != nil && pkgOf(in.Parent()).Path() == p.Module+"/"+mMetric
			}
		}
		return isInvokeOf(in, "Collect")
	})
	inl := func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
		return pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mMetric && rel(fr, c, g)
	}
	h := Hooks{Inline: inl}
	isScope := func(t types.Type) bool { return isNamedType(derefT(t), p.repoName(mData, "Scope")) }
	n := 0
	meterOf := func(t *Term) string {
		m := ""
		t.Any(func(x *Term) bool {
			if x.Op == "index" && isMeters(x.Args[0]) {
				m = x.Key()
			}
			return false
		})
		return m
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		s := c.A().(scSt)
		switch {
		case ci.Full() == newState:
			t := c.Arg(0).Strip()
			_, path := t.Path()
			n++
			r.Ob(R, len(path) > 0 && strings.HasPrefix(t.Key(), "$0."), c.F.Fn, "asynchronous state", c.Pos(), "the state is not created for the producer's reader: "+t.Key(), c.Trace()...)
			if v, ok := ci.Site.(ssa.Value); ok {
				s.state = vkey(VRef{c.F, v})
			}
			c.Set(s)
		case ci.Full() == run, ci.Full() == snap:
			n++
			last := ci.Common.Args[len(ci.Common.Args)-1]
			r.Ob(R, s.state != "" && vkey(c.E.strip(VRef{c.F, last})) == s.state, c.F.Fn, "state passed to "+ci.Callee.Name(), c.Pos(), "not the state created for this collection of this meter", c.Trace()...)
		case ci.Callee != nil && fullName(ci.Callee) == p.repoName(mData, "ReallocateFrom") && isScopePtr(p, ci.Common.Args[0].Type()):
			n++
			r.Ob(R, s.scope == "", c.F.Fn, "output scope", c.Pos(), "several scopes are added for one meter", c.Trace()...)
			if v, ok := ci.Site.(ssa.Value); ok {
				s.scope = vkey(VRef{c.F, v})
			}
			c.Set(s)
		case isColl(ci):
			n++
			out := c.E.strip(VRef{c.F, ci.Common.Args[1]})
			okOut := false
			if fa, ok := out.V.(*ssa.FieldAddr); ok {
				okOut = s.scope != "" && isScope(fa.X.Type()) && vkey(c.E.strip(VRef{out.F, fa.X})) == s.scope
				if t := c.E.Term(c.St.F, VRef{out.F, fa.X}).Strip(); !okOut && s.scope != "" && isScope(fa.X.Type()) {
					okOut = t.Op == "call" && strings.HasSuffix(t.Sub, ".ReallocateFrom") // through a helper
				}
			}
			r.Ob(R, okOut, c.F.Fn, "collector output", c.Pos(), "the collector does not write into the scope added for this meter", c.Trace()...)
			r.Ob(R, s.lib, c.F.Fn, "scope library", c.Pos(), "the scope is not labelled with the meter's library before its instruments are collected", c.Trace()...)
			recv := c.T(ci.Common.Value)
			r.Ob(R, meterOf(recv) != "" && meterOf(recv) == s.meter, c.F.Fn, "collectors", c.Pos(), "the collectors do not belong to the meter the scope is labelled with", c.Trace()...)
		}
	}
	h.Instr = func(c *Ctx) {
		st, ok := c.In.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !isScope(fa.X.Type()) || !strings.HasSuffix(st.Val.Type().String(), "instrumentation.Scope") && !strings.HasSuffix(st.Val.Type().String(), "instrumentation.Library") {
			return
		}
		s := c.A().(scSt)
		t := c.T(st.Val)
		s.meter = meterOf(t)
		n++
		r.Ob(R, s.meter != "" && t.Strip().Op == "field" && vkey(c.E.strip(VRef{c.F, fa.X})) == s.scope, c.F.Fn, "scope library", c.Pos(), "the library is not the meter's own: "+t.Key(), c.Trace()...)
		s.lib = true
		c.Set(s)
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		if to.Dominates(from) {
			if l := analyseLoop(c.F.Fn, to); l.Coll != nil && isMeters(c.T(l.Coll)) {
				s := c.A().(scSt)
				r.Ob(R, s.scope != "" && s.lib, c.F.Fn, "scope per meter", p.posOf(to.Instrs[len(to.Instrs)-1]), "a meter can be collected without adding its scope", c.Trace()...)
				c.Set(scSt{})
			}
		}
	}
	e := newEngine(p, h)
	e.Run(prod, scSt{})
	r.Engine(e)
	r.AtLeast(R, n, 6, "collection step")
	(&ForAll{P: p, R: r, Rule: R, Fn: prod, What: "every meter", Coll: isMeters, Inline: inl,
		Event: func(c *Ctx, ci CallInfo) bool {
			return ci.Full() == newState
		}}).Run()
}

func isScopePtr(p *Prog, t types.Type) bool {
	sl, ok := derefT(t).Underlying().(*types.Slice)
	return ok && isNamedType(sl.Elem(), p.repoName(mData, "Scope"))
}

// ruleAsyncState: observations go to the state of the running collection.
func ruleAsyncState(p *Prog, r *Report) {
	const R = "async-observation"
	r.Rule(R, "provenance: an observation is accumulated in the state of the collection its callback runs in, under its own instrument, by the view compiled for that collection's reader; processing an instrument processes every series of that instrument in the given state")
	n := 0
	storeT := func(t types.Type) bool { return isAsyncStore(p, t) }
	for _, fn := range asyncRoots(p) {
		n += walkAsync(p, r, R, fn, asyncWalk{state: true})
	}
	r.AtLeast(R, n, 3, "asynchronous state access")
	if fn := p.methodOf(mAsync, "Observer", "SnapshotAndProcess"); r.Need(R, fn != nil, "asyncstate.Observer.SnapshotAndProcess", "not found") {
		coll := func(t *Term) bool {
			u := t.Strip()
			return u.Op == "lookup" && u.Args[0].Typ != nil && storeT(u.Args[0].Typ) && strings.HasPrefix(u.Args[0].Strip().Key(), "$1.")
		}
		(&ForAll{P: p, R: r, Rule: R, Fn: fn, What: "every series of the instrument", Coll: coll, Inline: noInline,
			Event: func(c *Ctx, ci CallInfo) bool {
				return ci.Invoke && ci.Method == "SnapshotAndProcess" && isElemOf(c.T(ci.Common.Value), coll)
			}}).Run()
	}
	if fn := p.fn(mAsync, "NewState"); r.Need(R, fn != nil, "NewState", "not found") {
		m := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if isInt(st.Val.Type()) {
					m++
					r.Ob(R, st.Val == ssa.Value(fn.Params[0]), fn, "reader number", p.posOf(in), "the state is not that of the reader asked for")
				}
				if storeT(st.Val.Type()) {
					m++
					_, fresh := st.Val.(*ssa.MakeMap)
					r.Ob(R, fresh, fn, "fresh state", p.posOf(in), "the table of observations is not new")
				}
			}
		}
		r.AtLeast(R, m, 2, "state initialisation")
	}
	// one state per callback run: the context handed to the function carries the given state
	if fn := p.methodOf(mAsync, "Callback", "Run"); r.Need(R, fn != nil, "Callback.Run", "not found") {
		m := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isNamedType(derefT(st.Val.Type()), p.repoName(mAsync, "State")) {
					m++
					r.Ob(R, st.Val == ssa.Value(fn.Params[2]), fn, "state of the running callback", p.posOf(in), "the callback observes into another state")
				}
			}
		}
		r.AtLeast(R, m, 1, "callback state")
	}
}

func noInline(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return false }

// refKey identifies the value a term stands for.
func refKey(t *Term) string {
	t = t.Strip()
	if k := vkeySafe(t.Ref); k != "" {
		return k
	}
	return t.Key()
}

// appendsOne: v is the field's own slice with exactly one element appended.
func appendsOne(v ssa.Value, field string) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	u, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldOf(fa).Name() != field {
		return false
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	at, ok := derefT(sl.X.Type()).Underlying().(*types.Array)
	return ok && at.Len() == 1
}

// isAsyncStore: the table of observations of a collection, by instrument.
func isAsyncStore(p *Prog, t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k := namedOf(derefT(m.Key()))
	_, inner := m.Elem().Underlying().(*types.Map)
	return inner && k != nil && originName(k) == p.repoName(mAsync, "Observer")
}

// isAsyncSeries: the table of an instrument's observations, by attribute set.
func isAsyncSeries(p *Prog, t types.Type) bool {
	mt, ok := t.Underlying().(*types.Map)
	return ok && isNamedType(mt.Elem(), p.repoName(mView, "Accumulator"))
}

func asyncAccess(p *Prog) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isAsyncStore(p, x.X.Type()) || isAsyncSeries(p, x.X.Type())
		case *ssa.MapUpdate:
			return isAsyncStore(p, x.Map.Type()) || isAsyncSeries(p, x.Map.Type())
		}
		return false
	}
}

// asyncRoots lists the outermost functions that use the tables of observations.
func asyncRoots(p *Prog) []*ssa.Function {
	rch := newReach(p, asyncAccess(p))
	var all []*ssa.Function
	called := map[*ssa.Function]bool{}
	for _, fn := range p.pkgFuncs(mAsync) {
		if len(fn.Blocks) == 0 || !rch.has(fn) {
			continue
		}
		all = append(all, fn)
		for _, c := range callsIn(fn) {
			if g := c.Common().StaticCallee(); g != nil && g != fn && pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mAsync {
				called[g] = true
				if g.Origin() != nil {
					called[g.Origin()] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range all {
		if !called[fn] {
			out = append(out, fn)
		}
	}
	return out
}

type asyncWalk struct{ state, series bool }

// walkAsync follows every path of an outermost function through the tables.
func walkAsync(p *Prog, r *Report, R string, fn *ssa.Function, w asyncWalk) (n int) {
	type st struct{ obs, state, look, maps string }
	ob := func(on, ok bool, c *Ctx, what, detail string) {
		if on {
			n++
			r.Ob(R, ok, c.F.Fn, what, c.Pos(), detail, c.Trace()...)
		}
	}
	h := Hooks{Inline: inlineRelevant(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return asyncAccess(p)(in) || ok && c.Common().IsInvoke() && c.Common().Method.Name() == "NewAccumulator"
	})}
	// the instrument: the receiver, or what the instrument given unwraps to
	instrument := func(c *Ctx, s *st, k *Term) {
		k = k.Strip()
		own := k.Op == "param" && k.Typ != nil && isNamedType(derefT(k.Typ), p.repoName(mAsync, "Observer")) ||
			(k.Op == "invoke" || k.Op == "call") && k.Any(func(x *Term) bool { return x.Op == "param" })
		ob(w.state, own && (s.obs == "" || s.obs == k.Key()), c, "instrument key", "the series table is not that of the instrument itself: "+k.Key())
		s.obs = k.Key()
	}
	table := func(c *Ctx, s *st, m *Term) {
		m = m.Strip()
		ok := m.Op == "field" && m.Args[0].Typ != nil && isNamedType(derefT(m.Args[0].Typ), p.repoName(mAsync, "State"))
		key := ""
		if ok {
			key = m.Args[0].Strip().Key()
		}
		ob(w.state, ok && (s.state == "" || s.state == key), c, "state of the observation", "series are looked up in another collection's state: "+m.Key())
		s.state = key
	}
	h.Instr = func(c *Ctx) {
		s := c.A().(st)
		switch x := c.In.(type) {
		case *ssa.Lookup:
			switch {
			case isAsyncStore(p, x.X.Type()):
				instrument(c, &s, c.T(x.Index))
				table(c, &s, c.T(x.X))
			case isAsyncSeries(p, x.X.Type()):
				k := c.T(x.Index).Key()
				ob(w.series, s.look == "" || s.look == k, c, "series lookup and insertion", "looked up as "+s.look+" and as "+k)
				s.look = k
			}
		case *ssa.MapUpdate:
			switch {
			case isAsyncStore(p, x.Map.Type()):
				instrument(c, &s, c.T(x.Key))
				table(c, &s, c.T(x.Map))
				s.maps = c.T(x.Value).Strip().Key()
			case isAsyncSeries(p, x.Map.Type()):
				k, v := c.T(x.Key), c.T(x.Value)
				m := c.T(x.Map).Strip()
				ob(w.series, fromOptions(c, k, 0), c, "series key", "the key is not computed from the caller's attributes: "+k.Key())
				ob(w.series, s.look == k.Key(), c, "series lookup and insertion", "looked up as "+s.look+", inserted as "+k.Key())
				ob(w.series, v.Any(func(y *Term) bool {
					return y.Op == "invoke" && strings.HasSuffix(y.Sub, ".NewAccumulator") && len(y.Args) > 1 && y.Args[len(y.Args)-1].Key() == k.Key()
				}), c, "series accumulator", "the accumulator is not made for the attribute set it is stored under: "+v.Key())
				ob(w.state, m.Any(func(y *Term) bool { return y.Op == "lookup" && y.Args[0].Typ != nil && isAsyncStore(p, y.Args[0].Typ) }) || m.Key() == s.maps, c, "instrument's series", "the accumulator is stored in a table that is not the instrument's: "+m.Key())
			}
		}
		c.Set(s)
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		if !ci.Invoke || ci.Method != "NewAccumulator" {
			return
		}
		s := c.A().(st)
		t := c.T(ci.Common.Value).Strip()
		ok := t.Op == "index"
		if ok {
			tab, ix := t.Args[0].Strip(), t.Args[1].Strip()
			ok = tab.Op == "field" && ix.Op == "field" && ix.Args[0].Typ != nil && isNamedType(derefT(ix.Args[0].Typ), p.repoName(mAsync, "State"))
			if ok {
				o, key := tab.Args[0].Strip().Key(), ix.Args[0].Strip().Key()
				ok = (s.obs == "" || s.obs == o) && (s.state == "" || s.state == key)
				s.obs, s.state = o, key
			}
		}
		ob(w.state, ok, c, "view of the observation", "not the view compiled for the reader being collected: "+t.Key())
		c.Set(s)
	}
	e := newEngine(p, h)
	e.Run(fn, st{})
	r.Engine(e)
	return n
}

// fromOptions: computed from the options of the observation, possibly
// through local variables.
func fromOptions(c *Ctx, t *Term, depth int) bool {
	return t.Any(func(y *Term) bool {
		if y.Op == "param" && isOptions(y.Typ) {
			return true
		}
		al, ok := y.Ref.V.(*ssa.Alloc)
		if !ok || y.Op != "alloc" || depth > 4 {
			return false
		}
		for _, u := range *al.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Block().Dominates(c.In.Block()) || ok && st.Addr == ssa.Value(al) && y.Ref.F != c.F {
				if fromOptions(c, c.E.Term(emptyFacts, VRef{y.Ref.F, st.Val}), depth+1) {
					return true
				}
			}
		}
		return false
	})
}
