package main

// P04: cardinality limits hold and overflow goes to the overflow series.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P04", ruleCardinality) }

func ruleCardinality(p *Prog, r *Report) {
	ruleViewLimit(p, r)
	ruleInsertSites(p, r)
	ruleInstrumentLimit(p, r)
	ruleLimitDefaults(p, r)
	ruleLimitFlow(p, r)
	ruleOverflowIdentity(p, r)
}

// lin is  k*L + c  with L the limit.
type lin struct{ k, c int64 }

type limSt struct {
	key0 string // term key of the attribute set being looked up
	ins  string // inserted key class: own, overflow
	look string // last successful lookup
}

// ruleViewLimit: inductive invariant of the per-view map:
// size <= limit, and size == limit implies the overflow series is present.
func ruleViewLimit(p *Prog, r *Report) {
	const R = "view-limit"
	r.Rule(R, "inductive invariant, decided by abstract evaluation of NewAccumulator over every pre-state class (room for 0, 1, at least 2 more series; overflow series present or not; the set present or not; the set being the overflow set): size never passes the limit, a full map contains the overflow series, existing sets keep their series, new sets get their own series while there is room and the overflow series otherwise")
	insts := newAccumulators(p)
	n := 0
	for _, fn := range insts {
		for d := int64(0); d <= 2; d++ {
			for m := 0; m < 8; m++ {
				isOf, has, of := m&1 != 0, m&2 != 0, m&4 != 0
				if isOf && has != of || d == 0 && !of || d == 0 && isOf && !has {
					continue
				}
				n++
				got := runLimit(p, r, fn, d, isOf, has, of)
				want := ""
				switch {
				case has:
					want = "returns own"
				case d == 0:
					want = "returns overflow"
				case isOf:
					want = "inserts overflow"
				case d == 1 && !of:
					want = "inserts overflow"
				default:
					want = "inserts own"
				}
				if isOf {
					want = strings.Replace(want, "own", "overflow", 1)
				}
				room := []string{"no room", "room for one", "room for two or more"}[d]
				r.Ob(R, len(got) == 1 && got[want], fn, fmt.Sprintf("%s, overflow present=%v, set present=%v, set is overflow=%v", room, of, has, isOf), p.pos(fn.Pos()),
					fmt.Sprintf("%s; specified: %s", joinS(got), want))
			}
		}
	}
	r.AtLeast(R, n, 2*8, "pre-state class")
}

func newAccumulators(p *Prog) []*ssa.Function {
	return p.instancesOf(func(f *ssa.Function) bool {
		return f.Name() == "NewAccumulator" && f.Signature.Recv() != nil && pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mView &&
			!strings.Contains(f.Signature.Recv().Type().String(), "multi")
	})
}

// isSeriesMap: the per-view map of series.
func isSeriesMap(p *Prog, t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !strings.HasSuffix(m.Key().String(), "attribute.Set") {
		return false
	}
	pt, ok := m.Elem().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(pt.Elem())
	return n != nil && n.Obj().Pkg().Path() == p.Module+"/"+mView
}

// isOverflowSet: the term is the package-level overflow attribute set.
func isOverflowSet(p *Prog, t *Term) bool {
	t = t.Strip()
	if t.Op == "load" && len(t.Args) == 1 {
		t = t.Args[0].Strip()
	}
	if t.Op != "global" {
		return false
	}
	g, ok := t.Ref.V.(*ssa.Global)
	if !ok {
		return false
	}
	return overflowGlobal(p, g, 0)
}

// overflowGlobal: g is OverflowAttributeSet or is initialised from it.
func overflowGlobal(p *Prog, g *ssa.Global, depth int) bool {
	if g.Name() == "OverflowAttributeSet" && g.Pkg.Pkg.Path() == p.Module+"/"+mPipe {
		return true
	}
	if depth > 3 {
		return false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	ok, n := false, 0
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, isS := in.(*ssa.Store)
				if !isS || st.Addr != g {
					continue
				}
				n++
				if src := globalOfLoad(st.Val); src != nil && fn == init {
					ok = overflowGlobal(p, src, depth+1)
				}
			}
		}
	}
	return ok && n == 1
}

func runLimit(p *Prog, r *Report, fn *ssa.Function, room int64, isOf, has, of bool) map[string]bool {
	got := map[string]bool{}
	isMap := func(t types.Type) bool { return isSeriesMap(p, t) }
	limField := func(t *Term) bool {
		_, path := t.Path()
		return len(path) > 0 && path[len(path)-1] == "CardinalityLimit"
	}
	var linForm func(t *Term) (lin, bool)
	linForm = func(t *Term) (lin, bool) {
		t = t.Strip()
		if c, ok := constInt(t); ok {
			return lin{0, c}, true
		}
		if limField(t) {
			return lin{1, 0}, true
		}
		if (t.Op == "pure" || t.Op == "len") && (t.Sub == "len" || t.Op == "len") && len(t.Args) == 1 && t.Args[0].Typ != nil && isMap(t.Args[0].Typ) {
			return lin{1, -room}, true
		}
		if t.Op == "bin" && len(t.Args) == 2 {
			a, ok1 := linForm(t.Args[0])
			b, ok2 := linForm(t.Args[1])
			if ok1 && ok2 {
				switch t.Sub {
				case "+":
					return lin{a.k + b.k, a.c + b.c}, true
				case "-":
					return lin{a.k - b.k, a.c - b.c}, true
				}
			}
		}
		return lin{}, false
	}
	touches := inlineRelevant(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isMap(x.X.Type())
		case *ssa.MapUpdate:
			return isMap(x.Map.Type())
		}
		return false
	})
	d := &Decide{P: p, Fn: fn, A0: limSt{}}
	d.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return touches(fr, c, g) }
	class := func(c *Ctx, t *Term) string {
		if isOverflowSet(p, t) {
			return "overflow"
		}
		if k := c.A().(limSt).key0; k != "" && t.Strip().Key() == k {
			if isOf {
				return "overflow"
			}
			return "own"
		}
		return "other " + t.Key()
	}
	keyOf := func(t *Term) (ownKey, ovKey bool) {
		return !isOverflowSet(p, t), isOverflowSet(p, t)
	}
	d.Cmp = func(op token.Token, x, y *Term) (bool, bool) {
		if x.Typ != nil && strings.HasSuffix(x.Typ.String(), "attribute.Set") && (op == token.EQL || op == token.NEQ) {
			o1, v1 := keyOf(x)
			o2, v2 := keyOf(y)
			if o1 && v2 || v1 && o2 {
				return isOf == (op == token.EQL), true
			}
		}
		a, ok1 := linForm(x)
		b, ok2 := linForm(y)
		if !ok1 || !ok2 {
			return false, false
		}
		// a - b = k*L + c, with L unknown but at least the current size
		k, c := a.k-b.k, a.c-b.c
		if k != 0 {
			return false, false
		}
		// room 2 stands for every larger room: the difference moves away from 0 with it
		lo, hi := c, c
		if room == 2 {
			lenCoef := func(t *Term) int64 { return lenCoef(t, isMap) }
			dl := lenCoef(x) - lenCoef(y) // c contains -room*dl
			if dl > 0 {
				lo = -1 << 40
			} else if dl < 0 {
				hi = 1 << 40
			}
		}
		switch op {
		case token.EQL:
			if lo == hi {
				return lo == 0, true
			}
			if lo > 0 || hi < 0 {
				return false, true
			}
		case token.NEQ:
			if lo == hi {
				return lo != 0, true
			}
			if lo > 0 || hi < 0 {
				return true, true
			}
		case token.LSS:
			if hi < 0 {
				return true, true
			}
			if lo >= 0 {
				return false, true
			}
		case token.LEQ:
			if hi <= 0 {
				return true, true
			}
			if lo > 0 {
				return false, true
			}
		case token.GTR:
			if lo > 0 {
				return true, true
			}
			if hi <= 0 {
				return false, true
			}
		case token.GEQ:
			if lo >= 0 {
				return true, true
			}
			if hi < 0 {
				return false, true
			}
		}
		return false, false
	}
	present := func(t *Term) bool {
		if isOverflowSet(p, t) {
			return of
		}
		return has
	}
	d.Loads = func(e *Engine, f *Facts, rr VRef) (Fact, bool) {
		switch x := rr.V.(type) {
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok && isMap(l.X.Type()) {
				pr := present(e.term(VRef{rr.F, l.Index}, f, 0))
				if x.Index == 1 {
					return factBool(pr), true
				}
				if pr {
					return Fact{K: FNonNil}, true
				}
				return Fact{K: FNil}, true
			}
		case *ssa.Lookup:
			if isMap(x.X.Type()) && !x.CommaOk {
				if present(e.term(VRef{rr.F, x.Index}, f, 0)) {
					return Fact{K: FNonNil}, true
				}
				return Fact{K: FNil}, true
			}
		}
		return Fact{}, false
	}
	d.Instr = func(c *Ctx) {
		s := c.A().(limSt)
		switch x := c.In.(type) {
		case *ssa.Lookup:
			if !isMap(x.X.Type()) {
				return
			}
			t := c.T(x.Index)
			if s.key0 == "" && !isOverflowSet(p, t) {
				s.key0 = t.Strip().Key()
				c.Set(s)
			}
			if present(t) {
				s.look = class(c, t)
				c.Set(s)
			}
		case *ssa.MapUpdate:
			if !isMap(x.Map.Type()) {
				return
			}
			t := c.T(x.Key)
			if s.key0 == "" && !isOverflowSet(p, t) {
				s.key0 = t.Strip().Key()
				c.Set(s)
			}
			if s.ins != "" {
				s.ins += " and "
			}
			s.ins += class(c, t)
			c.Set(s)
		}
	}
	d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
		s := c.A().(limSt)
		switch {
		case panics:
		case s.ins != "":
			got["inserts "+s.ins] = true
		default:
			got["returns "+s.look] = true
		}
	}
	d.Run()
	r.Engine(d.E)
	return got
}

// lenCoef: how often the map's length occurs in a linear term.
func lenCoef(t *Term, isMap func(types.Type) bool) int64 {
	t = t.Strip()
	if (t.Op == "pure" || t.Op == "len") && (t.Sub == "len" || t.Op == "len") && len(t.Args) == 1 && t.Args[0].Typ != nil && isMap(t.Args[0].Typ) {
		return 1
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		switch t.Sub {
		case "+":
			return lenCoef(t.Args[0], isMap) + lenCoef(t.Args[1], isMap)
		case "-":
			return lenCoef(t.Args[0], isMap) - lenCoef(t.Args[1], isMap)
		}
	}
	return 0
}

// ruleInsertSites: no other code adds series to a view's map.
func ruleInsertSites(p *Prog, r *Report) {
	const R = "insert-sites"
	r.Rule(R, "every insertion into a per-view series map is on the checked NewAccumulator path, or inserts only the overflow series into a map made empty in the same function")
	reachable := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || reachable[f] || !p.isLocal(f) {
			return
		}
		reachable[f] = true
		for _, c := range callsIn(f) {
			walk(c.Common().StaticCallee())
		}
	}
	for _, f := range newAccumulators(p) {
		walk(f)
	}
	origins := map[*ssa.Function]bool{}
	for f := range reachable {
		if o := f.Origin(); o != nil {
			origins[o] = true
		}
		origins[f] = true
	}
	n := 0
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool { return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mView }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isSeriesMap(p, mu.Map.Type()) {
					continue
				}
				n++
				if reachable[fn] || fn.Origin() != nil && origins[fn.Origin()] {
					r.Ob(R, true, fn, "insertion", p.posOf(in), "")
					continue
				}
				e := newEngine(p, Hooks{})
				fr := e.frame(nil, nil, fn, nil, nil)
				k := e.Term(emptyFacts, VRef{fr, mu.Key})
				fresh := false
				for _, b2 := range fn.Blocks {
					for _, i2 := range b2.Instrs {
						if st, ok := i2.(*ssa.Store); ok && isSeriesMap(p, st.Val.Type()) && b2.Dominates(b) {
							if _, ok := st.Val.(*ssa.MakeMap); ok {
								fresh = true
							}
						}
					}
				}
				if _, ok := mu.Map.(*ssa.MakeMap); ok {
					fresh = true
				}
				for _, cs := range callsIn(fn) {
					g := cs.Common().StaticCallee()
					if g == nil || !cs.Block().Dominates(b) || !p.isLocal(g) {
						continue
					}
					for _, b2 := range g.Blocks {
						for _, i2 := range b2.Instrs {
							if st, ok := i2.(*ssa.Store); ok && isSeriesMap(p, st.Val.Type()) {
								if _, ok := st.Val.(*ssa.MakeMap); ok {
									fresh = true
								}
							}
						}
					}
				}
				r.Ob(R, fresh && isOverflowSet(p, k), fn, "insertion", p.posOf(in), "a series is added outside the limit-checked path: key "+k.Key())
			}
		}
	}
	r.AtLeast(R, n, 1, "series insertion")
}

type ilSt struct {
	over  int8   // 1 the table was found at the limit, 2 below it
	dst   string // destination of the last copy of attributes
	cls   string // what was copied there: own, overflow
	attrs string // attributes of the record being built: own, overflow
}

// ruleInstrumentLimit: the in-flight table of a synchronous instrument.
func ruleInstrumentLimit(p *Prog, r *Report) {
	const R = "instrument-limit"
	r.Rule(R, "on every measurement path of a synchronous instrument, a record built for the measurement's own attributes is inserted under their own fingerprint and only after the table was found below limit-1; otherwise both the attributes and the fingerprint are those of the overflow series")
	isTab := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		pt, ok := m.Elem().(*types.Pointer)
		if !ok {
			return false
		}
		n := namedOf(pt.Elem())
		b, isB := m.Key().Underlying().(*types.Basic)
		return isB && b.Kind() == types.Uint64 && n != nil && n.Obj().Pkg().Path() == p.Module+"/"+mSync
	}
	entries := p.instancesOf(func(f *ssa.Function) bool {
		return fullName(f) == p.repoName(mSync, "Observe")
	})
	if len(entries) == 0 {
		entries = p.instancesOf(func(f *ssa.Function) bool {
			return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mSync && (f.Name() == "ObserveInt64" || f.Name() == "ObserveFloat64")
		})
	}
	rel := inlineRelevant(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isTab(x.X.Type())
		case *ssa.MapUpdate:
			return isTab(x.Map.Type())
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				return fieldOf(fa).Pkg() != nil && fieldOf(fa).Pkg().Path() == p.Module+"/"+mSync && strings.HasSuffix(x.Val.Type().String(), "[]go.opentelemetry.io/otel/attribute.KeyValue")
			}
		}
		return false
	})
	isLimitCmp := func(t *Term) (atLimitWhenTrue, ok bool) {
		if t.Op != "bin" || len(t.Args) != 2 {
			return false, false
		}
		x, y := t.Args[0].Strip(), t.Args[1].Strip()
		op := t.Sub
		isLen := func(z *Term) bool {
			return (z.Op == "pure" && z.Sub == "len" || z.Op == "len") && z.Args[0].Typ != nil && isTab(z.Args[0].Typ)
		}
		// normalise to len <op> limit+c
		var lenC, limC int64
		var form func(z *Term, sign int64) bool
		nl, nm := int64(0), int64(0)
		form = func(z *Term, sign int64) bool {
			z = z.Strip()
			if c, ok := constInt(z); ok {
				lenC += sign * c
				return true
			}
			if isLen(z) {
				nl += sign
				return true
			}
			if _, path := z.Path(); len(path) > 0 && path[len(path)-1] == "InstrumentCardinalityLimit" {
				nm += sign
				return true
			}
			if z.Op == "bin" && len(z.Args) == 2 && (z.Sub == "+" || z.Sub == "-") {
				s2 := sign
				if z.Sub == "-" {
					s2 = -sign
				}
				return form(z.Args[0], sign) && form(z.Args[1], s2)
			}
			return false
		}
		if !form(x, 1) || !form(y, -1) {
			return false, false
		}
		_ = limC
		if nl == -1 && nm == 1 {
			nl, nm, lenC = 1, -1, -lenC
			op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
		}
		if nl != 1 || nm != -1 {
			return false, false
		}
		// len - limit + lenC <op> 0; at limit: len >= limit-1, i.e. len-limit >= -1
		switch op {
		case ">=":
			return true, lenC == 1
		case ">":
			return true, lenC == 2
		case "<":
			return false, lenC == 1
		case "<=":
			return false, lenC == 2
		}
		return false, false
	}
	n := 0
	for _, fn := range entries {
		h := Hooks{}
		h.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return rel(fr, c, g) }
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			t := c.T(cond)
			for t.Op == "un" && t.Sub == "!" {
				t, taken = t.Args[0], !taken
			}
			if at, ok := isLimitCmp(t); ok {
				s := c.A().(ilSt)
				if s.over == 0 || s.over == 2 {
					if at == taken {
						s.over = 1
					} else {
						s.over = 2
					}
				}
				c.Set(s)
			}
		}
		// provenance of the attributes the record is built for
		class := func(c *Ctx, t *Term) string {
			s := c.A().(ilSt)
			switch {
			case s.dst != "" && t.Strip().Key() == s.dst:
				return s.cls
			case t.Any(func(x *Term) bool { return x.Op == "global" && strings.HasSuffix(x.Key(), "OverflowAttributes") }):
				return "overflow"
			case t.Any(func(x *Term) bool {
				return x.Op == "param" && x.Typ != nil && (strings.Contains(x.Typ.String(), "attribute.KeyValue") || strings.Contains(x.Typ.Underlying().String(), "attribute.KeyValue")) || strings.Contains(x.Key(), "KeyValues")
			}):
				return "own"
			}
			return "unknown " + t.Key()
		}
		isKVs := func(t types.Type) bool {
			return strings.HasSuffix(t.String(), "[]go.opentelemetry.io/otel/attribute.KeyValue")
		}
		h.Call = func(c *Ctx, ci CallInfo) {
			if b, ok := ci.Common.Value.(*ssa.Builtin); ok && b.Name() == "copy" && isKVs(ci.Common.Args[0].Type()) {
				s := c.A().(ilSt)
				s.dst, s.cls = "", class(c, c.Arg(1))
				s.dst = c.Arg(0).Strip().Key()
				c.Set(s)
			}
		}
		h.Instr = func(c *Ctx) {
			s := c.A().(ilSt)
			switch x := c.In.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isKVs(x.Val.Type()) && fieldOf(fa).Pkg() != nil && fieldOf(fa).Pkg().Path() == p.Module+"/"+mSync {
					if _, isNil := x.Val.(*ssa.Const); !isNil {
						s.attrs = class(c, c.T(x.Val))
						c.Set(s)
					}
				}
			case *ssa.MapUpdate:
				if !isTab(x.Map.Type()) {
					return
				}
				if _, isConst := x.Value.(*ssa.Const); isConst {
					return
				}
				n++
				fp := c.T(x.Key).Strip()
				fpOver := isFPOverflow(p, fp)
				own := fp.Op == "call" && strings.HasSuffix(fp.Sub, "fingerprintAttributes")
				atOver := s.attrs == "overflow"
				fpSrcOver := fpOver || own && len(fp.Args) > 0 && isOverflowAttrs(fp.Args[0])
				switch s.over {
				case 1:
					r.Ob(R, fpSrcOver && atOver, c.F.Fn, "insertion at the limit", c.Pos(), fmt.Sprintf("at the limit the record inserted is not the overflow series (overflow fingerprint %v, attributes %s)", fpSrcOver, s.attrs), c.Trace()...)
				case 2:
					r.Ob(R, own && !fpSrcOver && s.attrs == "own", c.F.Fn, "insertion below the limit", c.Pos(), fmt.Sprintf("below the limit the record inserted is not the measurement's own: fingerprint %s, attributes %s", fp.Key(), s.attrs), c.Trace()...)
				default:
					r.Ob(R, false, c.F.Fn, "unchecked insertion", c.Pos(), "a record is inserted on a path that never compared the table size with limit-1", c.Trace()...)
				}
			}
		}
		e := newEngine(p, h)
		e.Run(fn, ilSt{})
		r.Engine(e)
	}
	r.AtLeast(R, n, 1, "insertion path")
}

func isOverflowAttrs(t *Term) bool {
	t = t.Strip()
	if t.Op == "load" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t.Op == "global" && strings.HasSuffix(t.Key(), "OverflowAttributes")
}

func isFPOverflow(p *Prog, t *Term) bool {
	t = t.Strip()
	if t.Op == "load" && len(t.Args) == 1 {
		t = t.Args[0].Strip()
	}
	if t.Op != "global" {
		return false
	}
	g, ok := t.Ref.V.(*ssa.Global)
	if !ok {
		return false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if c, ok := st.Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasSuffix(fullName(c.Call.StaticCallee()), "fingerprintAttributes") {
					if src := globalOfLoad(c.Call.Args[0]); src != nil && src.Name() == "OverflowAttributes" {
						return true
					}
				}
			}
		}
	}
	return false
}

func ruleLimitDefaults(p *Prog, r *Report) {
	const R = "limit-default"
	r.Rule(R, "constant propagation: validation replaces a zero limit by its non-zero default and keeps any other value")
	type fld struct {
		rel, typ, field, def, defRel string
	}
	for _, f := range []fld{
		{mInst, "Performance", "InstrumentCardinalityLimit", "DefaultInstrumentCardinalityLimit", mInst},
		{mInst, "Performance", "AggregatorCardinalityLimit", "DefaultAggregatorCardinalityLimit", mInst},
		{mAgg, "Config", "CardinalityLimit", "DefaultAggregatorCardinalityLimit", mInst},
	} {
		fn := p.methodOf(f.rel, f.typ, "Validate")
		if !r.Need(R, fn != nil, f.typ+".Validate", "not found") {
			continue
		}
		var def constant.Value
		if nc, ok := p.pkg(f.defRel).Members[f.def].(*ssa.NamedConst); ok {
			def = nc.Value.Value
		}
		if !r.Need(R, def != nil && constant.Sign(def) > 0, f.def, "the default is not a positive constant") {
			continue
		}
		for _, v := range []int64{0, 1, 2, 77} {
			got := map[string]bool{}
			d := &Decide{P: p, Fn: fn, Init: map[string]Fact{fn.Params[0].Name() + "/" + f.field: {K: FConst, C: constant.MakeInt64(v)}}}
			d.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return false }
			d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
				if panics {
					return
				}
				got[fieldResult(c, refs[0], f.field)] = true
			}
			d.Run()
			r.Engine(d.E)
			want := fmt.Sprint(v)
			if v == 0 {
				want = def.ExactString()
			}
			r.Ob(R, len(got) == 1 && got[want], fn, fmt.Sprintf("%s %d", f.field, v), p.pos(fn.Pos()), fmt.Sprintf("validates to %s, specified %s", joinS(got), want))
		}
	}
}

// fieldResult: the constant in a field of a returned struct.
func fieldResult(c *Ctx, v ssa.Value, field string) string {
	for _, kv := range c.E.valueFacts(c.St.F, VRef{c.F, v}) {
		if kv.path == "/"+field && kv.f.K == FConst {
			return kv.f.C.ExactString()
		}
	}
	t := subField(c.E, c.T(v), []string{field}, c.St.F, 0)
	if t.C != nil {
		return t.C.ExactString()
	}
	if ft, ok := c.E.H.Eval(c.E, c.St.F, t.Ref); ok && ft.K == FConst {
		return ft.C.ExactString()
	}
	return "unknown " + t.Key()
}

func ruleOverflowIdentity(p *Prog, r *Report) {
	const R = "overflow-identity"
	r.Rule(R, "the overflow attribute list is exactly otel.metric.overflow=true, and the overflow set is built from that list; neither is written anywhere else")
	pk := p.pkg(mPipe)
	if !r.Need(R, pk != nil, mPipe, "package not found") {
		return
	}
	list, _ := pk.Members["OverflowAttributes"].(*ssa.Global)
	set, _ := pk.Members["OverflowAttributeSet"].(*ssa.Global)
	if !r.Need(R, list != nil && set != nil, "overflow globals", "not found") {
		return
	}
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if (st.Addr == list || st.Addr == set) && fn.Name() != "init" {
					r.Ob(R, false, fn, "overflow global written", p.posOf(in), "the overflow identity is changed at run time")
				}
			}
		}
	}
	e := newEngine(p, Hooks{})
	init := pk.Func("init")
	fr := e.frame(nil, nil, init, nil, nil)
	okL, okS := false, false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			switch st.Addr {
			case list:
				t := e.Term(emptyFacts, VRef{fr, st.Val})
				k := t.Key()
				okL = strings.Count(k, "attribute.Bool") == 1 && strings.Contains(k, `"otel.metric.overflow",true`) && strings.HasPrefix(k, "varargs(")
			case set:
				if c, ok := st.Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasSuffix(fullName(c.Call.StaticCallee()), "attribute.NewSet") {
					okS = globalOfLoad(c.Call.Args[0]) == list
				}
			}
		}
	}
	r.Ob(R, okL, init, "overflow attributes", p.pos(list.Pos()), "the overflow attributes are not exactly otel.metric.overflow=true")
	r.Ob(R, okS, init, "overflow set", p.pos(set.Pos()), "the overflow set is not built from the overflow attributes")
}

// ruleLimitFlow: the configured limit reaches the views.
func ruleLimitFlow(p *Prog, r *Report) {
	const R = "limit-flow"
	r.Rule(R, "constant propagation and provenance: a view's own limit is kept, an unset one takes the validated performance setting; the standard per-kind configuration carries the validated performance setting")
	isCfg := func(t types.Type) bool { return isNamedType(t, p.repoName(mAgg, "Config")) }
	n := 0
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool { return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mViewP }) {
		var prm *ssa.Parameter
		for _, q := range fn.Params {
			if pt, ok := q.Type().(*types.Pointer); ok && isCfg(pt.Elem()) {
				prm = q
			}
		}
		if prm == nil {
			continue
		}
		for _, lim := range []int64{0, 1, 77} {
			got := map[string]bool{}
			d := &Decide{P: p, Fn: fn}
			d.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
				return p.isLocal(g) && pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mViewP
			}
			written := ""
			d.Loads = func(e *Engine, f *Facts, rr VRef) (Fact, bool) {
				u, ok := rr.V.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return Fact{}, false
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldOf(fa).Name() == "CardinalityLimit" && fa.X == prm {
					return Fact{K: FConst, C: constant.MakeInt64(lim)}, true
				}
				return Fact{}, false
			}
			d.A0 = fmt.Sprint(lim)
			d.Instr = func(c *Ctx) {
				st, ok := c.In.(*ssa.Store)
				if !ok {
					return
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldOf(fa).Name() == "CardinalityLimit" && c.E.strip(VRef{c.F, fa.X}).V == prm {
					c.Set(c.T(st.Val).Strip().Key())
				}
			}
			d.Call = func(c *Ctx, ci CallInfo) {
				if ci.Callee != nil && ci.Callee.Name() == "Validate" && ci.Callee.Signature.Recv() != nil && isCfg(ci.Callee.Signature.Recv().Type()) {
					got[c.A().(string)] = true
				}
			}
			d.Run()
			r.Engine(d.E)
			if len(got) == 0 {
				continue
			}
			n++
			_ = written
			ok := len(got) == 1
			for k := range got {
				if lim == 0 {
					ok = ok && strings.HasSuffix(k, ".AggregatorCardinalityLimit")
				} else {
					ok = ok && k == fmt.Sprint(lim)
				}
			}
			r.Ob(R, ok, fn, fmt.Sprintf("view limit %d", lim), p.pos(fn.Pos()), "the limit becomes "+joinS(got))
		}
	}
	r.AtLeast(R, n, 3, "view limit table")
	m := 0
	for _, fn := range p.all {
		if !p.isLocal(fn) || pkgOf(fn) == nil || !strings.HasPrefix(pkgOf(fn).Path(), p.Module+"/"+mViewP) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa).Name() != "CardinalityLimit" || !isCfg(derefT(fa.X.Type())) {
					continue
				}
				if _, isPrm := fa.X.(*ssa.Parameter); isPrm {
					continue
				}
				m++
				r.Ob(R, validatedPerf(p, st.Val, 0), fn, "limit of a standard configuration", p.posOf(in), "not the validated performance setting")
			}
		}
	}
	r.AtLeast(R, m, 2, "standard configuration limit")
}

// validatedPerf: v is the AggregatorCardinalityLimit of the result of Performance.Validate.
func validatedPerf(p *Prog, v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && validatedPerf(p, x.X, depth+1)
	case *ssa.FieldAddr:
		n := fieldOf(x).Name()
		return (n == "AggregatorCardinalityLimit" || n == "Performance") && validatedPerf(p, x.X, depth+1)
	case *ssa.Field:
		return validatedPerf(p, x.X, depth+1)
	case *ssa.FreeVar:
		par := x.Parent().Parent()
		if par == nil {
			return false
		}
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() {
					for i, fv := range x.Parent().FreeVars {
						if fv == x {
							return validatedPerf(p, mc.Bindings[i], depth+1)
						}
					}
				}
			}
		}
	case *ssa.Alloc:
		// the last store decides; initial stores of a parameter are overwritten
		ok := false
		for _, ref := range *x.Referrers() {
			if st, isS := ref.(*ssa.Store); isS && st.Addr == x {
				ok = ok || validatedPerf(p, st.Val, depth+1)
			}
		}
		return ok
	case *ssa.Call:
		c := x.Call.StaticCallee()
		return c != nil && fullName(c) == p.repoName(mInst, "Performance")+".Validate"
	}
	return false
}
