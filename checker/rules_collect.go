package main

// P06 (time interval and temporality) and P07 (delta reset, cumulative
// persistence): symbolic accounting of what each collector does with each
// series.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P06", ruleIntervals)
	register("P07", ruleResets)
}

// ccSt is the state of one pass of a collector over one series.  Storage
// contents are symbolic: V the series' value, P the value reported before,
// D = V-P, 0 empty.
type ccSt struct {
	in             bool   // inside an iteration
	e, pv          string // series storage, prior storage
	oKey, oVal     string // another storage and its content
	prior          int8   // 1 a prior value exists, 2 none
	pts            int8   // points added in this iteration
	aggLoc         string // storage behind the point
	tempo          string
	start, end     string
	attr           string
	change         int8 // 1 changed, 2 unchanged
	chVal          string
	deleted        bool
	isOf           int8 // 1 this is the overflow series, 2 not
	ofSeen         bool
	ofCopied       string
	ofVar          string // variable remembering the overflow series
	ofUndec        bool   // a series passed without being compared with the overflow set
	ofPost         bool   // the overflow series was looked up after the iteration
	ranges         int8
	done, brk      bool
	loads          string // reads of the collected map before it is replaced
	data, priorMap string // what the maps hold at the end: "", fresh, data
	bad            string
}

type outcome struct {
	st  ccSt
	pos string
	tr  []string
}

type collectInfo struct {
	fn    *ssa.Function
	typ   string // collector type
	iters []outcome
	exits []outcome
	n     int
}

// collectors evaluates every Collect implementation.
func collectors(p *Prog, r *Report) []*collectInfo {
	var out []*collectInfo
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool {
		return f.Name() == "Collect" && f.Signature.Recv() != nil && pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mView && len(f.Blocks) > 0 && f.Synthetic == "" || f.Name() == "Collect" && f.Origin() != nil && pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mView
	}) {
		out = append(out, evalCollect(p, r, fn))
	}
	return out
}

func seriesLoc(p *Prog, t *Term) string {
	u := t.Strip()
	if u.Op == "&" && len(u.Args) == 1 {
		u = u.Args[0]
	}
	base, _ := u.Path()
	base = base.Strip()
	for base.Op == "load" && len(base.Args) == 1 {
		base = base.Args[0].Strip()
	}
	switch base.Op {
	case "elem":
		if base.Args[0].Typ != nil && isSeriesMap(p, base.Args[0].Typ) {
			return "E"
		}
	case "lookup":
		if len(base.Args) == 2 && base.Args[0].Typ != nil && isSeriesMap(p, base.Args[0].Typ) {
			if k := base.Args[1].Strip(); k.Op == "ekey" {
				if len(k.Args) == 1 && k.Args[0].Key() == base.Args[0].Key() {
					return "E"
				}
				return "P"
			}
			return "other series"
		}
	}
	return "O:" + u.Key()
}

func evalCollect(p *Prog, r *Report, fn *ssa.Function) *collectInfo {
	ci0 := &collectInfo{fn: fn, typ: originName(derefT(fn.Signature.Recv().Type()))}
	if i := strings.LastIndex(ci0.typ, "."); i >= 0 {
		ci0.typ = ci0.typ[i+1:]
	}
	seen := map[string]bool{}
	loops := map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}
	lp := func(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
		if loops[f] == nil {
			loops[f] = loopsOf(f)
		}
		return loops[f]
	}
	dataLoop := func(c *Ctx, b *ssa.BasicBlock) bool {
		l := lp(c.F.Fn)[b]
		return l != nil && l.Coll != nil && isSeriesMap(p, l.Coll.Type())
	}
	get := func(s *ccSt, loc string) string {
		switch {
		case loc == "E":
			return s.e
		case loc == "P":
			return s.pv
		case loc == s.oKey:
			return s.oVal
		}
		return "unknown"
	}
	set := func(s *ccSt, loc, v string) {
		switch loc {
		case "E":
			s.e = v
		case "P":
			s.pv = v
		case "other series":
			s.bad = "writes the storage of another series"
		default:
			s.oKey, s.oVal = loc, v
		}
	}
	isPoint := func(t types.Type) bool { return isNamedType(t, p.repoName(mData, "Point")) }
	isInst := func(t types.Type) bool { return isNamedType(t, p.repoName(mData, "Instrument")) }
	seqField := func(t *Term) string {
		_, path := t.Strip().Path()
		if len(path) > 0 && strings.HasSuffix(fmt.Sprint(t.Strip().Typ), "time.Time") {
			return "seq." + path[len(path)-1]
		}
		return t.Key()
	}
	rel := inlineRelevant(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			return isPoint(derefT(x.X.Type())) || isInst(derefT(x.X.Type()))
		case *ssa.MapUpdate:
			return isSeriesMap(p, x.Map.Type())
		case *ssa.Range:
			return isSeriesMap(p, x.X.Type())
		case *ssa.Store:
			return isSeriesMap(p, x.Val.Type())
		}
		return false
	})
	h := Hooks{}
	isRealloc := func(g *ssa.Function) bool { return g != nil && fullName(g) == p.repoName(mData, "ReallocateFrom") }
	h.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
		if isRealloc(g) || pkgOf(g) != nil && strings.HasPrefix(pkgOf(g).Path(), p.Module+"/"+mAgg) {
			return false
		}
		return rel(fr, c, g)
	}
	h.Eval = func(e *Engine, f *Facts, rr VRef) (Fact, bool) {
		if ex, ok := rr.V.(*ssa.Extract); ok {
			if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 2 {
				if rg, ok := nx.Iter.(*ssa.Range); ok && isSeriesMap(p, rg.X.Type()) {
					return Fact{K: FNonNil}, true
				}
			}
		}
		return Fact{}, false
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		s := c.A().(ccSt)
		if b, ok := ci.Common.Value.(*ssa.Builtin); ok {
			if b.Name() == "delete" && isSeriesMap(p, ci.Common.Args[0].Type()) {
				s.deleted = true
				c.Set(s)
			}
			if b.Name() == "clear" && isSeriesMap(p, ci.Common.Args[0].Type()) {
				s.data = "cleared"
				c.Set(s)
			}
			return
		}
		if isRealloc(ci.Callee) {
			if pt, ok := ci.Common.Args[0].Type().Underlying().(*types.Pointer); ok {
				if sl, ok := pt.Elem().Underlying().(*types.Slice); ok && isPoint(sl.Elem()) {
					s.pts++
					s.aggLoc, s.tempo, s.start, s.end, s.attr = "", "", "", "", ""
					if s.pts > 3 {
						s.pts = 3
					}
					c.Set(s)
				}
			}
			return
		}
		if ci.Callee == nil || ci.Callee.Signature.Recv() == nil || pkgOf(ci.Callee) == nil || !strings.HasPrefix(pkgOf(ci.Callee).Path(), p.Module+"/"+mAgg+"/") {
			return
		}
		arg := func(i int) string {
			t := c.Arg(i)
			if s.aggLoc != "" && s.pts > 0 && strings.Contains(t.Key(), ".Methods.ToStorage") && strings.Contains(t.Key(), ".Aggregation") && lastPoint(t) {
				return s.aggLoc
			}
			return seriesLoc(p, t)
		}
		switch ci.Callee.Name() {
		case "Move":
			v := get(&s, arg(1))
			set(&s, arg(1), "0")
			set(&s, arg(2), v)
		case "Copy":
			a1 := c.Arg(1)
			v := get(&s, arg(1))
			if !s.in {
				v = "other"
				b, _ := a1.Strip().NoAddr().Path()
				b = b.Strip()
				if s.ofVar != "" && (b.Op == "phi" || b.Op == "cyc") && b.Ref.V != nil && b.Ref.V.Name() == s.ofVar {
					v = "series"
				}
				if b.Op == "lookup" && isOverflowSet(p, b.Args[1]) {
					v = "series"
				}
			}
			set(&s, arg(2), v)
		case "Merge":
			if get(&s, arg(2)) == "0" {
				set(&s, arg(2), get(&s, arg(1)))
			} else if get(&s, arg(1)) != "0" {
				set(&s, arg(2), get(&s, arg(2))+"+"+get(&s, arg(1)))
			}
		case "SubtractSwap":
			op, a := get(&s, arg(1)), get(&s, arg(2))
			switch {
			case op == "P" && a == "V":
				set(&s, arg(1), "D")
			case op == "0":
				set(&s, arg(1), a)
			default:
				set(&s, arg(1), "("+a+"-"+op+")")
			}
		case "Init":
			set(&s, arg(1), "0")
		case "Update":
			set(&s, arg(1), "updated")
		case "HasChange":
			v := get(&s, arg(1))
			for _, b := range []bool{true, false} {
				s2 := s
				s2.chVal = v
				s2.change = 2
				if b {
					s2.change = 1
				}
				c.Fork(s2, map[int]Fact{0: factBool(b)})
			}
			return
		}
		c.Set(s)
	}
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		s := c.A().(ccSt)
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "has" && len(t.Args) == 2 && t.Args[0].Typ != nil && isSeriesMap(p, t.Args[0].Typ) && t.Args[1].Strip().Op == "ekey" {
			s.prior = 2
			if taken {
				s.prior = 1
			}
		}
		if t.Op == "has" && len(t.Args) == 2 && t.Args[0].Typ != nil && isSeriesMap(p, t.Args[0].Typ) && isOverflowSet(p, t.Args[1]) && !s.in {
			s.ofPost, s.ofSeen = true, taken
		}
		if t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && len(t.Args) == 2 {
			a, b := t.Args[0].Strip(), t.Args[1].Strip()
			if isOverflowSet(p, b) {
				a, b = b, a
			}
			if isOverflowSet(p, a) && b.Op == "ekey" {
				s.isOf = 2
				if taken == (t.Sub == "==") {
					s.isOf = 1
					s.ofSeen = true
				}
			}
			if b.Op == "lookup" {
				a, b = b, a
			}
			if a.Op == "lookup" && b.Op == "const" && a.Args[0].Typ != nil && isSeriesMap(p, a.Args[0].Typ) && a.Args[1].Strip().Op == "ekey" {
				s.prior = 1
				if taken == (t.Sub == "==") {
					s.prior = 2
				}
			}
			if a.Op == "lookup" && b.Op == "const" && a.Args[0].Typ != nil && isSeriesMap(p, a.Args[0].Typ) && isOverflowSet(p, a.Args[1]) && !s.in {
				s.ofPost, s.ofSeen = true, taken != (t.Sub == "==")
			}
		}
		c.Set(s)
	}
	h.Instr = func(c *Ctx) {
		s := c.A().(ccSt)
		switch x := c.In.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && isSeriesMap(p, x.Type()) && fieldOf(fa).Name() == "data" && s.data == "" && !strings.Contains(s.loads, vkey(VRef{c.F, x})+";") {
				s.loads += vkey(VRef{c.F, x}) + ";"
				c.Set(s)
			}
		case *ssa.Range:
			if isSeriesMap(p, x.X.Type()) {
				s.ranges++
				if _, path := c.T(x.X).Strip().Path(); len(path) == 0 || path[len(path)-1] != "data" {
					s.bad = "iterates over " + c.T(x.X).Key()
				}
				c.Set(s)
			}
		case *ssa.MapUpdate:
			if !isSeriesMap(p, x.Map.Type()) {
				return
			}
			if isOverflowSet(p, c.T(x.Key)) {
				k := seriesLoc(p, c.T(x.Value))
				v := s.oVal
				if !strings.HasPrefix(strings.TrimPrefix(s.oKey, "O:"), strings.TrimPrefix(k, "O:")) {
					v = "unknown"
				}
				s.ofCopied = s.data + " " + v
				c.Set(s)
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			owner := derefT(fa.X.Type())
			name := fieldOf(fa).Name()
			switch {
			case isPoint(owner):
				t := c.T(x.Val)
				switch name {
				case "Attributes":
					s.attr = t.Strip().Op
				case "Temporality":
					s.tempo = t.Strip().Key()
					if t.Strip().C != nil {
						s.tempo = tempoName(p, t.Strip())
					}
				case "Start":
					s.start = seqField(t)
				case "End":
					s.end = seqField(t)
				case "Aggregation":
					s.aggLoc = "unknown " + t.Key()
					if u := t.Strip(); u.Op == "call" && strings.HasSuffix(u.Sub, "ToAggregation") {
						s.aggLoc = seriesLoc(p, u.Args[len(u.Args)-1])
					}
				}
				c.Set(s)
			case isInst(owner) && name == "Points":
				if sl, ok := x.Val.(*ssa.Slice); ok && sl.High != nil {
					ht := c.T(sl.High).Strip()
					if ht.Op == "bin" && ht.Sub == "-" && len(ht.Args) == 2 && strings.HasSuffix(ht.Args[0].Strip().Op+ht.Args[0].Strip().Sub, "len") && ht.Args[1].Key() == "1" {
						s.pts--
						c.Set(s)
						return
					}
				}
				if sl, ok := x.Val.(*ssa.Slice); ok && sl.High != nil && s.pts == 0 && c.T(sl.High).Strip().Key() == "0" {
					return // emptied before the first point
				}
				s.bad = "rewrites the list of points"
				c.Set(s)
			case isSeriesMap(p, x.Val.Type()):
				v := "unknown"
				if _, ok := x.Val.(*ssa.MakeMap); ok {
					v = "fresh"
				} else if _, path := c.T(x.Val).Strip().Path(); len(path) > 0 {
					v = path[len(path)-1]
					src := c.E.strip(VRef{c.F, x.Val})
					if v == "data" && s.data != "" && !strings.Contains(s.loads, vkey(src)+";") {
						v = s.data
					}
				}
				if name == "data" {
					s.data = v
				} else {
					s.priorMap = v
				}
				if s.in {
					s.bad = "replaces a series map during the iteration"
				}
				c.Set(s)
			}
		}
	}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		s := c.A().(ccSt)
		if to.Dominates(from) && dataLoop(c, to) {
			if s.in {
				k := fmt.Sprint(s)
				if !seen[k] {
					seen[k] = true
					ci0.iters = append(ci0.iters, outcome{s, p.posOf(to.Instrs[len(to.Instrs)-1]), c.Trace()})
				}
			}
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok || pred >= len(ph.Edges) {
					continue
				}
				if pt, ok := ph.Type().(*types.Pointer); !ok || namedOf(pt.Elem()) == nil {
					continue
				}
				if t := c.T(ph.Edges[pred]).Strip(); t.Op == "elem" {
					if s.isOf == 1 {
						s.ofVar = ph.Name()
					} else if s.ofVar == ph.Name() || s.ofVar == "" {
						s.ofVar = "?"
					}
				}
			}
			if s.isOf == 0 {
				s.ofUndec = true
			}
			c.Set(ccSt{loads: s.loads, ofVar: s.ofVar, ofUndec: s.ofUndec, ranges: s.ranges, ofSeen: s.ofSeen, data: s.data, priorMap: s.priorMap, bad: s.bad})
			return
		}
		if s.in {
			for hd, l := range lp(c.F.Fn) {
				if l.Header != from && l.Body[from] && !l.Body[to] && dataLoop(c, hd) {
					s.brk = true
				}
			}
		}
		if dataLoop(c, from) && len(from.Succs) == 2 {
			if to == from.Succs[0] {
				s = ccSt{loads: s.loads, ofVar: s.ofVar, ofUndec: s.ofUndec, in: true, e: "V", pv: "P", ranges: s.ranges, ofSeen: s.ofSeen, data: s.data, priorMap: s.priorMap, bad: s.bad}
			} else {
				s.done, s.in = true, false
			}
		}
		c.Set(s)
	}
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
		if panics {
			return
		}
		s := c.A().(ccSt)
		k := "exit" + fmt.Sprint(s)
		if !seen[k] {
			seen[k] = true
			ci0.exits = append(ci0.exits, outcome{s, p.pos(fn.Pos()), c.Trace()})
		}
	}
	e := newEngine(p, h)
	e.RunWith(fn, ccSt{}, nil)
	r.Engine(e)
	return ci0
}

func tempoName(p *Prog, t *Term) string {
	_, tkv := p.enumConsts(mAggn, "Temporality")
	for n, v := range tkv {
		if t.C != nil && v.ExactString() == t.C.ExactString() {
			return n
		}
	}
	return t.Key()
}

// collectorRoles: which collector serves which kind of output, from Compile.
func collectorRoles(p *Prog, r *Report, R string) map[string]string {
	env := newBuildEnv(p, r, R)
	roles := map[string]map[string]bool{}
	if env == nil {
		return nil
	}
	names := map[string]string{}
	for _, ik := range []string{"SyncCounter", "SyncUpDownCounter", "SyncHistogram", "SyncGauge", "AsyncCounter", "AsyncUpDownCounter", "AsyncGauge"} {
		if env.ikv[ik] == nil {
			continue
		}
		ak := map[bool]string{}
		_ = ak
		agg := "MonotonicSumKind"
		switch {
		case strings.HasSuffix(ik, "Gauge"):
			agg = "GaugeKind"
		case strings.HasSuffix(ik, "Histogram"):
			agg = "HistogramKind"
		case strings.Contains(ik, "UpDown"):
			agg = "NonMonotonicSumKind"
		}
		for _, tempo := range []string{"CumulativeTemporality", "DeltaTemporality"} {
			for _, nk := range []string{"Int64Kind", "Float64Kind"} {
				role := "cumulative"
				if tempo == "DeltaTemporality" && !(strings.HasPrefix(ik, "Async") && agg == "GaugeKind") {
					role = "delta"
				}
				if strings.HasPrefix(ik, "Sync") {
					role = "sync " + role
				} else {
					role = "async " + role
				}
				for g := range runBuild(p, r, env.fn, env.isRec, env.hintField, env.ikv[ik], env.akv[agg], env.tkv[tempo], env.nkv[nk], false) {
					f := strings.Fields(g)
					if len(f) == 0 {
						continue
					}
					if roles[f[0]] == nil {
						roles[f[0]] = map[string]bool{}
					}
					roles[f[0]][role] = true
				}
			}
		}
	}
	n := 0
	for t, rs := range roles {
		n++
		r.Ob(R, len(rs) == 1, nil, "collector "+t, "", "one collector serves "+joinS(rs))
		for x := range rs {
			names[t] = x
		}
	}
	r.AtLeast(R, n, 2, "collector type")
	return names
}

func roleOf(roles map[string]string, typ string) string {
	typ = strings.TrimPrefix(typ, "*")
	if i := strings.Index(typ, "["); i >= 0 {
		typ = typ[:i]
	}
	return roles[typ]
}

func ruleIntervals(p *Prog, r *Report) {
	const R = "point-interval"
	r.Rule(R, "path-sensitive provenance through every collector: on every path that reports a point, its end is the collection's Now, its start is Last for a delta output and Start for a cumulative one, its temporality is that of the output the compiler chose the collector for, and its attributes are the series' own")
	roles := collectorRoles(p, r, R)
	n := 0
	for _, ci := range collectors(p, r) {
		role := roleOf(roles, ci.typ)
		if role == "" {
			continue
		}
		wantT, wantS := "CumulativeTemporality", "seq.Start"
		if strings.HasSuffix(role, "delta") {
			wantT, wantS = "DeltaTemporality", "seq.Last"
		}
		for _, o := range ci.iters {
			if o.st.pts < 1 {
				continue
			}
			n++
			s := o.st
			r.Ob(R, s.tempo == wantT, ci.fn, role+" point temporality", o.pos, "temporality "+orStr(s.tempo, "not set"), o.tr...)
			r.Ob(R, s.start == wantS, ci.fn, role+" point start", o.pos, "start is "+orStr(s.start, "not set"), o.tr...)
			r.Ob(R, s.end == "seq.Now", ci.fn, role+" point end", o.pos, "end is "+orStr(s.end, "not set"), o.tr...)
			r.Ob(R, s.attr == "ekey", ci.fn, role+" point attributes", o.pos, "attributes are "+orStr(s.attr, "not set"), o.tr...)
		}
	}
	r.AtLeast(R, n, 4, "point path")
	ruleSequence(p, r)
}

func orStr(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

type seqSt struct {
	held       bool
	last       string // term key of the previous time read in this critical section
	lastIn     int8
	now        string
	nowLocked  bool
	stored     string
	s, l, n    string
	readAfter  bool
	sections   int8
	collecting bool
}

// ruleSequence: the producer's interval bookkeeping.
func ruleSequence(p *Prog, r *Report) {
	const R = "interval-bookkeeping"
	r.Rule(R, "on every path of a collection: the previous collection time is read, the clock is read, and the clock reading is stored as the new previous time within one critical section; the sequence handed to the collectors is (provider start, that previous time, that clock reading); the previous time starts as the provider's start, which is set once from the clock")
	fns := p.instancesOf(func(f *ssa.Function) bool {
		return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mMetric && f.Name() == "Produce" && f.Signature.Recv() != nil
	})
	isSeq := func(t types.Type) bool { return isNamedType(t, p.repoName(mData, "Sequence")) }
	n := 0
	var lastField *types.Var
	for _, fn := range fns {
		rel := inlineRelevant(p, func(in ssa.Instruction) bool {
			if isLockCall(in) {
				return pkgOf(in.Parent()) != nil && pkgOf(in.Parent()).Path() == p.Module+"/"+mMetric
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				return isSeq(derefT(x.X.Type())) || fieldOf(x).Type().String() == "time.Time" && fieldOf(x).Pkg() != nil && fieldOf(x).Pkg().Path() == p.Module+"/"+mMetric
			}
			return false
		})
		h := Hooks{}
		h.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
			for i := 0; i < g.Signature.Params().Len(); i++ {
				if isSeq(tupT(g.Signature.Params(), i)) {
					return false
				}
			}
			return rel(fr, c, g)
		}
		isLast := func(a ssa.Value) bool {
			fa, ok := a.(*ssa.FieldAddr)
			if !ok || fieldOf(fa).Type().String() != "time.Time" {
				return false
			}
			nm := namedOf(derefT(fa.X.Type()))
			return nm != nil && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == p.Module+"/"+mMetric && types.Identical(derefT(fa.X.Type()), derefT(fn.Signature.Recv().Type()))
		}
		h.Call = func(c *Ctx, ci CallInfo) {
			s := c.A().(seqSt)
			if op := lockOp(ci.Callee); op != "" && ci.Callee != nil {
				recv := c.Arg(0)
				if recv.Typ != nil && namedOf(derefT(fn.Signature.Recv().Type())) != nil {
					base, _ := recv.Strip().Path()
					_ = base
				}
				if !strings.Contains(c.Arg(0).Key(), "provider") {
					switch op {
					case "Lock":
						s.held = true
						s.sections++
					case "Unlock":
						s.held = false
					}
					c.Set(s)
				}
			}
			if ci.Callee != nil && fullName(ci.Callee) == "time.Now" {
				if v, ok := ci.Site.(ssa.Value); ok {
					s.now = c.T(v).Strip().Key()
				}
				s.nowLocked = s.held
				c.Set(s)
			}
			for i := range ci.Common.Args {
				if isSeq(ci.Common.Args[i].Type()) {
					n++
					t := c.Arg(i)
					fields := map[string]*Term{}
					for _, f := range []string{"Start", "Last", "Now"} {
						fields[f] = subField(c.E, t, []string{f}, c.St.F, 0).Strip()
					}
					r.Ob(R, isStartTime(p, fields["Start"]), fn, "sequence start", c.Pos(), "start is "+fields["Start"].Key(), c.Trace()...)
					r.Ob(R, s.stored != "" && fields["Now"].Key() == s.stored, fn, "sequence end", c.Pos(), fmt.Sprintf("the end of the interval (%s) is not the time remembered for the next collection (%s)", fields["Now"].Key(), orStr(s.stored, "nothing")), c.Trace()...)
					r.Ob(R, s.last != "" && fields["Last"].Key() == s.last, fn, "sequence last", c.Pos(), "the previous time is "+fields["Last"].Key(), c.Trace()...)
				}
			}
		}
		h.Instr = func(c *Ctx) {
			s := c.A().(seqSt)
			switch x := c.In.(type) {
			case *ssa.UnOp:
				if isLast(x.X) {
					lastField = fieldOf(x.X.(*ssa.FieldAddr))
					r.Ob(R, s.held, fn, "previous time read", c.Pos(), "read outside the critical section", c.Trace()...)
					if s.stored == "" {
						s.last = c.T(x).Strip().Key()
						s.sections = 1
					}
					c.Set(s)
				}
			case *ssa.Store:
				if isLast(x.Addr) {
					t := c.T(x.Val).Strip()
					s.stored = t.Key()
					r.Ob(R, s.held && s.sections == 1, fn, "previous time written", c.Pos(), "read and update of the previous collection time are not one critical section", c.Trace()...)
					r.Ob(R, s.last != "", fn, "previous time read first", c.Pos(), "the previous time is overwritten before it was read", c.Trace()...)
					r.Ob(R, s.stored == s.now && s.nowLocked, fn, "clock read in the critical section", c.Pos(), "the remembered time is not the clock reading taken inside the critical section ("+t.Key()+")", c.Trace()...)
					c.Set(s)
				}
			}
		}
		e := newEngine(p, h)
		e.RunWith(fn, seqSt{}, nil)
		r.Engine(e)
	}
	r.AtLeast(R, n, 1, "sequence handed to a collector")
	// initial value of the previous time, and the provider's start
	m := 0
	for _, fn := range p.all {
		if !p.isLocal(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				e := newEngine(p, Hooks{})
				fr := e.frame(nil, nil, fn, nil, nil)
				switch f := fieldOf(fa); {
				case f == lastField && fn.Name() != "Produce" && isAllocBase(fa.X):
					m++
					t := e.Term(emptyFacts, VRef{fr, st.Val}).Strip()
					r.Ob(R, isStartTime(p, t), fn, "first interval", p.posOf(in), "the first delta interval does not begin at the provider's start: "+t.Key())
				case f.Name() == "startTime" && f.Pkg().Path() == p.Module+"/"+mMetric:
					m++
					c, isCall := st.Val.(*ssa.Call)
					r.Ob(R, isAllocBase(fa.X) && isCall && c.Call.StaticCallee() != nil && fullName(c.Call.StaticCallee()) == "time.Now", fn, "provider start", p.posOf(in), "the provider's start is not the clock reading at construction")
				}
			}
		}
	}
	r.AtLeast(R, m, 2, "initial time")
}

func isAllocBase(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func isStartTime(p *Prog, t *Term) bool {
	base, path := t.Path()
	_ = base
	return len(path) > 0 && path[len(path)-1] == "startTime"
}

func ruleResets(p *Prog, r *Report) {
	const R = "series-accounting"
	r.Rule(R, "symbolic accounting through every collector: for each series (value V, previously reported P) each path reports exactly the specified amount and leaves exactly the specified remainder: synchronous delta moves V out (reported unless unchanged, nothing remains), cumulative outputs report V and keep it, asynchronous delta reports V-P (V when new, nothing when unchanged) and remembers V")
	const R2 = "series-retention"
	r.Rule(R2, "whole-map rule: every collector visits every series once; synchronous outputs keep their map (delta outputs may drop unchanged, unreferenced series), asynchronous outputs begin the next collection with an empty map, remembering the collected one as previous for delta; an asynchronous delta overflow series carries its cumulative value forward")
	roles := collectorRoles(p, r, R)
	cis := collectors(p, r)
	seen := map[string]bool{}
	n := 0
	for _, ci := range cis {
		role := roleOf(roles, ci.typ)
		if role == "" {
			continue
		}
		seen[role] = true
		r.Ob(R, len(ci.iters) > 0, ci.fn, role+" iteration", p.pos(ci.fn.Pos()), "the collector never iterates over its series")
		for _, o := range ci.iters {
			n++
			s := o.st
			val := "none"
			if s.pts >= 1 {
				switch {
				case s.aggLoc == "":
					val = "nothing"
				case s.aggLoc == "E" && role != "async cumulative":
					val = "the live storage of the series"
				case s.aggLoc == "E":
					val = s.e
				case s.aggLoc == "P":
					val = s.pv
				case s.aggLoc == s.oKey:
					val = s.oVal
				default:
					val = "unknown"
				}
			}
			if s.pts > 1 {
				val = "several points"
			}
			var ok bool
			want := ""
			switch role {
			case "sync delta":
				want = "V reported once, nothing kept; unchanged series not reported"
				switch s.change {
				case 1:
					ok = val == "V" && s.e == "0" && s.chVal == "V" && !s.deleted
				case 2:
					ok = val == "none" && s.chVal == "V"
				}
			case "sync cumulative":
				want = "V reported, V kept"
				ok = val == "V" && s.e == "V" && !s.deleted && s.change == 0
			case "async cumulative":
				want = "V reported"
				ok = val == "V" && s.change == 0
			case "async delta":
				want = "V-P reported (V if new, nothing if unchanged), V remembered"
				switch {
				case s.prior == 1 && s.change == 1:
					ok = val == "D" && s.chVal == "D"
				case s.prior == 1 && s.change == 2:
					ok = val == "none" && s.chVal == "D"
				case s.prior == 2:
					ok = val == "V" && s.change != 2 || val == "none" && s.change == 2 && s.chVal == "V"
				}
				ok = ok && s.e == "V" && !s.deleted
			}
			desc := fmt.Sprintf("reported %s, left in the series %s", val, s.e)
			switch s.change {
			case 1:
				desc += ", changed " + s.chVal
			case 2:
				desc += ", unchanged " + s.chVal
			}
			if s.prior == 1 {
				desc += ", previous value known"
			}
			if s.deleted {
				desc += ", deleted"
			}
			r.Ob(R, ok && s.bad == "", ci.fn, role+" series", o.pos, desc+" "+s.bad+"; specified: "+want, o.tr...)
		}
		r.Ob(R2, len(ci.exits) > 0, ci.fn, role+" exit", p.pos(ci.fn.Pos()), "no exit analysed")
		for _, o := range ci.exits {
			s := o.st
			n++
			r.Ob(R2, s.done && !s.in && !s.brk && s.ranges == 1 && s.bad == "", ci.fn, role+" visits every series once", o.pos, fmt.Sprintf("finished=%v left early=%v passes=%d %s", s.done, s.in || s.brk, s.ranges, s.bad), o.tr...)
			switch role {
			case "sync delta", "sync cumulative":
				r.Ob(R2, s.data == "" && s.priorMap == "", ci.fn, role+" keeps its series", o.pos, "the series map becomes "+s.data, o.tr...)
			case "async cumulative":
				r.Ob(R2, s.data == "fresh" || s.data == "cleared", ci.fn, role+" starts afresh", o.pos, "after a collection the series map is "+orStr(s.data, "kept"), o.tr...)
			case "async delta":
				r.Ob(R2, s.data == "fresh" && s.priorMap == "data", ci.fn, role+" remembers the collected series", o.pos, fmt.Sprintf("after a collection the series map is %s and the previous map is %s", orStr(s.data, "kept"), orStr(s.priorMap, "kept")), o.tr...)
				r.Ob(R2, !s.ofUndec || s.ofPost, ci.fn, role+" looks for the overflow series", o.pos, "a series is collected without deciding whether it is the overflow series, whose cumulative value must be carried forward", o.tr...)
				if s.ofSeen {
					r.Ob(R2, s.ofCopied == "fresh series", ci.fn, role+" carries the overflow series", o.pos, "the overflow series' cumulative value is not carried into the next collection: "+orStr(s.ofCopied, "not inserted"), o.tr...)
				} else {
					r.Ob(R2, s.ofCopied == "", ci.fn, role+" adds no overflow series", o.pos, "an overflow series is inserted without having been collected", o.tr...)
				}
			}
		}
	}
	var miss []string
	for _, x := range []string{"sync delta", "sync cumulative", "async delta", "async cumulative"} {
		if !seen[x] {
			miss = append(miss, x)
		}
	}
	sort.Strings(miss)
	r.Need(R, len(miss) == 0, "collectors", "no Collect implementation found for "+strings.Join(miss, ", "))
	r.AtLeast(R, n, 8, "collector path")
}

// lastPoint: the term goes through the last element of the point list, or the point just added.
func lastPoint(t *Term) bool {
	return t.Any(func(x *Term) bool {
		if x.Op == "index" && len(x.Args) == 2 {
			i := x.Args[1].Strip()
			return i.Op == "bin" && i.Sub == "-" && strings.HasSuffix(i.Args[0].Strip().Op+i.Args[0].Strip().Sub, "len") && i.Args[1].Key() == "1"
		}
		return x.Op == "call" && strings.HasSuffix(x.Sub, "ReallocateFrom") && len(x.Args) == 1 && strings.HasSuffix(x.Args[0].Key(), ".Points")
	})
}
