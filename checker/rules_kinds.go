package main

// P10: every instrument kind gets its specified aggregation.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P10", ruleKinds) }

func ruleKinds(p *Prog, r *Report) {
	ruleKindTables(p, r)
	ruleParseTables(p, r)
	ruleAggTraits(p, r)
	ruleBuild(p, r)
}

// evalTableFn runs fn with constants for some terms; outcomes are "a,b".
func evalTableFn(p *Prog, r *Report, fn *ssa.Function, vals map[string]constant.Value) map[string]bool {
	got := map[string]bool{}
	d := &Decide{P: p, Fn: fn, Vals: vals}
	d.Call = modelStrings
	d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
		if panics {
			got["panic"] = true
			return
		}
		var s []string
		for _, v := range refs {
			if cv, ok := c.E.constOf(c.St.F, VRef{c.F, v}); ok {
				s = append(s, cv.ExactString())
			} else if isNil, known := c.E.nilness(c.St.F, VRef{c.F, v}); known {
				if isNil {
					s = append(s, "nil")
				} else {
					s = append(s, "nonnil")
				}
			} else {
				s = append(s, "unknown")
			}
		}
		got[strings.Join(s, ",")] = true
	}
	d.Run()
	r.Engine(d.E)
	return got
}

// modelStrings folds the strings functions on constant arguments.
func modelStrings(c *Ctx, ci CallInfo) {
	str := func(i int) (string, bool) {
		cc := ci.Common
		if i >= len(cc.Args) {
			return "", false
		}
		v, ok := c.E.constOf(c.St.F, VRef{c.F, cc.Args[i]})
		if !ok || v.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(v), true
	}
	one := map[string]func(string) string{
		"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	}
	two := map[string]func(a, b string) bool{
		"strings.EqualFold": strings.EqualFold, "strings.Contains": strings.Contains,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	}
	n := ci.Full()
	if g, ok := one[n]; ok {
		if a, ok := str(0); ok {
			c.Fork(c.A(), map[int]Fact{0: {K: FConst, C: constant.MakeString(g(a))}})
		}
	}
	if g, ok := two[n]; ok {
		a, ok1 := str(0)
		b, ok2 := str(1)
		if ok1 && ok2 {
			c.Fork(c.A(), map[int]Fact{0: factBool(g(a, b))})
		}
	}
}

func ruleKindTables(p *Prog, r *Report) {
	const R = "kind-table"
	r.Rule(R, "constant propagation of each kind table for every declared instrument kind: synchrony, default aggregation and each temporality preference equal the specification")
	iks, ikv := p.enumConsts(mInst, "Kind")
	aks, akv := p.enumConsts(mAggn, "Kind")
	tks, tkv := p.enumConsts(mAggn, "Temporality")
	_, catv := p.enumConsts(mAggn, "Category")
	var kinds []string
	for _, k := range iks {
		if k != "NumKinds" {
			kinds = append(kinds, k)
		}
	}
	r.AtLeast(R, len(kinds), 7, "instrument kind")
	upDown := func(k string) bool { return strings.Contains(k, "UpDown") }
	name := func(v string) string {
		return v
	}
	_ = name
	check := func(rel, fnName string, fn *ssa.Function, want func(k string) constant.Value) {
		if !r.Need(R, fn != nil, fnName, "function not found") {
			return
		}
		for _, k := range kinds {
			got := evalTableFn(p, r, fn, map[string]constant.Value{"$0": ikv[k]})
			w := want(k)
			r.Ob(R, w != nil && len(got) == 1 && got[w.ExactString()], fn, fnName+"("+k+")", p.pos(fn.Pos()),
				fmt.Sprintf("%s(%s) yields %s, specified %v", fnName, k, joinS(got), w))
		}
	}
	check(mInst, "Kind.Synchronous", p.methodOf(mInst, "Kind", "Synchronous"), func(k string) constant.Value {
		return constant.MakeBool(strings.HasPrefix(k, "Sync"))
	})
	check(mInst, "Kind.HasTemporality", p.methodOf(mInst, "Kind", "HasTemporality"), func(k string) constant.Value {
		return constant.MakeBool(k != "AsyncGauge")
	})
	std := func(k string) string {
		switch {
		case strings.HasSuffix(k, "Histogram"):
			return "HistogramKind"
		case strings.HasSuffix(k, "Gauge"):
			return "GaugeKind"
		case upDown(k):
			return "NonMonotonicSumKind"
		}
		return "MonotonicSumKind"
	}
	check(mViewP, "StandardAggregationKind", p.fn(mViewP, "StandardAggregationKind"), func(k string) constant.Value { return akv[std(k)] })
	check(mViewP, "StandardTemporality", p.fn(mViewP, "StandardTemporality"), func(k string) constant.Value { return tkv["CumulativeTemporality"] })
	check(mViewP, "DeltaPreferredTemporality", p.fn(mViewP, "DeltaPreferredTemporality"), func(k string) constant.Value {
		if upDown(k) {
			return tkv["CumulativeTemporality"]
		}
		return tkv["DeltaTemporality"]
	})
	check(mAggn, "LowMemoryTemporality", p.fn(mAggn, "LowMemoryTemporality"), func(k string) constant.Value {
		if k == "SyncCounter" || k == "SyncHistogram" {
			return tkv["DeltaTemporality"]
		}
		return tkv["CumulativeTemporality"]
	})

	// validity
	valid := func(typ string, names []string, vals map[string]constant.Value) {
		fn := p.methodOf(mAggn, typ, "Valid")
		if !r.Need(R, fn != nil, typ+".Valid", "function not found") {
			return
		}
		ns := append([]string{}, names...)
		vs := map[string]constant.Value{"99": constant.MakeInt64(99)}
		for _, n := range ns {
			vs[n] = vals[n]
		}
		for n, v := range vs {
			got := evalTableFn(p, r, fn, map[string]constant.Value{"$0": v})
			want := fmt.Sprint(n != "99")
			r.Ob(R, len(got) == 1 && got[want], fn, typ+".Valid("+n+")", p.pos(fn.Pos()), fmt.Sprintf("yields %s, specified %s", joinS(got), want))
		}
	}
	valid("Kind", aks, akv)
	valid("Temporality", tks, tkv)

	// categories
	if fn := p.methodOf(mAggn, "Kind", "Category"); r.Need(R, fn != nil, "Kind.Category", "function not found") {
		for _, a := range aks {
			for _, k := range kinds {
				var w string
				switch a {
				case "AnySumKind":
					switch {
					case upDown(k):
						w = "NonMonotonicSumCategory"
					case strings.HasSuffix(k, "Gauge"):
						w = "UndefinedCategory"
					default:
						w = "MonotonicSumCategory"
					}
				case "MonotonicSumKind", "NonMonotonicSumKind", "GaugeKind", "HistogramKind":
					w = strings.TrimSuffix(a, "Kind") + "Category"
				case "MinMaxSumCountKind":
					w = "HistogramCategory"
				default:
					w = "UndefinedCategory"
				}
				got := evalTableFn(p, r, fn, map[string]constant.Value{"$0": akv[a], "$1": ikv[k]})
				wv := catv[w]
				r.Ob(R, wv != nil && len(got) == 1 && got[wv.ExactString()], fn, a+".Category("+k+")", p.pos(fn.Pos()),
					fmt.Sprintf("yields %s, specified %s", joinS(got), w))
			}
		}
	}
}

func ruleParseTables(p *Prog, r *Report) {
	const R = "name-table"
	r.Rule(R, "constant propagation of the parsers over every specified name in three spellings and unknown names: result and ok flag equal the specification; Temporality.String prints the parsed name")
	_, akv := p.enumConsts(mAggn, "Kind")
	tks, tkv := p.enumConsts(mAggn, "Temporality")
	mixed := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	run := func(fnName string, tab map[string]constant.Value, undef constant.Value) {
		fn := p.fn(mAggn, fnName)
		if !r.Need(R, fn != nil, fnName, "function not found") {
			return
		}
		var keys []string
		for k := range tab {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, sp := range []string{k, strings.ToUpper(k), mixed(k)} {
				got := evalTableFn(p, r, fn, map[string]constant.Value{"$0": constant.MakeString(sp)})
				want := tab[k].ExactString() + ",true"
				r.Ob(R, len(got) == 1 && got[want], fn, fnName+"("+sp+")", p.pos(fn.Pos()), fmt.Sprintf("yields %s, specified %s", joinS(got), want))
			}
		}
		for _, k := range []string{"", "x", "undefined", "sums", "delta_"} {
			got := evalTableFn(p, r, fn, map[string]constant.Value{"$0": constant.MakeString(k)})
			want := undef.ExactString() + ",false"
			r.Ob(R, len(got) == 1 && got[want], fn, fnName+"("+fmt.Sprintf("%q", k)+")", p.pos(fn.Pos()), fmt.Sprintf("yields %s, specified %s", joinS(got), want))
		}
	}
	if akv["UndefinedKind"] == nil || tkv["UndefinedTemporality"] == nil {
		r.Need(R, false, "constants", "aggregation constants not found")
		return
	}
	run("ParseKind", map[string]constant.Value{
		"drop": akv["DropKind"], "sum": akv["AnySumKind"], "monotonic_sum": akv["MonotonicSumKind"], "nonmonotonic_sum": akv["NonMonotonicSumKind"],
		"gauge": akv["GaugeKind"], "histogram": akv["HistogramKind"], "exponential_histogram": akv["HistogramKind"], "minmaxsumcount": akv["MinMaxSumCountKind"],
	}, akv["UndefinedKind"])
	run("ParseTemporality", map[string]constant.Value{"cumulative": tkv["CumulativeTemporality"], "delta": tkv["DeltaTemporality"]}, tkv["UndefinedTemporality"])
	if fn := p.methodOf(mAggn, "Temporality", "String"); r.Need(R, fn != nil, "Temporality.String", "function not found") {
		for _, k := range tks {
			want := fmt.Sprintf("%q", strings.ToLower(strings.TrimSuffix(k, "Temporality")))
			got := evalTableFn(p, r, fn, map[string]constant.Value{"$0": tkv[k]})
			r.Ob(R, len(got) == 1 && got[want], fn, k+".String", p.pos(fn.Pos()), fmt.Sprintf("yields %s, specified %s", joinS(got), want))
		}
	}
}

// ruleAggTraits: what each aggregator says it is.
func ruleAggTraits(p *Prog, r *Report) {
	const R = "aggregator-trait"
	r.Rule(R, "each aggregator's Methods.Kind and State.Kind return its own kind, and a sum's monotonicity flag agrees with its kind")
	_, akv := p.enumConsts(mAggn, "Kind")
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, f := range p.all {
		fn := f
		if fn.Synthetic != "" && fn.Origin() == nil || len(fn.Blocks) == 0 || seen[fn] {
			continue
		}
		seen[fn] = true
		rc := fn.Signature.Recv()
		pk := pkgOf(fn)
		if rc == nil || pk == nil || !strings.HasPrefix(pk.Path(), p.Module+"/"+mMetric+"/aggregator/") {
			continue
		}
		nm := namedOf(rc.Type())
		if nm == nil || nm.TypeParams().Len() > 0 && nm.TypeArgs().Len() == 0 || hasTypeParam(nm) {
			continue
		}
		var want string
		ts := nm.String()
		base := pk.Path()[strings.LastIndex(pk.Path(), "/")+1:]
		switch fn.Name() {
		case "Kind", "category":
		case "IsMonotonic":
		default:
			continue
		}
		if fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		mono := strings.Contains(ts, ".Monotonic]")
		switch base {
		case "sum":
			if !strings.Contains(ts, "onotonic]") {
				continue
			}
			if mono {
				want = "MonotonicSumKind"
			} else {
				want = "NonMonotonicSumKind"
			}
		case "gauge":
			want = "GaugeKind"
		case "histogram":
			want = "HistogramKind"
		case "minmaxsumcount":
			want = "MinMaxSumCountKind"
		default:
			continue
		}
		if !isNamedType(tupT(fn.Signature.Results(), 0), p.repoName(mAggn, "Kind")) && fn.Name() != "IsMonotonic" {
			continue
		}
		wv := ""
		if fn.Name() == "IsMonotonic" {
			wv = fmt.Sprint(mono)
		} else if akv[want] != nil {
			wv = akv[want].ExactString()
		}
		got := evalTableFn(p, r, fn, nil)
		n++
		r.Ob(R, len(got) == 1 && got[wv], fn, shortType(ts)+"."+fn.Name(), p.pos(fn.Pos()), fmt.Sprintf("yields %s, specified %s (%s)", joinS(got), wv, want))
	}
	r.AtLeast(R, n, 12, "aggregator trait method")
}

func hasTypeParam(n *types.Named) bool {
	for i := 0; i < n.TypeArgs().Len(); i++ {
		switch t := n.TypeArgs().At(i).(type) {
		case *types.TypeParam:
			return true
		case *types.Named:
			if hasTypeParam(t) {
				return true
			}
		}
	}
	return false
}

func shortType(s string) string {
	var b strings.Builder
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || strings.IndexByte("[],*", s[i]) >= 0 {
			seg := s[start:i]
			if j := strings.LastIndexByte(seg, '/'); j >= 0 {
				seg = seg[j+1:]
			}
			b.WriteString(seg)
			if i < len(s) {
				b.WriteByte(s[i])
			}
			start = i + 1
		}
	}
	return b.String()
}

// ruleBuild: which implementation Compile builds for a resolved behaviour.
func ruleBuild(p *Prog, r *Report) {
	const R = "implementation-table"
	r.Rule(R, "constant propagation through Compiler.Compile for every (instrument kind, requested aggregation, hinted, temporality, number kind): the implementation type built, its aggregator and whether a semantic conflict is reported equal the specification")
	env := newBuildEnv(p, r, R)
	if env == nil {
		return
	}
	fn, ikv, akv, tkv, nkv, isRec, hintField := env.fn, env.ikv, env.akv, env.tkv, env.nkv, env.isRec, env.hintField
	var kinds, aggs []string
	for k := range ikv {
		if k != "NumKinds" {
			kinds = append(kinds, k)
		}
	}
	for a := range akv {
		if a != "DropKind" {
			aggs = append(aggs, a)
		}
	}
	sort.Strings(kinds)
	sort.Strings(aggs)
	std := func(k string) string {
		switch {
		case strings.HasSuffix(k, "Histogram"):
			return "HistogramKind"
		case strings.HasSuffix(k, "Gauge"):
			return "GaugeKind"
		case strings.Contains(k, "UpDown"):
			return "NonMonotonicSumKind"
		}
		return "MonotonicSumKind"
	}
	resolve := func(k, a string, hinted bool) (string, bool) {
		if a == "AnySumKind" {
			switch {
			case strings.Contains(k, "UpDown"):
				a = "NonMonotonicSumKind"
			case strings.HasSuffix(k, "Gauge"):
				return std(k), true
			default:
				a = "MonotonicSumKind"
			}
		}
		if hinted {
			return a, false
		}
		ok := false
		switch {
		case k == "SyncCounter" || k == "SyncHistogram":
			ok = a == "MonotonicSumKind" || a == "NonMonotonicSumKind" || a == "HistogramKind" || a == "MinMaxSumCountKind"
		case strings.Contains(k, "UpDown"):
			ok = a == "NonMonotonicSumKind"
		case k == "AsyncCounter":
			ok = a == "MonotonicSumKind" || a == "NonMonotonicSumKind"
		default:
			ok = a == "GaugeKind"
		}
		if ok {
			return a, false
		}
		return std(k), true
	}
	n := 0
	for _, k := range kinds {
		for _, a := range aggs {
			for _, hinted := range []bool{false, true} {
				if hinted && (hintField == "" || a == "UndefinedKind") {
					continue
				}
				for _, tempo := range []string{"CumulativeTemporality", "DeltaTemporality"} {
					for _, nk := range []string{"Int64Kind", "Float64Kind"} {
						fk, bad := resolve(k, a, hinted)
						if hinted && strings.HasPrefix(k, "Async") && (fk == "HistogramKind" || fk == "MinMaxSumCountKind") {
							continue // not specified: asynchronous instruments have no histogram form
						}
						n++
						delta := tempo == "DeltaTemporality"
						var impl string
						switch {
						case strings.HasPrefix(k, "Sync") && delta:
							impl = "lowmemorySyncInstrument"
						case strings.HasPrefix(k, "Sync"):
							impl = "statefulSyncInstrument"
						case delta && fk != "GaugeKind":
							impl = "statefulAsyncInstrument"
						default:
							impl = "lowmemoryAsyncInstrument"
						}
						num := "int64"
						if nk == "Float64Kind" {
							num = "float64"
						}
						agg := map[string]string{"HistogramKind": "histogram.Methods", "MinMaxSumCountKind": "minmaxsumcount.Methods", "GaugeKind": "gauge.Methods"}[fk]
						switch fk {
						case "MonotonicSumKind":
							agg = "sum.Methods/sum.Monotonic"
						case "NonMonotonicSumKind":
							agg = "sum.Methods/sum.NonMonotonic"
						}
						want := impl + " " + num + " " + agg + " semantic=" + fmt.Sprint(bad)
						got := runBuild(p, r, fn, isRec, hintField, ikv[k], akv[a], tkv[tempo], nkv[nk], hinted)
						r.Ob(R, len(got) == 1 && got[want], fn, fmt.Sprintf("%s with %s hinted=%v %s %s", k, a, hinted, tempo, nk), p.pos(fn.Pos()),
							fmt.Sprintf("built %s, specified %s", joinS(got), want))
					}
				}
			}
		}
	}
	r.AtLeast(R, n, 300, "behaviour combination")
}

// buildEnv: the anchors needed to evaluate Compile for one behaviour.
type buildEnv struct {
	fn                 *ssa.Function
	ikv, akv, tkv, nkv map[string]constant.Value
	isRec              func(types.Type) bool
	hintField          string
}

func newBuildEnv(p *Prog, r *Report, R string) *buildEnv {
	fn := p.methodOf(mView, "Compiler", "Compile")
	if !r.Need(R, fn != nil, "Compiler.Compile", "function not found") {
		return nil
	}
	_, ikv := p.enumConsts(mInst, "Kind")
	_, akv := p.enumConsts(mAggn, "Kind")
	_, tkv := p.enumConsts(mAggn, "Temporality")
	_, nkv := p.enumConsts(mNumber, "Kind")
	vpath := p.Module + "/" + mView
	// the behaviour record: the viewstate struct with a Kind and a Temporality field
	var rec *types.Named
	for _, nm := range p.localNamed() {
		if nm.Obj().Pkg().Path() != vpath {
			continue
		}
		st, ok := nm.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		k, t := false, false
		for i := 0; i < st.NumFields(); i++ {
			k = k || isNamedType(st.Field(i).Type(), p.repoName(mAggn, "Kind"))
			t = t || isNamedType(st.Field(i).Type(), p.repoName(mAggn, "Temporality"))
		}
		if k && t {
			rec = nm
		}
	}
	if !r.Need(R, rec != nil, "behaviour record", "no struct holding the aggregation kind and temporality of a view behaviour") {
		return nil
	}
	rs := rec.Underlying().(*types.Struct)
	hintField := ""
	for i := 0; i < rs.NumFields(); i++ {
		if b, ok := rs.Field(i).Type().(*types.Basic); ok && b.Kind() == types.Bool {
			hintField = rs.Field(i).Name()
		}
	}
	isRec := func(t types.Type) bool { n := namedOf(t); return n != nil && n.Obj() == rec.Obj() }
	return &buildEnv{fn, ikv, akv, tkv, nkv, isRec, hintField}
}

type buildSt struct {
	impl string
	sem  string
}

func runBuild(p *Prog, r *Report, fn *ssa.Function, isRec func(types.Type) bool, hintField string, ik, ak, tk, nk constant.Value, hinted bool) map[string]bool {
	got := map[string]bool{}
	kindT, tempoT := p.repoName(mAggn, "Kind"), p.repoName(mAggn, "Temporality")
	ikT, nkT := p.repoName(mInst, "Kind"), p.repoName(mNumber, "Kind")
	vpath := p.Module + "/" + mView
	d := &Decide{P: p, Fn: fn, A0: buildSt{}}
	d.Loads = func(e *Engine, f *Facts, r VRef) (Fact, bool) {
		owner := func() (types.Type, string) {
			switch x := r.V.(type) {
			case *ssa.Field:
				return x.X.Type(), structOf(x.X.Type()).Field(x.Field).Name()
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					return fa.X.Type(), fieldOf(fa).Name()
				}
			}
			return nil, ""
		}
		t := r.V.Type()
		switch {
		case isNamedType(t, ikT):
			if _, ok := r.V.(*ssa.Call); !ok {
				return Fact{K: FConst, C: ik}, true
			}
		case isNamedType(t, nkT):
			if _, ok := r.V.(*ssa.Call); !ok {
				return Fact{K: FConst, C: nk}, true
			}
		case isNamedType(t, kindT):
			if o, _ := owner(); o != nil && isRec(o) {
				return Fact{K: FConst, C: ak}, true
			}
		case isNamedType(t, tempoT):
			if o, _ := owner(); o != nil && isRec(o) {
				return Fact{K: FConst, C: tk}, true
			}
		default:
			if o, nme := owner(); o != nil && isRec(o) && nme == hintField {
				return factBool(hinted), true
			}
		}
		return Fact{}, false
	}
	rel := inlineRelevant(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.MakeInterface:
			nm := namedOf(x.X.Type())
			return nm != nil && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == vpath && (strings.HasSuffix(nm.Obj().Name(), "Instrument") || types.Implements(x.X.Type(), errType()))
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				return isRec(fa.X.Type()) && fieldOf(fa).Type() == x.Val.Type() && isNamedType(x.Val.Type(), kindT)
			}
		}
		return false
	})
	d.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
		pk := pkgOf(g)
		if pk == nil || !p.isLocal(g) {
			return false
		}
		if rs := g.Signature.Results(); rs.Len() == 1 {
			// kind predicates and tables
			if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				pa := g.Signature.Params()
				small := true
				for i := 0; i < pa.Len(); i++ {
					if _, ok := pa.At(i).Type().Underlying().(*types.Basic); !ok {
						small = false
					}
				}
				return small
			}
		}
		return pk.Path() == vpath && rel(fr, c, g)
	}
	d.Instr = func(c *Ctx) {
		switch x := c.In.(type) {
		case *ssa.MakeInterface:
			nm := namedOf(x.X.Type())
			if nm == nil || nm.Obj().Pkg() == nil || nm.Obj().Pkg().Path() != vpath || !strings.HasSuffix(nm.Obj().Name(), "Instrument") || nm.TypeArgs().Len() == 0 || nm.Obj().Name() == "multiInstrument" {
				return
			}
			s := c.A().(buildSt)
			ts := nm.String()
			agg := ""
			for _, a := range []string{"histogram.Methods", "minmaxsumcount.Methods", "gauge.Methods", "sum.Methods"} {
				if strings.Contains(ts, a) {
					agg = a
				}
			}
			if agg == "sum.Methods" {
				if strings.Contains(ts, ".NonMonotonic]") {
					agg += "/sum.NonMonotonic"
				} else {
					agg += "/sum.Monotonic"
				}
			}
			num := nm.TypeArgs().At(0).String()
			s.impl = nm.Obj().Name() + " " + num + " " + agg
			c.Set(s)
		case *ssa.Store:
			// the Semantic field of the reported conflict
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || fieldOf(fa).Name() != "Semantic" {
				return
			}
			s := c.A().(buildSt)
			if isNil, known := c.E.nilness(c.St.F, VRef{c.F, x.Val}); known {
				if isNil {
					s.sem = "nil"
				} else {
					s.sem = "error"
				}
			} else {
				s.sem = "unknown"
			}
			c.Set(s)
		case *ssa.MapUpdate:
			// the new implementation is registered under its name: one behaviour done
		case *ssa.Call:
		}
	}
	d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {}
	// one behaviour: judged at the point where it is appended to the result
	d.Call = func(c *Ctx, ci CallInfo) {
		modelStrings(c, ci)
	}
	d.Branch = nil
	d.E = nil
	backEdge(d, fn, func(c *Ctx) {
		s := c.A().(buildSt)
		if s.impl == "" {
			return
		}
		sem := "false"
		switch s.sem {
		case "error":
			sem = "true"
		case "unknown":
			sem = "unknown"
		}
		got[s.impl+" semantic="+sem] = true
		c.Set(buildSt{})
	})
	d.Run()
	r.Engine(d.E)
	return got
}

// backEdge calls f whenever control returns to a loop header of fn, and
// forgets every fact at the headers of outermost loops (sound: facts only
// ever exclude paths), so that earlier loops do not multiply the states.
func backEdge(d *Decide, fn *ssa.Function, f func(c *Ctx)) {
	loops := loopsOf(fn)
	outer := func(h *ssa.BasicBlock) bool {
		if loops[h] == nil {
			return false
		}
		for g, l := range loops {
			if g != h && l.Body[h] {
				return false
			}
		}
		return true
	}
	d.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		if c.F.Fn != fn {
			return
		}
		if to.Dominates(from) && outer(to) {
			f(c)
		}
		if outer(to) {
			c.St.F = &Facts{m: map[string]Fact{}}
		}
	}
}

func errType() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}
