package main

// P12: the exported metric payload, compared with the collected data path by path.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P12", func(p *Prog, r *Report) {
		ruleMetricPayload(p, r)
		ruleHistogramForm(p, r)
		ruleAttrConversion(p, r)
		ruleResourceMap(p, r)
	})
}

var aggAccessors = map[string]bool{"Sum": true, "Gauge": true, "Min": true, "Max": true, "Count": true, "ZeroCount": true, "Scale": true, "Positive": true, "Negative": true}

// exportModel: the collected data's accessors, the payload and the consumer.
func exportModel(p *Prog) func(*XC) bool {
	aggPre := p.Module + "/" + mAgg
	return func(x *XC) bool {
		if pdataModel(x) {
			return true
		}
		n := x.Name
		m := n[strings.LastIndexByte(n, '.')+1:]
		switch {
		case (strings.HasPrefix(n, "invoke "+aggPre) && strings.HasSuffix(n, "Buckets."+m) || strings.HasPrefix(n, "github.com/lightstep/go-expohisto/structure.Buckets.")) && len(x.Args) > 0 && (m == "Len" || m == "At" || m == "Offset"):
			x.Quiet = true
			x.Res = []*Ex{{Op: "bk", Sub: m, Args: append([]*Ex{x.Args[0].bare()}, x.Args[1:]...), Typ: tupT(x.In.Common().Signature().Results(), 0)}}
			return true
		case (strings.HasPrefix(n, aggPre) || strings.HasPrefix(n, "invoke "+aggPre) || strings.HasPrefix(n, structureHist)) && aggAccessors[m] && len(x.Args) == 1:
			if strings.HasPrefix(n, structureHist) {
				return false
			}
			x.Quiet = true
			x.Res = []*Ex{{Op: "agg", Sub: m, Args: []*Ex{x.Args[0].bare()}, Typ: tupT(x.In.Common().Signature().Results(), 0)}}
			return true
		case m == "ConsumeMetrics" || m == "ConsumeTraces":
			x.Res = []*Ex{exNil(tupT(x.In.Common().Signature().Results(), 0))}
			return true
		}
		return false
	}
}

type pointKind struct {
	group string // sum, gauge, hist, mmsc
	mono  bool
	flt   bool
}

func aggTypes(p *Prog) map[string]pointKind {
	out := map[string]pointKind{}
	add := func(pkg, name string, k pointKind) {
		if pk := p.pkg(pkg); pk != nil {
			if o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				out["*"+canonType(o.Type())] = k
			}
		}
	}
	for _, f := range []bool{false, true} {
		s := "Int64"
		if f {
			s = "Float64"
		}
		add(mAgg+"/sum", "Monotonic"+s, pointKind{"sum", true, f})
		add(mAgg+"/sum", "NonMonotonic"+s, pointKind{"sum", false, f})
		add(mAgg+"/gauge", s, pointKind{"gauge", false, f})
		add(mAgg+"/histogram", s, pointKind{"hist", false, f})
		add(mAgg+"/minmaxsumcount", s, pointKind{"mmsc", false, f})
	}
	return out
}

// isAttrCopy: a function that converts an attribute set.
func isAttrCopy(p *Prog, fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	return p.isLocal(fn) && ps.Len() == 2 && typePath(ps.At(0).Type()) == pdataPkg+"pcommon.Map" && strings.HasSuffix(typePath(ps.At(1).Type()), "otel/attribute.Set")
}

// isResGet: a function that converts a resource.
func isResGet(p *Prog, fn *ssa.Function) bool {
	ps, rs := fn.Signature.Params(), fn.Signature.Results()
	return p.isLocal(fn) && ps.Len() == 1 && rs.Len() == 1 && strings.HasSuffix(typePath(derefT2(ps.At(0).Type())), "otel/sdk/resource.Resource") && typePath(rs.At(0).Type()) == pdataPkg+"pcommon.Resource"
}

func derefT2(t types.Type) types.Type {
	if isPtrT(t) {
		return derefT(t)
	}
	return t
}

func typePath(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return types.TypeString(t, nil)
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

type payload struct {
	p    *Prog
	r    *Report
	rule string
	fn   *ssa.Function
	o    *Outcome
	l    *lens
	pos  string
	ok   bool
}

func (c *payload) req(ok bool, what, detail string) bool {
	if !ok {
		c.ok = false
		c.r.Ob(c.rule, false, c.fn, what, c.pos, detail, c.o.Trace()...)
	}
	return ok
}

// val checks a setter's only value.
func (c *payload) val(n *pdNode, setter, want string) {
	v := n.one(setter)
	if v == nil {
		c.req(false, setter, "is called "+itoa(len(n.set[setter]))+" times on one object")
		return
	}
	c.req(normPath(v) == want, setter, "is given "+normPath(v)+" instead of "+want)
}

func (c *payload) only(n *pdNode, setters ...string) {
	for s := range n.set {
		ok := false
		for _, w := range setters {
			ok = ok || s == w
		}
		c.req(ok, s, "is not expected here")
	}
	c.req(n.bad == "", "payload", "changed by "+n.bad)
}

// elems: the number of elements a path went through.
func (c *payload) elems(coll string) int {
	n, ok := c.l.exact(coll)
	if !ok {
		c.req(false, coll, "the path leaves before the end of the collection")
		return -1
	}
	return n
}

func ruleMetricPayload(p *Prog, r *Report) {
	const R = "metric-payload"
	r.Rule(R, "effect summary of the export function on every path (loops up to the bound): the payload handed to the consumer, as a tree, is compared with the collected data: one element per scope, instrument and point under its own parent, each setter called once with the value of the field it represents, buckets and attributes complete")
	fn := p.fn(mExport, "ExportMetrics")
	if !r.Need(R, fn != nil && len(fn.Blocks) > 0, "ExportMetrics", "not found") {
		return
	}
	data, exp := -1, -1
	for i, q := range fn.Params {
		if isNamedType(q.Type(), p.repoName(mData, "Metrics")) {
			data = i
		}
		if b := basicOf(q.Type()); b != nil && b.Kind() == types.Bool {
			exp = i
		}
	}
	if !r.Need(R, data >= 0 && exp >= 0, "ExportMetrics", "no data or histogram parameter") {
		return
	}
	kinds := aggTypes(p)
	r.Need(R, len(kinds) == 10, "aggregator types", itoa(len(kinds))+" of 10 found")
	pos := p.pos(fn.Pos())
	seen := map[string]int{}
	maxN := map[string]int{}
	// one run per shape, to bound the number of paths
	run := func(iter int, assume func(*Ex) (bool, bool)) {
		e := &Effects{P: p, Model: exportModel(p), MaxVisits: 3, MaxIter: iter, MaxPaths: 60000, Assume: assume, Opaque: func(f *ssa.Function) bool { return isAttrCopy(p, f) || isResGet(p, f) }}
		os := e.Run(fn, nil)
		r.Ob(R, !e.Over && len(os) > 0, fn, "payload analysed", pos, "too many paths")
		r.Summ(fn, len(os))
		for _, o := range os {
			c := &payload{p: p, r: r, rule: R, fn: fn, o: o, l: lensOf(o.Conds), pos: pos, ok: true}
			c.metric(data, exp, kinds, seen, maxN)
			if c.ok {
				r.Ob(R, true, fn, "payload", pos, "")
			}
		}
	}
	isHist := func(x *Ex) bool { return x.Op == "is" && kinds[x.Sub].group == "hist" }
	// any kind, single elements; several elements without buckets; one histogram with buckets
	run(3, func(x *Ex) (bool, bool) {
		return false, strings.HasPrefix(normPath(x), "<(1,builtin:len(")
	})
	run(6, func(x *Ex) (bool, bool) {
		switch {
		case x.Op == "is" && kinds[x.Sub].group == "gauge" && kinds[x.Sub].flt || x.Op == "is" && kinds[x.Sub].group == "sum" && kinds[x.Sub].mono && !kinds[x.Sub].flt:
		case x.Op == "is" && kinds[x.Sub].group != "":
			return false, true
		case strings.HasSuffix(normPath(x), "].Temporality,"+itoa(int(constOf(p, mAggn, "DeltaTemporality")))+")"):
			return true, true
		}
		return false, false
	})
	run(8, func(x *Ex) (bool, bool) {
		k := normPath(x)
		switch {
		case isHist(x) && !kinds[x.Sub].flt:
			return true, true
		case strings.HasPrefix(k, "<(1,builtin:len("):
			return false, true
		case strings.Contains(k, "agg:Count"):
			return !strings.HasPrefix(k, "=="), true
		}
		return false, false
	})
	for _, k := range []string{"sum", "gauge", "hist", "mmsc"} {
		for _, f := range []string{"int", "float"} {
			r.Ob(R, seen[k+" "+f] > 0, fn, k+" "+f+" points", pos, "no path exports them")
		}
	}
	r.Ob(R, seen["hist exp"] > 0 && seen["hist explicit"] > 0, fn, "histogram forms", pos, "both forms are not exported")
	for _, k := range []string{"scopes", "instruments", "points"} {
		r.Ob(R, maxN[k] >= 2, fn, "several "+k, pos, "no path was analysed")
	}
}

func (c *payload) metric(data, exp int, kinds map[string]pointKind, seen, maxN map[string]int) {
	p, o := c.p, c.o
	for k, n := range c.l.ge {
		if c.l.lt[k] > n {
			return // cannot happen
		}
	}
	D := "$" + itoa(data)
	typeOf := func(path string) (pointKind, bool) {
		for _, cd := range o.Conds {
			if cd.A.Op == "is" && cd.Val && normPath(cd.A.Args[0]) == path+".Aggregation" {
				k, ok := kinds[cd.A.Sub]
				if ok {
					return k, true
				}
			}
		}
		return pointKind{}, false
	}
	if o.Panic {
		// points of one instrument have one kind: only mixed or unknown kinds may panic
		ok := false
		for _, cd := range o.Conds {
			if cd.A.Op == "is" && !cd.Val {
				pt := strings.TrimSuffix(normPath(cd.A.Args[0]), ".Aggregation")
				if _, known := typeOf(pt); !known && !strings.HasSuffix(pt, "Points[0]") {
					ok = true
				}
			}
		}
		// bucket boundaries that do not exist
		for _, cd := range o.Conds {
			if cd.Val && cd.A.Op == "not" || !cd.Val && strings.Contains(cd.A.Key(), "Mapping") {
				ok = true
			}
		}
		c.req(ok, "export", "can panic")
		return
	}
	var cons *Ev
	var evs []*Ev
	for _, ev := range o.Ev {
		if strings.HasSuffix(ev.Name, ".ConsumeMetrics") {
			c.req(cons == nil, "ConsumeMetrics", "the payload is handed over twice")
			cons = ev
			continue
		}
		if cons == nil {
			evs = append(evs, ev)
		}
	}
	if !c.req(cons != nil, "ConsumeMetrics", "the payload is not handed over") {
		return
	}
	t := pdTreeOf(evs)
	c.req(t.changed() == "", "payload", "changed: "+t.changed())
	root := t.node(cons.Args[len(cons.Args)-1])
	if !c.req(root != nil && strings.Contains(root.key, "pmetric.NewMetrics"), "payload", "is not made by this export") {
		return
	}
	rms := root.at("ResourceMetrics")
	if !c.req(len(rms.kids) == 1, "ResourceMetrics", itoa(len(rms.kids))+" entries for one resource") {
		return
	}
	rm := rms.kids[0]
	c.resource(rm.at("Resource"), D+".Resource")
	ns := c.elems(D + ".Scopes")
	sms := rm.at("ScopeMetrics").kids
	if ns < 0 || !c.req(len(sms) == ns, "ScopeMetrics", itoa(len(sms))+" entries for "+itoa(ns)+" scopes") {
		return
	}
	maxN["scopes"] = max(maxN["scopes"], ns)
	for i, sm := range sms {
		S := D + ".Scopes[" + itoa(i) + "]"
		c.val(sm.at("Scope"), "SetName", S+".Library.Name")
		c.val(sm.at("Scope"), "SetVersion", S+".Library.Version")
		c.val(sm, "SetSchemaUrl", S+".Library.SchemaURL")
		c.only(sm.at("Scope"), "SetName", "SetVersion")
		c.only(sm, "SetSchemaUrl")
		ni := c.elems(S + ".Instruments")
		if ni < 0 {
			return
		}
		maxN["instruments"] = max(maxN["instruments"], ni)
		var want []string
		for j := 0; j < ni; j++ {
			I := S + ".Instruments[" + itoa(j) + "]"
			if n, ok := c.l.exact(I + ".Points"); ok && n == 0 {
				continue
			}
			want = append(want, I)
		}
		ms := sm.at("Metrics").kids
		if !c.req(len(ms) == len(want), "Metrics", itoa(len(ms))+" entries for "+itoa(len(want))+" instruments with points") {
			return
		}
		for j, m := range ms {
			I := want[j]
			c.val(m, "SetName", I+".Descriptor.Name")
			c.val(m, "SetUnit", I+".Descriptor.Unit")
			c.val(m, "SetDescription", I+".Descriptor.Description")
			c.only(m, "SetName", "SetUnit", "SetDescription", "SetEmpty")
			k, known := typeOf(I + ".Points[0]")
			if !known {
				continue // none of the aggregators
			}
			form := map[string]string{"sum": "Sum", "gauge": "Gauge", "hist": "Histogram", "mmsc": "Histogram"}[k.group]
			if k.group == "hist" {
				v, dec := o.Cond("$" + itoa(exp))
				if !c.req(dec, "histogram form", "does not depend on the setting") {
					return
				}
				if v {
					form = "ExponentialHistogram"
					seen["hist exp"]++
				} else {
					seen["hist explicit"]++
				}
			}
			se := m.one("SetEmpty")
			if !c.req(se != nil && se.Sub == form, "metric form", "is not "+form) {
				return
			}
			f := m.at(form)
			c.only(f, "SetIsMonotonic", "SetAggregationTemporality")
			if k.group == "sum" {
				b, ok := false, false
				if v := f.one("SetIsMonotonic"); v != nil {
					b, ok = v.boolVal()
				}
				c.req(ok && b == k.mono, "SetIsMonotonic", "is not the sum's monotonicity")
			}
			if k.group != "gauge" {
				c.temporality(f.one("SetAggregationTemporality"), I)
			}
			np := c.elems(I + ".Points")
			if np < 0 {
				return
			}
			dps := f.at("DataPoints").kids
			if !c.req(len(dps) == np, "DataPoints", itoa(len(dps))+" entries for "+itoa(np)+" points") {
				return
			}
			maxN["points"] = max(maxN["points"], np)
			for q, dp := range dps {
				P := I + ".Points[" + itoa(q) + "]"
				pk, ok := typeOf(P)
				if !c.req(ok && pk.group == k.group, "point", "its aggregation is not looked at") {
					return
				}
				num := "int"
				if pk.flt {
					num = "float"
				}
				seen[k.group+" "+num]++
				c.point(t, dp, P, pk, form)
			}
		}
	}
	_ = p
}

func (c *payload) resource(n *pdNode, want string) {
	v := n.one("from")
	ok := v != nil && (v.Op == "call" || v.Op == "res") && v.Fn != nil && isResGet(c.p, v.Fn) && normPath(v.Args[len(v.Args)-1]) == want
	c.req(ok, "resource", "is not the converted resource of the data")
}

// temporality: the constant for the temporality decided on the path.
func (c *payload) temporality(v *Ex, I string) {
	if !c.req(v != nil, "SetAggregationTemporality", "is not set once") {
		return
	}
	names := map[string]string{"CumulativeTemporality": "AggregationTemporalityCumulative", "DeltaTemporality": "AggregationTemporalityDelta"}
	pm := c.p.SSA.ImportedPackage(pdataPkg + "pmetric")
	got, isC := v.int()
	if !c.req(isC && pm != nil, "SetAggregationTemporality", "is "+v.Key()) {
		return
	}
	for src, dst := range names {
		s := constOf(c.p, mAggn, src)
		d, ok := pm.Pkg.Scope().Lookup(dst).(*types.Const)
		if !ok {
			continue
		}
		dv, _ := exConst(d.Val(), d.Type()).int()
		for _, cd := range c.o.Conds {
			if cd.A.Op != "==" || len(cd.A.Args) != 2 {
				continue
			}
			if k, ok := cd.A.Args[1].int(); !ok || k != s || !strings.HasPrefix(normPath(cd.A.Args[0]), I+".Points[") || !strings.HasSuffix(normPath(cd.A.Args[0]), "].Temporality") {
				continue
			}
			if cd.Val {
				c.req(got == dv, "SetAggregationTemporality", "is "+v.Key()+" for "+src)
			} else {
				c.req(got != dv, "SetAggregationTemporality", "is "+dst+" though the point's is another")
			}
		}
	}
	dep := false
	for _, cd := range c.o.Conds {
		dep = dep || strings.HasPrefix(normPath(cd.A), "==("+I+".Points[") && strings.Contains(normPath(cd.A), "].Temporality")
	}
	c.req(dep, "SetAggregationTemporality", "does not depend on the points' temporality")
}

func (c *payload) attributes(t *pdTree, dp *pdNode, want string) {
	n := 0
	for _, ev := range t.calls {
		if ev.Fn == nil || !isAttrCopy(c.p, ev.Fn) {
			continue
		}
		if t.node(ev.Args[0]) == dp.at("Attributes") {
			n++
			c.req(normPath(ev.Args[1]) == want, "attributes", "are those of "+normPath(ev.Args[1]))
		}
	}
	c.req(n == 1, "attributes", "are converted "+itoa(n)+" times")
}

// number: the term is accessor m of the aggregation, as the wanted type.
func (c *payload) number(v *Ex, P, m string, flt, asInt bool) bool {
	is := func(x *Ex) bool {
		return x.Op == "agg" && x.Sub == m && normPath(x.Args[0]) == P+".Aggregation"
	}
	if v == nil {
		return false
	}
	if asInt {
		return !flt && v.Op == "conv" && v.Sub == "int64" && is(v.Args[0])
	}
	if flt {
		return v.Op == "frombits" && is(stripNum(v.Args[0]))
	}
	return v.Op == "conv" && v.Sub == "float64" && v.Args[0].Op == "conv" && v.Args[0].Sub == "int64" && is(v.Args[0].Args[0])
}

func (c *payload) point(t *pdTree, dp *pdNode, P string, k pointKind, form string) {
	ts := func(setter, field string, need bool) {
		v := dp.one(setter)
		if v == nil && !need && len(dp.set[setter]) == 0 {
			return
		}
		c.req(v != nil && v.Op == "ts" && normPath(v.Args[0]) == P+"."+field, setter, "is not the point's "+field)
	}
	ts("SetTimestamp", "End", true)
	ts("SetStartTimestamp", "Start", k.group != "gauge")
	c.attributes(t, dp, P+".Attributes")
	agg := func(m string) string { return "agg:" + m + "(" + P + ".Aggregation)" }
	num := func(setter, m string, asInt bool) {
		v := dp.one(setter)
		c.req(c.number(v, P, m, k.flt, asInt), setter, "is not the "+m+" of the point as a number of its type: "+v.Key())
	}
	cnt := func(setter, m string) {
		v := dp.one(setter)
		c.req(v != nil && normPath(v) == agg(m), setter, "is not the "+m+" of the point: "+v.Key())
	}
	switch k.group {
	case "sum", "gauge":
		m := map[string]string{"sum": "Sum", "gauge": "Gauge"}[k.group]
		if k.flt {
			num("SetDoubleValue", m, false)
		} else {
			num("SetIntValue", m, true)
		}
		c.only(dp, "SetTimestamp", "SetStartTimestamp", map[bool]string{true: "SetDoubleValue", false: "SetIntValue"}[k.flt])
		return
	}
	num("SetSum", "Sum", false)
	cnt("SetCount", "Count")
	empty, known := false, false
	for _, cd := range c.o.Conds {
		k := normPath(cd.A)
		if k == "==("+agg("Count")+",0)" {
			empty, known = cd.Val, true
		}
		if k == "<(0,"+agg("Count")+")" {
			empty, known = !cd.Val, true
		}
	}
	for _, s := range []string{"Min", "Max"} {
		if len(dp.set["Set"+s]) == 0 && known && empty {
			continue
		}
		num("Set"+s, s, false)
	}
	allowed := []string{"SetTimestamp", "SetStartTimestamp", "SetSum", "SetCount", "SetMin", "SetMax"}
	if form == "ExponentialHistogram" {
		allowed = append(allowed, "SetZeroCount", "SetScale")
		cnt("SetZeroCount", "ZeroCount")
		cnt("SetScale", "Scale")
		for _, s := range []string{"Positive", "Negative"} {
			b := dp.at(s)
			n := c.elems(agg(s))
			if n < 0 {
				return
			}
			if n > 0 {
				v := b.one("SetOffset")
				c.req(v != nil && normPath(v) == "bk:Offset("+agg(s)+")", s+" offset", "is not the buckets' offset")
			}
			c.buckets(b.at("BucketCounts"), s, agg(s), 0, n, 0)
			c.only(b, "SetOffset")
		}
	}
	c.only(dp, allowed...)
	if k.group == "hist" && form == "Histogram" {
		c.explicit(dp, agg)
	}
}

// buckets: entries from..from+n-1 are the bucket counts 0..n-1, with extra entries around.
func (c *payload) buckets(n *pdNode, what, path string, from, cnt, extra int) bool {
	if !c.req(n.bad == "" && len(n.list) == cnt+from+extra, what+" buckets", itoa(len(n.list))+" entries for "+itoa(cnt)+" buckets "+n.bad) {
		return false
	}
	for i := 0; i < cnt; i++ {
		v := n.list[from+i]
		c.req(normPath(v) == "bk:At("+path+","+itoa(i)+")", what+" bucket", itoa(i)+" is "+normPath(v))
	}
	return true
}

func (c *payload) explicit(dp *pdNode, agg func(string) string) {
	pos, neg := agg("Positive"), agg("Negative")
	np, nn := c.elems(pos), c.elems(neg)
	if np < 0 || nn < 0 {
		return
	}
	counts, bounds := dp.at("BucketCounts"), dp.at("ExplicitBounds")
	lead := 1
	if np > 0 {
		lead = 2 // an empty bucket up to the first boundary
	}
	if !c.buckets(counts, "explicit", pos, lead, np, 1) {
		return
	}
	isZero := isZeroEx
	// the lowest bucket: zeros and negative values
	var terms []string
	var sum func(x *Ex)
	sum = func(x *Ex) {
		if x.Op == "+" {
			for _, a := range x.Args {
				sum(a)
			}
			return
		}
		terms = append(terms, normPath(x))
	}
	sum(counts.list[0])
	want := map[string]int{agg("ZeroCount"): 1}
	for i := 0; i < nn; i++ {
		want["bk:At("+neg+","+itoa(i)+")"]++
	}
	ok := true
	for _, t := range terms {
		want[t]--
	}
	for _, n := range want {
		ok = ok && n == 0
	}
	c.req(ok, "lowest bucket", "is not the zeros and negative values: "+normPath(counts.list[0]))
	if lead == 2 {
		c.req(isZero(counts.list[1]), "bucket before the first", "is not empty")
	}
	c.req(isZero(counts.list[len(counts.list)-1]), "last bucket", "is not empty")
	if !c.req(bounds.bad == "" && len(bounds.list) == len(counts.list)-1, "explicit bounds", itoa(len(bounds.list))+" for "+itoa(len(counts.list))+" buckets") {
		return
	}
	c.req(isZero(bounds.list[0]), "first bound", "is not zero")
	for i := 1; i < len(bounds.list); i++ {
		// boundary i-1 after the offset, by the mapping of the histogram's scale
		v := bounds.list[i]
		if v.Op == "const" && i > 1 {
			// beyond the largest value
			fail := false
			for _, cd := range c.o.Conds {
				fail = fail || !cd.Val && strings.Contains(cd.A.Key(), "LowerBoundary") && cd.A.Op == "==" || cd.Val && cd.A.Op == "not"
			}
			c.req(fail && v.C != nil && exFloat(v) > 1e308, "bound", itoa(i)+" is the constant "+v.Key())
			continue
		}
		ok := v.Op == "res" && v.Sub == "0" && len(v.Args) == 1 && strings.Contains(v.Args[0].Sub, ".LowerBoundary#") && len(v.Args[0].Args) == 2
		if !c.req(ok, "bound", itoa(i)+" is "+v.Key()) {
			continue
		}
		call := v.Args[0]
		idx := normPath(call.Args[1])
		off := "bk:Offset(" + pos + ")"
		c.req(i == 1 && idx == off || sumIs(call.Args[1], off, i-1), "bound", itoa(i)+" is boundary "+idx)
		mp := call.Args[0]
		good := mp.Op == "res" && len(mp.Args) == 1 && strings.Contains(mp.Args[0].Sub, "NewMapping#") && len(mp.Args[0].Args) == 1 && normPath(mp.Args[0].Args[0]) == agg("Scale")
		c.req(good, "mapping", "is not that of the histogram's scale")
		if good {
			// scales of at most 0 have their own mapping
			log := strings.Contains(mp.Args[0].Sub, "/logarithm.")
			for _, cd := range c.o.Conds {
				k := normPath(cd.A)
				if k == "<(0,"+agg("Scale")+")" || k == "<("+agg("Scale")+",1)" {
					positive := cd.Val == (k == "<(0,"+agg("Scale")+")")
					c.req(positive == log, "mapping", "is not the one for the scale")
					good = false
				}
			}
			c.req(!good, "mapping", "does not depend on the scale")
		}
	}
}

func exFloat(x *Ex) float64 {
	f, _ := constant.Float64Val(constant.ToFloat(x.C))
	return f
}

// sumIs: x is the term plus the constant, added in any grouping.
func sumIs(x *Ex, term string, n int) bool {
	tot, seen := int64(0), 0
	var walk func(x *Ex) bool
	walk = func(x *Ex) bool {
		if x.Op == "+" {
			for _, a := range x.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if i, ok := x.int(); ok {
			tot += i
			return true
		}
		seen++
		return normPath(x) == term
	}
	return walk(x) && seen == 1 && tot == int64(n)
}

// ruleHistogramForm: which form of histograms an exporter asks for.
func ruleHistogramForm(p *Prog, r *Report) {
	const R = "histogram-form"
	r.Rule(R, "an exporter of metrics asks for exponential histograms on every path exactly when its backend takes them: the one for Prometheus does not, the others do")
	conv := p.fn(mExport, "ExportMetrics")
	if !r.Need(R, conv != nil, "ExportMetrics", "not found") {
		return
	}
	exp := -1
	for i, q := range conv.Params {
		if b := basicOf(q.Type()); b != nil && b.Kind() == types.Bool {
			exp = i
		}
	}
	n := 0
	for _, fn := range exporterMethods(p) {
		if fn.Name() != "ExportMetrics" || exp < 0 || fn.Pkg == nil {
			continue
		}
		prom := false
		for _, i := range fn.Pkg.Pkg.Imports() {
			prom = prom || strings.HasSuffix(i.Path(), "/prometheusexporter")
		}
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, Opaque: func(g *ssa.Function) bool { return g == conv }}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			for _, ev := range o.Ev {
				if ev.Kind == "call" && ev.Fn == conv && exp < len(ev.Args) {
					n++
					b, ok := ev.Args[exp].boolVal()
					r.Ob(R, ok && b == !prom, fn, "histogram form", ev.Pos, "is not the one of the backend: exponential="+short(ev.Args[exp].Key()), o.Trace()...)
				}
			}
		}
	}
	r.AtLeast(R, n, 2, "exporters of metrics")
}
