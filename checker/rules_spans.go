package main

// P13: the exported trace payload, compared with the spans path by path.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P13", func(p *Prog, r *Report) {
		ruleSpanPayload(p, r)
		ruleAttrConversion(p, r)
		ruleResourceMap(p, r)
	})
}

const otelTrace = "go.opentelemetry.io/otel/trace."
const otelSdkTrace = "go.opentelemetry.io/otel/sdk/trace."

// spanModel: reading a span has no effect.
func spanModel(p *Prog) func(*XC) bool {
	em := exportModel(p)
	return func(x *XC) bool {
		n := x.Name
		m := n[strings.LastIndexByte(n, '.')+1:]
		res := x.In.Common().Signature().Results()
		switch {
		case strings.HasPrefix(n, "invoke "+otelSdkTrace+"ReadOnlySpan.") || strings.HasPrefix(n, otelTrace+"SpanContext.") || strings.HasPrefix(n, otelTrace+"TraceState."):
			if res.Len() != 1 {
				return false
			}
			x.Quiet = true
			x.Res = []*Ex{{Op: "sp", Sub: m, Args: x.Args, Typ: res.At(0).Type()}}
			return true
		case n == "go.opentelemetry.io/otel/attribute.NewSet" && len(x.Args) == 1:
			x.Quiet = true
			x.Res = []*Ex{{Op: "newset", Args: x.Args, Typ: res.At(0).Type()}}
			return true
		case strings.HasSuffix(n, "otel/sdk/resource.Resource.Equal") || strings.HasSuffix(n, "otel/sdk/resource.Resource.Equivalent"):
			x.Quiet = true
			x.Res = []*Ex{{Op: "sp", Sub: m, Args: x.Args, Typ: res.At(0).Type()}}
			return true
		}
		return em(x)
	}
}

func ruleSpanPayload(p *Prog, r *Report) {
	const R = "span-payload"
	r.Rule(R, "effect summary of ExportSpans on every path (loops up to the bound): the payload handed to the consumer, as a tree, is compared with the batch: every span once, under a resource and a scope equal to its own, each setter called once with the value it represents, events and links complete")
	var fn *ssa.Function
	for _, f := range p.all {
		if f.Name() == "ExportSpans" && len(f.Blocks) > 0 && f.Synthetic == "" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 2 {
			r.Ob(R, fn == nil, f, "ExportSpans", p.pos(f.Pos()), "several exporters")
			fn = f
		}
	}
	if !r.Need(R, fn != nil, "ExportSpans", "not found") {
		return
	}
	pos := p.pos(fn.Pos())
	most := 0
	seenKind, seenCode := map[int64]bool{}, map[int64]bool{}
	run := func(iter int, assume func(*Ex) (bool, bool)) {
		e := &Effects{P: p, Model: spanModel(p), MaxVisits: 3, MaxIter: iter, MaxPaths: 60000, Assume: assume, Opaque: func(f *ssa.Function) bool { return isAttrCopy(p, f) || isResGet(p, f) }}
		os := e.Run(fn, nil)
		r.Ob(R, !e.Over && len(os) > 0, fn, "payload analysed", pos, "too many paths")
		r.Summ(fn, len(os))
		for _, o := range os {
			c := &payload{p: p, r: r, rule: R, fn: fn, o: o, l: lensOf(o.Conds), pos: pos, ok: true}
			if n := c.spans("$2", seenKind, seenCode); n > most {
				most = n
			}
			if c.ok {
				r.Ob(R, true, fn, "payload", pos, "")
			}
		}
	}
	plain := func(x *Ex) (bool, bool) {
		k := normPath(x)
		if x.Op == "==" && (strings.HasPrefix(k, "==(sp:SpanKind(") || strings.HasPrefix(k, "==(sp:Status(") || strings.Contains(k, ".Code,")) {
			return true, true
		}
		return false, false
	}
	run(6, func(x *Ex) (bool, bool) {
		k := normPath(x)
		if k == "<(1,builtin:len($2))" {
			return false, true
		}
		return plain(x)
	})
	run(3, func(x *Ex) (bool, bool) {
		k := normPath(x)
		if strings.HasPrefix(k, "<(") && !strings.HasSuffix(k, "len($2))") {
			return false, true
		}
		return plain(x)
	})
	run(1, func(x *Ex) (bool, bool) {
		k := normPath(x)
		return false, strings.HasPrefix(k, "<(") && !strings.HasSuffix(k, "len($2))")
	})
	r.Ob(R, most >= 3, fn, "several spans", pos, "no path was analysed")
	r.Ob(R, len(seenKind) >= 5 && len(seenCode) >= 2, fn, "kinds and codes", pos, "are not all distinguished")
}

type eqs map[string]string

func (q eqs) find(k string) string {
	for q[k] != "" {
		k = q[k]
	}
	return k
}

func (q eqs) join(a, b string) {
	a, b = q.find(a), q.find(b)
	if a != b {
		q[a] = b
	}
}

// spans checks one path; it returns the number of spans.
func (c *payload) spans(S string, seenKind, seenCode map[int64]bool) int {
	o := c.o
	for k, n := range c.l.ge {
		if c.l.lt[k] > n {
			return 0
		}
	}
	eq := eqs{}
	for _, cd := range o.Conds {
		if cd.Val && len(cd.A.Args) == 2 && (cd.A.Op == "==" || cd.A.is("sp", "Equal")) {
			eq.join(normPath(cd.A.Args[0]), normPath(cd.A.Args[1]))
		}
	}
	if !c.req(!o.Panic, "export", "can panic") {
		return 0
	}
	n := c.elems(S)
	if n < 0 {
		return 0
	}
	var cons *Ev
	var evs []*Ev
	for _, ev := range o.Ev {
		if strings.HasSuffix(ev.Name, ".ConsumeTraces") {
			c.req(cons == nil, "ConsumeTraces", "the payload is handed over twice")
			cons = ev
			continue
		}
		if cons == nil {
			evs = append(evs, ev)
		}
	}
	if cons == nil {
		c.req(n == 0, "ConsumeTraces", "the payload is not handed over")
		return n
	}
	t := pdTreeOf(evs)
	c.req(t.changed() == "", "payload", "changed: "+t.changed())
	root := t.node(cons.Args[len(cons.Args)-1])
	if !c.req(root != nil && strings.Contains(root.key, "ptrace.NewTraces"), "payload", "is not made by this export") {
		return n
	}
	done := map[int]int{}
	for _, rs := range root.at("ResourceSpans").kids {
		from := rs.at("Resource").one("from")
		ok := from != nil && (from.Op == "call" || from.Op == "res") && from.Fn != nil && isResGet(c.p, from.Fn)
		if !c.req(ok, "resource", "is not a converted resource") {
			return n
		}
		res := normPath(from.Args[len(from.Args)-1])
		for _, ss := range rs.at("ScopeSpans").kids {
			get := func(n *pdNode, s string) string {
				v := n.one(s)
				if v == nil {
					c.req(false, s, "is called "+itoa(len(n.set[s]))+" times")
					return ""
				}
				return normPath(v)
			}
			name, ver, url := get(ss.at("Scope"), "SetName"), get(ss.at("Scope"), "SetVersion"), get(ss, "SetSchemaUrl")
			c.only(ss.at("Scope"), "SetName", "SetVersion")
			c.only(ss, "SetSchemaUrl")
			last := -1
			for _, s := range ss.at("Spans").kids {
				i := -1
				for j := 0; j < n; j++ {
					if v := s.one("SetSpanID"); v != nil && strings.Contains(normPath(v), "SpanContext("+S+"["+itoa(j)+"])") {
						i = j
					}
				}
				if !c.req(i >= 0, "span", "has no span identifier of the batch") {
					return n
				}
				X := S + "[" + itoa(i) + "]"
				done[i]++
				c.req(i > last, "span order", "spans of one scope are reordered")
				last = i
				same := func(a, b string) bool { return a == b || eq.find(a) == eq.find(b) }
				c.req(same(res, "sp:Resource("+X+")"), "resource of a span", "span "+itoa(i)+" is exported under "+res)
				sc := "sp:InstrumentationScope(" + X + ")"
				own := func(v, f string) bool {
					if same(v, sc+f) {
						return true
					}
					return strings.HasSuffix(v, f) && same(strings.TrimSuffix(v, f), sc)
				}
				c.req(own(name, ".Name") && own(ver, ".Version") && own(url, ".SchemaURL"), "scope of a span", "span "+itoa(i)+" is exported under the scope "+name+" "+ver+" "+url)
				na := 0
				for _, ev := range t.calls {
					if ev.Fn != nil && isAttrCopy(c.p, ev.Fn) && t.node(ev.Args[0]) == ss.at("Scope", "Attributes") {
						na++
						c.req(own(normPath(ev.Args[1]), ".Attributes"), "scope attributes", "are those of "+normPath(ev.Args[1]))
					}
				}
				c.req(na == 1, "scope attributes", "are converted "+itoa(na)+" times")
				c.span(t, s, X, seenKind, seenCode)
			}
		}
	}
	for i := 0; i < n; i++ {
		c.req(done[i] == 1, "span", itoa(i)+" of the batch is exported "+itoa(done[i])+" times")
	}
	return n
}

// under strips conversions of a term before comparing it.
func (c *payload) conv(n *pdNode, setter, want string) {
	v := n.one(setter)
	if v == nil {
		c.req(false, setter, "is called "+itoa(len(n.set[setter]))+" times on one object")
		return
	}
	for v.Op == "conv" || v.Op == "ts" {
		v = v.Args[0]
	}
	c.req(normPath(v) == want, setter, "is given "+normPath(v)+" instead of "+want)
}

// enum checks a translated constant against the decisions of the path.
func (c *payload) enum(n *pdNode, setter, src string, table [][2]int64, seen map[int64]bool) {
	v := n.one(setter)
	if v == nil {
		c.req(false, setter, "is not called once")
		return
	}
	got, ok := v.int()
	if !c.req(ok, setter, "is "+normPath(v)) {
		return
	}
	want := int64(0)
	for _, row := range table {
		known := false
		for _, cd := range c.o.Conds {
			if cd.A.Op == "==" && len(cd.A.Args) == 2 && normPath(cd.A.Args[0]) == src {
				if k, ok := cd.A.Args[1].int(); ok && k == row[0] {
					known = true
					if cd.Val {
						want = row[1]
						seen[row[0]] = true
					}
				}
			}
		}
		if !known {
			if got == row[1] {
				c.req(false, setter, "is not decided by the span's")
			}
		}
	}
	c.req(got == want, setter, "is "+itoa(int(got))+" instead of "+itoa(int(want)))
}

func extConst(p *Prog, pkg, name string) int64 {
	pk := p.SSA.ImportedPackage(pkg)
	if pk == nil {
		return -1
	}
	d, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return -1
	}
	i, _ := exConst(d.Val(), d.Type()).int()
	return i
}

// copied: the list that a fresh list is a copy of, or the argument.
func (c *payload) copied(a *Ex) *Ex {
	switch {
	case a.Op == "call" && strings.HasPrefix(a.Sub, "slices.Clone") && len(a.Args) > 0:
		return a.Args[0]
	case a.Op == "append" && a.Args[0].Op == "list" && len(a.Args[0].Args) == 0:
		return a.Args[1]
	}
	for _, ev := range c.o.Ev {
		if ev.Kind == "builtin" && ev.Name == "copy" && len(ev.Args) == 2 && ev.Args[0].Key() == a.Key() {
			return ev.Args[1]
		}
	}
	return a
}

func (c *payload) setAttrs(t *pdTree, n *pdNode, list string) {
	k := 0
	for _, ev := range t.calls {
		if ev.Fn == nil || !isAttrCopy(c.p, ev.Fn) || t.node(ev.Args[0]) != n.at("Attributes") {
			continue
		}
		k++
		a := ev.Args[1]
		if !c.req(a.Op == "newset", "attributes", "are "+normPath(a)) {
			continue
		}
		from := normPath(c.copied(a.Args[0]))
		if from == list && normPath(a.Args[0]) == list {
			c.req(false, "attributes", "NewSet sorts the list of the span in place: "+list)
			continue
		}
		c.req(from == list, "attributes", "are "+normPath(a))
	}
	c.req(k == 1, "attributes", "are converted "+itoa(k)+" times")
}

func (c *payload) span(t *pdTree, s *pdNode, X string, seenKind, seenCode map[int64]bool) {
	p := c.p
	sp := func(m string) string { return "sp:" + m + "(" + X + ")" }
	c.conv(s, "SetName", sp("Name"))
	c.conv(s, "SetSpanID", "sp:SpanID("+sp("SpanContext")+")")
	c.conv(s, "SetTraceID", "sp:TraceID("+sp("SpanContext")+")")
	c.conv(s, "SetParentSpanID", "sp:SpanID("+sp("Parent")+")")
	c.conv(s, "SetStartTimestamp", sp("StartTime"))
	c.conv(s, "SetEndTimestamp", sp("EndTime"))
	c.conv(s, "SetDroppedAttributesCount", sp("DroppedAttributes"))
	c.conv(s, "SetDroppedEventsCount", sp("DroppedEvents"))
	c.conv(s, "SetDroppedLinksCount", sp("DroppedLinks"))
	c.conv(s.at("TraceState"), "FromRaw", "sp:String(sp:TraceState("+sp("SpanContext")+"))")
	c.only(s, "SetName", "SetSpanID", "SetTraceID", "SetParentSpanID", "SetStartTimestamp", "SetEndTimestamp", "SetKind", "SetDroppedAttributesCount", "SetDroppedEventsCount", "SetDroppedLinksCount", "SetFlags")
	var kt [][2]int64
	for _, k := range []string{"Internal", "Server", "Client", "Producer", "Consumer"} {
		kt = append(kt, [2]int64{extConst(p, "go.opentelemetry.io/otel/trace", "SpanKind"+k), extConst(p, pdataPkg+"ptrace", "SpanKind"+k)})
	}
	c.enum(s, "SetKind", sp("SpanKind"), kt, seenKind)
	var ct [][2]int64
	for _, k := range []string{"Error", "Ok"} {
		ct = append(ct, [2]int64{extConst(p, "go.opentelemetry.io/otel/codes", k), extConst(p, pdataPkg+"ptrace", "StatusCode"+k)})
	}
	c.enum(s.at("Status"), "SetCode", sp("Status")+".Code", ct, seenCode)
	c.conv(s.at("Status"), "SetMessage", sp("Status")+".Description")
	c.setAttrs(t, s, sp("Attributes"))
	for _, kd := range []string{"Events", "Links"} {
		n := c.elems(sp(kd))
		if n < 0 {
			continue
		}
		es := s.at(kd).kids
		if !c.req(len(es) == n, kd, itoa(len(es))+" entries for "+itoa(n)) {
			continue
		}
		for j, e := range es {
			E := sp(kd) + "[" + itoa(j) + "]"
			c.conv(e, "SetDroppedAttributesCount", E+".DroppedAttributeCount")
			c.setAttrs(t, e, E+".Attributes")
			if kd == "Events" {
				c.conv(e, "SetName", E+".Name")
				c.conv(e, "SetTimestamp", E+".Time")
				c.only(e, "SetName", "SetTimestamp", "SetDroppedAttributesCount")
			} else {
				c.conv(e, "SetSpanID", "sp:SpanID("+E+".SpanContext)")
				c.conv(e, "SetTraceID", "sp:TraceID("+E+".SpanContext)")
				c.conv(e.at("TraceState"), "FromRaw", "sp:String(sp:TraceState("+E+".SpanContext))")
				c.only(e, "SetSpanID", "SetTraceID", "SetDroppedAttributesCount", "SetFlags")
			}
		}
	}
}
