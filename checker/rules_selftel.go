package main

// P24: every export attempt is accounted for, with its actual outcome.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", func(p *Prog, r *Report) {
		ruleExportOutcome(p, r)
		ruleSelfTelemetry(p, r)
	})
}

// outcomeModel: the consumer succeeds or fails; errors are compared symbolically.
func outcomeModel(p *Prog) func(*XC) bool {
	return func(x *XC) bool {
		n := x.Name
		m := n[strings.LastIndexByte(n, '.')+1:]
		sig := x.In.Common().Signature()
		switch {
		case (m == "ConsumeMetrics" || m == "ConsumeTraces") && strings.HasPrefix(n, "invoke "):
			et := tupT(sig.Results(), 0)
			er := &Ex{Op: "failure", Sub: x.E.fresh(x.P), Typ: et}
			x.Alts = []XAlt{{Res: []*Ex{exNil(et)}}, {Res: []*Ex{er}, Cond: &xcond{A: &Ex{Op: "==", Args: []*Ex{er, exNil(et)}, Typ: types.Typ[types.Bool]}, Val: false}}}
			return true
		case x.Fn != nil && isConverter(p, x.Fn):
			// it writes the cache of converted resources only
			x.Res = []*Ex{{Op: "call", Sub: n + "#" + x.E.fresh(x.P), Args: x.Args, Typ: tupT(sig.Results(), 0), Fn: x.Fn}}
			return true
		case n == "errors.Is" && len(x.Args) == 2:
			x.Quiet = true
			x.Res = []*Ex{{Op: "errIs", Args: x.Args, Typ: types.Typ[types.Bool]}}
			return true
		case strings.HasPrefix(n, pdataPkg) && (m == "DataPointCount" || m == "SpanCount"):
			x.Res = []*Ex{{Op: "count", Args: x.Args, Typ: types.Typ[types.Int]}}
			return true
		case strings.HasPrefix(n, otelAttr) && x.Fn != nil && len(x.Args) == 2 && x.Fn.Signature.Recv() == nil && sig.Results().Len() == 1 && strings.HasSuffix(typePath(tupT(sig.Results(), 0)), "attribute.KeyValue"):
			x.Quiet = true
			x.Res = []*Ex{{Op: "kv", Sub: m, Args: x.Args, Typ: tupT(sig.Results(), 0)}}
			return true
		case strings.HasPrefix(n, otelAttr+"Key.") && len(x.Args) == 2 && sig.Results().Len() == 1 && strings.HasSuffix(typePath(tupT(sig.Results(), 0)), "attribute.KeyValue"):
			x.Quiet = true
			x.Res = []*Ex{{Op: "kv", Sub: m, Args: x.Args, Typ: tupT(sig.Results(), 0)}}
			return true
		case (n == "go.opentelemetry.io/otel/metric.WithAttributes" || n == "go.opentelemetry.io/otel/metric.WithAttributeSet" || n == otelAttr+"NewSet") && len(x.Args) == 1:
			x.Quiet = true
			x.Res = []*Ex{{Op: "with", Args: x.Args, Typ: tupT(sig.Results(), 0)}}
			return true
		}
		return false
	}
}

func exporterMethods(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.all {
		if fn.Signature.Recv() == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if fn.Name() != "ExportMetrics" && fn.Name() != "ExportSpans" {
			continue
		}
		if fn.Pkg != nil && !strings.Contains(fn.Pkg.Pkg.Path(), "/exporters/") {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// isConverter: a function that makes the whole payload.
func isConverter(p *Prog, fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	if !p.isLocal(fn) || rs.Len() != 1 {
		return false
	}
	t := typePath(rs.At(0).Type())
	return t == pdataPkg+"pmetric.Metrics" || t == pdataPkg+"ptrace.Traces"
}

func stripConv(x *Ex) *Ex {
	for x != nil && x.Op == "conv" {
		x = x.Args[0]
	}
	return x
}

// kvOf: the value of a key among attributes.
func kvOf(l []*Ex, key string) (*Ex, int) {
	var v *Ex
	n := 0
	for _, x := range l {
		if x.Op == "kv" {
			k := x.Args[0]
			for k.Op == "conv" {
				k = k.Args[0]
			}
			if s, ok := k.str(); ok && s == key {
				v = x.Args[1]
				n++
			}
		}
	}
	return v, n
}

// withItems: the attributes of a list of measurement options.
func withItems(x *Ex) ([]*Ex, bool) {
	l, ok := listItems(x)
	if !ok {
		return nil, false
	}
	var out []*Ex
	for _, o := range l {
		o = o.bare()
		for o.Op == "iface" {
			o = o.Args[0]
		}
		if o.Op != "with" {
			return nil, false
		}
		a := o.Args[0]
		if a.Op == "with" {
			a = a.Args[0]
		}
		i, ok := listItems(a)
		if !ok {
			return nil, false
		}
		out = append(out, i...)
	}
	return out, true
}

func ruleExportOutcome(p *Prog, r *Report) {
	const R = "export-outcome"
	r.Rule(R, "effect summary of every exporter's export method, with the consumer succeeding and failing: the batch is handed over once, its size is taken before, counted once with the outcome the consumer returned, the attempt's span ends once with that status, and the consumer's result is returned")
	fns := exporterMethods(p)
	r.AtLeast(R, len(fns), 3, "export methods")
	for _, fn := range fns {
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, Model: outcomeModel(p), MaxPaths: 5000, Opaque: func(f *ssa.Function) bool { return isConverter(p, f) }}
		outs := e.Run(fn, nil)
		r.Ob(R, !e.Over && len(outs) > 0, fn, "export analysed", pos, "too many paths")
		r.Summ(fn, len(outs))
		seen := map[string]bool{}
		for _, o := range outs {
			c := &payload{p: p, r: r, rule: R, fn: fn, o: o, pos: pos, ok: true}
			if !c.req(!o.Panic && len(o.Ret) == 1, "export", "can panic") {
				continue
			}
			var cons, add, count, status *Ev
			var spans, ends, sattrs []*Ev
			sets := map[string]int{}
			for _, ev := range o.Ev {
				if ev.Kind != "call" {
					continue
				}
				m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
				switch {
				case m == "ConsumeMetrics" || m == "ConsumeTraces":
					c.req(cons == nil, "payload", "is handed over twice")
					cons = ev
				case strings.HasSuffix(ev.Name, "Int64Counter.Add"):
					c.req(add == nil, "items counter", "is added to twice")
					add = ev
				case m == "Start" && strings.Contains(ev.Name, "trace.Tracer."):
					spans = append(spans, ev)
				case m == "End" && strings.Contains(ev.Name, "trace.Span."):
					ends = append(ends, ev)
					c.req(cons != nil && add != nil, "span", "ends before the outcome is known")
				case m == "SetStatus" && strings.Contains(ev.Name, "trace.Span."):
					status = ev
					sets["status"]++
					c.req(len(ends) == 0, "span", "is given a status after its end")
				case m == "SetAttributes" && strings.Contains(ev.Name, "trace.Span."):
					sattrs = append(sattrs, ev)
					c.req(len(ends) == 0, "span", "is given attributes after its end")
				case m == "DataPointCount" || m == "SpanCount":
					count = ev
					c.req(cons == nil, "size", "is taken after the payload was handed over")
				}
			}
			if !c.req(cons != nil, "payload", "is not handed over") {
				continue
			}
			pl := cons.Args[len(cons.Args)-1]
			c.req(pl.Op == "call" && pl.Fn != nil && isConverter(p, pl.Fn), "payload", "is "+normPath(pl))
			if pl.Op == "call" {
				given := false
				for _, a := range pl.Args {
					given = given || normPath(a) == "$2"
				}
				c.req(given, "payload", "is not converted from the data given")
			}
			failed := !cons.Res.isNil()
			c.req(o.Ret[0].Key() == cons.Res.Key(), "result", "is "+o.Ret[0].Key()+", the consumer returned "+cons.Res.Key())
			// span
			if c.req(len(spans) == 1 && len(ends) == 1, "span", itoa(len(spans))+" started, "+itoa(len(ends))+" ended") {
				c.req(strings.Contains(ends[0].Args[0].Key(), spans[0].Res.Key()) || sameCall(ends[0].Args[0], spans[0].Res), "span", "another span is ended")
			}
			state := "ok"
			if failed {
				state = "error"
				for _, cd := range o.Conds {
					if cd.A.Op == "errIs" && cd.Val && cd.A.Args[0].Key() == cons.Res.Key() {
						switch t := normPath(cd.A.Args[1]); {
						case strings.HasSuffix(t, "context.Canceled"):
							state = "canceled"
						case strings.HasSuffix(t, "context.DeadlineExceeded"):
							state = "timeout"
						}
					}
				}
			}
			seen[state] = true
			outcome := func(l []*Ex, what string) {
				s, ns := kvOf(l, "success")
				t, nt := kvOf(l, "state")
				if !c.req(ns == 1 && nt == 1, what, "success or state is missing") {
					return
				}
				b, bok := s.boolVal()
				if !bok {
					for _, cd := range o.Conds {
						if cd.A.Key() == s.Key() {
							b, bok = cd.Val, true
						}
					}
				}
				c.req(bok && b == !failed, what, "success is "+s.Key()+" when the consumer returned "+cons.Res.Key())
				st, _ := t.str()
				c.req(st == state, what, "state is "+t.Key()+" instead of "+state)
			}
			// items
			if c.req(add != nil && len(add.Args) == 4, "items counter", "is not added to") {
				v := stripConv(add.Args[2])
				c.req(count != nil && v.Op == "count" && v.Args[0].Key() == pl.Key(), "items counter", "is given "+normPath(add.Args[2]))
				c.req(strings.HasPrefix(normPath(add.Args[0]), "$0."), "items counter", "is not the exporter's: "+normPath(add.Args[0]))
				if l, ok := withItems(add.Args[3]); c.req(ok, "items counter", "attributes are "+add.Args[3].Key()) {
					outcome(l, "items counter")
					c.req(len(l) == 2, "items counter", "has other attributes")
				}
			}
			var all []*Ex
			for _, ev := range sattrs {
				l, ok := listItems(ev.Args[1])
				c.req(ok, "span attributes", "are "+ev.Args[1].Key())
				all = append(all, l...)
			}
			if len(sattrs) > 0 {
				outcome(all, "span attributes")
			}
			if c.req(status != nil && sets["status"] == 1, "span status", "is set "+itoa(sets["status"])+" times") {
				code, _ := status.Args[1].int()
				want := extConst(p, "go.opentelemetry.io/otel/codes", "Ok")
				if failed {
					want = extConst(p, "go.opentelemetry.io/otel/codes", "Error")
				}
				c.req(code == want, "span status", "is "+status.Args[1].Key()+" when the consumer returned "+cons.Res.Key())
			}
			if c.ok {
				r.Ob(R, true, fn, "outcome "+state, pos, "")
			}
		}
		r.Ob(R, len(seen) == 4, fn, "outcomes", pos, "only "+itoa(len(seen))+" of 4 outcomes are told apart")
	}
}

// sameCall: a component of the results of a call.
func sameCall(v, res *Ex) bool {
	if v.Op != "res" {
		return false
	}
	return res.Any(func(y *Ex) bool { return y.Key() == v.Key() })
}

// ruleSelfTelemetry: the providers an exporter reports to.
func ruleSelfTelemetry(p *Prog, r *Report) {
	const R = "self-telemetry-providers"
	r.Rule(R, "effect summary of every exporter constructor: with self metrics (spans) off the global meter (tracer) provider is not asked for, with them on it is, unless the caller gave one; the tracer and counter the exporter uses are those made from these providers")
	found := 0
	for _, fn := range p.all {
		if fn.Pkg == nil || !p.isLocal(fn) || fn.Signature.Recv() != nil || len(fn.Blocks) == 0 || fn.Name() != "NewExporter" {
			continue
		}
		ci := -1
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if st := structOf(tupT(fn.Signature.Params(), i)); st != nil && fieldVar(st, "SelfSpans") != nil && fieldVar(st, "SelfMetrics") != nil {
				ci = i
			}
		}
		if ci < 0 {
			continue
		}
		found++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 20000, MaxVisits: 1}
		outs := e.Run(fn, nil)
		r.Ob(R, !e.Over && len(outs) > 0, fn, "constructor analysed", pos, "too many paths")
		r.Summ(fn, len(outs))
		type flow struct{ on, off, global, dark int }
		fl := map[string]*flow{"SelfMetrics": {}, "SelfSpans": {}}
		for _, o := range outs {
			c := &payload{p: p, r: r, rule: R, fn: fn, o: o, pos: pos, ok: true}
			for what, get := range map[string]string{"SelfMetrics": "go.opentelemetry.io/otel.GetMeterProvider", "SelfSpans": "go.opentelemetry.io/otel.GetTracerProvider"} {
				asked := false
				for _, ev := range o.Ev {
					asked = asked || ev.Name == get
				}
				for _, cd := range o.Conds {
					if normPath(cd.A) == "$"+itoa(ci)+"."+what {
						if cd.Val {
							fl[what].on++
							if asked {
								fl[what].global++
							}
							c.req(asked, what, "the global provider is not used")
						} else {
							fl[what].off++
							c.req(!asked, what, "the global provider is used though it is off")
						}
						asked = false
					}
				}
				c.req(!asked, what, "the global provider is used without asking the configuration")
			}
			if len(o.Ret) == 2 && o.Ret[1].isNil() && !o.Ret[0].isNil() {
				b := o.Ret[0].bare()
				for b.Op == "iface" {
					b = b.Args[0]
				}
				st := structOf(derefT2(b.Typ))
				nt, nc := 0, 0
				for i := 0; st != nil && i < st.NumFields(); i++ {
					f := st.Field(i)
					made := ""
					switch typePath(f.Type()) {
					case "go.opentelemetry.io/otel/trace.Tracer":
						nt, made = nt+1, "Provider.Tracer"
					case "go.opentelemetry.io/otel/metric.Int64Counter":
						nc, made = nc+1, ".Int64Counter"
					default:
						continue
					}
					v := o.Read(fieldPtr(b, f), f.Type())
					c.req(strings.Contains(v.Key(), made), f.Name(), "is "+v.Key())
					get := "go.opentelemetry.io/otel.GetTracerProvider"
					if made == ".Int64Counter" {
						get = "go.opentelemetry.io/otel.GetMeterProvider"
					}
					asked := false
					for _, ev := range o.Ev {
						asked = asked || ev.Name == get
					}
					c.req(asked == strings.Contains(v.Key(), get), f.Name(), "is not made from the provider selected: "+v.Key())
				}
				c.req(nt == 1 && nc == 1, "exporter", "has "+itoa(nt)+" tracers and "+itoa(nc)+" counters")
			}
			if c.ok {
				r.Ob(R, true, fn, "providers", pos, "")
			}
		}
		for what, f := range fl {
			r.Ob(R, f.on > 0 && f.off > 0 && f.global > 0, fn, what, pos, "does not decide whether the global provider is used")
		}
	}
	r.AtLeast(R, found, 3, "exporter constructors")
}
