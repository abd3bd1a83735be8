package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P20", checkP20) }

func checkP20(p *Prog, r *Report) {
	ruleOptions(p, r)
	ruleEnvTags(p, r)
	ruleConfigOrder(p, r)
	rulePipelineConfig(p, r)
	ruleExporterConfig(p, r)
	ruleTempoPref(p, r)
	ruleExporterUse(p, r)
}

// The documented settings (README.md): option, field, environment variable
// and default.  A field that an option sets, and no environment variable, has
// an empty one.
var settings = []struct{ option, field, env, def string }{
	{"WithServiceName", "ServiceName", "LS_SERVICE_NAME", ""},
	{"WithServiceVersion", "ServiceVersion", "LS_SERVICE_VERSION", "unknown"},
	{"WithHeaders", "Headers", "OTEL_EXPORTER_OTLP_HEADERS", ""},
	{"WithSpanExporterEndpoint", "SpanExporterEndpoint", "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", "ingest.lightstep.com:443"},
	{"WithSpanExporterInsecure", "SpanExporterEndpointInsecure", "OTEL_EXPORTER_OTLP_SPAN_INSECURE", "false"},
	{"WithMetricExporterEndpoint", "MetricExporterEndpoint", "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", "ingest.lightstep.com:443"},
	{"WithMetricExporterInsecure", "MetricExporterEndpointInsecure", "OTEL_EXPORTER_OTLP_METRIC_INSECURE", "false"},
	{"WithMetricExporterTemporalityPreference", "MetricExporterTemporalityPreference", "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "cumulative"},
	{"WithLogLevel", "LogLevel", "OTEL_LOG_LEVEL", "info"},
	{"WithPropagators", "Propagators", "OTEL_PROPAGATORS", "b3"},
	{"WithMetricReportingPeriod", "MetricReportingPeriod", "OTEL_EXPORTER_OTLP_METRIC_PERIOD", "30s"},
	{"WithMetricsEnabled", "MetricsEnabled", "LS_METRICS_ENABLED", "true"},
	{"WithMetricsBuiltinsEnabled", "MetricsBuiltinsEnabled", "LS_METRICS_BUILTINS_ENABLED", "true"},
	{"WithMetricsBuiltinLibraries", "MetricsBuiltinLibraries", "LS_METRICS_BUILTIN_LIBRARIES", "all:stable"},
	{"WithResourceAttributes", "ResourceAttributes", "", ""},
	{"WithErrorHandler", "errorHandler", "", ""},
	{"WithLogger", "logger", "", ""},
	{"WithAccessToken", "Headers", "", ""},
	{"WithLightstepMetricsSDK", "", "", ""},
}

// configParam: the pointer an option is given.
func configParam(f *ssa.Function) *types.Named {
	if f == nil || len(f.Params) != 1 {
		return nil
	}
	pt, ok := f.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	return namedOf(pt.Elem())
}

func stripIface(x *Ex) *Ex {
	for x != nil && (x.Op == "iface" || x.Op == "conv") {
		x = x.Args[0]
	}
	return x
}

func ruleOptions(p *Prog, r *Report) {
	const R = "options"
	r.Rule(R, "each documented option changes the field of the configuration it names, to the value given, and no other; header options add to the headers; the documented option without an effect has none")
	n := 0
	for _, s := range settings {
		fn := p.fn(mLaunch, s.option)
		if !r.Ob(R, fn != nil && len(fn.Params) == 1, nil, s.option, "-", "is missing") {
			continue
		}
		pos := p.pos(fn.Pos())
		arg := &Ex{Op: "init", Sub: "ARG", Typ: fn.Params[0].Type()}
		e := &Effects{P: p, Opaque: func(g *ssa.Function) bool {
			return g.Parent() == nil && pkgOf(g) != pkgOf(fn) && !(pkgOf(g) != nil && pkgOf(g).Path() == "maps")
		}}
		os := e.Run(fn, []*Ex{arg})
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if !r.Ob(R, !o.Panic, fn, "option", pos, "panics on a path", o.Trace()...) {
				continue
			}
			cl := stripIface(o.Ret[0])
			if !r.Ob(R, cl.Op == "closure" || cl.Op == "func", fn, "option", pos, "is not a function literal or function: "+short(cl.Key()), o.Trace()...) {
				continue
			}
			ct := configParam(cl.Fn)
			if !r.Ob(R, ct != nil, fn, "option", pos, "does not take the configuration") {
				continue
			}
			st := structOf(ct)
			ptr := exParam(0, types.NewPointer(ct))
			for _, q := range o.Apply(cl) {
				if q.Panic {
					r.Ob(R, false, fn, "option", pos, "panics on a path", q.Trace()...)
					continue
				}
				n++
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					v := q.Read(fieldPtr(ptr, f), f.Type())
					old := "init:*$0." + f.Name()
					switch {
					case f.Name() != s.field:
						r.Ob(R, v.Key() == old, fn, f.Name(), pos, "is changed on a path: "+short(v.Key()), q.Trace()...)
					case f.Name() == "Headers":
						none, known := q.Cond("==(" + old + ",nil)")
						ok := v.Key() == old || known && none && strings.HasPrefix(v.Key(), "make:")
						ok = ok || v.Op == "call" && strings.HasPrefix(v.Sub, "maps.Clone") && v.Args[0].Key() == old
						r.Ob(R, ok, fn, "Headers", pos, "lose what they had on a path: "+short(v.Key()), q.Trace()...)
						checkHeaders(r, R, fn, q, v, arg, s.option)
					case s.field == "MetricReportingPeriod":
						ok := v.Op == "call" && strings.HasPrefix(v.Sub, "time.Duration.String") && v.Args[0].Key() == "init:ARG"
						if v.Op == "call" && strings.HasPrefix(v.Sub, "fmt.Sprint") && len(v.Args) == 1 {
							l, isL := listItems(v.Args[0])
							ok = isL && len(l) == 1 && stripIface(l[0]).Key() == "init:ARG" && types.Identical(l[0].Args[0].Typ, arg.Typ)
						}
						if l := concat(v); v.Op == "call" && strings.HasPrefix(v.Sub, "fmt.Sprintf") {
							ok = len(l) == 1 && stripIface(l[0]).Key() == "init:ARG"
						}
						r.Ob(R, ok, fn, f.Name(), pos, "is not the period given: "+short(v.Key()), q.Trace()...)
					default:
						x := stripIface(v)
						ok := x.Key() == "init:ARG" || x.Op == "call" && (strings.HasPrefix(x.Sub, "slices.Clone") || strings.HasPrefix(x.Sub, "maps.Clone")) && x.Args[0].Key() == "init:ARG" ||
							x.Key() == "append(list,init:ARG)" || x.Key() == "append(nil,init:ARG)"
						r.Ob(R, ok, fn, f.Name(), pos, "is not the value given: "+short(v.Key()), q.Trace()...)
					}
				}
				for _, ev := range q.Ev {
					if ev.Kind == "mapupdate" && s.field != "Headers" && s.field != "ResourceAttributes" {
						r.Ob(R, false, fn, "map", ev.Pos, "is changed by an option that is for none", q.Trace()...)
					}
				}
			}
		}
	}
	r.AtLeast(R, n, len(settings), "options applied")
}

// checkHeaders: each header given, or the token, is put in the headers.
func checkHeaders(r *Report, R string, fn *ssa.Function, o *Outcome, m, arg *Ex, option string) {
	pos := ""
	n := 0
	for _, ev := range o.Ev {
		if ev.Kind != "mapupdate" || len(ev.Args) != 3 {
			continue
		}
		n++
		pos = ev.Pos
		r.Ob(R, ev.Args[0].Key() == m.Key(), fn, "header", ev.Pos, "is put elsewhere: "+short(ev.Args[0].Key()), o.Trace()...)
		k, v := ev.Args[1], stripIface(ev.Args[2])
		if option == "WithAccessToken" {
			s, ok := k.str()
			r.Ob(R, ok && s == "lightstep-access-token" && v.Key() == arg.Key(), fn, "token", ev.Pos, "is not put in its header: "+short(k.Key()), o.Trace()...)
			continue
		}
		ok := k.Op == "rkey" && (v.Op == "relem" && v.Sub == k.Sub || v.Op == "lookup" && v.Args[0].Key() == arg.Key() && v.Args[1].Key() == k.Key())
		r.Ob(R, ok, fn, "header", ev.Pos, "is not one given: "+short(k.Key())+" "+short(v.Key()), o.Trace()...)
	}
	if option == "WithAccessToken" {
		r.Ob(R, n == 1, fn, "token", pos, fmt.Sprintf("is put in the headers %d times", n), o.Trace()...)
		return
	}
	its := 0
	for _, c := range o.Conds {
		if c.A.Op == "next" && c.Val {
			its++
		}
		if c.A.Op != "next" && !c.A.Has("init:*$0.Headers") && c.A.Key() != "==(init:ARG,nil)" && c.A.Key() != "==(builtin:len(init:ARG),0)" {
			r.Ob(R, false, fn, "headers", c.Pos, "depend on "+short(c.A.Key()), o.Trace()...)
		}
	}
	r.Ob(R, n == its, fn, "headers", pos, "given are not all put", o.Trace()...)
}

func launcherConfig(p *Prog) *types.Named {
	pk := p.pkg(mLaunch)
	if pk == nil {
		return nil
	}
	tn, _ := pk.Pkg.Scope().Lookup("Config").(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

func ruleEnvTags(p *Prog, r *Report) {
	const R = "environment"
	r.Rule(R, "each documented environment variable, with its documented default, is the one of the field its option sets, and no other field has one")
	ct := launcherConfig(p)
	if !r.Ob(R, ct != nil, nil, "Config", "-", "is missing") {
		return
	}
	st := structOf(ct)
	want := map[string][2]string{}
	for _, s := range settings {
		if s.env != "" {
			want[s.field] = [2]string{s.env, s.def}
		}
	}
	pos := p.pos(ct.Obj().Pos())
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("env")
		w, documented := want[f.Name()]
		delete(want, f.Name())
		if !documented {
			r.Ob(R, tag == "", nil, f.Name(), pos, "is set by an undocumented variable: "+tag)
			continue
		}
		parts := strings.Split(tag, ",")
		def := ""
		ok := true
		for j, s := range parts {
			s = strings.TrimSpace(s)
			if j == 0 {
				ok = s == w[0]
			} else if strings.HasPrefix(s, "default=") {
				def = strings.TrimPrefix(s, "default=")
			} else if s != "" {
				ok = false
			}
		}
		r.Ob(R, ok, nil, f.Name(), pos, "is set by another variable than "+w[0]+": "+tag)
		zero := map[string]string{"false": "", "": "false"}
		r.Ob(R, def == w[1] || zero[w[1]] == def && (w[1] == "" || w[1] == "false"), nil, f.Name(), pos, fmt.Sprintf("has another default than %q: %s", w[1], tag))
	}
	for f, w := range want {
		r.Ob(R, false, nil, f, pos, "is missing; it is set by "+w[0])
	}
	// the defaults a token is needed for
	pk := p.pkg(mLaunch)
	for _, n := range []string{"DefaultSpanExporterEndpoint", "DefaultMetricExporterEndpoint"} {
		c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const)
		r.Ob(R, ok && constant.StringVal(c.Val()) == "ingest.lightstep.com:443", nil, n, pos, "is another endpoint than the default")
	}
}

// ruleConfigOrder: the environment first, then the options, all in order;
// nothing changes a setting after.
func ruleConfigOrder(p *Prog, r *Report) {
	const R = "precedence"
	r.Rule(R, "the environment fills the configuration in before the options are applied to it, each once, in order; the fields the pipelines are given are those the last option left, except for the headers, which the token of the environment is added to if they have none")
	ct := launcherConfig(p)
	if ct == nil {
		return
	}
	n := 0
	for _, fn := range entryFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runEntry(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		isOpts := func(x *Ex) bool { return strings.Contains(x.Key(), "$0") }
		withOpts := 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			var cfg *Ex
			env, k := 0, 0
			var last *Ev
			for _, ev := range o.Ev {
				if ev.Kind == "store" && cfg != nil && k == 0 && len(ev.Args) == 2 {
					// defaults before the options
					continue
				}
				if ev.Kind != "call" {
					continue
				}
				if strings.Contains(ev.Name, "go-envconfig.") {
					env++
					r.Ob(R, k == 0, fn, "environment", ev.Pos, "is read after an option is applied", o.Trace()...)
					for _, a := range ev.Args {
						if stripIface(a).Op == "ptr" {
							cfg = stripIface(a)
						}
					}
					last = ev
					continue
				}
				if strings.HasPrefix(ev.Name, "dyn") && len(ev.Args) == 2 && ev.Args[1].Op == "ptr" && ev.Args[1].Typ != nil && types.Identical(derefT(ev.Args[1].Typ), ct) {
					r.Ob(R, cfg != nil && ev.Args[1].Key() == cfg.Key(), fn, "option", ev.Pos, "is applied to another configuration, or before the environment is read", o.Trace()...)
					key := ev.Args[0].Key()
					r.Ob(R, isOpts(ev.Args[0]) && strings.HasSuffix(key, fmt.Sprintf("[%d]", k)), fn, "option", ev.Pos, "is not the next one: "+short(key), o.Trace()...)
					k++
					last = ev
				}
			}
			if !r.Ob(R, env == 1 && cfg != nil, fn, "environment", pos, fmt.Sprintf("is read %d times on a path", env), o.Trace()...) {
				continue
			}
			// all options
			ended := false
			for _, c := range o.Conds {
				ck := c.A.Key()
				if !strings.Contains(ck, "builtin:len(") || !strings.Contains(ck, "$0") {
					continue
				}
				if c.A.Op == "<" && c.A.Args[0].Key() == fmt.Sprint(k) && !c.Val || c.A.Op == "==" && k == 0 && c.A.Args[1].Key() == "0" && c.Val {
					ended = true
				}
			}
			r.Ob(R, ended, fn, "options", pos, "are not all applied on a path", o.Trace()...)
			if k > 0 {
				withOpts++
			}
			n++
			// what the pipelines are given
			for _, ev := range o.Ev {
				if !isPipeline(p, ev) || len(ev.Args) == 0 {
					continue
				}
				st := structOf(ev.Args[0].Typ)
				if !r.Ob(R, ev.Args[0].Op == "struct" && st != nil, fn, "pipeline configuration", ev.Pos, "is not known: "+short(ev.Args[0].Key()), o.Trace()...) {
					continue
				}
				metrics := strings.Contains(ev.Fn.Name(), "Metric")
				for i, a := range ev.Args[0].Args {
					f := st.Field(i).Name()
					w, ok := pipelineField(f, metrics)
					switch {
					case !ok || a.isNil():
					case w == "Headers" || w == "Resource":
						if w == "Headers" {
							src := a
							for src.Op == "call" && strings.HasPrefix(src.Sub, "maps.Clone") {
								src = src.Args[0]
							}
							none := false
							for _, c := range o.Conds {
								if c.Val && c.A.Op == "==" && cfgIs(c.A.Args[0], "Headers") && c.A.Args[1].isNil() {
									none = true
								}
							}
							r.Ob(R, cfgIs(src, "Headers") || none && strings.HasPrefix(src.Key(), "make:"), fn, f, ev.Pos, "of the pipeline are not those of the configuration: "+short(a.Key()), o.Trace()...)
						}
					default:
						ok := cfgIs(a, w)
						if ok && a.Op == "sel" {
							// as the last of them left it
							ok = lastLeft(a, o, last)
						}
						r.Ob(R, ok, fn, f, ev.Pos, "of the pipeline is not "+w+" of the configuration: "+short(a.Key()), o.Trace()...)
					}
				}
			}
			// the headers
			for _, ev := range o.Ev {
				if ev.Kind != "mapupdate" || len(ev.Args) != 3 {
					continue
				}
				s, isS := ev.Args[1].str()
				if !isS || s != "lightstep-access-token" {
					continue
				}
				v := ev.Args[2].Key()
				r.Ob(R, (strings.Contains(v, "os.Getenv") || strings.Contains(v, "os.LookupEnv")) && strings.Contains(v, "(\"LS_ACCESS_TOKEN\")"), fn, "token", ev.Pos, "is not the one of the environment: "+short(v), o.Trace()...)
				unset := false
				for _, c := range o.Conds {
					ck := c.A.Key()
					if !strings.Contains(ck, "\"lightstep-access-token\"") || strings.Contains(ck, "PipelineConfig") {
						continue
					}
					switch {
					case strings.HasPrefix(ck, "has(") && !c.Val, c.A.Op == "==" && c.Val && (c.A.Args[1].Key() == "0" || c.A.Args[1].Key() == "\"\""), strings.HasPrefix(ck, "<(0,") && !c.Val:
						unset = true
					}
				}
				for _, c := range o.Conds {
					// headers made here have none
					if c.Val && c.A.Op == "==" && cfgIs(c.A.Args[0], "Headers") && c.A.Args[1].isNil() {
						unset = true
					}
				}
				r.Ob(R, unset, fn, "token", ev.Pos, "of the environment replaces one that was given", o.Trace()...)
			}
		}
		r.Ob(R, withOpts > 0, fn, "options", pos, "are never applied")
	}
	r.AtLeast(R, n, 4, "paths")
}

// lastLeft: the value is the one the last writer of the configuration left.
func lastLeft(a *Ex, o *Outcome, last *Ev) bool {
	if last == nil || len(a.Args) != 1 {
		return false
	}
	ids := map[string]int{}
	// the identifiers of the calls that wrote it, in order
	after := func(x *Ex) string {
		k := x.Key()
		i := strings.Index(k, "after:#")
		if i < 0 {
			return ""
		}
		k = k[i+len("after:#"):]
		if j := strings.IndexAny(k, "( )"); j >= 0 {
			k = k[:j]
		}
		return k
	}
	id := after(a)
	if id == "" {
		return false
	}
	best := 0
	var walk func(x *Ex)
	walk = func(x *Ex) {
		if s := after(x); s != "" && x.Op != "struct" {
			v := 0
			fmt.Sscan(s, &v)
			ids[s] = v
			if v > best {
				best = v
			}
		}
		for _, y := range x.Args {
			walk(y)
		}
	}
	for _, ev := range o.Ev {
		if isLoggerCall(ev) || ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "validateConfiguration" {
			continue
		}
		if ev.Kind == "call" && ev.Fn != nil && len(ev.Args) == 1 && ev.Args[0].Op == "struct" {
			for _, y := range ev.Args[0].Args {
				walk(y)
			}
		}
	}
	v := 0
	fmt.Sscan(id, &v)
	return v == best
}

func isLoggerCall(ev *Ev) bool { return ev.Kind == "call" && strings.Contains(ev.Name, ".Logger.") }

// pipelineField: the setting a field of a pipeline's configuration is for.
func pipelineField(f string, metrics bool) (string, bool) {
	switch f {
	case "Endpoint":
		if metrics {
			return "MetricExporterEndpoint", true
		}
		return "SpanExporterEndpoint", true
	case "Insecure":
		if metrics {
			return "MetricExporterEndpointInsecure", true
		}
		return "SpanExporterEndpointInsecure", true
	case "Headers", "Resource":
		return f, true
	case "Propagators":
		return f, !metrics
	case "ReportingPeriod":
		return "MetricReportingPeriod", metrics
	case "TemporalityPreference":
		return "MetricExporterTemporalityPreference", metrics
	case "MetricsBuiltinsEnabled", "MetricsBuiltinLibraries":
		return f, metrics
	}
	return "", false
}

// rulePipelineConfig: each pipeline is given its own settings.
func rulePipelineConfig(p *Prog, r *Report) {
	const R = "pipeline-settings"
	r.Rule(R, "the trace and the metric pipeline are given every setting of theirs, each in its field, with the headers and the resource of the configuration; the metric pipeline is set up where metrics are enabled only")
	for _, fn := range entryFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runEntry(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		traces, metrics := 0, 0
		for _, o := range os {
			for _, ev := range o.Ev {
				if !isPipeline(p, ev) || len(ev.Args) == 0 || ev.Args[0].Op != "struct" {
					continue
				}
				st := structOf(ev.Args[0].Typ)
				m := strings.Contains(ev.Fn.Name(), "Metric")
				if m {
					metrics++
					on := false
					for _, c := range o.Conds {
						if cfgIs(c.A, "MetricsEnabled") {
							on = c.Val
						}
					}
					r.Ob(R, on, fn, "metrics", ev.Pos, "are set up without being enabled", o.Trace()...)
				} else {
					traces++
				}
				got := map[string]bool{}
				for i, a := range ev.Args[0].Args {
					f := st.Field(i).Name()
					w, ok := pipelineField(f, m)
					if !ok {
						if f == "TLSSetting" {
							r.Ob(R, a.isNil() || a.Op == "ptr" && strings.HasPrefix(a.Key(), "&alloc"), fn, f, ev.Pos, "is set to "+short(a.Key()), o.Trace()...)
						}
						continue
					}
					got[f] = true
					switch f {
					case "Resource":
						src := a
						r.Ob(R, src.Op == "call" && src.Fn == nil || cfgIs(src, "Resource") || makesResource(src.Fn), fn, f, ev.Pos, "is not the one of the configuration: "+short(a.Key()), o.Trace()...)
					case "Headers":
						r.Ob(R, !a.isNil(), fn, f, ev.Pos, "are not given", o.Trace()...)
					default:
						r.Ob(R, cfgIs(a, w), fn, f, ev.Pos, "is not "+w+": "+short(a.Key()), o.Trace()...)
					}
				}
				for _, f := range []string{"Endpoint", "Insecure", "Headers", "Resource", "Propagators", "ReportingPeriod", "TemporalityPreference", "MetricsBuiltinsEnabled", "MetricsBuiltinLibraries"} {
					if _, ok := pipelineField(f, m); ok {
						r.Ob(R, got[f], fn, f, ev.Pos, "is not given", o.Trace()...)
					}
				}
			}
		}
		r.Ob(R, traces > 0 && metrics > 0, fn, "pipelines", pos, "are not both set up")
	}
}

// ruleExporterConfig: what the exporter of a pipeline is configured with.
func ruleExporterConfig(p *Prog, r *Report) {
	const R = "exporter-settings"
	r.Rule(R, "the exporter of a pipeline has the pipeline's endpoint, every header of it, and transport security: off where the pipeline says so, else the setting given, else on; the reader of metrics has the period given (30 s without one), the preference of the pipeline and its resource")
	n := 0
	for _, fn := range pipelineFns(p) {
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 60000, MaxIter: 3, Opaque: func(g *ssa.Function) bool {
			if g.Parent() != nil || pkgOf(g) == pkgOf(fn) {
				return false
			}
			return !(pkgOf(g) != nil && strings.HasSuffix(pkgOf(g).Path(), "/otelcol")) || g.Name() == "NewExporter"
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		insecure, given, dflt, hdrs := 0, 0, 0, 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			for _, ev := range o.Ev {
				if ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".WithResource")) {
					r.Ob(R, ev.Args[0].Key() == "sel:Resource($0)", fn, "resource", ev.Pos, "is not the one of the pipeline: "+short(ev.Args[0].Key()), o.Trace()...)
				}
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".NewPeriodicReader") {
					checkPeriod(r, R, fn, o, ev)
				}
				if !makesExporter(ev) {
					continue
				}
				n++
				if !r.Ob(R, len(ev.Args) >= 2 && structOf(ev.Args[1].Typ) != nil, fn, "exporter", ev.Pos, "has no known configuration", o.Trace()...) {
					continue
				}
				cc := selectPath(ev.Args[1], ".Exporter.ClientConfig", nil)
				get := func(path string) *Ex { return stripIface(selectPath(cc, path, nil)) }
				r.Ob(R, get(".Endpoint").Key() == "sel:Endpoint($0)", fn, "endpoint", ev.Pos, "is not the one of the pipeline: "+short(get(".Endpoint").Key()), o.Trace()...)
				// headers
				h := get(".Headers")
				puts, its := 0, 0
				for _, q := range o.Ev {
					if q == ev {
						break
					}
					if q.Kind != "mapupdate" || len(q.Args) != 3 || q.Args[0].Key() != h.Key() {
						continue
					}
					k, v := stripIface(q.Args[1]), stripIface(q.Args[2])
					ok := k.Op == "rkey" && (v.Op == "relem" && v.Sub == k.Sub || v.Op == "lookup")
					r.Ob(R, ok, fn, "header", q.Pos, "is not one of the pipeline: "+short(k.Key())+" "+short(v.Key()), o.Trace()...)
					puts++
				}
				done := false
				for _, c := range o.Conds {
					if c.A.Op == "next" && strings.Contains(c.A.Key(), "Headers") {
						if c.Val {
							its++
						} else {
							done = true
						}
					}
				}
				r.Ob(R, done || its == 0, fn, "headers", ev.Pos, "of the pipeline may be left before the last", o.Trace()...)
				if its > 0 {
					hdrs++
				}
				r.Ob(R, puts == its, fn, "headers", ev.Pos, fmt.Sprintf("of the pipeline are not all given: %d of %d", puts, its), o.Trace()...)
				// security
				off, k1 := o.Cond("sel:Insecure($0)")
				none, k2 := o.Cond("==(sel:TLSSetting($0),nil)")
				ins := get(".TLSSetting.Insecure")
				b, isB := ins.boolVal()
				zero := ins.Op == "const" && strings.HasPrefix(ins.Sub, "zero:")
				switch {
				case ins.Key() == "sel:Insecure($0)":
					insecure++
				case k1 && off:
					insecure++
					r.Ob(R, isB && b, fn, "security", ev.Pos, "is on where the pipeline turns it off", o.Trace()...)
				case k1 && k2 && !none:
					given++
					r.Ob(R, ins.Key() == "init:*$0.TLSSetting.Insecure" || ins.Key() == "init:*sel:TLSSetting($0).Insecure", fn, "security", ev.Pos, "is not as given: "+short(ins.Key()), o.Trace()...)
				default:
					dflt++
					r.Ob(R, isB && !b || zero, fn, "security", ev.Pos, "is not on by default: "+short(ins.Key()), o.Trace()...)
				}
			}
		}
		r.Ob(R, insecure > 0 && hdrs > 0 && dflt > 0 && given > 0, fn, "exporter", pos, "is never made with headers, or with and without security")
	}
	r.AtLeast(R, n, 6, "exporters made")
}

func checkPeriod(r *Report, R string, fn *ssa.Function, o *Outcome, ev *Ev) {
	v := stripIface(ev.Args[1])
	empty, known := o.Cond("==(sel:ReportingPeriod($0),\"\")")
	if !known {
		empty, known = o.Cond("==(builtin:len(sel:ReportingPeriod($0)),0)")
	}
	if known && empty {
		n, ok := v.int()
		r.Ob(R, ok && n == 30e9, fn, "period", ev.Pos, "is not 30 s by default: "+short(v.Key()), o.Trace()...)
		return
	}
	r.Ob(R, v.Op == "res" && v.Sub == "0" && strings.HasPrefix(v.Args[0].Sub, "time.ParseDuration") && v.Args[0].Args[0].Key() == "sel:ReportingPeriod($0)", fn, "period", ev.Pos, "is not the one given: "+short(v.Key()), o.Trace()...)
}

// ruleTempoPref: the temporality of each instrument kind by the preference.
func ruleTempoPref(p *Prog, r *Report) {
	const R = "temporality-preference"
	r.Rule(R, "the reader of the metric pipeline has a temporality selector that gives up/down counters cumulative temporality, other synchronous instruments delta temporality for the preferences delta, stateless and lowmemory, other asynchronous instruments for delta only, and cumulative temporality otherwise; any other preference is an error")
	n := 0
	for _, fn := range pipelineFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runPipeline(p, fn)
		if e.Over {
			continue
		}
		readers := false
		seen := map[string]bool{}
		for _, o := range os {
			if o.Panic {
				continue
			}
			var sel *Ex
			for _, ev := range o.Ev {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".WithReader") {
					readers = true
					ok := false
					for _, a := range ev.Args[1:] {
						ok = ok || a.Any(func(x *Ex) bool {
							if x.Op == "call" && strings.Contains(x.Sub, "WithDefaultAggregationTemporalitySelector") {
								sel = stripIface(x.Args[0])
								return true
							}
							return false
						})
					}
					r.Ob(R, ok, fn, "reader", ev.Pos, "has no temporality selector", o.Trace()...)
				}
			}
			pref, known := preference(o)
			if sel == nil {
				continue
			}
			if !r.Ob(R, known, fn, "preference", pos, "is another than the documented ones on a path that sets a reader up", o.Trace()...) {
				continue
			}
			if seen[pref] {
				continue
			}
			seen[pref] = true
			after := o.Apply(sel)
			r.Ob(R, len(after) > 0, fn, "selector", pos, "is not known: "+short(sel.Key()))
			kinds := map[string]bool{}
			kk := p.pkg(mInst)
			for _, kn := range []string{"SyncCounter", "SyncUpDownCounter", "SyncHistogram", "SyncGauge", "AsyncCounter", "AsyncUpDownCounter", "AsyncGauge"} {
				c, ok := kk.Pkg.Scope().Lookup(kn).(*types.Const)
				if !ok {
					continue
				}
				kv, _ := constant.Int64Val(c.Val())
				var arg = exConst(c.Val(), c.Type())
				res := o.Apply(sel, arg)
				if !r.Ob(R, len(res) == 1 && !res[0].Panic, fn, kn, pos, "has several temporalities for "+pref) {
					continue
				}
				_ = kv
				t, ok := res[0].Ret[0].int()
				name := tempName(p, t)
				want := "Cumulative"
				switch {
				case strings.Contains(kn, "UpDown"):
				case strings.HasPrefix(kn, "Sync") && kn != "SyncGauge" && pref != "cumulative":
					want = "Delta"
				case strings.HasPrefix(kn, "Async") && pref == "delta":
					want = "Delta"
				case kn == "SyncGauge":
					want = name // not specified
				}
				r.Ob(R, ok && name == want, fn, kn, pos, fmt.Sprintf("has %s temporality for the preference %s, not %s", name, pref, want), res[0].Trace()...)
				kinds[kn] = true
				n++
			}
			r.Ob(R, len(kinds) >= 6, fn, "kinds", pos, "are not all known")
		}
		if readers {
			for _, w := range []string{"delta", "stateless", "lowmemory", "cumulative"} {
				r.Ob(R, seen[w], fn, w, pos, "is not accepted")
			}
		}
	}
	r.AtLeast(R, n, 18, "kinds of instrument")
}

func tempName(p *Prog, v int64) string {
	pk := p.pkg(mAggn)
	for _, n := range []string{"Cumulative", "Delta"} {
		if c, ok := pk.Pkg.Scope().Lookup(n + "Temporality").(*types.Const); ok {
			if k, _ := constant.Int64Val(c.Val()); k == v {
				return n
			}
		}
	}
	return fmt.Sprint(v)
}

// preference: the temporality preference a path is for.
func preference(o *Outcome) (string, bool) {
	for _, c := range o.Conds {
		if c.A.Op != "==" || !c.Val || len(c.A.Args) != 2 || !strings.Contains(c.A.Args[0].Key(), "TemporalityPreference") {
			continue
		}
		if s, ok := c.A.Args[1].str(); ok {
			switch s {
			case "":
				return "cumulative", true
			case "delta", "stateless", "lowmemory", "cumulative":
				return s, true
			}
		}
		if i, ok := c.A.Args[1].int(); ok && i == 0 {
			return "cumulative", true
		}
	}
	return "", false
}

// ruleExporterUse: an exporter is made with the configuration it is given.
func ruleExporterUse(p *Prog, r *Report) {
	const R = "exporter-made"
	r.Rule(R, "the exporter and the batcher are made with the configuration given, its connection settings unchanged")
	n := 0
	for _, fn := range p.all {
		if fn.Name() != "NewExporter" || pkgOf(fn) == nil || !strings.HasSuffix(pkgOf(fn).Path(), "/otelcol") || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		pos := p.pos(fn.Pos())
		ci := -1
		for i, q := range fn.Params {
			if nt := namedOf(q.Type()); nt != nil && nt.Obj().Name() == "Config" {
				ci = i
			}
		}
		if !r.Ob(R, ci >= 0, fn, "configuration", pos, "is not given") {
			continue
		}
		e := &Effects{P: p, Opaque: func(g *ssa.Function) bool { return g.Parent() == nil && pkgOf(g) != pkgOf(fn) }}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			for _, ev := range o.Ev {
				if ev.Kind != "call" || !strings.Contains(ev.Name, ".Factory.Create") {
					continue
				}
				for _, a := range ev.Args {
					x := stripIface(a)
					if x.Op != "ptr" || x.Typ == nil || structOf(derefT(x.Typ)) == nil {
						continue
					}
					st := structOf(derefT(x.Typ))
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Name() != "ClientConfig" {
							continue
						}
						n++
						v := ev.Deref(fieldPtr(x, f), f.Type())
						r.Ob(R, v.Key() == fmt.Sprintf("sel:ClientConfig(sel:Exporter($%d))", ci), fn, "connection settings", ev.Pos, "are not those given: "+short(v.Key()), o.Trace()...)
					}
				}
			}
		}
	}
	r.AtLeast(R, n, 2, "exporters made")
}
