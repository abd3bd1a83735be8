package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P21", checkP21)
	register("P22", checkP22)
}

// inPkg: whether a function belongs to a package of the module.
func inPkg(p *Prog, f *ssa.Function, rel string) bool {
	pk := pkgOf(f)
	return pk != nil && pk.Path() == p.Module+"/"+rel
}

// launcherType: the type whose Shutdown stops everything.
func launcherType(p *Prog) *types.Named {
	pk := p.pkg(mLaunch)
	if pk == nil {
		return nil
	}
	tn, _ := pk.Pkg.Scope().Lookup("Launcher").(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

// isConfigArg: a function of the launcher which makes the resource.
func makesResource(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && types.TypeString(derefT(rs.At(0).Type()), nil) == "go.opentelemetry.io/otel/sdk/resource.Resource"
}

// entryFns: the exported functions returning a Launcher.
func entryFns(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	lt := launcherType(p)
	for _, f := range p.all {
		if lt == nil || !inPkg(p, f, mLaunch) || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() == 0 {
			continue
		}
		if nt, ok := derefT(tupT(f.Signature.Results(), 0)).(*types.Named); ok && nt.Obj() == lt.Obj() {
			out = append(out, f)
		}
	}
	return out
}

// runEntry: the paths of the launcher's entry point, from its options to the
// set-up of the pipelines; the pipelines and the resource are opaque.
func runEntry(p *Prog, f *ssa.Function) (*Effects, []*Outcome) {
	e := &Effects{P: p, MaxPaths: 40000, MaxIter: 3,
		Opaque: func(g *ssa.Function) bool { return g.Parent() == nil && pkgOf(g) != pkgOf(f) },
		Model: func(x *XC) bool {
			if strings.Contains(x.Name, "go-envconfig.") {
				// it fills the configuration in
				id := "#" + x.E.fresh(x.P)
				for _, a := range x.Args {
					if a.Op == "iface" {
						x.E.havoc(x.P, a.Args[0], id)
					}
				}
				x.Res = []*Ex{{Op: "call", Sub: x.Name + id, Args: x.Args, Typ: tupT(x.Fn.Signature.Results(), 0), Fn: x.Fn}}
				return true
			}
			if x.Fn == nil || !makesResource(x.Fn) || !inPkg(p, x.Fn, mLaunch) {
				return false
			}
			// it leaves the configuration alone (P23)
			x.Res = []*Ex{{Op: "call", Sub: fullName(x.Fn), Typ: tupT(x.Fn.Signature.Results(), 0)}}
			return true
		}}
	return e, e.Run(f, nil)
}

// isPipeline: a call setting a pipeline up.
func isPipeline(p *Prog, ev *Ev) bool {
	return ev.Kind == "call" && ev.Fn != nil && inPkg(p, ev.Fn, mPls) && ev.Fn.Signature.Results().Len() == 2
}

func isSetGlobal(ev *Ev) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, s := range []string{"otel.SetTracerProvider", "otel.SetMeterProvider", "otel.SetTextMapPropagator", "global.SetLoggerProvider"} {
		if strings.HasSuffix(ev.Name, s) {
			return true
		}
	}
	return false
}

// isReport: a call that tells the user about a problem.
func isReport(ev *Ev) bool {
	return ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".Logger.Fatalf") || strings.HasSuffix(ev.Name, "otel.Handle") || strings.HasSuffix(ev.Name, ".ErrorHandler.Handle") || strings.HasPrefix(ev.Name, "log.Fatal") || strings.HasPrefix(ev.Name, "log.Panic"))
}

func checkP22(p *Prog, r *Report) {
	ruleShutdownAll(p, r)
	ruleShutdownKept(p, r)
	rulePipelineShutdown(p, r)
}

func ruleShutdownAll(p *Prog, r *Report) {
	const R = "shutdown-all"
	r.Rule(R, "shutting the launcher down calls every function of its list of shutdown functions exactly once on every path, in particular when an earlier one fails and before a failure is reported with a call that ends the process; a failure is reported")
	lt := launcherType(p)
	n := 0
	for _, fn := range p.all {
		if lt == nil || generic(fn) || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Name() != "Shutdown" {
			continue
		}
		if nt, ok := derefT(fn.Signature.Recv().Type()).(*types.Named); !ok || nt.Obj() != lt.Obj() {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 40000}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			list := ""
			done := map[string]int{}
			last, rep := -1, -1
			var res []*Ex
			for i, ev := range o.Ev {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn") && len(ev.Args) > 0 {
					k := ev.Args[0].Key()
					if j := strings.LastIndex(k, "["); j > 0 && strings.HasPrefix(k, "init:") {
						l := k[len("init:"):j]
						r.Ob(R, list == "" || list == l, fn, "list", ev.Pos, "is not one", o.Trace()...)
						list = l
						done[k[j:]]++
						last = i
						res = append(res, ev.Res)
					}
				}
				if isReport(ev) {
					if rep < 0 {
						rep = i
					}
				}
			}
			if list == "" {
				for _, c := range o.Conds {
					if k := c.A.Key(); c.Val && strings.HasPrefix(k, "==(builtin:len(") && strings.HasSuffix(k, "),0)") {
						list = strings.TrimSuffix(strings.TrimPrefix(k, "==(builtin:len("), "),0)")
					}
				}
			}
			plain := strings.Contains(list, "$0.") && !strings.ContainsAny(list, "([")
			plain = plain || strings.HasPrefix(list, "sel:") && strings.HasSuffix(list, "($0)") && strings.Count(list, "(") == 1
			cnt, known := maxLen(o, list)
			if !r.Ob(R, known && plain, fn, "shutdown functions", pos, "are not all called on a path ("+list+")", o.Trace()...) {
				continue
			}
			for i := 0; i < cnt; i++ {
				none, _ := o.Cond("==(init:" + list + "[" + itoa(i) + "],nil)")
				r.Ob(R, done["["+itoa(i)+"]"] == 1 || none, fn, "shutdown function "+itoa(i), pos, "is called "+itoa(done["["+itoa(i)+"]"])+" times on a path", o.Trace()...)
			}
			r.Ob(R, rep < 0 || rep > last, fn, "report", pos, "of a failure comes before a shutdown function was called, and may end the process", o.Trace()...)
			for _, x := range res {
				nilv, kn := o.Cond("==(" + x.Key() + ",nil)")
				told := false
				for _, ev := range o.Ev {
					if isReport(ev) {
						for _, a := range ev.Args {
							told = told || a.Has(x.Key())
						}
					}
				}
				// a joined error that is nil has no part that is not
				for _, c := range o.Conds {
					if c.A.Op == "==" && c.Val && len(c.A.Args) == 2 && c.A.Args[1].isNil() && c.A.Args[0].Has(x.Key()) && joins(c.A.Args[0]) {
						nilv, kn = true, true
					}
				}
				for _, a := range o.Ret {
					told = told || a.Has(x.Key())
				}
				r.Ob(R, told || kn && nilv, fn, "failure", pos, "of a shutdown function is not reported", o.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 1, "shutdowns of the launcher")
}

// joins: an error built of errors only, which is nil only if all are.
func joins(x *Ex) bool {
	if x.Op != "call" {
		return true
	}
	for _, s := range []string{"errors.Join", "multierr.Append", "multierr.Combine"} {
		if strings.Contains(x.Sub, s) {
			return true
		}
	}
	return !strings.Contains(x.Sub, "/") && strings.HasPrefix(x.Sub, "dyn")
}

// inList: whether a list value holds a value.
func inList(o *Outcome, list, x *Ex) bool {
	switch list.Op {
	case "list", "append":
		for _, a := range list.Args {
			if a.Key() == x.Key() || inList(o, a, x) {
				return true
			}
		}
	case "map", "mapadd":
		for _, a := range list.Args {
			if a.Key() == x.Key() {
				return true
			}
		}
	}
	return false
}

func ruleShutdownKept(p *Prog, r *Report) {
	const R = "shutdown-kept"
	r.Rule(R, "every shutdown function the set-up of a pipeline returns without an error is in the list of the launcher returned, on every path (also when the set-up of another pipeline fails), and a failed set-up is reported")
	fns := entryFns(p)
	r.AtLeast(R, len(fns), 1, "functions returning a launcher")
	for _, fn := range fns {
		pos := p.pos(fn.Pos())
		e, os := runEntry(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		n := 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			whole := o.Ret[0]
			if whole.Op == "ptr" {
				whole = o.Read(whole, launcherType(p))
			}
			for i, ev := range o.Ev {
				if !isPipeline(p, ev) {
					continue
				}
				n++
				f, er := ev.Res.Args[0], ev.Res.Args[1]
				ok, known := o.Cond("==(" + er.Key() + ",nil)")
				none, _ := o.Cond("==(" + f.Key() + ",nil)")
				if !r.Ob(R, known, fn, "set-up", ev.Pos, short(ev.Name)+": its error is not tested", o.Trace()...) {
					continue
				}
				if !ok {
					told := false
					for _, x := range o.Ev[i:] {
						if isReport(x) {
							for _, a := range x.Args {
								told = told || a.Has(er.Key())
							}
						}
					}
					r.Ob(R, told, fn, "set-up", ev.Pos, short(ev.Name)+": its failure is not reported", o.Trace()...)
					continue
				}
				if none {
					continue
				}
				kept := false
				st, _ := launcherType(p).Underlying().(*types.Struct)
				for j := 0; st != nil && j < st.NumFields(); j++ {
					if _, isSl := st.Field(j).Type().Underlying().(*types.Slice); !isSl {
						continue
					}
					kept = kept || inList(o, exField(whole, st.Field(j).Name(), st.Field(j).Type()), f)
				}
				r.Ob(R, kept, fn, "shutdown function", ev.Pos, short(ev.Name)+": is not kept on a path", o.Trace()...)
			}
		}
		r.AtLeast(R, n, 2, "pipelines set up by "+fn.Name())
	}
}

// pipelineFns: the functions setting pipelines up.
func pipelineFns(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.all {
		if !inPkg(p, f, mPls) || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 2 || f.Synthetic != "" {
			continue
		}
		if sg, ok := tupT(f.Signature.Results(), 0).Underlying().(*types.Signature); ok && sg.Results().Len() == 1 && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// runPipeline: the paths of setting a pipeline up, with the SDK opaque.
func runPipeline(p *Prog, f *ssa.Function) (*Effects, []*Outcome) {
	e := &Effects{P: p, MaxPaths: 40000, MaxIter: 3, Opaque: func(g *ssa.Function) bool { return g.Parent() == nil && pkgOf(g) != pkgOf(f) }}
	return e, e.Run(f, nil)
}

// isExporter: the creation of an exporter.
func makesExporter(ev *Ev) bool {
	return ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "NewExporter" && ev.Fn.Signature.Results().Len() == 2
}

// owner: a value built from the exporter whose shutdown shuts the exporter
// down: a processor, a reader or a provider with one.
func owns(x, exp *Ex) bool {
	if x.Key() == exp.Key() {
		return true
	}
	if x.Op == "iface" || x.Op == "conv" {
		return owns(x.Args[0], exp)
	}
	if x.Op != "call" {
		return false
	}
	ok := false
	for _, s := range []string{"trace.NewBatchSpanProcessor", "trace.NewSimpleSpanProcessor", "trace.NewTracerProvider", "metric.NewMeterProvider", "metric.NewPeriodicReader", "trace.WithSpanProcessor", "trace.WithBatcher", "trace.WithSyncer", "metric.WithReader"} {
		ok = ok || strings.Contains(x.Sub, s)
	}
	if !ok {
		return false
	}
	for _, a := range x.Args {
		if owns(a, exp) {
			return true
		}
		if a.Op == "list" || a.Op == "append" {
			for _, b := range a.Args {
				if owns(b, exp) {
					return true
				}
			}
		}
	}
	return false
}

func stops(ev *Ev, exp *Ex) bool {
	if ev.Kind != "call" || !strings.HasSuffix(ev.Name, ".Shutdown") && !strings.HasSuffix(ev.Name, ".ShutdownMetrics") || len(ev.Args) == 0 {
		return false
	}
	return owns(ev.Args[0], exp)
}

func rulePipelineShutdown(p *Prog, r *Report) {
	const R = "pipeline-shutdown"
	r.Rule(R, "setting a pipeline up returns either an error and leaves nothing running, having shut down the exporter if it was made, or a function which on every path shuts down the processor, reader or provider which owns the exporter, once, under a context that has not ended, and returns its error")
	fns := pipelineFns(p)
	r.AtLeast(R, len(fns), 2, "pipelines")
	for _, fn := range fns {
		pos := p.pos(fn.Pos())
		e, os := runPipeline(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		n := 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			var exp, expErr *Ex
			for _, ev := range o.Ev {
				if makesExporter(ev) {
					r.Ob(R, exp == nil, fn, "exporter", ev.Pos, "a second one is made", o.Trace()...)
					exp, expErr = ev.Res.Args[0], ev.Res.Args[1]
				}
			}
			stopped := 0
			for _, ev := range o.Ev {
				if exp != nil && stops(ev, exp) {
					stopped++
				}
			}
			made := false
			if exp != nil {
				ok, known := o.Cond("==(" + expErr.Key() + ",nil)")
				r.Ob(R, known, fn, "exporter", pos, "the error of making it is not tested", o.Trace()...)
				made = ok
			}
			if !nilErr(o) {
				r.Ob(R, !made || stopped == 1, fn, "failed set-up", pos, "leaves the exporter running", o.Trace()...)
				continue
			}
			if !r.Ob(R, made && stopped == 0, fn, "set-up", pos, "succeeds without a running exporter", o.Trace()...) {
				continue
			}
			n++
			after := o.Apply(o.Ret[0])
			r.Ob(R, len(after) > 0, fn, "shutdown function", pos, "is unknown: "+short(o.Ret[0].Key()), o.Trace()...)
			for _, q := range after {
				if q.Panic {
					continue
				}
				k := 0
				for _, ev := range q.Ev {
					if !stops(ev, exp) {
						continue
					}
					k++
					nilv, kn := q.Cond("==(" + ev.Res.Key() + ",nil)")
					r.Ob(R, q.Ret[0].Has(ev.Res.Key()) || kn && nilv, fn, "shutdown function", ev.Pos, "does not return the error of the shutdown", q.Trace()...)
					if len(ev.Args) > 1 {
						c := ev.Args[1]
						for c.Op == "res" || c.Op == "call" && strings.HasPrefix(c.Sub, "context.WithTimeout") {
							c = c.Args[0]
						}
						r.Ob(R, c.Op == "call" && (strings.HasPrefix(c.Sub, "context.Background") || strings.HasPrefix(c.Sub, "context.TODO")), fn, "context", ev.Pos, "of the shutdown may have ended: "+short(ev.Args[1].Key()), q.Trace()...)
					}
				}
				r.Ob(R, k == 1, fn, "shutdown function", pos, "shuts the owner of the exporter down "+itoa(k)+" times on a path", q.Trace()...)
			}
		}
		r.AtLeast(R, n, 1, "successful set-ups of "+fn.Name())
	}
}

func checkP21(p *Prog, r *Report) {
	ruleValidateFirst(p, r)
	rulePipelineValid(p, r)
	ruleToken(p, r)
}

// cfgIs: the value of a field of the launcher's configuration.
func cfgIs(x *Ex, field string) bool {
	if x.Op == "sel" && strings.SplitN(x.Sub, "(", 2)[0] == field {
		return true
	}
	k := x.Key()
	return x.Op == "init" && strings.HasSuffix(k, "."+field)
}

// emptyVal: what a path knows about a string being empty.
func emptyVal(o *Outcome, is func(*Ex) bool) (empty, known bool) {
	for _, c := range o.Conds {
		if c.A.Op != "==" || len(c.A.Args) != 2 {
			if c.A.Op == "<" && len(c.A.Args) == 2 && c.A.Args[0].Key() == "0" && c.A.Args[1].is("builtin", "len") && is(c.A.Args[1].Args[0]) {
				return !c.Val, true
			}
			continue
		}
		a, b := c.A.Args[0], c.A.Args[1]
		if a.is("builtin", "len") && b.Key() == "0" && is(a.Args[0]) {
			return c.Val, true
		}
		if is(a) {
			if s, ok := b.str(); ok {
				if s == "" {
					return c.Val, true
				}
				if c.Val {
					return false, true
				}
			}
		}
	}
	return
}

const defaultEndpoint = "ingest.lightstep.com:443"
const tokenHeader = "lightstep-access-token"

// atDefault: what a path knows about an endpoint being the default one.
func atDefault(o *Outcome, field string) (is, known bool) {
	for _, c := range o.Conds {
		if c.A.Op == "==" && len(c.A.Args) == 2 && cfgIs(c.A.Args[0], field) {
			if s, ok := c.A.Args[1].str(); ok {
				if s == defaultEndpoint {
					return c.Val, true
				}
				if c.Val {
					return false, true
				}
			}
		}
	}
	return
}

// isToken: the token in the headers, or the one given in the environment.
func isToken(x *Ex) bool {
	k := x.Key()
	return (x.Op == "lookup" || strings.HasPrefix(x.Op, "lookup") || x.Op == "mapget" || x.Op == "res" || x.Op == "init" || x.Op == "elem" || x.Op == "get") && strings.Contains(k, `"`+tokenHeader+`"`)
}

func isEnvToken(x *Ex) bool {
	if x.Op == "res" && strings.HasSuffix(x.Key(), ")") && strings.HasPrefix(x.Key(), "res:0(") && len(x.Args) > 0 {
		x = x.Args[0] // os.LookupEnv
	}
	return x.Op == "call" && strings.HasPrefix(x.Sub, "os.") && strings.Contains(x.Key(), `"LS_ACCESS_TOKEN"`)
}

// validity: what a path has established about the configuration.
type validity struct {
	envOK, envBad   bool
	nameOK, nameBad bool
	tokOK, tokBad   bool
}

func validityOf(o *Outcome) (v validity) {
	// the environment
	var env *Ex
	for _, ev := range o.Ev {
		if ev.Kind == "call" && strings.Contains(ev.Name, "go-envconfig.") && ev.Res != nil {
			env = ev.Res
		}
	}
	for _, c := range o.Conds {
		if c.A.Op != "==" || len(c.A.Args) != 2 || !c.A.Args[1].isNil() {
			continue
		}
		x := c.A.Args[0]
		kept := x.Op == "sel" && x.Typ != nil && types.TypeString(x.Typ, nil) == "error" && strings.Contains(x.Key(), "after:")
		if env != nil && x.Key() == env.Key() || kept {
			v.envOK, v.envBad = c.Val, !c.Val
		}
	}
	// the service name
	if e, known := emptyVal(o, func(x *Ex) bool { return cfgIs(x, "ServiceName") }); known && !e {
		v.nameOK = true
	} else if known {
		bad := true
		for _, c := range o.Conds {
			if c.A.Op == "==" && c.Val && strings.Contains(c.A.Key(), `"service.name"`) && len(c.A.Args) == 2 {
				// the attribute has a value
				el := c.A.Args[0].Key()
				el = strings.TrimSuffix(el, ".Key")
				el = el[strings.Index(el, "init:")+len("init:"):]
				if e, known := emptyVal(o, func(x *Ex) bool {
					return strings.Contains(x.Key(), el) && (strings.Contains(x.Key(), "AsString") || strings.Contains(x.Key(), "Emit"))
				}); known && !e {
					bad = false
				}
			}
		}
		v.nameOK, v.nameBad = !bad, bad
	}
	// the token
	tokEmpty, tokKnown := emptyVal(o, isToken)
	for _, ev := range o.Ev {
		if ev.Kind == "mapupdate" && len(ev.Args) == 3 && isEnvToken(ev.Args[2]) {
			if k, ok := ev.Args[1].str(); ok && k == tokenHeader {
				if e, known := emptyVal(o, isEnvToken); known && !e {
					tokEmpty, tokKnown = false, true
				}
			}
		}
	}
	sd, sk := atDefault(o, "SpanExporterEndpoint")
	md, mk := atDefault(o, "MetricExporterEndpoint")
	v.tokOK = tokKnown && !tokEmpty || sk && !sd && mk && !md
	v.tokBad = !(tokKnown && !tokEmpty) && (sk && sd || mk && md)
	return
}

func ruleValidateFirst(p *Prog, r *Report) {
	const R = "validated-first"
	r.Rule(R, "no pipeline is set up and no global provider is installed on any path of the launcher which has not established that the environment could be parsed, that there is a service name (its own or the resource's) and that there is an access token or neither endpoint is the default one; a path that establishes the contrary reports it and ends without setting anything up; a path with a valid configuration sets the enabled pipelines up")
	fns := entryFns(p)
	r.AtLeast(R, len(fns), 1, "functions returning a launcher")
	for _, fn := range fns {
		pos := p.pos(fn.Pos())
		e, os := runEntry(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		good := 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			v := validityOf(o)
			started := -1
			rep := -1
			pipes := map[string]bool{}
			for i, ev := range o.Ev {
				if isPipeline(p, ev) || isSetGlobal(ev) {
					if started < 0 {
						started = i
					}
					if isPipeline(p, ev) {
						pipes[ev.Fn.Name()] = true
					}
				}
				if isReport(ev) && started < 0 {
					rep = i
				}
			}
			if started >= 0 {
				good++
				r.Ob(R, v.envOK, fn, "environment", o.Ev[started].Pos, "a pipeline is set up although its settings may not have been parsed", o.Trace()...)
				r.Ob(R, v.nameOK, fn, "service name", o.Ev[started].Pos, "a pipeline is set up without one", o.Trace()...)
				r.Ob(R, v.tokOK, fn, "access token", o.Ev[started].Pos, "a pipeline is set up without one for a default endpoint", o.Trace()...)
			} else if v.envBad || v.nameBad || v.tokBad {
				r.Ob(R, rep >= 0, fn, "report", pos, "an invalid configuration is not reported", o.Trace()...)
			} else {
				// nothing is set up: both are disabled
				r.Ob(R, v.envOK && v.nameOK && v.tokOK, fn, "set-up", pos, "is skipped on a path that does not find the configuration invalid", o.Trace()...)
			}
			if v.envOK && v.nameOK && v.tokOK {
				traces, tk := emptyVal(o, func(x *Ex) bool { return cfgIs(x, "SpanExporterEndpoint") })
				if d, known := atDefault(o, "SpanExporterEndpoint"); known && d {
					traces, tk = false, true
				}
				r.Ob(R, pipes["NewTracePipeline"] == !(tk && traces), fn, "traces", pos, "are set up or not against the configuration", o.Trace()...)
				on := true
				for _, c := range o.Conds {
					if cfgIs(c.A, "MetricsEnabled") {
						on = c.Val
					}
				}
				em, mk := emptyVal(o, func(x *Ex) bool { return cfgIs(x, "MetricExporterEndpoint") })
				r.Ob(R, pipes["NewMetricsPipeline"] == (on && !(mk && em)), fn, "metrics", pos, "are set up or not against the configuration", o.Trace()...)
			}
		}
		r.AtLeast(R, good, 1, "paths setting a pipeline up")
	}
}

func rulePipelineValid(p *Prog, r *Report) {
	const R = "pipeline-settings"
	r.Rule(R, "a pipeline's exporter is made only on paths where its reporting period, if any, was parsed without an error and is positive and its temporality preference is a known one, and a set-up that fails installs no global provider")
	n := 0
	for _, fn := range pipelineFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runPipeline(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			n++
			var parsed *Ex
			exp := -1
			for i, ev := range o.Ev {
				if ev.Kind == "call" && ev.Name == "time.ParseDuration" {
					parsed = ev.Res
				}
				if makesExporter(ev) && exp < 0 {
					exp = i
				}
				if isSetGlobal(ev) {
					r.Ob(R, nilErr(o), fn, "failed set-up", ev.Pos, "installs a global", o.Trace()...)
				}
			}
			if parsed != nil && (exp >= 0 || nilErr(o)) {
				ok, known := o.Cond("==(" + parsed.Args[1].Key() + ",nil)")
				r.Ob(R, known && ok, fn, "reporting period", pos, "may not have been parsed", o.Trace()...)
				pos0 := false
				for _, c := range o.Conds {
					if c.A.Op == "<" && c.A.Args[0].Key() == "0" && c.A.Args[1].Key() == parsed.Args[0].Key() {
						pos0 = c.Val
					}
					if c.A.Op == "<" && c.A.Args[1].Key() == "1" && c.A.Args[0].Key() == parsed.Args[0].Key() {
						pos0 = !c.Val
					}
				}
				r.Ob(R, pos0, fn, "reporting period", pos, "may not be positive", o.Trace()...)
			}
			// the temporality preference
			for _, ev := range o.Ev {
				if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "strings.ToLower") || exp < 0 {
					continue
				}
				knownPref := false
				for _, c := range o.Conds {
					if c.A.Op == "==" && c.Val && c.A.Args[0].Key() == ev.Res.Key() {
						if s, ok := c.A.Args[1].str(); ok {
							knownPref = knownPref || s == "" || s == "cumulative" || s == "delta" || s == "lowmemory" || s == "stateless"
							r.Ob(R, knownPref, fn, "temporality", pos, "an unknown preference is accepted: "+s, o.Trace()...)
						}
					}
				}
				r.Ob(R, knownPref, fn, "temporality", pos, "an unknown preference is accepted", o.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 6, "paths of pipelines")
}

// tainted: whether a value is made of the headers or the token, other than
// through the set-up of a pipeline.
func tainted(x *Ex) bool {
	if cfgIs(x, "Headers") || isEnvToken(x) || isToken(x) {
		return true
	}
	if x.Op == "call" && strings.Contains(x.Sub, "/"+mPls+".") || x.is("builtin", "len") || x.Op == "==" || x.Op == "<" {
		return false
	}
	for _, a := range x.Args {
		if tainted(a) {
			return true
		}
	}
	return false
}

// ruleToken: where the headers go.
func ruleToken(p *Prog, r *Report) {
	const R = "token"
	r.Rule(R, "the headers and the access token flow from the configuration into the pipelines' headers only: no call outside of the pipelines' set-up is given them, other than the dump of the configuration made on the paths where the log level is debug")
	for _, fn := range entryFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runEntry(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		n := 0
		for _, o := range os {
			debug := false
			for _, c := range o.Conds {
				if c.A.Op == "==" && cfgIs(c.A.Args[0], "LogLevel") && c.Val {
					if s, ok := c.A.Args[1].str(); ok && s == "debug" {
						debug = true
					}
				}
			}
			for _, ev := range o.Ev {
				if ev.Kind != "call" || ev.Fn != nil && inPkg(p, ev.Fn, mLaunch) || isPipeline(p, ev) {
					continue
				}
				n++
				for _, a := range ev.Args {
					secret := tainted(a)
					if x := derefArg(ev, a); x != nil {
						secret = secret || tainted(x)
					}
					if strings.HasPrefix(ev.Name, "dyn") || strings.HasPrefix(ev.Name, "builtin:") || strings.Contains(ev.Name, "go-envconfig.") || ev.Name == "maps.Clone" || ev.Name == "maps.Copy" {
						secret = false
					}
					r.Ob(R, !secret || debug, fn, "headers", ev.Pos, "are given to "+short(ev.Name), o.Trace()...)
				}
			}
		}
		r.AtLeast(R, n, 10, "calls")
	}
	// in the pipelines
	for _, fn := range pipelineFns(p) {
		e, os := runPipeline(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", p.pos(fn.Pos()), "too many paths") {
			continue
		}
		for _, o := range os {
			for _, ev := range o.Ev {
				if ev.Kind != "call" || ev.Fn != nil && inPkg(p, ev.Fn, mPls) || strings.HasPrefix(ev.Name, "builtin:") {
					continue
				}
				for _, a := range ev.Args {
					secret := a.Any(func(x *Ex) bool { return cfgIs(x, "Headers") })
					ok := ev.Fn != nil && (ev.Fn.Name() == "WithHeaders" || ev.Fn.Name() == "NewConfig" || ev.Fn.Name() == "NewExporter") && pkgOf(ev.Fn) != nil && strings.Contains(pkgOf(ev.Fn).Path(), "/otelcol")
					if !ok {
						// values made from the exporter
						secret = a.Op != "call" && secret && !a.Any(func(x *Ex) bool { return x.Op == "call" && strings.Contains(x.Sub, "NewExporter") })
					}
					r.Ob(R, !secret || ok, fn, "headers", ev.Pos, "are given to "+short(ev.Name), o.Trace()...)
				}
			}
		}
	}
}

func derefArg(ev *Ev, a *Ex) *Ex {
	if a.Op == "iface" {
		a = a.Args[0]
	}
	if a.Op != "ptr" || a.Typ == nil || !strings.HasPrefix(a.Key(), "&alloc") {
		return nil
	}
	return ev.Deref(a, derefT(a.Typ))
}
