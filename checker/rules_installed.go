package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P28", checkP28) }

func checkP28(p *Prog, r *Report) {
	rulePropagators(p, r)
	ruleBuiltins(p, r)
	ruleBuiltinStarts(p, r)
}

// tabEntry: an entry of a map built by a composite literal or in init.
type tabEntry struct{ key, val *Ex }

// initTabs: the maps a package's initialiser fills.
type initTabs struct {
	global map[string]*Ex
	maps   map[string][]tabEntry
}

func initTables(p *Prog, pk *ssa.Package) *initTabs {
	t := &initTabs{map[string]*Ex{}, map[string][]tabEntry{}}
	f := pk.Func("init")
	if f == nil {
		return t
	}
	os := (&Effects{P: p, Opaque: func(g *ssa.Function) bool { return pkgOf(g) != pk.Pkg }}).Run(f, nil)
	for _, o := range os {
		if len(o.Ev) < 2 {
			continue
		}
		for _, ev := range o.Ev {
			switch ev.Kind {
			case "store":
				if k := ev.Args[0].Key(); strings.HasPrefix(k, "&g:") {
					t.global["init:"+k[1:]] = ev.Args[1]
				}
			case "mapupdate":
				k := ev.Args[0].Key()
				t.maps[k] = append(t.maps[k], tabEntry{ev.Args[1], ev.Args[2]})
			}
		}
	}
	return t
}

// tableAt: the entries of a map a path reads.
func (t *initTabs) tableAt(o *Outcome, m *Ex) ([]tabEntry, bool) {
	k := m.Key()
	if g, ok := t.global[k]; ok {
		return t.maps[g.Key()], true
	}
	var out []tabEntry
	for _, ev := range o.Ev {
		if ev.Kind == "mapupdate" && ev.Args[0].Key() == k {
			out = append(out, tabEntry{ev.Args[1], ev.Args[2]})
		}
	}
	return out, len(out) > 0
}

// entryKnown: what a path knows about a key being in a map.
func entryKnown(o *Outcome, m, k *Ex) (has, known bool) {
	if v, ok := o.Cond("has(" + m.Key() + "," + k.Key() + ")"); ok {
		return v, true
	}
	lk := "lookup(" + m.Key() + "," + k.Key() + ")"
	if v, ok := o.Cond("==(" + lk + ",nil)"); ok {
		return !v, true
	}
	if v, ok := o.Cond("==(builtin:len(" + lk + "),0)"); ok {
		return !v, true
	}
	return false, false
}

// propName: the documented name of the propagator a term makes.
func propName(x *Ex) string {
	for x.Op == "iface" || x.Op == "conv" {
		x = x.Args[0]
	}
	if x.Op == "call" && strings.HasPrefix(x.Sub, "go.opentelemetry.io/contrib/propagators/b3.New") {
		return "b3"
	}
	if x.Op == "call" || x.Typ == nil {
		return ""
	}
	switch types.TypeString(derefT(x.Typ), nil) {
	case "go.opentelemetry.io/otel/propagation.Baggage":
		return "baggage"
	case "go.opentelemetry.io/otel/propagation.TraceContext":
		return "tracecontext"
	case "go.opentelemetry.io/contrib/propagators/ot.OT":
		return "ottrace"
	}
	return ""
}

var propNames = []string{"b3", "baggage", "tracecontext", "ottrace"}

// visited: the elements of a list a path has met, and whether it has met all.
func visited(o *Outcome, is func(*Ex) bool) (n int, all bool) {
	for _, c := range o.Conds {
		a := c.A
		ln := func(x *Ex) bool { return x.is("builtin", "len") && is(x.Args[0]) }
		switch {
		case a.Op == "==" && len(a.Args) == 2 && (ln(a.Args[0]) && a.Args[1].Key() == "0" || is(a.Args[0]) && a.Args[1].isNil()):
			if c.Val {
				all = true
			} else if ln(a.Args[0]) && n == 0 {
				n = 1
			}
		case a.Op == "<" && len(a.Args) == 2 && ln(a.Args[1]):
			i, ok := a.Args[0].int()
			if !ok {
				continue
			}
			if c.Val && int(i)+1 > n {
				n = int(i) + 1
			}
			if !c.Val {
				all = all || int(i) == n
			}
		}
	}
	return n, all
}

// listElem: x is element k of the list.
func listElem(x *Ex, k int, is func(*Ex) bool) bool {
	key := x.Key()
	suf := fmt.Sprintf("[%d]", k)
	if !strings.HasPrefix(key, "init:") || !strings.HasSuffix(key, suf) {
		return false
	}
	return is(&Ex{Op: "key", Sub: strings.TrimSuffix(strings.TrimPrefix(key, "init:"), suf)}) || is(&Ex{Op: "key", Sub: strings.TrimSuffix(key, suf)})
}

// cfgList: the list is the field of the configuration.
func cfgList(field string) func(*Ex) bool {
	return func(x *Ex) bool {
		k := x.Sub
		if x.Op != "key" {
			k = x.Key()
		}
		return strings.HasPrefix(k, "sel:"+field+"(") || strings.HasSuffix(k, "."+field)
	}
}

func rulePropagators(p *Prog, r *Report) {
	const R = "propagators"
	r.Rule(R, "on every path that sets up tracing, each configured name contributes the propagator of its documented name, or nothing if it has none, in order, and the composite of all contributions is installed; with no contribution an error is returned and nothing is installed")
	n := 0
	it := initTables(p, p.pkg(mPls))
	isList := cfgList("Propagators")
	for _, fn := range pipelineFns(p) {
		e, os := runPipeline(p, fn)
		pos := p.pos(fn.Pos())
		uses := false
		for _, o := range os {
			for _, ev := range o.Ev {
				uses = uses || ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "NewTracerProvider"
			}
		}
		if !uses {
			continue
		}
		n++
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		installed, refused := 0, 0
		names := map[string]bool{}
		for _, o := range os {
			if o.Panic {
				continue
			}
			k, all := visited(o, isList)
			exporterFailed := false
			var set *Ev
			for _, ev := range o.Ev {
				if makesExporter(ev) && ev.Res != nil && len(ev.Res.Args) == 2 {
					if v, known := o.Cond("==(" + ev.Res.Args[1].Key() + ",nil)"); known && !v {
						exporterFailed = true
					}
				}
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, "otel.SetTextMapPropagator") {
					r.Ob(R, set == nil, fn, "propagator", ev.Pos, "is installed twice", o.Trace()...)
					set = ev
				}
			}
			if exporterFailed {
				r.Ob(R, set == nil, fn, "propagator", pos, "is installed although tracing is not set up", o.Trace()...)
				continue
			}
			if !r.Ob(R, all, fn, "propagators", pos, "are not all considered on a path", o.Trace()...) {
				continue
			}
			// what is installed
			var got []*Ex
			if set != nil {
				x := set.Args[0]
				for x.Op == "iface" {
					x = x.Args[0]
				}
				if x.Op == "call" && strings.Contains(x.Sub, "propagation.NewCompositeTextMapPropagator") {
					l, ok := listItems(x.Args[0])
					r.Ob(R, ok, fn, "propagator", set.Pos, "is not made of a known list: "+short(x.Key()), o.Trace()...)
					got = l
				} else {
					got = []*Ex{x}
				}
			}
			// what is wanted
			gi := 0
			okAll := true
			for i := 0; i < k; i++ {
				decided := false
				var want *Ex
				wantName := ""
				// a table
				for _, c := range o.Conds {
					c.A.Any(func(y *Ex) bool {
						if (y.Op == "lookup" || y.Op == "has") && len(y.Args) == 2 && listElem(y.Args[1], i, isList) && !decided {
							has, known := entryKnown(o, y.Args[0], y.Args[1])
							if !known {
								return false
							}
							decided = true
							tab, ok := it.tableAt(o, y.Args[0])
							r.Ob(R, ok, fn, "table", pos, "of propagators is not known", o.Trace()...)
							seen := map[string]bool{}
							for _, t := range tab {
								s, isS := t.key.str()
								seen[s] = true
								for _, w := range propNames {
									if s == w {
										r.Ob(R, propName(t.val) == s, fn, "propagator "+s, pos, "is another: "+short(t.val.Key()), o.Trace()...)
										names[s] = true
									}
								}
								r.Ob(R, isS && (propName(t.val) == s || propName(t.val) == ""), fn, "propagator "+s, pos, "is that of another name", o.Trace()...)
							}
							for _, w := range propNames {
								r.Ob(R, seen[w], fn, "propagator "+w, pos, "is not supported", o.Trace()...)
							}
							if has {
								want = &Ex{Op: "lookup", Args: y.Args}
							}
						}
						return false
					})
				}
				// a switch
				if !decided {
					no := 0
					for _, c := range o.Conds {
						if c.A.Op == "==" && len(c.A.Args) == 2 && listElem(c.A.Args[0], i, isList) {
							s, isS := c.A.Args[1].str()
							for _, w := range propNames {
								if isS && s == w {
									if c.Val {
										decided, wantName = true, w
										names[w] = true
									} else {
										no++
									}
								}
							}
						}
					}
					if no == len(propNames) {
						decided = true
					}
				}
				if !r.Ob(R, decided, fn, "propagator", pos, fmt.Sprintf("%d is not decided on a path", i), o.Trace()...) {
					okAll = false
					break
				}
				if want == nil && wantName == "" {
					continue
				}
				same := gi < len(got) && (want != nil && got[gi].Key() == want.Key() || wantName != "" && propName(got[gi]) == wantName)
				if set != nil {
					okAll = r.Ob(R, same, fn, "propagator", pos, fmt.Sprintf("%d of the configuration is not installed in its place", i), o.Trace()...) && okAll
				}
				gi++
			}
			if !okAll {
				continue
			}
			if gi == 0 {
				refused++
				r.Ob(R, set == nil, fn, "propagator", pos, "is replaced although none is configured", o.Trace()...)
				r.Ob(R, !nilErr(o), fn, "propagators", pos, "unknown names are not an error on a path", o.Trace()...)
			} else {
				installed++
				r.Ob(R, set != nil && len(got) == gi, fn, "propagator", pos, "of the configuration is not installed", o.Trace()...)
				r.Ob(R, nilErr(o), fn, "propagators", pos, "known names are an error on a path", o.Trace()...)
			}
		}
		r.Ob(R, installed > 0 && refused > 0, fn, "propagators", pos, "do not depend on the configuration")
		for _, w := range propNames {
			r.Ob(R, names[w], fn, "propagator "+w, pos, "is never installed")
		}
	}
	r.AtLeast(R, n, 1, "trace pipelines")
}

// builtinRun: the metrics pipeline, with its other settings fixed.
func builtinRun(p *Prog, fn *ssa.Function) (*Effects, []*Outcome) {
	e := &Effects{P: p, MaxPaths: 40000, MaxIter: 5, Opaque: func(g *ssa.Function) bool {
		if g.Parent() != nil {
			return false
		}
		if pkgOf(g) != pkgOf(fn) {
			return true
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if t := types.TypeString(tupT(g.Signature.Results(), i), nil); strings.HasSuffix(t, "view.Option") || strings.HasSuffix(t, "otelcol.Option") || strings.HasSuffix(t, "PushExporter") {
				return true
			}
		}
		return false
	}}
	e.Assume = func(c *Ex) (bool, bool) {
		k := c.Key()
		switch {
		case strings.Contains(k, "TemporalityPreference") || strings.Contains(k, "MetricsBuiltin"):
			return false, false
		case strings.Contains(k, "ReportingPeriod") && c.Op == "==" && strings.HasSuffix(k, `,"")`):
			return true, true
		case strings.Contains(k, ".Insecure") || strings.HasPrefix(k, "sel:Insecure("):
			return true, true
		}
		return false, false
	}
	return e, e.Run(fn, nil)
}

// cutOf: x is part i of the element of the list, cut at the first colon.
func cutPart(x *Ex, part int, k int, isList func(*Ex) bool) bool {
	if x.Op == "res" && x.Sub == fmt.Sprint(part) {
		c := x.Args[0]
		if c.Op == "call" && strings.HasPrefix(c.Sub, "strings.Cut") && !strings.HasPrefix(c.Sub, "strings.CutP") && !strings.HasPrefix(c.Sub, "strings.CutS") && len(c.Args) == 2 {
			s, ok := c.Args[1].str()
			return ok && s == ":" && listElem(c.Args[0], k, isList)
		}
	}
	key := x.Key()
	if strings.HasPrefix(key, "init:call:strings.Split") && strings.HasSuffix(key, fmt.Sprintf("[%d]", part)) {
		return strings.Contains(key, fmt.Sprintf("[%d],\":\"", k))
	}
	return false
}

func ruleBuiltins(p *Prog, r *Report) {
	const R = "builtins"
	r.Rule(R, "on every path of the metrics pipeline every configured built-in library is looked up by its name and its version (or the default) and each of its start functions is called with the pipeline's provider, exactly if built-ins are enabled; unknown names, unknown versions and start errors are reported one by one and the set-up goes on")
	n := 0
	it := initTables(p, p.pkg(mPls))
	isList := cfgList("MetricsBuiltinLibraries")
	for _, fn := range pipelineFns(p) {
		e, os := builtinRun(p, fn)
		pos := p.pos(fn.Pos())
		uses := false
		for _, o := range os {
			for _, ev := range o.Ev {
				uses = uses || ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "NewMeterProvider"
			}
		}
		if !uses {
			continue
		}
		n++
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		on, off, started := 0, 0, 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			var prov, set *Ex
			reports := 0
			var calls []*Ev
			for _, ev := range o.Ev {
				switch {
				case ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "NewMeterProvider":
					prov = ev.Res
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "otel.Handle"):
					reports++
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "otel.SetMeterProvider"):
					set = ev.Args[0].bare()
					for set.Op == "iface" {
						set = set.Args[0]
					}
				case (ev.Kind == "call" || ev.Kind == "go") && strings.HasPrefix(ev.Name, "dyn") && len(ev.Args) == 2:
					r.Ob(R, ev.Kind == "call", fn, "library", ev.Pos, "is started without waiting for its error", o.Trace()...)
					calls = append(calls, ev)
				}
			}
			enabled, known := o.Cond("sel:MetricsBuiltinsEnabled($0)")
			if prov == nil {
				r.Ob(R, len(calls) == 0, fn, "library", pos, "is started without a provider", o.Trace()...)
				continue
			}
			r.Ob(R, set != nil && set.Key() == prov.Key(), fn, "provider", pos, "is not installed on a path", o.Trace()...)
			r.Ob(R, nilErr(o), fn, "pipeline", pos, "fails because of a built-in library", o.Trace()...)
			if !r.Ob(R, known, fn, "built-ins", pos, "do not depend on being enabled", o.Trace()...) {
				continue
			}
			if !enabled {
				off++
				r.Ob(R, len(calls) == 0, fn, "library", pos, "is started although built-ins are disabled", o.Trace()...)
				continue
			}
			on++
			k, all := visited(o, isList)
			r.Ob(R, all, fn, "libraries", pos, "are not all considered on a path", o.Trace()...)
			problems, ci := 0, 0
			for i := 0; i < k; i++ {
				var m1, k1, m2, k2 *Ex
				for _, c := range o.Conds {
					c.A.Any(func(y *Ex) bool {
						if (y.Op == "lookup" || y.Op == "has") && len(y.Args) == 2 {
							switch {
							case cutPart(y.Args[1], 0, i, isList):
								m1, k1 = y.Args[0], y.Args[1]
							case y.Args[0].Op == "lookup" && len(y.Args[0].Args) == 2 && cutPart(y.Args[0].Args[1], 0, i, isList):
								m2, k2 = y.Args[0], y.Args[1]
							}
						}
						return false
					})
				}
				if !r.Ob(R, m1 != nil, fn, "library", pos, fmt.Sprintf("%d is not looked up by its name", i), o.Trace()...) {
					break
				}
				has, known := entryKnown(o, m1, k1)
				if !known && m2 != nil {
					// a missing map has no versions
					has, known = true, true
				}
				r.Ob(R, known, fn, "library", pos, fmt.Sprintf("%d may be unknown", i), o.Trace()...)
				checkBuiltinTable(p, r, fn, R, it, o, m1)
				if !has {
					problems++
					continue
				}
				if !r.Ob(R, m2 != nil, fn, "library", pos, fmt.Sprintf("%d is not looked up by its version", i), o.Trace()...) {
					break
				}
				empty, ek := emptyVal(o, func(x *Ex) bool { return cutPart(x, 1, i, isList) })
				if s, isS := k2.str(); isS {
					r.Ob(R, s == "stable" && ek && empty, fn, "version", pos, "is not the configured one", o.Trace()...)
				} else {
					r.Ob(R, cutPart(k2, 1, i, isList) && ek && !empty, fn, "version", pos, "is not the configured one, or the default", o.Trace()...)
				}
				has, known = entryKnown(o, m2, k2)
				r.Ob(R, known, fn, "library", pos, fmt.Sprintf("%d may have no such version", i), o.Trace()...)
				if !has {
					problems++
					continue
				}
				lk := (&Ex{Op: "lookup", Args: []*Ex{m2, k2}}).Key()
				isFs := func(x *Ex) bool {
					if x.Op == "key" {
						return x.Sub == lk
					}
					return x.Key() == lk
				}
				nf, allf := visited(o, isFs)
				r.Ob(R, allf, fn, "start functions", pos, "are not all called on a path", o.Trace()...)
				for j := 0; j < nf; j++ {
					if !r.Ob(R, ci < len(calls) && listElem(calls[ci].Args[0], j, isFs), fn, "start function", pos, fmt.Sprintf("%d of library %d is not called", j, i), o.Trace()...) {
						break
					}
					ev := calls[ci]
					ci++
					started++
					a := ev.Args[1].bare()
					for a.Op == "iface" {
						a = a.Args[0]
					}
					r.Ob(R, a.Key() == prov.Key(), fn, "library", ev.Pos, "is not started with the provider of the pipeline", o.Trace()...)
					failed, fk := o.Cond("==(" + ev.Res.Key() + ",nil)")
					r.Ob(R, fk, fn, "library", ev.Pos, "start error is not looked at", o.Trace()...)
					if fk && !failed {
						problems++
					}
				}
			}
			r.Ob(R, ci == len(calls), fn, "library", pos, "is started which is not configured", o.Trace()...)
			r.Ob(R, reports == problems, fn, "problems", pos, fmt.Sprintf("%d, but %d are reported", problems, reports), o.Trace()...)
		}
		r.Ob(R, on > 0 && off > 0 && started > 0, fn, "built-ins", pos, "do not depend on the configuration")
	}
	r.AtLeast(R, n, 1, "metrics pipelines")
}

// builtinLibs: the libraries a start function starts, with the provider given.
func builtinLibs(p *Prog, r *Report, R string, f *ssa.Function) []string {
	var out []string
	os := (&Effects{P: p, Opaque: func(g *ssa.Function) bool { return pkgOf(g) != pkgOf(f) }}).Run(f, nil)
	for i, o := range os {
		var libs []string
		for _, ev := range o.Ev {
			if ev.Kind != "call" || ev.Fn == nil || ev.Fn.Name() != "Start" || !strings.Contains(ev.Name, "/instrumentation/") {
				continue
			}
			pk := pkgOf(ev.Fn).Path()
			libs = append(libs, pk[strings.LastIndex(pk, "/")+1:])
			l, ok := listItems(ev.Args[len(ev.Args)-1])
			good := false
			for _, a := range l {
				for a.Op == "iface" {
					a = a.Args[0]
				}
				good = good || a.Op == "call" && strings.Contains(a.Sub, ".WithMeterProvider") && len(a.Args) == 1 && isParam(a.Args[0], 0)
			}
			r.Ob(R, ok && good, f, "library", ev.Pos, "is not started with the provider given", o.Trace()...)
			r.Ob(R, len(o.Ret) == 1 && (o.Ret[0].Key() == ev.Res.Key() || len(os) > 1), f, "start error", ev.Pos, "is not returned", o.Trace()...)
		}
		if i == 0 {
			out = libs
		}
	}
	return out
}

func checkBuiltinTable(p *Prog, r *Report, fn *ssa.Function, R string, it *initTabs, o *Outcome, m *Ex) {
	pos := p.pos(fn.Pos())
	if builtinDone[r] == nil {
		builtinDone[r] = map[string]bool{}
	}
	if builtinDone[r][m.Key()] {
		return
	}
	builtinDone[r][m.Key()] = true
	tab, ok := it.tableAt(o, m)
	if !r.Ob(R, ok, fn, "table", pos, "of libraries is not known: "+short(m.Key())) {
		return
	}
	want := map[string]string{"all": "cputime host runtime", "cputime": "cputime", "host": "host", "runtime": "runtime"}
	seen := map[string]bool{}
	for _, t := range tab {
		s, _ := t.key.str()
		w, known := want[s]
		if !known {
			continue
		}
		stable := false
		for _, v := range it.maps[t.val.Key()] {
			ver, _ := v.key.str()
			if ver != "stable" {
				continue
			}
			stable = true
			l, ok := listItems(v.val)
			r.Ob(R, ok, fn, "library "+s, pos, "start functions are not known: "+short(v.val.Key()))
			have := map[string]int{}
			for _, x := range l {
				for x.Op == "conv" || x.Op == "iface" {
					x = x.Args[0]
				}
				if r.Ob(R, x.Fn != nil, fn, "library "+s, pos, "start function is not known: "+short(x.Key())) {
					for _, lib := range builtinLibs(p, r, R, x.Fn) {
						have[lib]++
					}
				}
			}
			var hs []string
			for _, lib := range []string{"cputime", "host", "runtime"} {
				if have[lib] == 1 {
					hs = append(hs, lib)
				} else if have[lib] > 1 {
					hs = append(hs, lib+" twice")
				}
			}
			r.Ob(R, strings.Join(hs, " ") == w, fn, "library "+s, pos, "starts "+strings.Join(hs, " ")+" instead of "+w)
		}
		r.Ob(R, stable, fn, "library "+s, pos, "has no stable version")
		seen[s] = true
	}
	for s := range want {
		r.Ob(R, seen[s], fn, "library "+s, pos, "is not supported")
	}
}

var builtinDone = map[*Report]map[string]bool{}

func ruleBuiltinStarts(p *Prog, r *Report) {
	const R = "builtin-start"
	r.Rule(R, "starting an instrumentation library uses the provider of its options, or else the global one, registers its instruments, and returns the error of doing so")
	n := 0
	for _, rel := range []string{"lightstep/instrumentation/cputime", "lightstep/instrumentation/host", "lightstep/instrumentation/runtime"} {
		fn := p.fn(rel, "Start")
		if fn == nil {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 20000, Opaque: func(g *ssa.Function) bool {
			return g.Parent() == nil && (pkgOf(g) != pkgOf(fn) || registersCallback(g))
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			k, all := visited(o, func(x *Ex) bool { return x.Key() == "$0" || x.Op == "key" && x.Sub == "$0" })
			r.Ob(R, all, fn, "options", pos, "are not all applied on a path", o.Trace()...)
			applied, meters := 0, 0
			for _, ev := range o.Ev {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "invoke ") && strings.HasSuffix(ev.Name, "Option.apply") {
					r.Ob(R, listElem(ev.Args[0], applied, func(x *Ex) bool { return x.Sub == "$0" }), fn, "option", ev.Pos, "is applied out of order", o.Trace()...)
					r.Ob(R, meters == 0, fn, "option", ev.Pos, "is applied after the provider is used", o.Trace()...)
					applied++
				}
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, "metric.MeterProvider.Meter") {
					meters++
					a := ev.Args[0].bare()
					if a.Op == "call" && strings.Contains(a.Sub, "otel.GetMeterProvider") {
						none, known := applied == 0, true
						for _, c := range o.Conds {
							if c.A.Op == "==" && c.A.Args[1].isNil() && cfgIs(c.A.Args[0], "MeterProvider") {
								none, known = c.Val, true
							}
						}
						r.Ob(R, known && none, fn, "provider", ev.Pos, "is the global one although another is configured", o.Trace()...)
					} else {
						r.Ob(R, cfgIs(a, "MeterProvider") || providerHeld(a), fn, "provider", ev.Pos, "is not the configured one: "+short(a.Key()), o.Trace()...)
					}
				}
			}
			r.Ob(R, applied == k, fn, "option", pos, "is not applied on a path", o.Trace()...)
			reg := false
			for _, ev := range o.Ev {
				reg = reg || ev.Kind == "call" && ev.Fn != nil && registersCallback(ev.Fn)
			}
			if !reg {
				r.Ob(R, !nilErr(o), fn, "instruments", pos, "are not registered on a path", o.Trace()...)
				continue
			}
			r.Ob(R, meters == 1, fn, "meter", pos, "is not made on a path", o.Trace()...)
			good := len(o.Ret) == 1 && o.Ret[0].Op == "call" && o.Ret[0].Fn != nil && registersCallback(o.Ret[0].Fn)
			if !good && len(o.Ret) == 1 {
				for _, ev := range o.Ev {
					if ev.Kind == "call" && ev.Fn != nil && registersCallback(ev.Fn) {
						v, known := o.Cond("==(" + ev.Res.Key() + ",nil)")
						good = known && v == o.Ret[0].isNil()
					}
				}
			}
			r.Ob(R, good, fn, "error", pos, "of registering is not returned", o.Trace()...)
		}
		// the option
		opt := p.fn(rel, "WithMeterProvider")
		if !r.Ob(R, opt != nil, fn, "option", pos, "WithMeterProvider is missing") {
			continue
		}
		for _, o := range (&Effects{P: p}).Run(opt, nil) {
			x := o.Ret[0]
			for x.Op == "iface" {
				x = x.Args[0]
			}
			m := (*ssa.Function)(nil)
			if x.Typ != nil {
				m = p.SSA.LookupMethod(x.Typ, opt.Pkg.Pkg, "apply")
			}
			if !r.Ob(R, m != nil, opt, "option", p.pos(opt.Pos()), "cannot be applied") {
				continue
			}
			for _, q := range (&Effects{P: p}).Run(m, []*Ex{x, nil}) {
				var v *Ex
				for _, ev := range q.Ev {
					if ev.Kind == "store" && strings.HasSuffix(ev.Args[0].Key(), "$1.MeterProvider") {
						v = ev.Args[1]
					}
				}
				if v == nil {
					isNil, known := q.Cond("==($0,nil)")
					r.Ob(R, known && isNil, opt, "option", p.pos(opt.Pos()), "does not set the provider on a path", q.Trace()...)
					continue
				}
				r.Ob(R, v.bare().Key() == "$0", opt, "option", p.pos(opt.Pos()), "sets another provider: "+short(v.Key()), q.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 3, "instrumentation libraries")
}

// providerHeld: the provider of a configuration passed on.
func providerHeld(x *Ex) bool { return strings.HasSuffix(x.Key(), ".MeterProvider") }

// registersCallback: the function registers a callback with a meter.
func registersCallback(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "RegisterCallback" {
				return true
			}
		}
	}
	return false
}
