package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P23", checkP23) }

func checkP23(p *Prog, r *Report) {
	ruleResourceMerge(p, r)
	ruleOneResource(p, r)
	ruleResourceMap(p, r)
}

const otelRes = "go.opentelemetry.io/otel/sdk/resource."

// resourceModel: reading a resource, by whichever method.
func resourceModel(p *Prog) func(*XC) bool {
	var m func(*XC) bool
	m = attrModel(p, func(x *XC) bool {
		if !strings.HasPrefix(x.Name, otelRes) || len(x.Args) == 0 || x.Fn == nil || x.Fn.Signature.Results().Len() == 0 {
			return false
		}
		var kv types.Type
		if pk := p.SSA.ImportedPackage("go.opentelemetry.io/otel/attribute"); pk != nil {
			kv = pk.Pkg.Scope().Lookup("KeyValue").Type()
		}
		t := tupT(x.Fn.Signature.Results(), 0)
		set := &Ex{Op: "sp", Sub: "Set", Args: []*Ex{x.Args[0]}, Typ: t}
		list := &Ex{Op: "attrs", Args: []*Ex{set}, Typ: types.NewSlice(kv)}
		switch strings.TrimPrefix(x.Name, otelRes) {
		case "Resource.Iter":
			x.Res = []*Ex{{Op: "aiter", Args: []*Ex{set, exInt(-1)}, Typ: t}}
		case "Resource.Attributes":
			x.Res = []*Ex{list}
		case "Resource.Len":
			x.Res = []*Ex{{Op: "builtin", Sub: "len", Args: []*Ex{list}, Typ: t}}
		default:
			return false
		}
		x.Quiet = true
		return true
	})
	return m
}

// resItem: an attribute, or all of the environment's.
type resItem struct {
	env  bool
	key  string // a constant key
	dyn  *Ex    // or a key of the configuration
	val  *Ex
	from *Ex
}

// resItems: the attributes a resource is made of, the later ones winning.
func resItems(o *Outcome, x *Ex) (out []resItem, ok bool) {
	switch {
	case x.Op == "iface" || x.Op == "conv":
		return resItems(o, x.Args[0])
	case x.Op == "res" && x.Sub == "0":
		return resItems(o, x.Args[0])
	case x.Op == "attrs":
		return resItems(o, x.Args[0])
	case x.Op == "sp":
		return resItems(o, x.Args[0])
	case x.Op == "list" || x.Op == "append":
		for _, a := range x.Args {
			y, ok := resItems(o, a)
			if !ok {
				return nil, false
			}
			out = append(out, y...)
		}
		return out, true
	case x.Op == "nil" || x.Op == "empty" || x.isNil():
		return nil, true
	case strings.HasPrefix(x.Key(), "init:g:go.opentelemetry.io/otel/semconv/"):
		n := x.Key()[strings.LastIndex(x.Key(), ".")+1:]
		if n == "TelemetrySDKLanguageGo" {
			return []resItem{{key: "telemetry.sdk.language", from: x}}, true
		}
		return []resItem{{key: n, from: x}}, true
	case x.Op == "struct" && len(x.Args) == 2:
		it := resItem{val: x.Args[1], dyn: x.Args[0], from: x}
		if s, k := x.Args[0].str(); k {
			it.key, it.dyn = s, nil
		}
		return []resItem{it}, true
	case x.Op == "call":
		sub := x.Sub
		if i := strings.Index(sub, "#"); i >= 0 {
			sub = sub[:i]
		}
		switch {
		case sub == otelRes+"Environment":
			return []resItem{{env: true, from: x}}, true
		case sub == otelRes+"WithFromEnv":
			return []resItem{{env: true, from: x}}, true
		case sub == otelRes+"WithSchemaURL":
			return nil, true
		case sub == otelRes+"Empty":
			return nil, true
		case sub == otelRes+"New" && len(x.Args) == 2, sub == otelRes+"NewWithAttributes" && len(x.Args) == 2:
			return resItems(o, x.Args[1])
		case sub == otelRes+"NewSchemaless" && len(x.Args) == 1, sub == otelRes+"WithAttributes" && len(x.Args) == 1:
			return resItems(o, x.Args[0])
		case sub == otelRes+"Merge" && len(x.Args) == 2:
			a, ok1 := resItems(o, x.Args[0])
			b, ok2 := resItems(o, x.Args[1])
			return append(a, b...), ok1 && ok2
		case (strings.HasPrefix(sub, otelAttr+"Key.") || strings.HasPrefix(sub, otelAttr)) && len(x.Args) == 2:
			it := resItem{val: x.Args[1], dyn: x.Args[0], from: x}
			if s, k := x.Args[0].str(); k {
				it.key, it.dyn = s, nil
			}
			if !strings.HasSuffix(sub, "String") {
				return nil, false
			}
			return []resItem{it}, true
		case strings.Contains(sub, "/semconv/") && len(x.Args) == 1:
			n := sub[strings.LastIndex(sub, ".")+1:]
			keys := map[string]string{"ServiceName": "service.name", "ServiceVersion": "service.version", "HostName": "host.name", "TelemetrySDKName": "telemetry.sdk.name", "TelemetrySDKVersion": "telemetry.sdk.version", "TelemetryDistroName": "telemetry.distro.name", "TelemetryDistroVersion": "telemetry.distro.version"}
			if k, is := keys[n]; is {
				return []resItem{{key: k, val: x.Args[0], from: x}}, true
			}
		}
	}
	return nil, false
}

// nonEmpty: what a path knows about a value being non-empty.
func nonEmptyOf(o *Outcome, is func(*Ex) bool) (bool, bool) {
	e, known := emptyVal(o, is)
	return !e, known
}

func ruleResourceMerge(p *Prog, r *Report) {
	const R = "resource-merge"
	r.Rule(R, "on every path the resource is made of the environment's attributes, overridden by the launcher's own (telemetry.sdk.*, telemetry.distro.*), the configured service name and version where set, and last every non-empty attribute given through options; host.name is the machine's exactly where neither the environment nor the options set it; the configuration is not changed")
	n := 0
	for _, fn := range p.all {
		if !inPkg(p, fn, mLaunch) || fn.Parent() != nil || !makesResource(fn) || len(fn.Params) != 1 || generic(fn) {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 40000, MaxIter: 6, Model: resourceModel(p)}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		hostBoth := [2]bool{}
		for _, o := range os {
			if o.Panic {
				continue
			}
			for _, ev := range o.Ev {
				if ev.Kind == "store" && !strings.HasPrefix(ev.Args[0].Key(), "&alloc") || ev.Kind == "mapupdate" && !strings.HasPrefix(ev.Args[0].Key(), "make") {
					r.Ob(R, false, fn, "configuration", ev.Pos, "is changed", o.Trace()...)
				}
			}
			items, ok := resItems(o, o.Ret[0])
			if !r.Ob(R, ok, fn, "attributes", pos, "are not known: "+short(o.Ret[0].Key()), o.Trace()...) {
				continue
			}
			last := map[string]int{}
			firstOwn, lastEnv, lastOwn := len(items), -1, -1
			var opts []int
			for i, it := range items {
				switch {
				case it.env:
					lastEnv = i
				case it.key != "":
					last[it.key] = i
					if i < firstOwn {
						firstOwn = i
					}
					if it.key != "host.name" {
						lastOwn = i
					}
				default:
					if i < firstOwn {
						firstOwn = i
					}
					opts = append(opts, i)
				}
			}
			r.Ob(R, lastEnv >= 0, fn, "environment", pos, "attributes are missing", o.Trace()...)
			r.Ob(R, lastEnv < firstOwn, fn, "environment", pos, "attributes override others", o.Trace()...)
			for _, k := range []string{"telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version", "telemetry.distro.name", "telemetry.distro.version"} {
				_, has := last[k]
				r.Ob(R, has, fn, k, pos, "is missing", o.Trace()...)
			}
			for f, k := range map[string]string{"ServiceName": "service.name", "ServiceVersion": "service.version"} {
				set, known := nonEmptyOf(o, func(x *Ex) bool { return cfgIs(x, f) })
				i, has := last[k]
				if has {
					r.Ob(R, items[i].val != nil && cfgIs(items[i].val, f), fn, k, pos, "is not the configured one", o.Trace()...)
					r.Ob(R, !known || set, fn, k, pos, "is set although it is not configured", o.Trace()...)
				} else {
					r.Ob(R, known && !set, fn, k, pos, "is missing on a path", o.Trace()...)
				}
			}
			for _, i := range opts {
				r.Ob(R, i > lastOwn, fn, "option attribute", pos, "is overridden by the launcher's own", o.Trace()...)
				it := items[i]
				okp := it.dyn.Op == "rkey" && it.val != nil && it.val.Op == "relem" && it.dyn.Sub == it.val.Sub && strings.Contains(it.dyn.Key(), "ResourceAttributes")
				r.Ob(R, okp, fn, "option attribute", pos, "is not a key of the options with its value: "+short(it.from.Key()), o.Trace()...)
			}
			// every option attribute
			hostSet := false
			elems := map[string]bool{}
			ended := false
			for _, c := range o.Conds {
				if c.A.Op == "next" && strings.Contains(c.A.Key(), "ResourceAttributes") {
					if c.Val {
						elems[c.A.Sub] = true
					} else {
						ended = true
					}
				}
			}
			r.Ob(R, ended, fn, "option attributes", pos, "are not all visited on a path", o.Trace()...)
			for id := range elems {
				set, known := nonEmptyOf(o, func(x *Ex) bool { return x.Op == "relem" && x.Sub == id })
				has := false
				for _, i := range opts {
					has = has || items[i].dyn.Sub == id
				}
				r.Ob(R, has == set && known, fn, "option attribute", pos, "is dropped, or taken although empty", o.Trace()...)
				for _, c := range o.Conds {
					if c.A.Op == "==" && c.Val && c.A.Args[0].Op == "rkey" && c.A.Args[0].Sub == id && set {
						if s, k := c.A.Args[1].str(); k && s == "host.name" {
							hostSet = true
						}
					}
				}
			}
			// the host name
			for _, c := range o.Conds {
				if c.A.Op != "==" || !c.Val {
					continue
				}
				if s, k := c.A.Args[1].str(); k && s == "host.name" && strings.Contains(c.A.Args[0].Key(), "Environment") {
					el := strings.TrimSuffix(c.A.Args[0].Key(), ".Key")
					if set, known := nonEmptyOf(o, func(x *Ex) bool { return strings.Contains(x.Key(), el+".Value") }); known && set {
						hostSet = true
					}
				}
			}
			if set, known := nonEmptyOf(o, func(x *Ex) bool {
				return x.Op == "lookup" && strings.Contains(x.Key(), "ResourceAttributes") && strings.Contains(x.Key(), `"host.name"`)
			}); known && set {
				hostSet = true
			}
			// a look-up
			for _, c := range o.Conds {
				if strings.Contains(c.A.Key(), ".Value#") && strings.Contains(c.A.Key(), `"host.name"`) && strings.Contains(c.A.Key(), "Environment") {
					if set, known := nonEmptyOf(o, func(x *Ex) bool {
						return strings.Contains(x.Key(), `"host.name"`) && strings.Contains(x.Key(), "Environment")
					}); known && set {
						hostSet = true
					}
				}
			}
			_, hasHost := last["host.name"]
			if hasHost {
				r.Ob(R, envDecided(o) && !hostSet, fn, "host.name", pos, "overrides that of the environment", o.Trace()...)
				for id := range elems {
					good := optLookup(o)
					for _, c := range o.Conds {
						if c.A.Op == "==" && c.A.Args[0].Op == "rkey" && c.A.Args[0].Sub == id {
							s, k := c.A.Args[1].str()
							good = good || k && s == "host.name" && !c.Val
						}
					}
					if set, _ := nonEmptyOf(o, func(x *Ex) bool { return x.Op == "relem" && x.Sub == id }); set {
						r.Ob(R, good, fn, "host.name", pos, "overrides that of the options", o.Trace()...)
					}
				}
			}
			var hostErr *Ex
			for _, ev := range o.Ev {
				if ev.Kind == "call" && ev.Name == "os.Hostname" {
					hostErr = ev.Res.Args[1]
					if hasHost {
						it := items[last["host.name"]]
						r.Ob(R, it.val.Key() == ev.Res.Args[0].Key(), fn, "host.name", pos, "is not that of the machine", o.Trace()...)
					}
				}
			}
			if hostSet {
				hostBoth[0] = true
				r.Ob(R, !hasHost, fn, "host.name", pos, "overrides the configured one", o.Trace()...)
			} else if !hasHost {
				failed := false
				if hostErr != nil {
					v, known := o.Cond("==(" + hostErr.Key() + ",nil)")
					failed = known && !v
				}
				r.Ob(R, failed, fn, "host.name", pos, "is missing", o.Trace()...)
			} else {
				hostBoth[1] = true
				v, known := o.Cond("==(" + hostErr.Key() + ",nil)")
				r.Ob(R, known && v, fn, "host.name", pos, "is used although it could not be read", o.Trace()...)
			}
		}
		r.Ob(R, hostBoth[0] && hostBoth[1], fn, "host.name", pos, "does not depend on being configured")
	}
	r.AtLeast(R, n, 1, "functions making the resource")
}

func ruleOneResource(p *Prog, r *Report) {
	const R = "one-resource"
	r.Rule(R, "the launcher makes one resource, from the configuration with all options applied, and gives it to every pipeline; every pipeline gives the resource of its configuration to its provider; the metric SDK keeps it as its provider's and puts it into every collection")
	for _, fn := range entryFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runEntry(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		n := 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			made, opt := -1, -1
			for i, ev := range o.Ev {
				if ev.Kind == "call" && ev.Fn != nil && inPkg(p, ev.Fn, mLaunch) && makesResource(ev.Fn) {
					r.Ob(R, made < 0, fn, "resource", ev.Pos, "is made again", o.Trace()...)
					made = i
				}
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn") && len(ev.Args) == 2 {
					opt = i
				}
				if !isPipeline(p, ev) {
					continue
				}
				n++
				v := exField(ev.Args[0], "Resource", nil)
				r.Ob(R, v != nil && v.Op == "call" && strings.Contains(v.Sub, "/"+mLaunch+"."), fn, "resource", ev.Pos, "of "+short(ev.Name)+" is not the launcher's", o.Trace()...)
			}
			r.Ob(R, made > opt, fn, "resource", pos, "is made before the options are applied", o.Trace()...)
		}
		r.AtLeast(R, n, 2, "pipelines set up")
	}
	for _, fn := range pipelineFns(p) {
		pos := p.pos(fn.Pos())
		e, os := runPipeline(p, fn)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		n := 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			for _, ev := range o.Ev {
				if ev.Kind != "call" || ev.Fn == nil || ev.Fn.Name() != "NewTracerProvider" && ev.Fn.Name() != "NewMeterProvider" {
					continue
				}
				n++
				k, good := 0, false
				var walk func(x *Ex)
				walk = func(x *Ex) {
					if x.Op == "list" || x.Op == "append" || x.Op == "iface" {
						for _, a := range x.Args {
							walk(a)
						}
					}
					if x.Op == "call" && strings.Contains(x.Sub, ".WithResource") {
						k++
						good = cfgIs(x.Args[0], "Resource")
					}
				}
				for _, a := range ev.Args {
					walk(a)
				}
				r.Ob(R, k == 1 && good, fn, "resource", ev.Pos, "of the provider is not that of the configuration", o.Trace()...)
			}
		}
		r.AtLeast(R, n, 1, "providers made by "+fn.Name())
	}
	// the metric SDK
	n := 0
	for _, fn := range p.all {
		if !inPkg(p, fn, mMetric) || generic(fn) || fn.Parent() != nil || fn.Name() != "NewMeterProvider" || fn.Signature.Recv() != nil {
			continue
		}
		n++
		// the option stores it
		opt := p.fn(mMetric, "WithResource")
		r.Ob(R, opt != nil, fn, "option", p.pos(fn.Pos()), "WithResource is missing")
		if opt == nil {
			continue
		}
		os := (&Effects{P: p}).Run(opt, nil)
		for _, o := range os {
			f := o.Ret[0]
			for f != nil && (f.Op == "iface" || f.Op == "conv") {
				f = f.Args[0]
			}
			after := o.Apply(f)
			good := len(after) > 0
			for _, q := range after {
				if len(q.Ret) == 1 {
					k := 0
					st := structOf(q.Ret[0].Typ)
					if st == nil {
						st = structOf(tupT(f.Fn.Signature.Results(), 0))
					}
					for i := 0; st != nil && i < st.NumFields(); i++ {
						v := exField(q.Ret[0], st.Field(i).Name(), st.Field(i).Type())
						if isRes(st.Field(i).Type()) {
							good = good && isParam(v, 0)
							k++
						}
					}
					good = good && k == 1
				} else {
					for _, ev := range q.Ev {
						if ev.Kind == "store" && isRes(derefT(ev.Args[0].Typ)) {
							good = good && isParam(ev.Args[1], 0)
						}
					}
				}
			}
			r.Ob(R, good, opt, "option", p.pos(opt.Pos()), "does not set the resource to the one given")
		}
	}
	r.AtLeast(R, n, 1, "meter providers")
	// every collection carries it
	m := 0
	for _, fn := range p.all {
		if generic(fn) || !inPkg(p, fn, mMetric) || fn.Synthetic != "" || fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Signature.Results().Len() != 1 || !isNamedType(tupT(fn.Signature.Results(), 0), p.repoName(mData, "Metrics")) || fn.Name() != "Produce" {
			continue
		}
		m++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 40000, MaxIter: 2, Opaque: func(g *ssa.Function) bool {
			return g.Parent() == nil && !inPkg(p, g, mData) && g != fn && (!inPkg(p, g, mMetric) || hasBackEdge(g))
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			v := exField(o.Ret[0], "Resource", nil)
			if v != nil && v.Op == "sel" && strings.HasPrefix(v.Args[0].Key(), "after:") {
				// the collection is handed to others meanwhile
				v0 := v.Args[0].Key()
				for _, ev := range o.Ev {
					if ev.Kind != "store" {
						continue
					}
					if k := ev.Args[0].Key(); strings.HasSuffix(v0, "("+strings.TrimSuffix(k, ".Resource")+")") {
						if v = ev.Args[1]; !strings.HasSuffix(k, ".Resource") {
							v = exField(v, "Resource", nil)
						}
					}
				}
			}
			good := v != nil && (v.Op == "init" || v.Op == "sel") && strings.Contains(v.Key(), "init:*$0") && (v.Typ != nil && isRes(v.Typ) || v.Op == "sel" && resField(p, v.Sub))
			r.Ob(R, good, fn, "resource", pos, "of the collection is not the provider's: "+short(exKey(v)), o.Trace()...)
		}
	}
	r.AtLeast(R, m, 1, "producers")
}

func exKey(x *Ex) string {
	if x == nil {
		return "unknown"
	}
	return x.Key()
}

func isRes(t types.Type) bool {
	return types.TypeString(derefT(t), nil) == strings.TrimSuffix(otelRes, ".")+".Resource"
}

// resField: the name of a field of the metric SDK which holds a resource.
func resField(p *Prog, name string) bool {
	found, all := false, true
	for _, m := range p.pkg(mMetric).Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		if st := structOf(t.Type()); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					found = true
					all = all && isRes(st.Field(i).Type())
				}
			}
		}
	}
	return found && all
}

// hasBackEdge: the function loops.
func hasBackEdge(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// optLookup: the options are known to give no host name by looking it up.
func optLookup(o *Outcome) bool {
	set, known := nonEmptyOf(o, func(x *Ex) bool {
		return x.Any(func(y *Ex) bool {
			return y.Op == "lookup" && strings.Contains(y.Key(), "ResourceAttributes") && strings.Contains(y.Key(), `"host.name"`)
		})
	})
	return known && !set
}

// envDecided: the path knows that the environment gives no host name, or an
// empty one.
func envDecided(o *Outcome) bool {
	elems := map[string]bool{}
	ended, looked := false, false
	for _, c := range o.Conds {
		k := c.A.Key()
		if !strings.Contains(k, "Environment") {
			continue
		}
		switch {
		case c.A.Op == "==" && c.A.Args[0].Op == "builtin" && c.A.Args[0].Sub == "len" && c.A.Args[0].Args[0].Op == "attrs":
			if c.Val {
				ended = true
			}
		case c.A.Op == "<" && c.A.Args[1].Op == "builtin":
			if !c.Val {
				ended = true
			}
		case c.A.Op == "==" && strings.HasSuffix(c.A.Args[0].Key(), ".Key"):
			el := strings.TrimSuffix(c.A.Args[0].Key(), ".Key")
			s, isStr := c.A.Args[1].str()
			if !isStr || s != "host.name" {
				continue
			}
			if !c.Val {
				elems[el] = true
				continue
			}
			set, known := nonEmptyOf(o, func(x *Ex) bool { return strings.Contains(x.Key(), el+".Value") })
			elems[el] = known && !set
		case strings.Contains(k, `"host.name"`):
			set, known := nonEmptyOf(o, func(x *Ex) bool {
				return strings.Contains(x.Key(), `"host.name"`) && strings.Contains(x.Key(), "Environment")
			})
			looked = looked || !c.Val || known && !set
		}
	}
	if looked {
		return true
	}
	// every element met
	n := 0
	for _, c := range o.Conds {
		k := c.A.Key()
		if strings.Contains(k, "Environment") && (c.A.Op == "==" && c.A.Args[0].Op == "builtin" && c.A.Args[0].Args[0].Op == "attrs" && !c.Val || c.A.Op == "<" && c.A.Args[1].Op == "builtin" && c.Val) {
			n++
		}
	}
	for _, ok := range elems {
		if !ok {
			return false
		}
	}
	return ended && len(elems) >= n
}
