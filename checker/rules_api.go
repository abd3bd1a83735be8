package main

// P11: API calls reach the instrument they name.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P11", func(p *Prog, r *Report) {
		ruleConstructors(p, r)
		ruleMeasurements(p, r)
		ruleForwardingMeters(p, r)
	})
}

const otelMetric = "go.opentelemetry.io/otel/metric"

// instrument constructors of metric.Meter
func apiConstructors(p *Prog) map[string][2]string {
	out := map[string][2]string{}
	for _, n := range []string{"Int64", "Float64"} {
		for api, k := range map[string]string{"Counter": "SyncCounter", "UpDownCounter": "SyncUpDownCounter", "Histogram": "SyncHistogram", "Gauge": "SyncGauge",
			"ObservableCounter": "AsyncCounter", "ObservableUpDownCounter": "AsyncUpDownCounter", "ObservableGauge": "AsyncGauge"} {
			out[n+api] = [2]string{n + "Kind", k}
		}
	}
	return out
}

// meterImpls: the repository's types that implement metric.Meter, with the methods they define.
func meterImpls(p *Prog) map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	api := apiConstructors(p)
	for _, fn := range p.all {
		rc := fn.Signature.Recv()
		if rc == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || !p.isLocal(fn) || pkgOf(fn) == nil || strings.Contains(pkgOf(fn).Path(), "/examples") {
			continue
		}
		if _, ok := api[fn.Name()]; !ok || fn.Signature.Results().Len() != 2 {
			continue
		}
		n := namedOf(derefT(rc.Type()))
		if n == nil {
			continue
		}
		out[types.TypeString(n, nil)] = append(out[types.TypeString(n, nil)], fn)
	}
	return out
}

func isParam(x *Ex, i int) bool { return x != nil && x.bare().Key() == "$"+itoa(i) }

// listIs: a variadic list handed on: the parameter itself, unless it is rebuilt.
func listIs(x *Ex, i int) bool { return isParam(x, i) }

func ruleConstructors(p *Prog, r *Report) {
	const R = "instrument-constructors"
	r.Rule(R, "effect summary of every instrument constructor of the meter: on every path one descriptor is made, of the method's own kind and number type, with the name given and the description and unit of the configuration made from the options given; the instrument returned is the one registered for it; for each callback of the configuration a callback is registered that observes exactly that instrument, calls it with the collection's context and an observer bound to the instrument, and returns its error")
	api := apiConstructors(p)
	n, ncb := 0, 0
	for _, fns := range meterImpls(p) {
		if pkgOf(fns[0]).Path() != p.Module+"/"+mMetric {
			continue
		}
		for _, fn := range fns {
			want := api[fn.Name()]
			n++
			pos := p.pos(fn.Pos())
			async := strings.Contains(fn.Name(), "Observable")
			e := &Effects{P: p, MaxPaths: 40000, Opaque: func(f *ssa.Function) bool {
				return pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mMetric
			}}
			os := e.Run(fn, nil)
			if e.Over {
				e.MaxVisits = 1
				os = e.Run(fn, nil)
			}
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
				continue
			}
			r.Summ(fn, len(os))
			cfgMake := otelMetric + ".New" + fn.Name() + "Config"
			for _, o := range os {
				if o.Panic {
					continue
				}
				var desc *Ev
				nd := 0
				for _, ev := range o.Ev {
					if ev.Kind == "call" && ev.Name == p.repoName(mInst, "NewDescriptor") {
						nd++
						desc = ev
					}
				}
				if !r.Ob(R, nd == 1, fn, "descriptor", pos, itoa(nd)+" descriptors are made on a path", o.Trace()...) {
					continue
				}
				a := desc.Args
				fromCfg := func(x *Ex, m string) bool {
					ok, cfg := false, false
					x.Any(func(y *Ex) bool {
						if y.Op == "call" && strings.HasSuffix(strings.SplitN(y.Sub, "#", 2)[0], "Config."+m) {
							ok = true
						}
						if y.Op == "call" && strings.HasPrefix(y.Sub, cfgMake) && len(y.Args) == 1 && listIs(y.Args[0], 2) {
							cfg = true
						}
						return false
					})
					return ok && cfg
				}
				kindOK := func(x *Ex, rel, name string) bool {
					v, ok := x.int()
					return ok && v == constOf(p, rel, name)
				}
				r.Ob(R, isParam(a[0], 1), fn, "name", desc.Pos, "is not the name given: "+a[0].Key(), o.Trace()...)
				r.Ob(R, kindOK(a[1], mInst, want[1]), fn, "instrument kind", desc.Pos, "is not "+want[1]+": "+a[1].Key(), o.Trace()...)
				r.Ob(R, kindOK(a[2], mNumber, want[0]), fn, "number kind", desc.Pos, "is not "+want[0]+": "+a[2].Key(), o.Trace()...)
				r.Ob(R, fromCfg(a[3], "Description"), fn, "description", desc.Pos, "is not that of the options given: "+a[3].Key(), o.Trace()...)
				r.Ob(R, fromCfg(a[4], "Unit"), fn, "unit", desc.Pos, "is not that of the options given: "+a[4].Key(), o.Trace()...)
				// the instrument: looked up by, or made from, the descriptor
				dk := desc.Res.Key()
				ret := o.Ret[0]
				madeFrom := func(x *Ex) bool {
					return x.Any(func(y *Ex) bool {
						return (y.Op == "call" || y.Op == "lookup" || y.Op == "res") && y.Has(dk)
					})
				}
				r.Ob(R, madeFrom(ret) || madeNone(o, dk), fn, "instrument returned", pos, "is not the one registered for the descriptor: "+short(ret.Key()), o.Trace()...)
				if !async {
					continue
				}
				// callbacks
				k := 0
				var list string
				for _, c := range o.Conds {
					c.A.Any(func(y *Ex) bool {
						if y.Op == "call" && strings.HasSuffix(strings.SplitN(y.Sub, "#", 2)[0], "Config.Callbacks") && strings.Contains(y.Key(), cfgMake) {
							list = y.Key()
						}
						return false
					})
				}
				ml, known := maxLen(o, list)
				if !r.Ob(R, list != "" && known, fn, "callbacks of the options", pos, "are not all visited on a path", o.Trace()...) {
					continue
				}
				for _, ev := range o.Ev {
					if ev.Kind != "call" || ev.Name != p.repoName(mAsync, "NewCallback") {
						continue
					}
					ncb++
					insts, ok := listItems(ev.Args[0])
					r.Ob(R, ok && len(insts) == 1 && insts[0].bare().Key() == ret.bare().Key(), fn, "instruments of a callback", ev.Pos, "are not the instrument returned", o.Trace()...)
					want := "init:" + list + "[" + itoa(k) + "]"
					k++
					checkCallback(p, r, R, fn, ev, ev.Args[2], want, ret, o)
				}
				r.Ob(R, k == ml, fn, "callbacks of the options", pos, itoa(k)+" of "+itoa(ml)+" callbacks are registered on a path", o.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 14, "instrument constructors")
	r.AtLeast(R, ncb, 6, "callbacks registered by constructors")
}

// checkCallback: the registered function calls the callback, for the instrument.
func checkCallback(p *Prog, r *Report, R string, fn *ssa.Function, ev *Ev, f *Ex, want string, inst *Ex, o *Outcome) {
	f = f.bare()
	if !r.Ob(R, f.Op == "closure" && f.Fn != nil, fn, "registered callback", ev.Pos, "is not known: "+short(f.Key())) {
		return
	}
	// what the captured variables hold
	bind := map[string]*Ex{}
	for i, fv := range f.Fn.FreeVars {
		if i >= len(f.Args) {
			continue
		}
		if isPtrT(fv.Type()) && strings.Contains(f.Args[i].Key(), "alloc:") {
			bind["init:*undef:"+fv.Name()] = ev.Deref(f.Args[i], derefT(fv.Type()))
		}
		bind["undef:"+fv.Name()] = f.Args[i]
	}
	res := func(x *Ex) string {
		x = x.bare()
		for x.Op == "iface" {
			x = x.Args[0].bare()
		}
		if b := bind[x.Key()]; b != nil {
			x = b.bare()
			for x.Op == "iface" {
				x = x.Args[0].bare()
			}
		}
		return x.Key()
	}
	e := &Effects{P: p, Opaque: func(g *ssa.Function) bool {
		return pkgOf(g) == nil || pkgOf(g).Path() != p.Module+"/"+mMetric
	}}
	for _, o := range e.Run(f.Fn, nil) {
		if o.Panic {
			continue
		}
		n := 0
		for _, c := range o.Ev {
			if c.Kind != "call" || !strings.HasPrefix(c.Name, "dyn") {
				continue
			}
			if res(c.Args[0]) != want {
				r.Ob(R, false, fn, "function called by a registered callback", c.Pos, "is not the callback given: "+short(res(c.Args[0])), o.Trace()...)
				continue
			}
			n++
			r.Ob(R, isParam(c.Args[1], 0), fn, "context of a callback", c.Pos, "is not the collection's", o.Trace()...)
			// the observer: forwards to the collection's observer, for the instrument
			ob := c.Args[2].bare()
			for ob.Op == "iface" {
				ob = ob.Args[0].bare()
			}
			checkBoundObserver(p, r, R, fn, c, ob, res, inst)
			r.Ob(R, len(o.Ret) == 1 && o.Ret[0].Has(c.Res.Key()), fn, "error of a callback", c.Pos, "is not returned", o.Trace()...)
		}
		r.Ob(R, n == 1, fn, "registered callback", ev.Pos, "calls the callback given "+itoa(n)+" times on a path", o.Trace()...)
	}
}

// checkBoundObserver: Observe of the observer forwards value and options for the instrument.
func checkBoundObserver(p *Prog, r *Report, R string, fn *ssa.Function, c *Ev, ob *Ex, res func(*Ex) string, inst *Ex) {
	var m *ssa.Function
	if ob.Typ != nil {
		m = p.method(ob.Typ, "Observe")
	}
	if !r.Ob(R, m != nil && len(m.Blocks) > 0, fn, "observer given to a callback", c.Pos, "has no Observe of its own: "+short(ob.Key())) {
		return
	}
	e := &Effects{P: p}
	arg := ob
	args := []*Ex{arg}
	for i := 1; i < len(m.Params); i++ {
		args = append(args, exParam(i, m.Params[i].Type()))
	}
	if isPtrT(m.Params[0].Type()) && ob.Op != "ptr" {
		r.Ob(R, false, fn, "observer given to a callback", c.Pos, "is not known")
		return
	}
	val := "Int64"
	if b, ok := m.Params[1].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
		val = "Float64"
	}
	for _, o := range e.Run(m, args) {
		if o.Panic {
			continue
		}
		n := 0
		for _, ev := range o.Ev {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Name, ".Observe"+val) {
				continue
			}
			n++
			a := ev.Args
			r.Ob(R, len(a) == 4 && res(a[0]) == "$1", fn, "observer behind the one given to a callback", ev.Pos, "is not the collection's: "+res(a[0]), o.Trace()...)
			if len(a) == 4 {
				want := inst.bare()
				for want.Op == "iface" {
					want = want.Args[0].bare()
				}
				r.Ob(R, res(a[1]) == want.Key(), fn, "instrument observed", ev.Pos, "is not the one created: "+short(res(a[1])), o.Trace()...)
				r.Ob(R, isParam(a[2], 1) && isParam(a[3], 2), fn, "observation", ev.Pos, "value or options are changed on the way", o.Trace()...)
			}
		}
		r.Ob(R, n == 1, m, "observation", p.pos(m.Pos()), itoa(n)+" observations for one", o.Trace()...)
	}
}

// observeFns: the generic measurement functions of a package of the SDK: the only
// ones that take a context or callback, an instrument and a number of any type.
func isUpdate(ev *Ev) bool {
	return ev.Kind == "call" && strings.HasPrefix(ev.Name, "invoke ") && strings.HasSuffix(ev.Name, ".Update") && strings.Contains(ev.Name, "Updater[")
}

func reachesUpdate(p *Prog) *reach {
	return newReach(p, func(i ssa.Instruction) bool { return isInvokeOf(i, "Update") })
}

func ruleMeasurements(p *Prog, r *Report) {
	const R = "measurements"
	r.Rule(R, "effect summary of every measurement method of every synchronous instrument, down to the update of the accumulator: the update has the value given, for the instrument's own observer, at most once on every path and exactly once unless the instrument is disabled or the value fails the range test; the attributes are those of the options or list given, passed through the configured limits and processor only, and the context is the caller's")
	upd := reachesUpdate(p)
	n := 0
	for _, fn := range p.all {
		rc := fn.Signature.Recv()
		if rc == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || pkgOf(fn) == nil || pkgOf(fn).Path() != p.Module+"/"+mMetric || fn.Signature.Params().Len() != 3 || !fn.Signature.Variadic() {
			continue
		}
		name := fn.Name()
		if name != "Add" && name != "Record" && name != "AddWithKeyValues" && name != "RecordWithKeyValues" {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		direct := strings.HasSuffix(name, "WithKeyValues")
		numT := tupT(fn.Signature.Params(), 1)
		// inline down to the generic measurement function
		e := &Effects{P: p, Opaque: func(f *ssa.Function) bool {
			return pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mMetric && !strings.HasPrefix(pkgOf(f).Path(), p.Module+"/"+mSync) || f.Origin() != nil && upd.has(f)
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			k := 0
			for _, ev := range o.Ev {
				if ev.Kind != "call" || ev.Fn == nil || ev.Fn.Origin() == nil || !upd.has(ev.Fn) {
					continue
				}
				k++
				ta := ev.Fn.TypeArgs()
				r.Ob(R, len(ta) > 0 && types.Identical(ta[0], numT), fn, "number type", ev.Pos, "is not that of the value", o.Trace()...)
				var ctx, num, inst bool
				for _, a := range ev.Args {
					ctx = ctx || a.Key() == "$1"
					num = num || a.Key() == "$2"
					b := a
					if isNamedType(derefT(b.Typ), p.repoName(mSync, "Observer")) {
						inst = strings.Contains(b.Key(), "$0") && !strings.Contains(b.Key(), "call:")
					}
					if c := structOf(a.Typ); c != nil && isNamedType(a.Typ, p.repoName(mSync, "OpConfig")) {
						for i := 0; i < c.NumFields(); i++ {
							f := c.Field(i)
							v := selectPath(a, "."+f.Name(), f.Type())
							_, isSlice := f.Type().Underlying().(*types.Slice)
							given := isParam(v, 3)
							if !isSlice {
								// the attributes of the options
								given = v.Op == "call" && strings.HasSuffix(strings.SplitN(v.Sub, "#", 2)[0], "Config.Attributes") && v.Any(func(y *Ex) bool {
									return y.Op == "call" && strings.HasPrefix(y.Sub, otelMetric+".New"+name+"Config") && len(y.Args) == 1 && isParam(y.Args[0], 3)
								})
							}
							none := v.isNil() || strings.HasPrefix(v.Sub, "zero:") || v.Key() == "nil"
							if isSlice == direct {
								r.Ob(R, given, fn, "attributes", ev.Pos, "are not those given: "+short(v.Key()), o.Trace()...)
							} else {
								r.Ob(R, none, fn, "attributes", ev.Pos, "other attributes are added: "+short(v.Key()), o.Trace()...)
							}
						}
					}
				}
				r.Ob(R, ctx, fn, "context", ev.Pos, "is not the caller's", o.Trace()...)
				r.Ob(R, num, fn, "value", ev.Pos, "is not the value given", o.Trace()...)
				r.Ob(R, inst, fn, "instrument", ev.Pos, "is not the receiver's", o.Trace()...)
			}
			r.Ob(R, k == 1, fn, "measurement", pos, itoa(k)+" measurements are made for one, on a path", o.Trace()...)
		}
	}
	r.AtLeast(R, n, 14, "measurement methods")
	ruleObserveSync(p, r, R)
}

// ruleObserveSync: the generic synchronous measurement.
func ruleObserveSync(p *Prog, r *Report, R string) {
	n := 0
	// acquiring a record: from the instrument and an attribute list to a
	// pointer to a struct of the package
	isAcq := func(f *ssa.Function) bool { return isAcquire(p, f) }
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool {
		if pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mSync || f.Signature.Params().Len() < 4 {
			return false
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isNamedType(tupT(f.Signature.Params(), i), p.repoName(mSync, "OpConfig")) {
				return len(f.TypeArgs()) > 0
			}
		}
		return false
	}) {
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, Opaque: func(f *ssa.Function) bool {
			return f.Parent() == nil && (pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mSync || isAcq(f) || f.Signature.Results().Len() > 0 && types.IsInterface(tupT(f.Signature.Results(), 0)))
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		iCtx, iInst, iNum, iCfg := -1, -1, -1, -1
		for i, a := range fn.Params {
			switch {
			case isNamedType(derefT(a.Type()), p.repoName(mSync, "Observer")):
				iInst = i
			case isNamedType(a.Type(), p.repoName(mSync, "OpConfig")):
				iCfg = i
			case types.TypeString(a.Type(), nil) == "context.Context":
				iCtx = i
			default:
				if _, ok := a.Type().Underlying().(*types.Basic); ok {
					iNum = i
				}
			}
		}
		if !r.Need(R, iCtx >= 0 && iInst >= 0 && iNum >= 0 && iCfg >= 0, "parameters of the measurement", "not recognised in "+fn.String()) {
			continue
		}
		cfg := "$" + itoa(iCfg)
		for _, o := range os {
			if o.Panic {
				continue
			}
			k := 0
			disabled, _ := o.Cond("==($" + itoa(iInst) + ",nil)")
			ranged := false
			for _, c := range o.Conds {
				if c.A.Op == "call" && strings.Contains(c.A.Sub, "RangeTest") && !c.Val && c.A.Has("$"+itoa(iNum)) {
					ranged = true
				}
			}
			var proc *Ex
			for _, c := range o.Conds {
				if c.A.Op == "==" && !c.Val && len(c.A.Args) == 2 && c.A.Args[1].isNil() && strings.HasSuffix(c.A.Args[0].Key(), ".MeasurementProcessor") {
					proc = c.A.Args[0]
				}
			}
			for i, ev := range o.Ev {
				if !isUpdate(ev) {
					continue
				}
				k++
				r.Ob(R, ev.Args[len(ev.Args)-1].Key() == "$"+itoa(iNum), fn, "value", ev.Pos, "is not the value given: "+short(ev.Args[len(ev.Args)-1].Key()), o.Trace()...)
				// the record acquired
				var rec *Ev
				for _, a := range o.Ev[:i] {
					if a.Kind == "call" && a.Fn != nil && isAcq(a.Fn) && a.Res != nil && ev.Args[0].Has(a.Res.Key()) {
						rec = a
					}
				}
				if !r.Ob(R, rec != nil, fn, "accumulator", ev.Pos, "is not that of a record of the instrument", o.Trace()...) {
					continue
				}
				var kvs *Ex
				inst := false
				for _, a := range rec.Args {
					inst = inst || a.Key() == "$"+itoa(iInst)
					if s, ok := a.Typ.(*types.Slice); ok && strings.HasSuffix(s.Elem().String(), "attribute.KeyValue") {
						kvs = a
					}
				}
				r.Ob(R, inst, fn, "accumulator", rec.Pos, "is not that of the instrument", o.Trace()...)
				if !r.Ob(R, kvs != nil, fn, "attributes", rec.Pos, "are not given to the record") {
					continue
				}
				x := kvs
				if proc != nil {
					ok := x.Op == "call" && strings.Contains(x.Sub, ".Process") && len(x.Args) == 3 && x.Args[0].Key() == proc.Key() && x.Args[1].Key() == "$"+itoa(iCtx)
					if !r.Ob(R, ok, fn, "measurement processor", rec.Pos, "is not applied with the caller's context: "+short(x.Key()), o.Trace()...) {
						continue
					}
					x = x.Args[2]
				}
				if x.Op == "call" && strings.Contains(x.Sub, "TruncateAttributes") {
					x = x.Args[len(x.Args)-1]
				} else {
					r.Ob(R, false, fn, "attribute limits", rec.Pos, "are not applied: "+short(x.Key()), o.Trace()...)
				}
				listed := strings.HasPrefix(x.Key(), "sel:") && strings.HasSuffix(x.Key(), "("+cfg+")")
				fromSet := false
				if x.Op == "call" && strings.Contains(x.Sub, "Set.ToSlice") {
					for _, ev := range o.Ev {
						if ev.Res == nil || ev.Res.Key() != x.Key() {
							continue
						}
						v := x.Args[0]
						if pt, ok := v.Typ.(*types.Pointer); ok {
							v = ev.Deref(v, pt.Elem())
						}
						fromSet = strings.HasPrefix(v.Key(), "sel:") && strings.HasSuffix(v.Key(), "("+cfg+")")
					}
				}
				r.Ob(R, listed || fromSet, fn, "attributes", rec.Pos, "are not those given: "+short(x.Key()), o.Trace()...)
				given := false
				for _, c := range o.Conds {
					if c.A.Op == "==" && len(c.A.Args) == 2 && c.A.Has(cfg) {
						l := c.A.Args[0]
						if isSliceT(l.Typ) && c.A.Args[1].isNil() {
							given = !c.Val
						} else if l.Op == "builtin:len" || strings.HasPrefix(l.Key(), "builtin:len(") {
							given = !c.Val
						}
					}
				}
				r.Ob(R, given == listed || fromSet && !given, fn, "attributes", rec.Pos, "are not taken from where they are given", o.Trace()...)
			}
			want := 1
			if disabled || ranged {
				want = 0
			}
			r.Ob(R, k == want, fn, "update", pos, itoa(k)+" updates for one measurement on a path", o.Trace()...)
		}
	}
	r.AtLeast(R, n, 2, "generic measurements")
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// ruleForwardingMeters: meters that wrap another.
func ruleForwardingMeters(p *Prog, r *Report) {
	const R = "forwarding-meters"
	r.Rule(R, "effect summary of every method of a meter or provider that wraps another: it calls the method of the same name once, with the options given and the name given (or, for a collector component's metric, the name with the prefix of the SDK), and returns exactly its results")
	n := 0
	for _, fns := range meterImpls(p) {
		if pkgOf(fns[0]).Path() == p.Module+"/"+mMetric {
			continue
		}
		recv := fns[0].Signature.Recv().Type()
		all := append([]*ssa.Function{}, fns...)
		if m := p.method(recv, "RegisterCallback"); m != nil && len(m.Blocks) > 0 && m.Synthetic == "" {
			all = append(all, m)
		} else {
			r.Ob(R, false, fns[0], "RegisterCallback", p.pos(fns[0].Pos()), "is not forwarded")
		}
		api := apiConstructors(p)
		for _, fn := range fns {
			delete(api, fn.Name())
		}
		for m := range api {
			r.Ob(R, false, fns[0], m, p.pos(fns[0].Pos()), "is not forwarded")
		}
		for _, fn := range all {
			n++
			checkForward(p, r, R, fn)
		}
	}
	// providers
	for _, fn := range p.all {
		rc := fn.Signature.Recv()
		if rc == nil || fn.Synthetic != "" || fn.Name() != "Meter" || len(fn.Blocks) == 0 || !p.isLocal(fn) || pkgOf(fn) == nil || pkgOf(fn).Path() == p.Module+"/"+mMetric || fn.Signature.Params().Len() != 2 {
			continue
		}
		n++
		checkForward(p, r, R, fn)
	}
	r.AtLeast(R, n, 16, "forwarding methods")
}

func checkForward(p *Prog, r *Report, R string, fn *ssa.Function) {
	pos := p.pos(fn.Pos())
	e := &Effects{P: p}
	os := e.Run(fn, nil)
	if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
		return
	}
	r.Summ(fn, len(os))
	for _, o := range os {
		if o.Panic {
			continue
		}
		var call *Ev
		k := 0
		for _, ev := range o.Ev {
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "invoke "+otelMetric+".") {
				k++
				call = ev
			}
		}
		if !r.Ob(R, k == 1, fn, "forwarded call", pos, itoa(k)+" calls on a path", o.Trace()...) {
			continue
		}
		r.Ob(R, strings.HasSuffix(call.Name, "."+fn.Name()), fn, "forwarded call", call.Pos, "is to "+short(call.Name), o.Trace()...)
		r.Ob(R, strings.Contains(call.Args[0].Key(), "$0"), fn, "forwarded call", call.Pos, "is not to the wrapped one", o.Trace()...)
		for i := 1; i < len(call.Args) && i < len(fn.Params); i++ {
			a := call.Args[i]
			if isParam(a, i) {
				if i == 1 && fn.Name() != "Meter" && fn.Name() != "RegisterCallback" {
					// the name: not one with the prefix
					pre, known := collectorName(o)
					r.Ob(R, known && !pre, fn, "name", call.Pos, "keeps the prefix of the collector on a path", o.Trace()...)
				}
				continue
			}
			if i == 1 && fn.Name() != "RegisterCallback" && fn.Name() != "Meter" {
				pre, known := collectorName(o)
				ok := a.Op == "+" && len(a.Args) == 2 && a.Args[0].Key() == `"otelsdk_"`
				if ok {
					rest := a.Args[1]
					ok = rest.Key() == `call:strings.TrimPrefix($1,"otelcol_")` || rest.Key() == `res:0(call:strings.CutPrefix($1,"otelcol_"))` || rest.Op == "slice" && rest.Args[0].Key() == "$1" && rest.Args[1] != nil && rest.Args[1].Key() == "8" && rest.Args[2] == nil && pre && known
				}
				r.Ob(R, ok, fn, "name", call.Pos, "is changed other than in its prefix: "+a.Key(), o.Trace()...)
				continue
			}
			r.Ob(R, false, fn, "argument "+fn.Params[i].Name(), call.Pos, "is not the one given: "+short(a.Key()), o.Trace()...)
		}
		if fn.Name() == "Meter" {
			r.Ob(R, o.Ret[0].Has(call.Res.Key()), fn, "result", pos, "does not wrap that of the wrapped provider", o.Trace()...)
			continue
		}
		for i, v := range o.Ret {
			ok := v.Op == "res" && v.Sub == itoa(i) && v.Args[0].Key() == call.Res.Key() || v.Key() == call.Res.Key() || call.Res.Op == "tuple" && i < len(call.Res.Args) && v.Key() == call.Res.Args[i].Key()
			r.Ob(R, ok, fn, "result "+itoa(i), pos, "is not that of the wrapped meter: "+short(v.Key()), o.Trace()...)
		}
	}
}

// collectorName: whether the name is one of the collector's on the path.
func collectorName(o *Outcome) (pre, known bool) {
	for _, k := range []string{`call:strings.HasPrefix($1,"otelcol_")`, `res:1(call:strings.CutPrefix($1,"otelcol_"))`} {
		if pre, known = o.Cond(k); known {
			return
		}
	}
	return
}

// isAcquire: the functions from an instrument and an attribute list to a
// record.
func isAcquire(p *Prog, f *ssa.Function) bool {
	sig := f.Signature
	if pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mSync || sig.Results().Len() != 1 || f.Parent() != nil {
		return false
	}
	nt, ok := derefT(tupT(sig.Results(), 0)).(*types.Named)
	if _, ptr := tupT(sig.Results(), 0).(*types.Pointer); !ok || !ptr || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != p.Module+"/"+mSync {
		return false
	}
	kv, in := false, false
	for _, a := range f.Params {
		kv = kv || types.TypeString(a.Type(), nil) == "[]"+otelAttr+"KeyValue"
		in = in || isNamedType(derefT(a.Type()), p.repoName(mSync, "Observer"))
	}
	return kv && in
}

// madeNone: on this path what was made from the descriptor is nil (there
// is no instrument to register).
func madeNone(o *Outcome, dk string) bool {
	for _, c := range o.Conds {
		if !c.Val || c.A.Op != "==" && !(c.A.Op == "bin" && c.A.Sub == "==") || len(c.A.Args) != 2 {
			continue
		}
		for i, x := range c.A.Args {
			if strings.HasPrefix(c.A.Args[1-i].Key(), "nil") && x.Any(func(y *Ex) bool { return (y.Op == "call" || y.Op == "res") && y.Has(dk) }) {
				return true
			}
		}
	}
	return false
}
