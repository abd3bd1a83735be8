package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P15", checkP15)
	register("P16", checkP16)
}

// invokes: the calls of a method of an interface of the metric package on a
// path, by index.
func invokes(o *Outcome, iface string, methods ...string) []int {
	var out []int
	for i, ev := range o.Ev {
		if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "invoke ") {
			continue
		}
		for _, m := range methods {
			if strings.HasSuffix(ev.Name, "/"+mMetric+"."+iface+"."+m) || strings.HasSuffix(ev.Name, "."+iface+"."+m) {
				out = append(out, i)
			}
		}
	}
	return out
}

// ctxMethods: the exported methods func(ctx) error of a type.
func ctxMethods(p *Prog, t *types.Named, names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Object() == nil {
			return false
		}
		nt, ok := derefT(f.Signature.Recv().Type()).(*types.Named)
		if !ok || nt.Obj() != t.Obj() {
			return false
		}
		for _, n := range names {
			if f.Name() == n {
				return true
			}
		}
		return false
	}) {
		out = append(out, fn)
	}
	return out
}

// metricTypes: the named types of the metric package.
func metricTypes(p *Prog) []*types.Named {
	var out []*types.Named
	pk := p.pkg(mMetric)
	if pk == nil {
		return nil
	}
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				out = append(out, nt)
			}
		}
	}
	return out
}

// holds: whether a struct has a field of the type, itself or in a struct it
// holds.
func holds(t types.Type, is func(types.Type) bool) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if is(ft) {
			return true
		}
		if _, ok := ft.Underlying().(*types.Struct); ok && holds(ft, is) {
			return true
		}
	}
	return false
}

// a latch: a condition on a field of the receiver which a path turns over, so
// that the path is taken once.
type latch struct {
	field string // the term of the field
	cond  string
	val   bool // the value of the condition on the path that does the work
}

// latchOf: the latch a working path sets.
func latchOf(o *Outcome) (l latch, at int, ok bool) {
	for _, c := range o.Conds {
		k := c.A.Key()
		// a boolean field
		if c.A.Op == "init" && strings.HasPrefix(k, "init:*$0.") {
			ptr := "&" + strings.TrimPrefix(k, "init:")
			for i, ev := range o.Ev {
				if ev.Kind != "store" || ev.Args[0].Key() != ptr {
					continue
				}
				if b, known := ev.Args[1].boolVal(); known && b != c.Val {
					return latch{k, k, c.Val}, i, true
				}
			}
		}
		// a pointer, map or function taken away
		if c.A.Op == "==" && !c.Val && len(c.A.Args) == 2 && c.A.Args[1].isNil() && strings.HasPrefix(c.A.Args[0].Key(), "init:*$0.") {
			ptr := "&" + strings.TrimPrefix(c.A.Args[0].Key(), "init:")
			for i, ev := range o.Ev {
				if ev.Kind == "store" && ev.Args[0].Key() == ptr && ev.Args[1].isNil() {
					return latch{c.A.Args[0].Key(), k, false}, i, true
				}
			}
		}
		// an atomic exchange
		if c.A.Op == "call" && (strings.Contains(c.A.Sub, "atomic.") && (strings.Contains(c.A.Sub, "CompareAndSwap") || strings.Contains(c.A.Sub, "Swap"))) && strings.HasPrefix(c.A.Args[0].Key(), "&*$0.") {
			for i, ev := range o.Ev {
				if ev.Res != nil && ev.Res.Key() == k {
					return latch{c.A.Args[0].Key(), "atomic", c.Val}, i, true
				}
			}
		}
	}
	return
}

// refused: the path finds the latch already set.
func refused(o *Outcome, l latch) bool {
	if l.cond == "atomic" {
		for _, c := range o.Conds {
			if c.A.Op == "call" && strings.Contains(c.A.Sub, "atomic.") && len(c.A.Args) > 0 && c.A.Args[0].Key() == l.field && c.Val != l.val {
				return true
			}
			if strings.Contains(c.A.Key(), "atomic.") && c.A.Has(l.field) && c.Val != l.val {
				return true
			}
		}
		return false
	}
	v, known := o.Cond(l.cond)
	return known && v != l.val
}

// lockDepth: how many locks are held after an event.
func lockBefore(o *Outcome, i int) int {
	n := 0
	for _, ev := range o.Ev[:i] {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Name, "sync.Mutex.Lock"), strings.HasSuffix(ev.Name, "sync.RWMutex.Lock"):
			n++
		case strings.HasSuffix(ev.Name, "sync.Mutex.Unlock"), strings.HasSuffix(ev.Name, "sync.RWMutex.Unlock"):
			n--
		}
	}
	return n
}

func nilErr(o *Outcome) bool {
	if len(o.Ret) == 0 {
		return true
	}
	v := o.Ret[len(o.Ret)-1]
	if v.isNil() {
		return true
	}
	same, known := o.Cond("==(" + v.Key() + ",nil)")
	return known && same
}

func checkP15(p *Prog, r *Report) {
	ruleProviderLifecycle(p, r)
	ruleReaderShutdown(p, r)
	ruleGoroutines(p, r)
	ruleClientShutdown(p, r)
}

// readerIface: the Reader and PushExporter interfaces.
func metricIface(p *Prog, name string) *types.Interface {
	pk := p.pkg(mMetric)
	if pk == nil {
		return nil
	}
	n := pk.Pkg.Scope().Lookup(name)
	if n == nil {
		return nil
	}
	it, _ := n.Type().Underlying().(*types.Interface)
	return it
}

func ruleProviderLifecycle(p *Prog, r *Report) {
	const R = "provider-lifecycle"
	r.Rule(R, "shutting the provider down turns over a latch under its lock and then shuts every reader down once, with the caller's context, whatever the earlier ones returned; when the latch was already turned over it touches no reader and returns an error; a flush reaches every reader, or reports that the provider was shut down")
	n := 0
	for _, t := range metricTypes(p) {
		if !holds(t, func(ft types.Type) bool {
			s, ok := ft.Underlying().(*types.Slice)
			return ok && isNamedType(s.Elem(), p.repoName(mMetric, "Reader"))
		}) {
			continue
		}
		var lt latch
		have := false
		for _, m := range []string{"Shutdown", "ForceFlush"} {
			for _, fn := range ctxMethods(p, t, m) {
				n++
				pos := p.pos(fn.Pos())
				e := &Effects{P: p}
				os := e.Run(fn, nil)
				if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
					continue
				}
				r.Summ(fn, len(os))
				// the latch
				if m == "Shutdown" {
					for _, o := range os {
						if len(invokes(o, "Reader", m)) > 0 {
							if l, _, ok := latchOf(o); ok {
								lt, have = l, true
							}
						}
					}
					r.Ob(R, have, fn, "repeated shutdown", pos, "nothing prevents it")
				}
				for _, o := range os {
					if o.Panic {
						continue
					}
					calls := invokes(o, "Reader", "Shutdown", "ForceFlush")
					if have && refused(o, lt) {
						r.Ob(R, len(calls) == 0, fn, "after shutdown", pos, "a reader is called again", o.Trace()...)
						r.Ob(R, !nilErr(o), fn, "after shutdown", pos, "no error is returned", o.Trace()...)
						continue
					}
					if m == "Shutdown" && have {
						l, at, ok := latchOf(o)
						ok = ok && l == lt
						if r.Ob(R, ok, fn, "repeated shutdown", pos, "is not prevented on a path", o.Trace()...) {
							if l.cond != "atomic" {
								r.Ob(R, lockBefore(o, at) > 0, fn, "repeated shutdown", o.Ev[at].Pos, "is prevented without the lock", o.Trace()...)
								k := 0
								for _, ev := range o.Ev[:at] {
									if ev.Kind == "call" && strings.HasSuffix(ev.Name, "utex.Unlock") {
										k++
									}
								}
								r.Ob(R, k == 0, fn, "repeated shutdown", o.Ev[at].Pos, "is prevented in another critical section than it is tested", o.Trace()...)
							}
							for _, c := range calls {
								r.Ob(R, c > at, fn, "reader", o.Ev[c].Pos, "is called before the provider is marked as shut down", o.Trace()...)
							}
						}
					}
					list := ""
					done := map[string]int{}
					for _, c := range calls {
						ev := o.Ev[c]
						r.Ob(R, strings.HasSuffix(ev.Name, "."+m), fn, "reader", ev.Pos, "another method is called: "+short(ev.Name), o.Trace()...)
						r.Ob(R, len(ev.Args) == 2 && isParam(ev.Args[1], 1), fn, "context", ev.Pos, "is not the caller's", o.Trace()...)
						k := ev.Args[0].Key()
						if i := strings.LastIndex(k, "["); i > 0 && strings.HasPrefix(k, "init:") {
							list = k[len("init:"):i]
							done[k[i:]]++
						}
					}
					if list == "" {
						// no reader at all
						for _, c := range o.Conds {
							if c.A.Op == "==" && c.Val && len(c.A.Args) == 2 && c.A.Args[1].Key() == "0" && c.A.Args[0].is("builtin", "len") {
								list = c.A.Args[0].Args[0].Key()
							} else if k := c.A.Key(); c.Val && strings.HasPrefix(k, "==(builtin:len(") && strings.HasSuffix(k, "),0)") {
								list = strings.TrimSuffix(strings.TrimPrefix(k, "==(builtin:len("), "),0)")
							}
						}
					}
					cnt, known := maxLen(o, list)
					known = known && strings.HasPrefix(list, "init:*$0.") && !strings.ContainsAny(list, "([")
					if !r.Ob(R, known, fn, "readers", pos, "are not all visited on a path", o.Trace()...) {
						continue
					}
					for i := 0; i < cnt; i++ {
						none, _ := o.Cond("==(init:" + list + "[" + itoa(i) + "],nil)")
						r.Ob(R, done["["+itoa(i)+"]"] == 1 || none, fn, "reader "+itoa(i), pos, itoa(done["["+itoa(i)+"]"])+" calls on a path", o.Trace()...)
					}
				}
			}
		}
	}
	r.AtLeast(R, n, 2, "lifecycle methods of the provider")
}

// pushReaders: the readers with an exporter.
func pushReaders(p *Prog) []*types.Named {
	var out []*types.Named
	for _, t := range metricTypes(p) {
		if holds(t, func(ft types.Type) bool { return isNamedType(ft, p.repoName(mMetric, "PushExporter")) }) {
			if it := metricIface(p, "Reader"); it != nil && types.Implements(types.NewPointer(t), it) {
				out = append(out, t)
			}
		}
	}
	return out
}

var pushMethods = []string{"ExportMetrics", "ForceFlushMetrics", "ShutdownMetrics"}

func ruleReaderShutdown(p *Prog, r *Report) {
	const R = "reader-shutdown"
	r.Rule(R, "shutting a pushing reader down stops its loop, waits for it to end, and then collects once and gives the result to the exporter's shutdown, once: a latch turned over under the reader's lock keeps every later collection, flush and shutdown from the exporter and answers them with an error")
	rs := pushReaders(p)
	r.AtLeast(R, len(rs), 1, "pushing readers")
	for _, t := range rs {
		var lt latch
		have := false
		for _, m := range []string{"Shutdown", "ForceFlush"} {
			fns := ctxMethods(p, t, m)
			r.AtLeast(R, len(fns), 1, m+" of "+t.Obj().Name())
			for _, fn := range fns {
				pos := p.pos(fn.Pos())
				e := &Effects{P: p}
				os := e.Run(fn, nil)
				if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
					continue
				}
				r.Summ(fn, len(os))
				if m == "Shutdown" {
					for _, o := range os {
						if len(invokes(o, "PushExporter", pushMethods...)) > 0 {
							if l, _, ok := latchOf(o); ok {
								lt, have = l, true
							}
						}
					}
					r.Ob(R, have, fn, "repeated shutdown", pos, "nothing prevents it")
				}
				for _, o := range os {
					if o.Panic {
						continue
					}
					calls := invokes(o, "PushExporter", pushMethods...)
					prods := invokes(o, "Producer", "Produce")
					if have && refused(o, lt) {
						r.Ob(R, len(calls) == 0 && len(prods) == 0, fn, "after shutdown", pos, "collects or exports again", o.Trace()...)
						r.Ob(R, !nilErr(o), fn, "after shutdown", pos, "no error is returned", o.Trace()...)
						continue
					}
					if have {
						v, known := o.Cond(lt.cond)
						r.Ob(R, lt.cond == "atomic" || known && v == lt.val, fn, "after shutdown", pos, "is not told apart on a path", o.Trace()...)
					}
					want := map[string]string{"Shutdown": "ShutdownMetrics", "ForceFlush": "ForceFlushMetrics"}[m]
					okc := len(calls) == 1 && strings.HasSuffix(o.Ev[calls[0]].Name, "."+want)
					if !r.Ob(R, okc && len(prods) == 1, fn, "final export", pos, itoa(len(calls))+" calls to the exporter and "+itoa(len(prods))+" collections on a path", o.Trace()...) {
						continue
					}
					c := calls[0]
					ev := o.Ev[c]
					r.Ob(R, isParam(ev.Args[1], 1), fn, "context", ev.Pos, "of the export is not the caller's", o.Trace()...)
					r.Ob(R, ev.Args[2].Has(o.Ev[prods[0]].Res.Key()) && prods[0] < c, fn, "data", ev.Pos, "exported is not that collected", o.Trace()...)
					if m != "Shutdown" {
						continue
					}
					l, at, ok := latchOf(o)
					if r.Ob(R, ok && l == lt, fn, "repeated shutdown", pos, "is not prevented on a path", o.Trace()...) && l.cond != "atomic" {
						r.Ob(R, lockBefore(o, at) > 0, fn, "repeated shutdown", o.Ev[at].Pos, "is prevented without the lock", o.Trace()...)
					}
					stop, wait := -1, -1
					for i, x := range o.Ev[:prods[0]] {
						if x.Kind == "call" && strings.HasPrefix(x.Name, "dyn") {
							stop = i
						}
						if x.Kind == "call" && strings.HasSuffix(x.Name, "sync.WaitGroup.Wait") {
							wait = i
						}
						if x.Kind == "recv" || x.Kind == "call" && strings.HasPrefix(x.Name, "recv") {
							wait = i
						}
						if x.Kind == "call" && x.Name == "builtin:close" || x.Kind == "close" {
							stop = i
						}
					}
					r.Ob(R, stop >= 0, fn, "loop", pos, "is not stopped before the final collection", o.Trace()...)
					r.Ob(R, wait > stop && stop >= 0, fn, "loop", pos, "is not waited for, after stopping it and before the final collection", o.Trace()...)
				}
			}
		}
	}
}

// ruleGoroutines: what is started ends.
func ruleGoroutines(p *Prog, r *Report) {
	const R = "goroutines"
	r.Rule(R, "every goroutine the SDK starts is counted in a wait group before it is started and leaves it when it returns, and it returns when its context ends, whose cancellation the starter keeps")
	n := 0
	for _, f := range p.all {
		pk := pkgOf(f)
		if pk == nil || !strings.HasPrefix(pk.Path(), p.Module) || strings.Contains(pk.Path(), "/test") || strings.Contains(pk.Path(), "example") || generic(f) {
			continue
		}
		if pk.Path() != p.Module+"/"+mMetric && !strings.HasPrefix(pk.Path(), p.Module+"/lightstep/sdk") && !strings.HasPrefix(pk.Path(), p.Module+"/"+mLaunch) && !strings.HasPrefix(pk.Path(), p.Module+"/"+mPls) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		n++
		pos := p.pos(f.Pos())
		e := &Effects{P: p}
		os := e.Run(f, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, f, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(f, len(os))
		for _, o := range os {
			for i, ev := range o.Ev {
				if ev.Kind != "go" {
					continue
				}
				// counted
				var wg *Ex
				for _, x := range o.Ev[:i] {
					if x.Kind == "call" && strings.HasSuffix(x.Name, "sync.WaitGroup.Add") && len(x.Args) == 2 && x.Args[1].Key() == "1" {
						wg = x.Args[0]
					}
				}
				viaGo := strings.HasSuffix(ev.Name, "sync.WaitGroup.Go")
				r.Ob(R, wg != nil || viaGo, f, "goroutine", ev.Pos, "is not counted before it starts", o.Trace()...)
				// its context
				ctx := -1
				for j, a := range ev.Args {
					if a.Has("context.WithCancel") || strings.Contains(a.Key(), "context.WithCancel") {
						ctx = j
					}
				}
				kept := false
				for _, x := range o.Ev {
					if x.Kind == "store" && strings.HasPrefix(x.Args[0].Key(), "&*$0.") && strings.HasPrefix(x.Args[1].Key(), "res:1(call:context.WithCancel") {
						kept = true
						if ctx >= 0 {
							kept = ev.Args[ctx].Op == "res" && ev.Args[ctx].Args[0].Key() == x.Args[1].Args[0].Key()
						}
					}
				}
				if ev.Fn != nil && ctx < 0 {
					for _, q := range ev.Fn.Params {
						kept = kept && types.TypeString(q.Type(), nil) != "context.Context"
					}
				}
				r.Ob(R, kept, f, "goroutine", ev.Pos, "runs under a context whose cancellation is not kept", o.Trace()...)
				g := ev.Fn
				if !r.Ob(R, g != nil, f, "goroutine", ev.Pos, "runs an unknown function", o.Trace()...) {
					continue
				}
				checkGoroutine(p, r, R, g, ctx)
			}
		}
	}
	r.AtLeast(R, n, 1, "functions starting goroutines")
}

// checkGoroutine: the body of a goroutine.
func checkGoroutine(p *Prog, r *Report, R string, g *ssa.Function, ctx int) {
	pos := p.pos(g.Pos())
	e := &Effects{P: p}
	os := e.Run(g, nil)
	if !r.Ob(R, !e.Over && len(os) > 0, g, "analysed", pos, "too many paths, or it never returns") {
		return
	}
	for _, o := range os {
		k := 0
		last := -1
		for i, ev := range o.Ev {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "sync.WaitGroup.Done") {
				k++
				last = i
			}
		}
		r.Ob(R, k == 1, g, "goroutine", pos, "leaves the wait group "+itoa(k)+" times on a path", o.Trace()...)
		if k == 1 {
			for _, ev := range o.Ev[last+1:] {
				r.Ob(R, ev.Kind != "call" || !strings.HasPrefix(ev.Name, "invoke "), g, "goroutine", ev.Pos, "works after it left the wait group", o.Trace()...)
			}
		}
		// it returns for the end of its context
		ended := false
		for _, ev := range o.Ev {
			if ev.Kind == "select" && len(ev.Args) > 0 && strings.Contains(ev.Args[0].Key(), "context.Context.Done") {
				ended = true
			}
		}
		for _, c := range o.Conds {
			if strings.Contains(c.A.Key(), "context.Context.Err") {
				ended = true
			}
		}
		r.Ob(R, ended || o.Panic, g, "goroutine", pos, "returns although its context has not ended", o.Trace()...)
	}
	// every wait can be ended by the context
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				ok := !x.Blocking
				for _, s := range x.States {
					if c, is := s.Chan.(*ssa.Call); is && c.Call.IsInvoke() && c.Call.Method.Name() == "Done" {
						ok = true
					}
				}
				r.Ob(R, ok, g, "wait", p.pos(in.Pos()), "does not end with the context")
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					c, is := x.X.(*ssa.Call)
					r.Ob(R, is && c.Call.IsInvoke() && c.Call.Method.Name() == "Done", g, "wait", p.pos(in.Pos()), "does not end with the context")
				}
			case *ssa.Call:
				if x.Call.StaticCallee() != nil && fullName(x.Call.StaticCallee()) == "time.Sleep" {
					r.Ob(R, false, g, "wait", p.pos(in.Pos()), "does not end with the context")
				}
			}
		}
	}
}

// ruleClientShutdown: an exporter shuts down the components it was built from.
func ruleClientShutdown(p *Prog, r *Report) {
	const R = "exporter-shutdown"
	r.Rule(R, "an exporter's shutdown exports the final data it is given and then shuts down every component the exporter is built from, once each, on every path (also when an earlier step failed), each before the component it feeds; every component is started when the exporter is built")
	n := 0
	comp := func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		has := map[string]bool{}
		for i := 0; i < it.NumMethods(); i++ {
			has[it.Method(i).Name()] = true
		}
		return has["Start"] && has["Shutdown"]
	}
	for _, f := range p.instancesOf(func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(f.Name(), "Shutdown") {
			return false
		}
		st, ok := derefT(f.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if comp(st.Field(i).Type()) {
				return true
			}
		}
		return false
	}) {
		n++
		pos := p.pos(f.Pos())
		st := derefT(f.Signature.Recv().Type()).Underlying().(*types.Struct)
		var fields []string
		for i := 0; i < st.NumFields(); i++ {
			if comp(st.Field(i).Type()) {
				fields = append(fields, st.Field(i).Name())
			}
		}
		e := &Effects{P: p, Opaque: func(g *ssa.Function) bool { return g.Parent() == nil && pkgOf(g) != pkgOf(f) }}
		os := e.Run(f, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, f, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(f, len(os))
		order := componentOrder(p, derefT(f.Signature.Recv().Type()), fields)
		for _, o := range os {
			if o.Panic {
				continue
			}
			at := map[string]int{}
			k := map[string]int{}
			first := len(o.Ev)
			for i, ev := range o.Ev {
				if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "invoke ") || !strings.HasSuffix(ev.Name, ".Shutdown") {
					continue
				}
				for _, fl := range fields {
					if recvField(ev.Args[0]) == fl {
						k[fl]++
						at[fl] = i
						if i < first {
							first = i
						}
						r.Ob(R, isParam(ev.Args[1], 1), f, "context", ev.Pos, "is not the caller's", o.Trace()...)
					}
				}
			}
			for _, fl := range fields {
				none, _ := o.Cond("==(init:*$0." + fl + ",nil)")
				r.Ob(R, k[fl] == 1 || none, f, "component "+fl, pos, "is shut down "+itoa(k[fl])+" times on a path", o.Trace()...)
			}
			for _, ab := range order {
				if k[ab[0]] == 1 && k[ab[1]] == 1 {
					r.Ob(R, at[ab[0]] < at[ab[1]], f, "order", pos, ab[1]+" is shut down before "+ab[0]+", which feeds it", o.Trace()...)
				}
			}
			if f.Signature.Params().Len() > 1 {
				ok := false
				for i, ev := range o.Ev {
					if i > first || ev.Kind != "call" || ev.Fn == nil || pkgOf(ev.Fn) == pkgOf(f) {
						continue
					}
					for _, a := range ev.Args {
						ok = ok || isParam(a, 2)
					}
				}
				r.Ob(R, ok, f, "final data", pos, "is not exported before the components are shut down", o.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 2, "exporters built from components")
}

func recvField(x *Ex) string {
	k := x.Key()
	if x.Op == "sel" {
		return strings.TrimSuffix(strings.SplitN(x.Sub, "(", 2)[0], "")
	}
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return ""
}

// componentOrder: the pairs (a, b) of components where a is built to feed b;
// also checks that the constructor starts every component.
func componentOrder(p *Prog, t types.Type, fields []string) [][2]string {
	var out [][2]string
	seen := map[[2]string]bool{}
	for _, fn := range p.all {
		if pkgOf(fn) == nil || generic(fn) || fn.Signature.Results().Len() != 2 || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		if nt, ok := t.(*types.Named); !ok || nt.Obj().Pkg() != pkgOf(fn) {
			continue
		}
		if !strings.HasPrefix(fn.Name(), "New") {
			continue
		}
		e := &Effects{P: p, MaxPaths: 4000, Opaque: func(g *ssa.Function) bool { return g.Parent() == nil && pkgOf(g) != pkgOf(fn) }}
		for _, o := range e.Run(fn, nil) {
			if o.Panic || len(o.Ret) != 2 || !o.Ret[1].isNil() {
				continue
			}
			vals := map[string]*Ex{}
			for _, ev := range o.Ev {
				if ev.Kind != "store" {
					continue
				}
				for _, f := range fields {
					if strings.HasSuffix(ev.Args[0].Key(), "."+f) && strings.HasPrefix(ev.Args[0].Key(), "&alloc:") {
						vals[f] = ev.Args[1]
					}
				}
			}
			for a, x := range vals {
				for b, y := range vals {
					if a != b && x.Has(y.Key()) && !seen[[2]string{a, b}] {
						seen[[2]string{a, b}] = true
						out = append(out, [2]string{a, b})
					}
				}
			}
		}
	}
	return out
}

func checkP16(p *Prog, r *Report) {
	ruleExportLoop(p, r)
	ruleExclusive(p, r)
	rulePeriodicConfig(p, r)
}

// ruleExclusive: collection and export under one lock.
func ruleExclusive(p *Prog, r *Report) {
	const R = "one-at-a-time"
	r.Rule(R, "every method of a pushing reader that collects does it once, into the reader's buffer, and gives what it collected to the exporter, holding the reader's lock from before the collection until the exporter returns, on every path; each of its exporter calls is of this form")
	n := 0
	for _, t := range pushReaders(p) {
		var fns []*ssa.Function
		fns = append(fns, ctxMethods(p, t, "Shutdown", "ForceFlush")...)
		fns = append(fns, goroutinesOf(p, t)...)
		for _, fn := range fns {
			n++
			pos := p.pos(fn.Pos())
			e := &Effects{P: p}
			os := e.Run(fn, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
				continue
			}
			r.Summ(fn, len(os))
			for _, o := range os {
				if o.Panic {
					continue
				}
				calls := invokes(o, "PushExporter", pushMethods...)
				prods := invokes(o, "Producer", "Produce")
				r.Ob(R, len(calls) == len(prods), fn, "exports", pos, itoa(len(prods))+" collections for "+itoa(len(calls))+" exports on a path", o.Trace()...)
				for i, c := range calls {
					if i >= len(prods) {
						break
					}
					pr := prods[i]
					r.Ob(R, pr < c && (i == 0 || calls[i-1] < pr), fn, "export", o.Ev[c].Pos, "is not of a collection of its own", o.Trace()...)
					r.Ob(R, o.Ev[c].Args[2].Has(o.Ev[pr].Res.Key()), fn, "data", o.Ev[c].Pos, "exported is not that collected", o.Trace()...)
					held := lockBefore(o, pr) > 0 && lockBefore(o, c) > 0
					for _, ev := range o.Ev[pr:c] {
						if ev.Kind == "call" && strings.HasSuffix(ev.Name, "utex.Unlock") {
							held = false
						}
					}
					r.Ob(R, held, fn, "lock", o.Ev[pr].Pos, "is not held from the collection to the end of the export", o.Trace()...)
					// the same lock everywhere
					own := false
					for _, ev := range o.Ev[:pr] {
						if ev.Kind == "call" && strings.HasSuffix(ev.Name, "utex.Lock") {
							own = strings.HasPrefix(ev.Args[0].Key(), "&*$0.")
						}
					}
					r.Ob(R, own, fn, "lock", o.Ev[pr].Pos, "is not the reader's own", o.Trace()...)
					buf := o.Ev[pr].Args[1].Key()
					r.Ob(R, strings.HasPrefix(buf, "&*$0.") || o.Ev[pr].Args[1].isNil() || strings.HasPrefix(buf, "&alloc"), fn, "buffer", o.Ev[pr].Pos, "is not the reader's: "+buf, o.Trace()...)
				}
				r.Ob(R, lockBefore(o, len(o.Ev)) == 0, fn, "lock", pos, "is still held at the end of a path", o.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 3, "methods and goroutines of pushing readers")
}

// goroutinesOf: the functions the methods of a type start.
func goroutinesOf(p *Prog, t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range p.all {
		if f.Signature.Recv() == nil || generic(f) {
			continue
		}
		nt, ok := derefT(f.Signature.Recv().Type()).(*types.Named)
		if !ok || nt.Obj() != t.Obj() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if c := g.Call.StaticCallee(); c != nil && !seen[c] {
						seen[c] = true
						out = append(out, c)
					}
				}
			}
		}
	}
	return out
}

func ruleExportLoop(p *Prog, r *Report) {
	const R = "export-loop"
	r.Rule(R, "the loop of a periodic reader collects and exports exactly once for every tick of a ticker of the configured interval and at no other time, under a context bounded by the configured timeout and released afterwards, hands a failure to the error handler and goes on")
	n := 0
	for _, t := range pushReaders(p) {
		interval, timeout := durationFields(p, r, R, t)
		for _, fn := range goroutinesOf(p, t) {
			n++
			pos := p.pos(fn.Pos())
			e := &Effects{P: p}
			os := e.Run(fn, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
				continue
			}
			two := false
			for _, o := range os {
				if o.Panic {
					continue
				}
				var tick *Ev
				ticks := 0
				exports := 0
				attempts := 0
				for i, ev := range o.Ev {
					switch {
					case ev.Kind == "call" && (ev.Name == "time.NewTicker" || ev.Name == "time.Tick"):
						r.Ob(R, tick == nil, fn, "ticker", ev.Pos, "is made again", o.Trace()...)
						tick = ev
						r.Ob(R, isField(ev.Args[0], interval), fn, "ticker", ev.Pos, "has another interval than the configured one: "+short(ev.Args[0].Key()), o.Trace()...)
					case ev.Kind == "call" && (ev.Name == "time.NewTimer" || ev.Name == "time.After"):
						r.Ob(R, isField(ev.Args[0], interval), fn, "timer", ev.Pos, "has another interval than the configured one: "+short(ev.Args[0].Key()), o.Trace()...)
						tick = ev
					case ev.Kind == "call" && (strings.HasSuffix(ev.Name, "time.Ticker.Reset") || strings.HasSuffix(ev.Name, "time.Timer.Reset")) && len(ev.Args) == 2:
						r.Ob(R, isField(ev.Args[1], interval), fn, "ticker", ev.Pos, "is given another interval than the configured one: "+short(ev.Args[1].Key()), o.Trace()...)
					case ev.Kind == "select" && len(ev.Args) > 0 && strings.Contains(ev.Args[0].Key(), "time."):
						r.Ob(R, ticks == attempts, fn, "tick", ev.Pos, "was not followed by a collection", o.Trace()...)
						ticks++
					case ev.Kind == "call" && strings.HasSuffix(ev.Name, "sync.Mutex.Lock"):
						attempts++
						r.Ob(R, attempts <= ticks, fn, "collection", ev.Pos, "without a tick", o.Trace()...)
					case ev.Kind == "call" && strings.HasPrefix(ev.Name, "invoke ") && strings.Contains(ev.Name, ".PushExporter."):
						exports++
						r.Ob(R, strings.HasSuffix(ev.Name, ".ExportMetrics"), fn, "export", ev.Pos, "is "+short(ev.Name), o.Trace()...)
						c := ev.Args[1]
						ok := c.Op == "res" && c.Sub == "0" && strings.HasPrefix(c.Args[0].Key(), "call:context.WithTimeout") && isField(c.Args[0].Args[1], timeout)
						r.Ob(R, ok, fn, "timeout", ev.Pos, "does not bound the export: "+short(c.Key()), o.Trace()...)
						if ok {
							k := c.Args[0].Args[0].Key()
							for _, x := range o.Ev {
								if x.Kind == "call" && strings.HasSuffix(x.Name, "context.Context.Done") {
									r.Ob(R, x.Args[0].Key() == k, fn, "context", ev.Pos, "of the export does not end with that of the loop", o.Trace()...)
								}
							}
							released := false
							for _, x := range o.Ev[i:] {
								if x.Kind == "call" && strings.HasPrefix(x.Name, "dyn") && x.Args[0].Key() == "res:1("+c.Args[0].Key()+")" {
									released = true
								}
								if x.Kind == "call" && strings.HasPrefix(x.Name, "dyn") && strings.Contains(x.Name+x.Args[0].Key(), c.Args[0].Key()) {
									released = true
								}
							}
							r.Ob(R, released, fn, "timeout", ev.Pos, "is not released", o.Trace()...)
						}
						// a failure reaches the handler
						isNil, known := o.Cond("==(" + ev.Res.Key() + ",nil)")
						handled := false
						for _, x := range o.Ev[i:] {
							if x.Kind == "call" && strings.HasSuffix(x.Name, "otel.Handle") && x.Args[0].Has(ev.Res.Key()) {
								handled = true
							}
						}
						r.Ob(R, handled || known && isNil, fn, "failure", ev.Pos, "is not handled", o.Trace()...)
					}
				}
				r.Ob(R, ticks == attempts, fn, "tick", pos, itoa(ticks)+" ticks for "+itoa(attempts)+" collections on a path", o.Trace()...)
				two = two || exports >= 2
				// it goes on until the context ends
				ended := false
				for _, ev := range o.Ev {
					if ev.Kind == "select" && len(ev.Args) > 0 && strings.Contains(ev.Args[0].Key(), "context.Context.Done") {
						ended = true
					}
				}
				for _, c := range o.Conds {
					if strings.Contains(c.A.Key(), "context.Context.Err") {
						ended = true
					}
				}
				r.Ob(R, ended, fn, "loop", pos, "ends although its context has not", o.Trace()...)
			}
			r.Ob(R, two, fn, "loop", pos, "does not go on after an export")
		}
	}
	r.AtLeast(R, n, 1, "export loops")
}

// durationFields: the interval and the timeout of a pushing reader: the timeout
// is the one an option sets.
func durationFields(p *Prog, r *Report, R string, t *types.Named) (interval, timeout string) {
	n := 0
	for _, fn := range p.all {
		if generic(fn) || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || fn.Synthetic != "" || len(fn.Params) != 1 || types.TypeString(fn.Params[0].Type(), nil) != "time.Duration" {
			continue
		}
		sig, ok := tupT(fn.Signature.Results(), 0).Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			continue
		}
		if nt, ok := derefT(tupT(sig.Params(), 0)).(*types.Named); !ok || nt.Obj() != t.Obj() {
			continue
		}
		n++
		for _, lit := range fn.AnonFuncs {
			pos := p.pos(lit.Pos())
			os := (&Effects{P: p}).Run(lit, nil)
			good := len(os) == 1
			f := ""
			for _, o := range os {
				k := 0
				for _, ev := range o.Ev {
					if ev.Kind == "store" && strings.HasPrefix(ev.Args[0].Key(), "&*$0.") {
						k++
						f = strings.TrimPrefix(ev.Args[0].Key(), "&*$0.")
						v := ev.Args[1].Key()
						good = good && (v == "init:*undef:"+fn.Params[0].Name() || v == "undef:"+fn.Params[0].Name())
					}
				}
				good = good && k == 1
			}
			r.Ob(R, good, fn, "option", pos, "does not set one duration to the one given")
			timeout = f
		}
		r.Ob(R, len(fn.AnonFuncs) == 1, fn, "option", p.pos(fn.Pos()), "is not a function literal")
	}
	r.AtLeast(R, n, 1, "options setting a timeout")
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if types.TypeString(f.Type(), nil) == "time.Duration" && f.Name() != timeout {
			interval = f.Name()
		}
	}
	return
}

func isField(x *Ex, name string) bool {
	for x.Op == "conv" {
		x = x.Args[0]
	}
	k := x.Key()
	return strings.HasPrefix(k, "init:*$0.") && strings.HasSuffix(k, "."+name)
}

// rulePeriodicConfig: the constructor.
func rulePeriodicConfig(p *Prog, r *Report) {
	const R = "periodic-config"
	r.Rule(R, "a periodic reader has the exporter and interval it is given, every option applied in order, a timeout equal to the interval unless an option sets one, and the defaults only where the interval or the timeout is not positive; its registration keeps the producer and starts one loop, and a second registration changes nothing")
	for _, t := range pushReaders(p) {
		n := 0
		_, timeout := durationFields(p, r, R, t)
		for _, fn := range p.all {
			if generic(fn) || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Signature.Results().Len() != 1 || !isNamedType(derefT(tupT(fn.Signature.Results(), 0)), p.repoName(mMetric, t.Obj().Name())) || len(fn.Params) < 2 {
				continue
			}
			n++
			pos := p.pos(fn.Pos())
			e := &Effects{P: p}
			os := e.Run(fn, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
				continue
			}
			r.Summ(fn, len(os))
			st := t.Underlying().(*types.Struct)
			for _, o := range os {
				if o.Panic {
					continue
				}
				whole := o.Read(o.Ret[0], t)
				opts, known := maxLen(o, "$2")
				if !known {
					r.Ob(R, false, fn, "options", pos, "are not all applied on a path", o.Trace()...)
					continue
				}
				var last *Ev
				k := 0
				for _, ev := range o.Ev {
					if ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn") {
						r.Ob(R, strings.Contains(ev.Name+ev.Args[0].Key(), "init:$2["+itoa(k)+"]"), fn, "option", ev.Pos, "is not the next one", o.Trace()...)
						k++
						last = ev
					}
				}
				r.Ob(R, k == opts, fn, "options", pos, itoa(k)+" of "+itoa(opts)+" are applied on a path", o.Trace()...)
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					v := exField(whole, f.Name(), f.Type())
					switch {
					case isNamedType(f.Type(), p.repoName(mMetric, "PushExporter")) && last == nil:
						r.Ob(R, isParam(v, 0), fn, "exporter", pos, "is not the one given", o.Trace()...)
					case types.TypeString(f.Type(), nil) == "time.Duration":
						var src string
						if last == nil {
							src = "$1"
						} else {
							src = "sel:" + f.Name() + "("
						}
						pos0, dec := false, false
						for _, c := range o.Conds {
							if c.A.Op == "<" && c.A.Args[0].Key() == "0" && (c.A.Args[1].Key() == src || last != nil && strings.HasPrefix(c.A.Args[1].Key(), src)) {
								pos0, dec = c.Val, true
							}
							if c.A.Op == "<" && c.A.Args[1].Key() == "1" && (c.A.Args[0].Key() == src || last != nil && strings.HasPrefix(c.A.Args[0].Key(), src)) {
								pos0, dec = !c.Val, true
							}
						}
						if !r.Ob(R, dec, fn, f.Name(), pos, "is not tested on a path", o.Trace()...) {
							continue
						}
						if pos0 {
							r.Ob(R, v.Key() == src || last != nil && strings.HasPrefix(v.Key(), src), fn, f.Name(), pos, "is not the configured one: "+short(v.Key()), o.Trace()...)
						} else {
							d, ok := v.int()
							r.Ob(R, ok && d > 0, fn, f.Name(), pos, "has no default: "+short(v.Key()), o.Trace()...)
						}
					}
				}
				// before the options
				if last != nil {
					for _, ev := range o.Ev {
						if ev == last {
							break
						}
						if ev.Kind == "store" && strings.HasSuffix(ev.Args[0].Key(), "."+timeout) {
							r.Ob(R, isParam(ev.Args[1], 1), fn, "timeout", ev.Pos, "is not the interval by default", o.Trace()...)
						}
					}
				}
			}
		}
		r.AtLeast(R, n, 1, "constructors of "+t.Obj().Name())
		regs := ctxMethods(p, t, "Register")
		r.AtLeast(R, len(regs), 1, "registrations of "+t.Obj().Name())
		for _, fn := range regs {
			pos := p.pos(fn.Pos())
			e := &Effects{P: p}
			os := e.Run(fn, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
				continue
			}
			r.Summ(fn, len(os))
			first, second := false, false
			for _, o := range os {
				started, stored := 0, 0
				stAt, goAt := -1, -1
				for i, ev := range o.Ev {
					if ev.Kind == "go" {
						started++
						goAt = i
					}
					if ev.Kind == "store" && strings.HasPrefix(ev.Args[0].Key(), "&*$0.") {
						stored++
						if isParam(ev.Args[1], 1) {
							stAt = i
						}
					}
				}
				empty, known := false, false
				for _, c := range o.Conds {
					if c.A.Op == "==" && len(c.A.Args) == 2 && c.A.Args[1].isNil() && strings.HasPrefix(c.A.Args[0].Key(), "init:*$0.") {
						empty, known = c.Val, true
					}
				}
				if !r.Ob(R, known, fn, "registration", pos, "does not tell a second one", o.Trace()...) {
					continue
				}
				if empty {
					first = true
					r.Ob(R, started == 1, fn, "loop", pos, itoa(started)+" are started", o.Trace()...)
					r.Ob(R, stAt >= 0 && stAt < goAt, fn, "producer", pos, "is not kept before the loop starts", o.Trace()...)
				} else {
					second = true
					r.Ob(R, started == 0 && stored == 0, fn, "second registration", pos, "has an effect", o.Trace()...)
				}
			}
			r.Ob(R, first && second, fn, "registration", pos, "does not tell a second one")
		}
	}
}
