package main

// P14: no error is lost.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", func(p *Prog, r *Report) {
		ruleErrorFlow(p, r)
		ruleConflictFlow(p, r)
	})
}

func isErrorT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// errAt: the position of the error among the results, or -1.
func errAt(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorT(tupT(sig.Results(), i)) {
			return i
		}
	}
	return -1
}

func errParam(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := tupT(sig.Params(), i)
		if s, ok := t.(*types.Slice); ok {
			t = s.Elem()
		}
		if isErrorT(t) || isPtrT(t) && isErrorT(derefT(t)) {
			return true
		}
	}
	return false
}

// cannotFail: calls whose error is not the failure of a step (reasons in DESIGN.md).
func cannotFail(p *Prog, x *XC) bool {
	n := x.Name
	switch {
	case strings.HasPrefix(n, "strings.Builder.Write"), strings.HasPrefix(n, "bytes.Buffer.Write"), strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"):
		return true
	case strings.HasSuffix(n, ".LowerBoundary"):
		return true // the largest bound is used: P12 compares the buckets
	case n == "os.Hostname":
		return true // P23 decides
	case n == "encoding/json.MarshalIndent" || n == "encoding/json.Marshal":
		return true // debug output
	case n == "go.opentelemetry.io/otel/sdk/resource.New":
		l, ok := listItems(x.Args[len(x.Args)-1])
		for _, o := range l {
			o = o.bare()
			for o.Op == "iface" {
				o = o.Args[0]
			}
			ok = ok && o.Op == "call" && (strings.Contains(o.Sub, "resource.WithSchemaURL") || strings.Contains(o.Sub, "resource.WithAttributes"))
		}
		return ok
	case x.Fn != nil && p.isLocal(x.Fn) && x.Fn.Signature.Params().Len() == 1 && x.Fn.Signature.Results().Len() == 2 && types.TypeString(tupT(x.Fn.Signature.Params(), 0), nil) == "string" && types.TypeString(tupT(x.Fn.Signature.Results(), 0), nil) == "[]byte":
		return true // a conversion: the caller copies instead
	case strings.HasSuffix(n, ".RegisterCallback") && pkgOf(x.F.fn) != nil && pkgOf(x.F.fn).Path() == p.Module+"/"+mMetric:
		// a function literal for an instrument of this SDK
		own := func(o *Ex) bool {
			o = o.bare()
			for o.Op == "iface" {
				o = o.Args[0]
			}
			nt, ok := o.Typ.(*types.Named)
			return ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == p.Module+"/"+mMetric
		}
		fn, insts := x.Args[len(x.Args)-2].bare(), x.Args[len(x.Args)-1]
		l, ok := listItems(insts)
		for _, o := range l {
			ok = ok && own(o)
		}
		return ok && len(l) > 0 && fn.Op == "closure"
	case x.Fn != nil && x.Fn.Name() == "Validate" && x.Fn.Pkg != nil && x.Fn.Pkg == p.pkg(mViewP) && x.F.fn.Pkg == p.pkg(mView):
		return true // validated by the provider, which reports
	}
	return false
}

func errModel(p *Prog) func(*XC) bool {
	return func(x *XC) bool {
		n := x.Name
		if strings.HasPrefix(n, "builtin:") {
			return false
		}
		var sig *types.Signature
		if x.Fn != nil {
			sig = x.Fn.Signature
		} else {
			sig = x.In.Common().Signature()
		}
		ei := errAt(sig)
		if ei < 0 {
			return false
		}
		et := tupT(sig.Results(), ei)
		switch {
		case n == "fmt.Errorf" || n == "errors.New":
			x.Res = []*Ex{{Op: "mkerr", Sub: x.E.fresh(x.P), Args: x.Args, Typ: et}}
			return true
		case n == "errors.Join" || strings.HasPrefix(n, "go.uber.org/multierr.") && sig.Results().Len() == 1:
			var all []*Ex
			for _, a := range x.Args {
				if l, ok := listItems(a); ok && a.Op == "list" {
					all = append(all, l...)
				} else {
					all = append(all, a)
				}
			}
			var some []*Ex
			for _, a := range all {
				if !a.isNil() {
					some = append(some, a)
				}
			}
			x.Quiet = true
			switch {
			case len(some) == 0:
				x.Res = []*Ex{exNil(et)}
			default:
				op := "join"
				for _, a := range some {
					if nonNil(a) {
						op = "mkerr"
					}
				}
				x.Res = []*Ex{{Op: op, Sub: "join", Args: some, Typ: et}}
			}
			return true
		case cannotFail(p, x):
			return false
		}
		if x.Fn != nil && len(x.Fn.Blocks) > 0 && p.isLocal(x.Fn) && x.Fn.Parent() != nil && !recursive(x.F, x.Fn) {
			return false // inlined
		}
		if x.Fn != nil && x.Fn.Synthetic != "" && len(x.Fn.Blocks) > 0 {
			return false
		}
		var ok, bad []*Ex
		id := x.E.fresh(x.P)
		for i := 0; i < sig.Results().Len(); i++ {
			t := tupT(sig.Results(), i)
			if i == ei {
				ok = append(ok, exNil(t))
				bad = append(bad, &Ex{Op: "failure", Sub: n + "#" + id, Typ: t})
				continue
			}
			v := &Ex{Op: "res", Sub: itoa(i), Args: []*Ex{{Op: "call", Sub: n + "#" + id, Args: x.Args, Fn: x.Fn}}, Typ: t}
			ok, bad = append(ok, v), append(bad, v)
		}
		// two failures a path: the second shows whether the first is hidden
		fails := 0
		for _, ev := range x.P.ev {
			if ev.Kind == "call" && ev.Res != nil && ev.Res.Any(func(y *Ex) bool { return y.Op == "failure" }) {
				fails++
			}
		}
		// the callee, checked by itself, keeps the errors it is given
		var given []*Ex
		if x.Fn != nil && p.isLocal(x.Fn) {
			for i, a := range x.Args {
				if i < len(x.Fn.Params) && isErrorT(x.Fn.Params[i].Type()) && !a.isNil() {
					given = append(given, a)
				}
			}
		}
		if len(given) > 0 {
			op := "join"
			for _, a := range given {
				if nonNil(a) {
					op = "mkerr"
				}
			}
			ok[ei] = &Ex{Op: op, Sub: "join", Args: given, Typ: et}
			bad[ei] = &Ex{Op: "mkerr", Sub: "join", Args: append([]*Ex{bad[ei]}, given...), Typ: et}
		}
		x.Alts = []XAlt{{Res: ok}, {Res: bad}}
		if fails >= 2 {
			x.Alts = x.Alts[:1]
		}
		return true
	}
}

var logMethods = map[string]bool{"Fatalf": true, "Fatal": true, "Fatalln": true, "Panicf": true, "Errorf": true, "Error": true, "Warnf": true, "Warn": true, "Infof": true, "Info": true, "Debugf": true, "Debug": true, "Printf": true, "Println": true, "Print": true, "Log": true, "Logf": true}

// reporter: a call that reports its arguments.
func reporter(ev *Ev) bool {
	n := ev.Name
	m := n[strings.LastIndexByte(n, '.')+1:]
	switch {
	case n == "go.opentelemetry.io/otel.Handle" || m == "Handle" && strings.Contains(n, "ErrorHandler"):
		return true
	case strings.HasPrefix(n, "log.") && logMethods[m], strings.HasPrefix(n, "log/slog."):
		return true
	case logMethods[m] && (strings.HasPrefix(n, "invoke ") && !strings.HasPrefix(n, "invoke error.") || strings.Contains(strings.ToLower(n), "log")):
		return true
	case m == "RecordError":
		return false
	}
	return false
}

func reported(o *Outcome, i int, f *Ex) bool {
	k := f.Key()
	if o.Panic {
		return true
	}
	if len(o.Ret) == 1 {
		// a predicate
		if b, ok := o.Ret[0].boolVal(); ok && !b {
			return true
		}
	}
	for _, v := range o.Ret {
		if v != nil && v.Has(k) {
			return true
		}
	}
	first := true
	for j, ev := range o.Ev[i+1:] {
		if ev.Kind == "call" && ev.Res != nil && f.Op == "failure" {
			// translated to another error at once
			var g *Ex
			ev.Res.Any(func(y *Ex) bool {
				if y.Op == "mkerr" && y.Sub != "join" {
					g = y
				}
				return false
			})
			if g != nil && first {
				return reported(o, i+1+j, g)
			}
			if errAt(ev.In.(ssa.CallInstruction).Common().Signature()) >= 0 {
				first = false
			}
		}
		has := false
		for _, a := range ev.Args {
			has = has || a != nil && a.Has(k)
		}
		if !has && ev.Kind == "call" && reporter(ev) {
			// an argument list
			for _, a := range ev.Args {
				if l, ok := listItems(a); ok {
					for _, y := range l {
						has = has || y.Has(k)
					}
				}
			}
		}
		if !has {
			continue
		}
		switch ev.Kind {
		case "call":
			if ev.Fn != nil && len(ev.Args) > 0 && isPtr(ev.Args[0]) && errAt(ev.Fn.Signature) < 0 && strings.Contains(ev.Fn.String(), "/") {
				// kept by an object that is returned
				root := loc(ev.Args[0])
				if !strings.HasPrefix(root, "alloc:") {
					return true
				}
				for _, v := range o.Ret {
					if v != nil && strings.Contains(v.Key(), root) {
						return true
					}
				}
			}
			if reporter(ev) {
				return true
			}
		case "store":
			if !strings.HasPrefix(loc(ev.Args[0]), "alloc:") && !strings.Contains(ev.Args[0].Key(), "alloc:") && ev.Args[1].Has(k) {
				return true
			}
		case "send", "panic":
			return true
		}
	}
	return false
}

func ruleErrorFlow(p *Prog, r *Report) {
	const R = "error-flow"
	r.Rule(R, "path analysis of every function with a call that can fail or makes an error: on every path, each error that is not nil is part of the function's result, given to the error handler or a logger, kept in state outside the function, sent, or panicked with")
	calls, fns := 0, 0
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool { return p.isLocal(f) && pkgOf(f) != nil }) {
		rel := strings.TrimPrefix(pkgOf(fn).Path(), p.Module+"/")
		if strings.HasPrefix(rel, "examples") || strings.HasPrefix(rel, "pipelines/test") || pkgOf(fn).Name() == "main" || strings.HasSuffix(rel, "test") {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					r.Ob(R, errAt(g.Call.Signature()) < 0, fn, "error of a started goroutine", p.pos(in.Pos()), "the function of the go statement returns an error, which is lost")
				}
				if c, ok := in.(ssa.CallInstruction); ok && errAt(c.Common().Signature()) >= 0 {
					n++
				}
			}
		}
		if n == 0 {
			continue
		}
		fns++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, Model: errModel(p), MaxPaths: 20000, MaxIter: 12, MaxDecided: 10, Opaque: func(f *ssa.Function) bool {
			return f.Parent() == nil && !(errParam(f.Signature) && errAt(f.Signature) < 0)
		}}
		if os0 := e.Run(fn, nil); e.Over && len(os0) > 0 {
			e.MaxVisits = 1 // loop bodies once
		}
		// without and with an error given
		var os []*Outcome
		for k := 0; k < 2; k++ {
			var args []*Ex
			for i, a := range fn.Params {
				if k == 1 && isErrorT(a.Type()) {
					args = append(args, &Ex{Op: "failure", Sub: "given " + a.Name(), Typ: a.Type()})
				} else {
					args = append(args, exParam(i, a.Type()))
				}
			}
			if k == 1 && !errParam(fn.Signature) {
				break
			}
			os = append(os, e.Run(fn, args)...)
			if e.Over {
				break
			}
		}
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "function analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		seen := map[string]bool{}
		for _, o := range os {
			for i, ev := range o.Ev {
				if i == 0 {
					for _, a := range o.args {
						if a.Op == "failure" {
							r.Ob(R, reported(o, -1, a), fn, "error "+a.Sub, pos, "is lost on a path", o.Trace()...)
						}
					}
				}
				if ev.Kind != "call" || ev.Res == nil {
					continue
				}
				var f *Ex
				ev.Res.Any(func(y *Ex) bool {
					if (y.Op == "failure" || y.Op == "mkerr" && y.Sub != "join") && f == nil {
						f = y
					}
					return false
				})
				if f == nil || ev.Name == "errors.As" {
					continue
				}
				if !seen[ev.Pos] {
					seen[ev.Pos] = true
					calls++
				}
				if !reported(o, i, f) {
					r.Ob(R, false, fn, "error of "+short(ev.Name), ev.Pos, "is lost on a path", o.Trace()...)
				} else {
					r.Ob(R, true, fn, "error of "+short(ev.Name), ev.Pos, "")
				}
			}
		}
	}
	r.AtLeast(R, calls, 100, "fallible calls")
	r.AtLeast(R, fns, 40, "functions with fallible calls")
}

func short(n string) string { return n[strings.LastIndexByte(n, '/')+1:] }

// conflictT: the conflicts found when an instrument is compiled.
func conflictT(p *Prog) *types.Named {
	if fn := p.methodOf(mView, "Compiler", "Compile"); fn != nil {
		if n, ok := tupT(fn.Signature.Results(), fn.Signature.Results().Len()-1).(*types.Named); ok {
			return n
		}
	}
	return nil
}

// ruleConflictFlow: conflicts of every reader reach the caller, and the handler when they are new.
func ruleConflictFlow(p *Prog, r *Report) {
	const R = "conflict-flow"
	r.Rule(R, "path analysis of instrument registration: on every path the conflicts of every compiled reader are part of the error returned, and given to the error handler when the instrument is new; the builder keeps every conflict it is given, and its error is nil only when it has none")
	ct := conflictT(p)
	if !r.Need(R, ct != nil, "conflicts", "no type of the conflicts returned by Compiler.Compile") {
		return
	}
	isCT := func(t types.Type) bool { return types.Identical(derefT(t), ct) }
	n := 0
	for _, fn := range registrars(p) {
		e := &Effects{P: p, MaxPaths: 20000, MaxIter: 12, Opaque: func(f *ssa.Function) bool {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if isCT(tupT(f.Signature.Params(), i)) {
					return false
				}
			}
			rc := f.Signature.Recv()
			return f.Parent() == nil && pkgOf(f) != nil && pkgOf(f).Path() != p.Module+"/"+mMetric && !(rc != nil && isCT(rc.Type()))
		}}
		e.Model = func(x *XC) bool {
			if x.Fn == nil {
				return false
			}
			sig := x.Fn.Signature
			switch {
			case strings.HasSuffix(x.Name, "Compiler.Compile"):
				x.Alts = []XAlt{
					{Res: []*Ex{{Op: "res", Sub: "0", Args: []*Ex{{Op: "call", Sub: "compile#" + x.E.fresh(x.P)}}, Typ: tupT(sig.Results(), 0)}, exNil(ct)}},
					{Res: []*Ex{{Op: "res", Sub: "0", Args: []*Ex{{Op: "call", Sub: "compile#" + x.E.fresh(x.P)}}, Typ: tupT(sig.Results(), 0)}, {Op: "failure", Sub: "conflicts#" + x.E.fresh(x.P), Typ: ct}}},
				}
				return true
			case sig.Recv() != nil && isCT(sig.Recv().Type()) && sig.Params().Len() == 1 && isCT(tupT(sig.Params(), 0)):
				// combine
				old := x.Read(x.Args[0], ct)
				switch {
				case x.Args[1].isNil():
				case old.isNil() || old.Op == "zero":
					x.Write(x.Args[0], x.Args[1])
				default:
					x.Write(x.Args[0], &Ex{Op: "mkerr", Sub: "join", Args: []*Ex{old, x.Args[1]}, Typ: ct})
				}
				x.Quiet = true
				return true
			case sig.Recv() != nil && isCT(sig.Recv().Type()) && errAt(sig) == 0:
				v := x.Args[0]
				if isPtrT(x.Fn.Params[0].Type()) {
					v = x.Read(v, ct)
				}
				if v.isNil() || v.Op == "zero" {
					x.Res = []*Ex{exNil(tupT(sig.Results(), 0))}
				} else {
					x.Res = []*Ex{{Op: "mkerr", Sub: "conflicts", Args: []*Ex{v}, Typ: tupT(sig.Results(), 0)}}
				}
				return true
			}
			return false
		}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "registration analysed", p.pos(fn.Pos()), "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			for i, ev := range o.Ev {
				if ev.Kind != "call" || ev.Res == nil || !strings.HasSuffix(ev.Name, "Compiler.Compile") {
					continue
				}
				n++
				ev.Res.Any(func(y *Ex) bool {
					if y.Op == "failure" {
						if none, known := o.Cond("==(builtin:len(" + y.Key() + "),0)"); none && known {
							return false
						}
						r.Ob(R, reported(o, i, y), fn, "conflicts of "+short(ev.Name), ev.Pos, "are lost on a path", o.Trace()...)
						isNew, handled := false, false
						for _, e2 := range o.Ev {
							if e2.Kind == "mapupdate" && isNamedType(e2.In.(*ssa.MapUpdate).Key.Type(), p.repoName(mInst, "Descriptor")) {
								isNew = true
							}
							if e2.Kind == "call" && reporter(e2) {
								for _, a := range e2.Args {
									handled = handled || a.Has(y.Key())
								}
							}
						}
						if isNew {
							r.Ob(R, handled, fn, "conflicts of a new instrument", ev.Pos, "are not given to the error handler on a path", o.Trace()...)
						}
					}
					return false
				})
			}
		}
	}
	r.AtLeast(R, n, 2, "compilations of an instrument")
	ruleConflictBuilder(p, r, ct)
}

func ruleConflictBuilder(p *Prog, r *Report, ct *types.Named) {
	const R = "conflict-flow"
	comb, aserr := 0, 0
	for _, fn := range p.all {
		sig := fn.Signature
		if sig.Recv() == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || !types.Identical(derefT(sig.Recv().Type()), ct) {
			continue
		}
		pos := p.pos(fn.Pos())
		e := &Effects{P: p}
		switch {
		case sig.Params().Len() == 1 && types.Identical(tupT(sig.Params(), 0), ct):
			comb++
			os := e.Run(fn, nil)
			r.Summ(fn, len(os))
			r.Ob(R, !e.Over && len(os) > 0, fn, "combination analysed", pos, "too many paths")
			for _, o := range os {
				visited := false
				for _, c := range o.Conds {
					if c.A.Op != "next" || !c.A.Has("$1") {
						continue
					}
					visited = true
					if !c.Val {
						continue
					}
					id := c.A.Sub
					key, val := "rkey:"+id, "relem:"+id
					ok := false
					for _, c2 := range o.Conds {
						if c2.A.Op != "next" && strings.Contains(c2.A.Key(), val+"(") {
							ok = true // its elements, one by one
						}
					}
					for _, ev := range o.Ev {
						if ev.Kind != "mapupdate" || !strings.HasPrefix(ev.Args[1].Key(), key+"(") {
							continue
						}
						m := ev.Args[0].Key()
						mine := strings.HasPrefix(m, "init:*$0")
						for _, s := range o.Ev {
							if s.Kind == "store" && s.Args[0].Key() == "$0" && s.Args[1].Key() == m {
								mine = true
							}
						}
						v := ev.Args[2]
						keeps := v.Op == "append" && strings.Contains(v.Key(), val+"(") && (v.Args[0].Op == "lookup" && v.Args[0].Args[0].Key() == m && v.Args[0].Args[1].Key() == ev.Args[1].Key() || v.Args[0].Op == "list" && strings.HasPrefix(m, "make:"))
						ok = ok || mine && keeps
					}
					r.Ob(R, ok, fn, "conflicts given to the builder", pos, "are not added to those it has", o.Trace()...)
				}
				if !visited {
					empty, _ := o.Cond("==(builtin:len($1),0)")
					isnil, _ := o.Cond("==($1,nil)")
					r.Ob(R, empty || isnil, fn, "conflicts given to the builder", pos, "are not looked at on a path where there can be some", o.Trace()...)
				}
			}
		case sig.Params().Len() == 2 && isPtrT(sig.Recv().Type()):
			os := e.Run(fn, nil)
			r.Summ(fn, len(os))
			for _, o := range os {
				kept := false
				for _, ev := range o.Ev {
					if ev.Kind != "mapupdate" {
						continue
					}
					m, v := ev.Args[0].Key(), ev.Args[2]
					kept = ev.Args[1].Key() == "$1" && v.Has("$2") && (v.Op == "list" && strings.HasPrefix(m, "make:") || v.Op == "append" && (v.Args[0].Op == "lookup" && v.Args[0].Args[0].Key() == m && v.Args[0].Args[1].Key() == "$1" || v.Args[0].Op == "list" && strings.HasPrefix(m, "make:")))
				}
				r.Ob(R, kept || o.Panic, fn, "conflict added", pos, "is not added to those of its reader", o.Trace()...)
			}
		case sig.Params().Len() == 0 && errAt(sig) == 0 && sig.Results().Len() == 1:
			aserr++
			os := e.Run(fn, nil)
			r.Summ(fn, len(os))
			r.Ob(R, !e.Over && len(os) > 0, fn, "conversion analysed", pos, "too many paths")
			for _, o := range os {
				if o.Panic {
					continue
				}
				v := o.Ret[0]
				if v.isNil() {
					some := false
					for _, c := range o.Conds {
						k := c.A.Key()
						if c.Val && (k == "==($0,nil)" || k == "==(init:*$0,nil)" || k == "==(builtin:len(init:*$0),0)" || k == "==(builtin:len($0),0)") {
							some = true
						}
					}
					r.Ob(R, some, fn, "error of the builder", pos, "is nil on a path where there can be conflicts", o.Trace()...)
				} else {
					r.Ob(R, v.Has("$0") || v.Has("init:*$0"), fn, "error of the builder", pos, "is not its conflicts", o.Trace()...)
				}
			}
		}
	}
	r.AtLeast(R, comb, 1, "methods that combine conflicts")
	r.AtLeast(R, aserr, 1, "methods that make an error of conflicts")
}
