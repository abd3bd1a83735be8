package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func lockName(k string) string { return k[2:] }

// extIface: an interface that code outside the repository can implement.
func (li *LockInfo) extIface(t types.Type) (string, bool) {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return "", false
	}
	path := n.Obj().Pkg().Path()
	name := shortPkg(path) + "." + n.Obj().Name()
	if !strings.HasPrefix(path, li.p.Module) {
		return name, true
	}
	return name, n.Obj().Exported() && !strings.Contains(path, "/internal/")
}

func shortPkg(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}

func ruleLocks(p *Prog, r *Report) {
	const (
		RB = "balanced"
		RO = "lock-order"
		RU = "no-user-code-under-lock"
		RW = "no-wait-under-lock"
	)
	r.Rule(RB, "every function leaves each lock, on every path to a return, in one same state; entry points leave no lock held and release none they did not take")
	r.Rule(RO, "the may-hold-while-acquiring relation between locks is acyclic, and no lock is acquired while it may already be held")
	r.Rule(RU, "no function supplied by the user and no method of a user-implementable interface is called while an SDK lock may be held, except those documented as serialized by that lock")
	r.Rule(RW, "no wait for a goroutine happens while holding a lock that goroutine acquires")
	li := lockInfo(p)
	nLock := 0
	type edge struct{ a, b string }
	edges := map[edge]ssa.Instruction{}
	for _, f := range li.fns {
		touches := false
		for _, c := range callsIn(f) {
			if op := lockOp(c.Common().StaticCallee()); op != "" {
				touches = true
				nLock++
				if op != "Lock" && op != "RLock" {
					continue
				}
				if _, ok := c.(*ssa.Call); !ok {
					continue
				}
				for _, id := range li.lockIDs(c.Common().Args[0]) {
					for k := range li.May(c) {
						if _, ok := edges[edge{lockName(k), id}]; !ok {
							edges[edge{lockName(k), id}] = c
						}
					}
				}
			}
		}
		if !touches && len(li.summary(f)) == 1 && li.summary(f)[""] {
			continue
		}
		r.Funcs[p.fnName(f)] = true
		s := li.summary(f)
		var alts []string
		for a := range s {
			alts = append(alts, "{"+a+"}")
		}
		sort.Strings(alts)
		if len(s) > 1 && !li.root[f] && len(li.callers[f]) > 0 && touches == false {
			continue // reported where the locks are taken
		}
		ok := len(s) == 1 && (!li.root[f] || s[""])
		if !ok && li.callersBalance(f) {
			ok = true
		}
		r.Ob(RB, ok, f, "lock state at return", p.pos(f.Pos()), "the paths to a return leave the locks in states "+strings.Join(alts, " or ")+" relative to entry")
	}
	r.AtLeast(RB, nLock, 40, "lock operation")

	// order
	adj := map[string][]string{}
	for e := range edges {
		adj[e.a] = append(adj[e.a], e.b)
	}
	reach := func(from, to string) []string {
		type it struct {
			n    string
			path []string
		}
		seen := map[string]bool{}
		work := []it{{from, []string{from}}}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			nx := append([]string{}, adj[x.n]...)
			sort.Strings(nx)
			for _, m := range nx {
				if m == to {
					return append(append([]string{}, x.path...), to)
				}
				if !seen[m] {
					seen[m] = true
					work = append(work, it{m, append(append([]string{}, x.path...), m)})
				}
			}
		}
		return nil
	}
	for e, c := range edges {
		path := reach(e.b, e.a)
		if e.a == e.b {
			path = []string{e.a}
		}
		r.Ob(RO, path == nil, c.Parent(), "acquires "+e.b+" holding "+e.a, p.posOf(c), fmt.Sprintf("%s is acquired while %s may be held, and the reverse order exists: %s", e.b, e.a, strings.Join(path, " -> ")))
	}
	r.AtLeast(RO, len(edges), 20, "lock-order edge")

	// user code
	n := 0
	exempt := func(what, lock string) bool {
		if strings.HasPrefix(lock, "local ") || strings.HasPrefix(lock, "metric.PeriodicReader.") {
			return true // serializes collection and export by design
		}
		switch what {
		case "otel.Handle": // the error handler must not call back into the SDK
			return strings.HasPrefix(lock, "metric.meter.") || strings.HasPrefix(lock, "viewstate.instrumentBase.") || strings.HasPrefix(lock, "asyncstate.State.")
		case "view.ClauseConfig": // view rename functions run while an instrument is compiled
			return strings.HasPrefix(lock, "metric.meter.") || strings.HasPrefix(lock, "viewstate.Compiler.")
		}
		return false
	}
	for _, f := range li.fns {
		for _, c := range callsIn(f) {
			cc := c.Common()
			what, desc := "", ""
			if li.dynUser[c] {
				desc = "a function value supplied from outside"
				what = "user"
				if rv := f.Signature.Recv(); rv != nil {
					if nm := namedOf(rv.Type()); nm != nil {
						what = shortPkg(nm.Obj().Pkg().Path()) + "." + nm.Obj().Name()
					}
				}
			} else if cc.IsInvoke() {
				nm, ok := li.extIface(cc.Value.Type())
				if !ok || len(li.callees[c]) > 0 && !strings.HasSuffix(nm, "Exporter") && !strings.HasSuffix(nm, "Processor") {
					continue
				}
				switch nm {
				case "context.Context", "data.Collector", "metric.Producer", "reflect.Type":
					continue
				}
				what, desc = nm, nm+"."+cc.Method.Name()
			} else if g := cc.StaticCallee(); g != nil && fullName(g) == "go.opentelemetry.io/otel.Handle" {
				what, desc = "otel.Handle", "the error handler"
			} else {
				continue
			}
			n++
			var bad []string
			for k := range li.May(c) {
				if _, ok := c.(*ssa.Go); ok {
					continue
				}
				if !exempt(what, lockName(k)) {
					bad = append(bad, k)
				}
			}
			sort.Strings(bad)
			r.Ob(RU, len(bad) == 0, f, "call of "+desc, p.posOf(c), fmt.Sprintf("%s is called while %s may be held", desc, strings.Join(bad, ", ")))
		}
	}
	r.AtLeast(RU, n, 10, "call of user code")

	// waits
	acq := map[*ssa.Function]map[string]bool{}
	var acquires func(f *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool)
	acquires = func(f *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, c := range callsIn(f) {
			if op := lockOp(c.Common().StaticCallee()); op == "Lock" || op == "RLock" {
				for _, id := range li.lockIDs(c.Common().Args[0]) {
					out[id] = true
				}
			}
			for _, g := range li.callees[c] {
				acquires(g, seen, out)
			}
		}
	}
	nGo := 0
	for _, f := range li.fns {
		for _, c := range callsIn(f) {
			if _, ok := c.(*ssa.Go); ok {
				for _, g := range li.callees[c] {
					nGo++
					acq[g] = map[string]bool{}
					acquires(g, map[*ssa.Function]bool{}, acq[g])
				}
			}
		}
	}
	nW := 0
	for _, f := range li.fns {
		for _, c := range callsIn(f) {
			g := c.Common().StaticCallee()
			if g == nil || fullName(g) != "sync.WaitGroup.Wait" {
				continue
			}
			nW++
			for h, as := range acq {
				if pkgOf(h) != pkgOf(f) {
					continue
				}
				for k := range li.May(c) {
					r.Ob(RW, !as[lockName(k)], f, "WaitGroup.Wait", p.posOf(c), fmt.Sprintf("waits while holding %s, which the goroutine %s acquires", k, p.fnName(h)))
				}
				r.Ob(RW, true, f, "WaitGroup.Wait", p.posOf(c), "")
			}
		}
	}
	r.AtLeast(RW, nW, 1, "goroutine wait")
}

// callersBalance: an uneven exit is resolved by every caller.
func (li *LockInfo) callersBalance(f *ssa.Function) bool {
	if li.root[f] || len(li.callers[f]) == 0 {
		return false
	}
	for _, c := range li.callers[f] {
		s := li.summary(c.Parent())
		if len(s) != 1 {
			return false
		}
	}
	return true
}
