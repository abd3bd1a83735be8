package main

// P02: lockset discipline.  P03: lock balance, order, user code under lock.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", ruleRaces)
	register("P03", ruleLocks)
}

type access struct {
	in     ssa.Instruction
	fn     *ssa.Function
	write  bool
	atomic bool
	fresh  bool
	part   bool // reached through a field of the embedded struct
	kind   string
	via    []ssa.Instruction // the calls that passed the address
}

var liCache *LockInfo

func lockInfo(p *Prog) *LockInfo {
	if liCache == nil || liCache.p != p {
		liCache = newLockInfo(p)
	}
	return liCache
}

// accesses of every field ("F") and of the elements of container fields ("F[]").
func (li *LockInfo) accesses() map[string][]access {
	out := map[string][]access{}
	add := func(cls string, a access) { out[cls] = append(out[cls], a) }
	li.setup = map[*ssa.Function]bool{}
	for _, fn := range li.fns {
		li.setup[fn] = li.isSetup(fn)
	}
	each := func(set map[*types.Var]bool, suffix string, a access) {
		if li.setup[a.fn] && !afterGo(a.in) {
			a.fresh = true
		}
		for f := range set {
			if f.Pkg() == nil || !strings.HasPrefix(f.Pkg().Path(), li.p.Module) {
				continue
			}
			add(li.fname(f)+suffix, a)
		}
	}
	for _, fn := range li.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a := access{in: in, fn: fn, write: true, fresh: li.freshAt(x.Addr, in), kind: "store"}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							a.fresh = li.contFresh(ia.X, in)
							each(li.conts[ia.X], "[]", a)
							continue
						}
					}
					li.perCaller(x.Addr, a, each)
					a.part = true
					each(li.outer[x.Addr], "", a)
					// shrinking a slice in place lets a later append overwrite shared elements
					if sl, ok := x.Val.(*ssa.Slice); ok && sl.High != nil {
						for f := range li.conts[sl.X] {
							if li.addrs[x.Addr][f] {
								each(map[*types.Var]bool{f: true}, "[]", access{in: in, fn: fn, write: true, fresh: a.fresh, kind: "shrink"})
							}
						}
					}
				case *ssa.UnOp:
					if x.Op != token.MUL {
						continue
					}
					a := access{in: in, fn: fn, fresh: li.freshAt(x.X, in), kind: "load"}
					if ia, ok := x.X.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							a.fresh = li.contFresh(ia.X, in)
							each(li.conts[ia.X], "[]", a)
							continue
						}
					}
					li.perCaller(x.X, a, each)
					a.part = true
					each(li.outer[x.X], "", a)
				case *ssa.MapUpdate:
					each(li.conts[x.Map], "{}", access{in: in, fn: fn, write: true, fresh: li.contFresh(x.Map, in), kind: "map update"})
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						each(li.conts[x.X], "{}", access{in: in, fn: fn, fresh: li.contFresh(x.X, in), kind: "map lookup"})
					}
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok {
						if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
							each(li.conts[rg.X], "{}", access{in: in, fn: fn, fresh: li.contFresh(rg.X, in), kind: "map range"})
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							for _, sl := range shrunk(cc.Args[0], map[ssa.Value]bool{}) {
								each(li.conts[sl.X], "[]", access{in: in, fn: fn, write: true, fresh: li.contFresh(sl.X, in), kind: "append over shared elements"})
							}
						case "delete", "clear":
							each(li.conts[cc.Args[0]], "{}", access{in: in, fn: fn, write: true, kind: "map delete"})
						case "copy":
							each(li.conts[cc.Args[0]], "[]", access{in: in, fn: fn, write: true, kind: "copy into"})
						case "len":
							if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
								each(li.conts[cc.Args[0]], "{}", access{in: in, fn: fn, fresh: li.contFresh(cc.Args[0], in), kind: "map len"})
							}
						}
						continue
					}
					if op, ok := atomicCallOp(x); ok {
						each(li.addrs[cc.Args[0]], "", access{in: in, fn: fn, write: op != "load", atomic: true, fresh: li.freshAt(cc.Args[0], in), kind: "atomic " + op})
						continue
					}
					// sorting in place
					if g := cc.StaticCallee(); g != nil && !li.p.isLocal(g) && g.Pkg != nil {
						switch g.Pkg.Pkg.Path() {
						case "sort", "slices":
							if len(cc.Args) > 0 {
								a0 := cc.Args[0]
								if mi, ok := a0.(*ssa.MakeInterface); ok {
									a0 = mi.X
								}
								if !strings.HasPrefix(g.Name(), "Search") && !strings.HasPrefix(g.Name(), "Contains") && !strings.HasPrefix(g.Name(), "Index") && !strings.HasPrefix(g.Name(), "Is") {
									each(li.conts[a0], "[]", access{in: in, fn: fn, write: true, kind: "in-place " + g.Name()})
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// shrunk: slice expressions x[:n] that v may be.
func shrunk(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Slice {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && x.Max == nil {
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return []*ssa.Slice{x}
			}
		}
		return shrunk(x.X, seen)
	case *ssa.Phi:
		var out []*ssa.Slice
		for _, e := range x.Edges {
			out = append(out, shrunk(e, seen)...)
		}
		return out
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return shrunk(x.Call.Args[0], seen)
		}
	}
	return nil
}

// contFresh: the container was loaded from an object that is still private.
func (li *LockInfo) contFresh(v ssa.Value, in ssa.Instruction) bool {
	x, ok := v.(*ssa.UnOp)
	if !ok || x.Op != token.MUL || !li.freshAt(x.X, in) {
		return false
	}
	// what the private owner's field was given must be new as well
	fa, ok := x.X.(*ssa.FieldAddr)
	if !ok {
		return true
	}
	root := rootOf(fa)
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.FieldAddr); ok && g.Field == fa.Field && rootOf(g) == root && g.X.Type() == fa.X.Type() && len(li.conts[st.Val]) > 0 {
					own := true
					for f := range li.conts[st.Val] {
						if !li.addrs[fa][f] {
							own = false
						}
					}
					if !own {
						return false
					}
				}
			}
		}
	}
	return true
}

// perCaller attributes an access through a pointer parameter to the call sites
// that passed the address, with the locks held there.
func (li *LockInfo) perCaller(addr ssa.Value, a access, each func(map[*types.Var]bool, string, access)) {
	if ph, ok := addr.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if e != addr {
				if _, ok := e.(*ssa.Phi); !ok {
					b := a
					b.fresh = li.freshAt(e, a.in)
					li.perCaller(e, b, each)
				}
			}
		}
		return
	}
	pm, ok := addr.(*ssa.Parameter)
	if !ok || len(a.via) > 3 {
		each(li.addrs[addr], "", a)
		return
	}
	f := pm.Parent()
	i := indexOfParam(f, pm)
	done := map[*types.Var]bool{}
	for _, c := range li.callers[f] {
		cc := c.Common()
		j := i
		if cc.IsInvoke() {
			j--
		}
		if j < 0 || j >= len(cc.Args) {
			continue
		}
		set := li.addrs[cc.Args[j]]
		if slices.Contains(a.via, ssa.Instruction(c)) {
			for v := range set {
				done[v] = true
			}
			continue
		}
		b := a
		b.via = append(append([]ssa.Instruction{}, a.via...), c)
		b.fresh = a.fresh || li.freshAt(cc.Args[j], c)
		li.perCaller(cc.Args[j], b, each)
		for v := range set {
			done[v] = true
		}
	}
	rest := map[*types.Var]bool{}
	for v := range li.addrs[addr] {
		if !done[v] {
			rest[v] = true
		}
	}
	each(rest, "", a)
}

func (li *LockInfo) held(a access) map[string]bool {
	m := li.Must(a.in)
	for _, v := range a.via {
		if _, ok := v.(*ssa.Call); !ok {
			break
		}
		for k := range li.Must(v) {
			m[k] = true
		}
	}
	return m
}

func dbg(f string, a ...any) {
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// isSetup: runs before its object is shared: package initialisation, option
// closures, and a reader's Register (called once, before the provider exists).
func (li *LockInfo) isSetup(fn *ssa.Function) bool {
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return true
	}
	if pr := fn.Parent(); pr != nil {
		if rs := pr.Signature.Results(); rs.Len() == 1 {
			if n := namedOf(rs.At(0).Type()); n != nil && strings.HasSuffix(n.Obj().Name(), "Option") {
				return true
			}
			if sg, ok := rs.At(0).Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 1 && strings.HasPrefix(pr.Name(), "With") {
				return true
			}
		}
	}
	if fn.Name() == "Register" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 1 {
		if n := namedOf(tupT(fn.Signature.Params(), 0)); n != nil && originName(n) == li.p.repoName(mMetric, "Producer") {
			return true
		}
	}
	return false
}

func afterGo(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if g, ok := x.(*ssa.Go); ok && mayPrecede(g, in) {
				return true
			}
		}
	}
	return false
}

// guards: conditions on boolean fields that hold whenever in executes.
func (li *LockInfo) guards(in ssa.Instruction) map[string]bool {
	out := map[string]bool{}
	blk := in.Block()
	for _, b := range in.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := ifi.Cond, false
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, !neg
				continue
			}
			break
		}
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fl := addrField(u.X)
		if fl == nil {
			continue
		}
		for i := 0; i < 2; i++ {
			s, o := b.Succs[i], b.Succs[1-i]
			if s != o && s.Dominates(blk) && onlyFrom(s, b) {
				out[li.fname(fl)] = (i == 0) != neg
			}
		}
	}
	return out
}

// onlyFrom: s is entered from b or from blocks s dominates (a loop it heads).
func onlyFrom(s, b *ssa.BasicBlock) bool {
	for _, p := range s.Preds {
		if p != b && !s.Dominates(p) {
			return false
		}
	}
	return true
}

// onceFns: functions run by sync.Once.Do, with the calls that run them.
func (li *LockInfo) onceFns() map[*ssa.Function][]ssa.Instruction {
	out := map[*ssa.Function][]ssa.Instruction{}
	for _, f := range li.fns {
		for _, c := range callsIn(f) {
			if g := c.Common().StaticCallee(); g != nil && fullName(g) == "sync.Once.Do" {
				for h := range li.funcsOf(c.Common().Args[1]) {
					out[h] = append(out[h], c)
					// bound-method wrapper
					if len(h.Blocks) == 1 {
						for _, cc := range callsIn(h) {
							if k := cc.Common().StaticCallee(); k != nil {
								out[k] = append(out[k], c)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// onceReach: functions run under Once.Do, transitively through their only callers.
func (li *LockInfo) raceScope(cls string) bool {
	for _, s := range []string{"metric.", "asyncstate.", "syncstate.", "viewstate.", "doevery.", "internal.", "otelcol.", "var ", "pipeline."} {
		if strings.HasPrefix(cls, s) {
			return true
		}
	}
	return false
}

func common(a, b map[string]bool, aw, bw bool) bool {
	for k := range a {
		id := k[2:]
		ar, br := k[0] == 'R', false
		if b["W:"+id] {
			br = false
		} else if b["R:"+id] {
			br = true
		} else {
			continue
		}
		if aw && ar || bw && br {
			continue // a writer holding only the read lock
		}
		if ar && br {
			continue
		}
		return true
	}
	return false
}

func ruleRaces(p *Prog, r *Report) {
	const R = "common-lock"
	r.Rule(R, "for every pair of accesses to the same field (or to the elements of the same container field), at least one of them a write and neither made before the object is shared: both are atomic, or both hold a common lock, exclusively for the writer, or their guards exclude each other, or a sync.Once orders them")
	li := lockInfo(p)
	acc := li.accesses()
	once := li.onceFns()
	var classes []string
	for c := range acc {
		if li.raceScope(c) {
			classes = append(classes, c)
		}
	}
	sort.Strings(classes)
	nClass := 0
	orderedByOnce := func(w, o access) bool {
		calls := once[w.fn]
		if len(calls) == 0 {
			return false
		}
		if o.fn == w.fn {
			return true
		}
		for _, c := range calls {
			if c.Parent() == o.fn && (c.Block() == o.in.Block() && mayPrecede(c, o.in) || c.Block() != o.in.Block() && c.Block().Dominates(o.in.Block())) {
				return true
			}
		}
		return false
	}
	for _, c := range classes {
		var as []access
		w := 0
		dup := map[string]bool{}
		for _, a := range acc[c] {
			if a.fresh {
				continue
			}
			k := fmt.Sprint(p.fnName(a.fn), p.posOf(a.in), a.kind, a.part)
			for _, v := range a.via {
				k += p.posOf(v)
			}
			if dup[k] {
				continue
			}
			dup[k] = true
			as = append(as, a)
			if a.write {
				w++
			}
		}
		if w == 0 {
			continue
		}
		nClass++
		lk := make([]map[string]bool, len(as))
		gd := make([]map[string]bool, len(as))
		for i, a := range as {
			lk[i] = li.held(a)
			gd[i] = li.guards(a.in)
			r.Funcs[p.fnName(a.fn)] = true
		}
		for i, a := range as {
			if !a.write {
				continue
			}
			for j, b := range as {
				if b.write && j < i || a.part && b.part {
					continue
				}
				ok := a.atomic && b.atomic || common(lk[i], lk[j], a.write, b.write) || orderedByOnce(a, b) || b.write && orderedByOnce(b, a)
				for f, v := range gd[i] {
					if v2, has := gd[j][f]; has && v2 != v {
						ok = true
					}
				}
				bad := b
				if len(lk[i]) < len(lk[j]) {
					bad = a
				}
				other := a
				if bad.in == a.in {
					other = b
				}
				r.Ob(R, ok, bad.fn, c+" "+bad.kind, p.posOf(bad.in), fmt.Sprintf("%s of %s (holding %s) can run concurrently with the %s in %s at %s (holding %s): no common lock", bad.kind, c, keysOf(li.held(bad)), other.kind, p.fnName(other.fn), p.posOf(other.in), keysOf(li.held(other))))
			}
		}
	}
	r.AtLeast(R, nClass, 15, "shared mutable field")
	ruleStorageLocks(p, r)
}

func keysOf(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "no lock"
	}
	return strings.Join(ks, " ")
}

type stgSt struct{ lock bool }

// Aggregator storage: the operations the SDK runs concurrently on one storage
// protect it themselves.
func ruleStorageLocks(p *Prog, r *Report) {
	const R = "storage-self-locking"
	r.Rule(R, "Update, Move and Copy (source) and Merge (destination) of every aggregator touch the shared storage only atomically or under that storage's own lock")
	n := 0
	for _, f := range p.all {
		if len(f.Blocks) == 0 || generic(f) || wrapper(f) {
			continue
		}
		idx := 0
		switch aggCall(p, f) {
		case "Update", "Move", "Copy":
			idx = 1
		case "Merge":
			idx = 2
		default:
			continue
		}
		if len(f.Params) <= idx {
			continue
		}
		me := "$" + itoa(idx)
		n++
		shared := func(t *Term) bool {
			root, names := t.Path()
			return root.Key() == me && len(names) > 0
		}
		isLockFld := func(t *Term) bool { fl := lastField(t); return fl != nil && isMutex(fl.Type()) }
		h := Hooks{Inline: func(fr *Frame, c ssa.CallInstruction, cal *ssa.Function) bool { return p.isLocal(cal) }}
		chk := func(c *Ctx, t *Term, what string) {
			r.Ob(R, c.A().(stgSt).lock, f, what+" of "+t.PathStr(), c.Pos(), "shared aggregator storage is accessed without its lock", c.Trace()...)
		}
		h.Instr = func(c *Ctx) {
			switch x := c.In.(type) {
			case *ssa.Store:
				if t := c.T(x.Addr); t.Op == "&" && shared(t) {
					chk(c, t, "store")
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if t := c.T(x.X); t.Op == "&" && shared(t) && !isLockFld(t) {
						chk(c, t, "load")
					}
				}
			}
		}
		h.Call = func(c *Ctx, ci CallInfo) {
			if op := lockOp(ci.Callee); op != "" {
				if shared(c.Arg(0)) {
					c.Set(stgSt{op == "Lock"})
				}
				return
			}
			if _, ok := atomicOp(ci); ok {
				return
			}
			if ci.Callee != nil && p.isLocal(ci.Callee) && len(ci.Callee.Blocks) > 0 {
				return
			}
			for i := range ci.Common.Args {
				if t := c.Arg(i); t.Op == "&" && shared(t) {
					chk(c, t, "use")
				}
			}
		}
		e := newEngine(p, h)
		e.Run(f, stgSt{})
		r.Engine(e)
	}
	r.AtLeast(R, n, 16, "aggregator storage operation")
}
