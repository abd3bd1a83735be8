package main

// Interprocedural lockset analysis.  Locks are identified by the field (or
// global) that holds them.  Per function a disjunctive forward analysis gives
// the set of relative lock configurations before every instruction; callee
// effects are applied through summaries; the locks held by the callers are
// added through must (intersection) and may (union) entry contexts.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lockCfg struct {
	held   string // sorted "W:id=n;R:id=n"
	defers string // stack of deferred lock operations / summarised calls
}

type LockInfo struct {
	p       *Prog
	fns     []*ssa.Function
	inScope map[*ssa.Function]bool
	before  map[ssa.Instruction]map[lockCfg]bool
	sum     map[*ssa.Function]map[string]bool // relative held maps at exit
	sumWIP  map[*ssa.Function]bool
	callees map[ssa.CallInstruction][]*ssa.Function
	dynUser map[ssa.CallInstruction]bool // may call code that is not the repository's
	callers map[*ssa.Function][]ssa.CallInstruction
	root    map[*ssa.Function]bool
	must    map[*ssa.Function]map[string]bool // nil = top
	may     map[*ssa.Function]map[string]bool
	addrs   map[ssa.Value]map[*types.Var]bool
	conts   map[ssa.Value]map[*types.Var]bool
	outer   map[ssa.Value]map[*types.Var]bool
	pass    map[*ssa.Function][]ssa.CallInstruction
	funcs   map[ssa.Value]map[*ssa.Function]bool
	unkFn   map[ssa.Value]bool
	fresh   map[*ssa.Parameter]bool
	defTab  []ssa.CallInstruction
	setup   map[*ssa.Function]bool
	defIdx  map[ssa.CallInstruction]int
	names   map[*types.Var]string
}

func (li *LockInfo) skipPkg(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil {
		return true
	}
	r := strings.TrimPrefix(pk.Path(), li.p.Module)
	return strings.Contains(r, "/internal/test") || strings.Contains(r, "/example") || strings.HasSuffix(r, "/bench")
}

func newLockInfo(p *Prog) *LockInfo {
	li := &LockInfo{p: p, inScope: map[*ssa.Function]bool{}, before: map[ssa.Instruction]map[lockCfg]bool{}, sum: map[*ssa.Function]map[string]bool{},
		sumWIP: map[*ssa.Function]bool{}, callees: map[ssa.CallInstruction][]*ssa.Function{}, dynUser: map[ssa.CallInstruction]bool{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, root: map[*ssa.Function]bool{}, must: map[*ssa.Function]map[string]bool{},
		may: map[*ssa.Function]map[string]bool{}, addrs: map[ssa.Value]map[*types.Var]bool{}, conts: map[ssa.Value]map[*types.Var]bool{}, outer: map[ssa.Value]map[*types.Var]bool{}, pass: map[*ssa.Function][]ssa.CallInstruction{},
		funcs: map[ssa.Value]map[*ssa.Function]bool{}, unkFn: map[ssa.Value]bool{}, fresh: map[*ssa.Parameter]bool{}, defIdx: map[ssa.CallInstruction]int{}, names: map[*types.Var]string{}}
	for _, f := range p.all {
		if len(f.Blocks) == 0 || li.skipPkg(f) || generic(f) {
			continue
		}
		li.fns = append(li.fns, f)
		li.inScope[f] = true
	}
	li.nameFields()
	li.buildCalls()
	li.dropDead()
	li.buildAliases()
	li.buildFresh()
	for _, f := range li.fns {
		li.summary(f)
	}
	li.contexts()
	return li
}

// generic: an uninstantiated generic body.
func generic(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.TypeParams().Len() > 0 && len(g.TypeArgs()) == 0 {
			return true
		}
		if rc := g.Signature.Recv(); rc != nil && g.Origin() == nil {
			if n := namedOf(rc.Type()); n != nil && n.TypeParams().Len() > 0 && n.TypeArgs().Len() > 0 {
				for i := 0; i < n.TypeArgs().Len(); i++ {
					if _, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// nameFields gives every struct field of the repository a readable owner.
func (li *LockInfo) nameFields() {
	var walk func(owner string, s *types.Struct)
	walk = func(owner string, s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if li.names[f.Origin()] == "" {
				li.names[f.Origin()] = owner + "." + f.Name()
			}
			if st, ok := f.Type().(*types.Struct); ok {
				walk(owner+"."+f.Name(), st)
			}
		}
	}
	for _, n := range li.p.localNamed() {
		if s, ok := n.Underlying().(*types.Struct); ok {
			walk(n.Obj().Pkg().Name()+"."+n.Obj().Name(), s)
		}
	}
}

func (li *LockInfo) fname(v *types.Var) string {
	if n := li.names[v.Origin()]; n != "" {
		return n
	}
	if v.Pkg() != nil {
		return v.Pkg().Name() + "." + v.Name()
	}
	return v.Name()
}

func (li *LockInfo) buildCalls() {
	byMethod := map[string][]*ssa.Function{}
	for _, f := range li.fns {
		if f.Signature.Recv() != nil {
			byMethod[f.Name()] = append(byMethod[f.Name()], f)
		}
	}
	add := func(c ssa.CallInstruction, g *ssa.Function) {
		for _, x := range li.callees[c] {
			if x == g {
				return
			}
		}
		li.callees[c] = append(li.callees[c], g)
		li.callers[g] = append(li.callers[g], c)
	}
	// function values: flow-insensitive propagation
	addF := func(v ssa.Value, g *ssa.Function) bool {
		m := li.funcs[v]
		if m == nil {
			m = map[*ssa.Function]bool{}
			li.funcs[v] = m
		}
		if m[g] {
			return false
		}
		m[g] = true
		return true
	}
	isFn := func(v ssa.Value) bool { _, ok := v.Type().Underlying().(*types.Signature); return ok }
	for changed := true; changed; {
		changed = false
		flow := func(from, to ssa.Value) {
			if from == nil || to == nil || !isFn(to) {
				return
			}
			switch x := from.(type) {
			case *ssa.Function:
				if addF(to, x) {
					changed = true
				}
				return
			case *ssa.MakeClosure:
				if addF(to, x.Fn.(*ssa.Function)) {
					changed = true
				}
				return
			}
			for g := range li.funcs[from] {
				if addF(to, g) {
					changed = true
				}
			}
			if li.unkFn[from] && !li.unkFn[to] {
				li.unkFn[to] = true
				changed = true
			}
		}
		for _, f := range li.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Phi:
						for _, e := range x.Edges {
							flow(e, x)
						}
					case *ssa.ChangeType:
						flow(x.X, x)
					case *ssa.MakeClosure:
						fn := x.Fn.(*ssa.Function)
						for i, bd := range x.Bindings {
							flow(bd, fn.FreeVars[i])
						}
					case ssa.CallInstruction:
						cc := x.Common()
						var gs []*ssa.Function
						if cc.IsInvoke() {
							it, _ := cc.Value.Type().Underlying().(*types.Interface)
							for _, g := range byMethod[cc.Method.Name()] {
								if it != nil && types.Implements(g.Signature.Recv().Type(), it) || it != nil && types.Implements(types.NewPointer(derefT(g.Signature.Recv().Type())), it) {
									gs = append(gs, g)
								}
							}
						} else if g := cc.StaticCallee(); g != nil {
							if li.inScope[g] {
								gs = append(gs, g)
							} else {
								// functions handed to code outside the repository run there
								for _, a := range cc.Args {
									if isFn(a) {
										for g2 := range li.funcsOf(a) {
											li.root[g2] = true
										}
									}
								}
							}
						} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
							for g := range li.funcsOf(cc.Value) {
								if li.inScope[g] {
									gs = append(gs, g)
								} else {
									li.dynUser[x] = true
								}
							}
							if len(li.funcsOf(cc.Value)) == 0 || li.unkFn[cc.Value] {
								li.dynUser[x] = true
							}
						}
						for _, a := range cc.Args {
							if mc, ok := a.(*ssa.MakeClosure); ok && len(gs) > 0 {
								g := mc.Fn.(*ssa.Function)
								dup := false
								for _, q := range li.pass[g] {
									dup = dup || q == x
								}
								if !dup {
									li.pass[g] = append(li.pass[g], x)
								}
							}
						}
						for _, g := range gs {
							n := len(li.callees[x])
							add(x, g)
							if len(li.callees[x]) != n {
								changed = true
							}
							off := 0
							if cc.IsInvoke() {
								off = 1
							}
							for i, a := range cc.Args {
								if i+off < len(g.Params) {
									flow(a, g.Params[i+off])
								}
							}
						}
					}
				}
			}
		}
	}
	// address-taken functions stored or returned: roots
	for _, f := range li.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var vals []ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					vals = append(vals, x.Val)
				case *ssa.Return:
					vals = append(vals, x.Results...)
				case *ssa.MapUpdate:
					vals = append(vals, x.Value)
				case *ssa.MakeInterface:
					vals = append(vals, x.X)
				}
				for _, v := range vals {
					switch y := v.(type) {
					case *ssa.Function:
						li.root[y] = true
					case *ssa.MakeClosure:
						li.root[y.Fn.(*ssa.Function)] = true
					}
				}
			}
		}
		if len(li.callers[f]) == 0 && !wrapper(f) {
			li.root[f] = true
		}
		if ob := f.Object(); ob != nil && ob.Exported() && !strings.Contains(pkgOf(f).Path(), "/internal/") {
			// exported on an unexported type is reachable through interfaces too
			li.root[f] = true
		}
	}
}

// dropDead removes unexported functions nothing can call.
func (li *LockInfo) dropDead() {
	used := map[*ssa.Function]bool{}
	dead := map[*ssa.Function]bool{}
	for _, f := range li.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						if c, isC := in.(ssa.CallInstruction); isC && c.Common().Value == *o {
							continue
						}
						used[g] = true
					}
				}
			}
		}
	}
	isDead := func(f *ssa.Function) bool {
		if f.Parent() != nil {
			return dead[f.Parent()]
		}
		ob := f.Object()
		if ob == nil || ob.Exported() || used[f] || f.Name() == "main" || f.Name() == "init" || f.Synthetic != "" && f.Origin() == nil {
			return false
		}
		return len(li.callers[f]) == 0
	}
	for changed := true; changed; {
		changed = false
		for _, f := range li.fns {
			if dead[f] || !isDead(f) {
				continue
			}
			dead[f] = true
			changed = true
			for g, cs := range li.callers {
				var keep []ssa.CallInstruction
				for _, c := range cs {
					if c.Parent() != f {
						keep = append(keep, c)
					}
				}
				li.callers[g] = keep
			}
		}
	}
	var live []*ssa.Function
	for _, f := range li.fns {
		if !dead[f] {
			live = append(live, f)
		} else {
			delete(li.root, f)
		}
	}
	li.fns = live
}

// wrapper: a compiler-made forwarding method.
func wrapper(f *ssa.Function) bool {
	return f.Synthetic != "" && f.Origin() == nil && f.Parent() == nil && f.Signature.Recv() != nil
}

func (li *LockInfo) funcsOf(v ssa.Value) map[*ssa.Function]bool {
	switch x := v.(type) {
	case *ssa.Function:
		return map[*ssa.Function]bool{x: true}
	case *ssa.MakeClosure:
		return map[*ssa.Function]bool{x.Fn.(*ssa.Function): true}
	case *ssa.ChangeType:
		return li.funcsOf(x.X)
	}
	return li.funcs[v]
}

func (li *LockInfo) buildAliases() {
	add := func(m map[ssa.Value]map[*types.Var]bool, v ssa.Value, f *types.Var) bool {
		s := m[v]
		if s == nil {
			s = map[*types.Var]bool{}
			m[v] = s
		}
		if s[f] {
			return false
		}
		s[f] = true
		return true
	}
	for _, pk := range li.p.ByPath {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Object() != nil {
				if v, ok := g.Object().(*types.Var); ok {
					add(li.addrs, g, v)
					li.names[v] = "var " + pk.Pkg.Name() + "." + g.Name()
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		flow := func(from, to ssa.Value) {
			if from == nil || to == nil {
				return
			}
			for f := range li.addrs[from] {
				if add(li.addrs, to, f) {
					changed = true
				}
			}
			for f := range li.conts[from] {
				if add(li.conts, to, f) {
					changed = true
				}
			}
		}
		for _, fn := range li.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if fl := fieldOf(x); fl != nil && add(li.addrs, x, fl.Origin()) {
							changed = true
						}
						// a part of an embedded struct field is also a part of the outer one
						if _, ok := x.X.(*ssa.FieldAddr); ok {
							for f := range li.addrs[x.X] {
								if !isMutex(fieldOf(x).Type()) && add(li.outer, x, f) {
									changed = true
								}
							}
							for f := range li.outer[x.X] {
								if add(li.outer, x, f) {
									changed = true
								}
							}
						}
					case *ssa.IndexAddr:
						if _, ok := derefT(x.X.Type()).Underlying().(*types.Array); ok {
							flow(x.X, x)
						}
					case *ssa.UnOp:
						if x.Op == token.MUL {
							switch x.Type().Underlying().(type) {
							case *types.Map, *types.Slice:
								for f := range li.addrs[x.X] {
									if add(li.conts, x, f) {
										changed = true
									}
								}
								if al, ok := x.X.(*ssa.Alloc); ok {
									for _, u := range *al.Referrers() {
										if s, ok := u.(*ssa.Store); ok && s.Addr == al {
											flow(s.Val, x)
										}
									}
								}
							}
						}
					case *ssa.Slice:
						flow(x.X, x)
					case *ssa.Phi:
						for _, e := range x.Edges {
							flow(e, x)
						}
					case *ssa.ChangeType:
						flow(x.X, x)
					case *ssa.MakeClosure:
						g := x.Fn.(*ssa.Function)
						for i, bd := range x.Bindings {
							flow(bd, g.FreeVars[i])
						}
					case *ssa.Extract:
						if call, ok := x.Tuple.(*ssa.Call); ok {
							for _, g := range li.callees[call] {
								for _, bb := range g.Blocks {
									if rt, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok && x.Index < len(rt.Results) {
										flow(rt.Results[x.Index], x)
									}
								}
							}
						}
					case ssa.CallInstruction:
						cc := x.Common()
						if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							flow(cc.Args[0], x.Value())
						}
						off := 0
						if cc.IsInvoke() {
							off = 1
						}
						for _, g := range li.callees[x] {
							for i, a := range cc.Args {
								if i+off < len(g.Params) {
									flow(a, g.Params[i+off])
								}
							}
							if x.Value() != nil && g.Signature.Results().Len() == 1 {
								for _, bb := range g.Blocks {
									if rt, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok {
										flow(rt.Results[0], x.Value())
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// lockIDs of a mutex address.
func (li *LockInfo) lockIDs(v ssa.Value) []string {
	if g, ok := v.(*ssa.Global); ok {
		return []string{"var " + g.RelString(nil)}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return []string{"var *" + g.RelString(nil)}
		}
	}
	var out []string
	for f := range li.addrs[v] {
		if isMutex(f.Type()) || len(li.addrs[v]) == 1 {
			out = append(out, li.fname(f))
		}
	}
	if len(out) == 0 {
		if al, ok := v.(*ssa.Alloc); ok {
			return []string{"local " + al.Comment + "@" + li.p.fnName(al.Parent())}
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			return []string{"local " + fv.Name() + "@" + li.p.fnName(fv.Parent())}
		}
		return []string{"? " + v.Name() + "@" + li.p.fnName(v.Parent())}
	}
	sort.Strings(out)
	return out
}

func isMutex(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func decodeHeld(s string) map[string]int {
	m := map[string]int{}
	for _, e := range strings.Split(s, ";") {
		if e == "" {
			continue
		}
		i := strings.LastIndexByte(e, '=')
		var n int
		fmt.Sscan(e[i+1:], &n)
		m[e[:i]] = n
	}
	return m
}

func encodeHeld(m map[string]int) string {
	var ks []string
	for k, n := range m {
		if n != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func applyDelta(h string, d map[string]int) string {
	m := decodeHeld(h)
	for k, n := range d {
		m[k] += n
		if m[k] > 3 {
			m[k] = 3
		}
		if m[k] < -3 {
			m[k] = -3
		}
	}
	return encodeHeld(m)
}

// deltas of a call: alternatives of lock effects.
func (li *LockInfo) effects(c ssa.CallInstruction) []map[string]int {
	cc := c.Common()
	if op := lockOp(cc.StaticCallee()); op != "" {
		id := li.lockIDs(cc.Args[0])[0]
		switch op {
		case "Lock":
			return []map[string]int{{"W:" + id: 1}}
		case "Unlock":
			return []map[string]int{{"W:" + id: -1}}
		case "RLock":
			return []map[string]int{{"R:" + id: 1}}
		case "RUnlock":
			return []map[string]int{{"R:" + id: -1}}
		case "TryLock":
			return []map[string]int{{"W:" + id: 1}, {}}
		}
	}
	if g := cc.StaticCallee(); g != nil && strings.HasPrefix(fullName(g), "sync.Once.") {
		return nil
	}
	seen := map[string]bool{}
	var out []map[string]int
	for _, g := range li.callees[c] {
		for d := range li.summary(g) {
			if !seen[d] {
				seen[d] = true
				out = append(out, decodeHeld(d))
			}
		}
	}
	return out
}

func (li *LockInfo) summary(f *ssa.Function) map[string]bool {
	if s, ok := li.sum[f]; ok {
		return s
	}
	if li.sumWIP[f] {
		return map[string]bool{"": true}
	}
	li.sumWIP[f] = true
	defer delete(li.sumWIP, f)
	exits := map[string]bool{}
	type item struct {
		b *ssa.BasicBlock
		c lockCfg
	}
	seen := map[item]bool{}
	work := []item{{f.Blocks[0], lockCfg{}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[it] || len(seen) > 20000 {
			continue
		}
		seen[it] = true
		cs := []lockCfg{it.c}
		for _, in := range it.b.Instrs {
			if li.before[in] == nil {
				li.before[in] = map[lockCfg]bool{}
			}
			for _, c := range cs {
				li.before[in][c] = true
			}
			switch x := in.(type) {
			case *ssa.Defer:
				if len(li.effects(x)) == 0 || onlyNeutral(li.effects(x)) {
					continue
				}
				idx, ok := li.defIdx[x]
				if !ok {
					idx = len(li.defTab)
					li.defIdx[x] = idx
					li.defTab = append(li.defTab, x)
				}
				for i := range cs {
					if strings.Count(cs[i].defers, ",") < 6 {
						cs[i].defers += fmt.Sprintf("%d,", idx)
					}
				}
			case *ssa.Go:
			case *ssa.RunDefers:
				var ns []lockCfg
				for _, c := range cs {
					alts := []string{c.held}
					ds := strings.Split(strings.TrimSuffix(c.defers, ","), ",")
					for i := len(ds) - 1; i >= 0; i-- {
						if ds[i] == "" {
							continue
						}
						var k int
						fmt.Sscan(ds[i], &k)
						var na []string
						for _, a := range alts {
							for _, d := range li.effects(li.defTab[k]) {
								na = append(na, applyDelta(a, d))
							}
						}
						alts = na
					}
					for _, a := range alts {
						ns = append(ns, lockCfg{a, ""})
					}
				}
				cs = uniqCfg(ns)
			case *ssa.Call:
				ef := li.effects(x)
				if len(ef) == 0 {
					continue
				}
				var ns []lockCfg
				for _, c := range cs {
					for _, d := range ef {
						ns = append(ns, lockCfg{applyDelta(c.held, d), c.defers})
					}
				}
				cs = uniqCfg(ns)
			case *ssa.Return:
				for _, c := range cs {
					exits[c.held] = true
				}
			}
		}
		for _, s := range it.b.Succs {
			for _, c := range cs {
				work = append(work, item{s, c})
			}
		}
	}
	if len(exits) == 0 {
		exits[""] = true
	}
	li.sum[f] = exits
	return exits
}

func onlyNeutral(ef []map[string]int) bool {
	for _, e := range ef {
		if encodeHeld(e) != "" {
			return false
		}
	}
	return true
}

func uniqCfg(cs []lockCfg) []lockCfg {
	seen := map[lockCfg]bool{}
	var out []lockCfg
	for _, c := range cs {
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

// local must/may locks before an instruction ("W:id" or "R:id").
func (li *LockInfo) local(in ssa.Instruction) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	first := true
	for c := range li.before[in] {
		h := decodeHeld(c.held)
		cur := map[string]bool{}
		for k, n := range h {
			if n > 0 {
				cur[k] = true
				may[k] = true
			}
		}
		if first {
			must, first = cur, false
			continue
		}
		for k := range must {
			if !cur[k] {
				delete(must, k)
			}
		}
	}
	// negative counts: a caller's lock released here
	return
}

func (li *LockInfo) released(in ssa.Instruction) map[string]bool {
	out := map[string]bool{}
	for c := range li.before[in] {
		for k, n := range decodeHeld(c.held) {
			if n < 0 {
				out[k] = true
			}
		}
	}
	return out
}

// Must locks held before in on every path and calling context.
func (li *LockInfo) Must(in ssa.Instruction) map[string]bool {
	m, _ := li.local(in)
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	rel := li.released(in)
	for k := range li.must[in.Parent()] {
		if !rel[k] {
			out[k] = true
		}
	}
	return out
}

func (li *LockInfo) May(in ssa.Instruction) map[string]bool {
	_, m := li.local(in)
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	for k := range li.may[in.Parent()] {
		// released on every path?
		all := len(li.before[in]) > 0
		for c := range li.before[in] {
			if decodeHeld(c.held)[k] >= 0 {
				all = false
			}
		}
		if !all {
			out[k] = true
		}
	}
	return out
}

func (li *LockInfo) contexts() {
	// may: least fixpoint; must: greatest fixpoint
	for _, f := range li.fns {
		li.may[f] = map[string]bool{}
		if li.root[f] {
			li.must[f] = map[string]bool{}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range li.fns {
			var meet map[string]bool
			top := true
			for _, c := range li.callers[f] {
				if !li.inScope[c.Parent()] {
					continue
				}
				if _, ok := c.(*ssa.Go); ok {
					meet, top = map[string]bool{}, false
					continue
				}
				at := ssa.Instruction(c)
				if _, ok := c.(*ssa.Defer); ok {
					// a deferred call runs with the locks held at the exits: be conservative
					at = c
				}
				for k := range li.May(at) {
					if !li.may[f][k] {
						li.may[f][k] = true
						changed = true
					}
				}
				if li.must[c.Parent()] == nil && !li.root[c.Parent()] {
					continue // top
				}
				m := li.Must(at)
				if _, ok := c.(*ssa.Defer); ok {
					m = map[string]bool{}
				}
				if top {
					meet, top = m, false
				} else {
					for k := range meet {
						if !m[k] {
							delete(meet, k)
						}
					}
				}
			}
			if li.root[f] {
				continue
			}
			if !top && meet != nil && len(li.pass[f]) > 0 {
				// a closure run by the function it is passed to also holds the passer's locks
				var pm map[string]bool
				for i, c := range li.pass[f] {
					m := li.Must(c)
					if _, ok := c.(*ssa.Call); !ok {
						m = map[string]bool{}
					}
					if i == 0 {
						pm = m
						continue
					}
					for k := range pm {
						if !m[k] {
							delete(pm, k)
						}
					}
				}
				for k := range pm {
					meet[k] = true
				}
			}
			if !top {
				old := li.must[f]
				if old == nil || len(old) != len(meet) {
					li.must[f] = meet
					changed = true
				}
			}
		}
	}
}

// ---- freshness ----

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := derefT(x.X.Type()).Underlying().(*types.Array); ok {
				v = x.X
				continue
			}
			return v
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// publishes lists instructions that make the object of alloc visible to others.
func publishes(al ssa.Value, p *Prog) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val == v {
					if _, ok := rootOf(x.Addr).(*ssa.Alloc); !ok {
						out = append(out, x)
					} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						walk(rootOf(ia)) // varargs
					}
				}
			case *ssa.MapUpdate:
				if x.Value == v || x.Key == v {
					out = append(out, x)
				}
			case *ssa.Return, *ssa.Send:
				out = append(out, u)
			case *ssa.Go:
				out = append(out, x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.ChangeInterface:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.Phi:
				walk(x)
			case *ssa.MakeClosure:
				out = append(out, x)
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && x.Value() != nil {
						walk(x.Value())
					}
					continue
				}
				if g := x.Common().StaticCallee(); (g == nil && !x.Common().IsInvoke() && !types.IsInterface(v.Type())) || g != nil && p.isLocal(g) {
					continue // judged through the callee's parameter; options do not leak
				}
				out = append(out, x)
			}
		}
	}
	walk(al)
	return out
}

func mayPrecede(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, x := range a.Block().Instrs {
			if x == a {
				ia = i
			}
			if x == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// freshAt: the object v points into is not yet visible to other goroutines.
func (li *LockInfo) freshAt(v ssa.Value, in ssa.Instruction) bool {
	r := rootOf(v)
	switch x := r.(type) {
	case *ssa.Alloc:
		for _, pb := range publishes(x, li.p) {
			if pb != in && mayPrecede(pb, in) && !sameLoopFresh(x, pb, in) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return li.fresh[x]
	case *ssa.Call:
		// constructor result
		cs := li.callees[x]
		if len(cs) == 0 {
			return false
		}
		for _, g := range cs {
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(rt.Results) != 1 {
						return false
					}
					al, ok := rootOf(rt.Results[0]).(*ssa.Alloc)
					if !ok {
						return false
					}
					for _, pb := range publishes(al, li.p) {
						if _, ok := pb.(*ssa.Return); !ok {
							return false
						}
					}
				}
			}
		}
		for _, pb := range publishes(x, li.p) {
			if pb != in && mayPrecede(pb, in) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x && !li.freshAt(e, in) {
				return false
			}
		}
		return true
	}
	return false
}

// a new allocation per iteration: publication in an earlier iteration concerns another object
func sameLoopFresh(al *ssa.Alloc, pb, in ssa.Instruction) bool {
	// pb precedes in only through al again?
	if al.Block() == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{al.Block(): true}
	if pb.Block() == in.Block() && pb.Block() != al.Block() {
		ia, ib := 0, 0
		for i, x := range pb.Block().Instrs {
			if x == pb {
				ia = i
			}
			if x == in {
				ib = i
			}
		}
		if ia < ib {
			return false
		}
	}
	if pb.Block() == al.Block() {
		ia, ib := 0, 1<<30
		for i, x := range pb.Block().Instrs {
			if x == pb {
				ia = i
			}
			if x == in {
				ib = i
			}
		}
		if in.Block() == pb.Block() && ia < ib {
			return false
		}
	}
	work := append([]*ssa.BasicBlock{}, pb.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == in.Block() {
			return false
		}
		work = append(work, x.Succs...)
	}
	return true
}

func (li *LockInfo) buildFresh() {
	// optimistic: every pointer parameter of a non-root function is fresh until a call site disproves it
	cand := map[*ssa.Parameter]bool{}
	for _, f := range li.fns {
		if li.root[f] || len(li.callers[f]) == 0 {
			continue
		}
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				li.fresh[p] = true
				cand[p] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for p := range cand {
			if !li.fresh[p] {
				continue
			}
			f := p.Parent()
			i := indexOfParam(f, p)
			ok := true
			for _, c := range li.callers[f] {
				cc := c.Common()
				j := i
				var a ssa.Value
				if cc.IsInvoke() {
					if i == 0 {
						a = nil
					} else {
						a = cc.Args[j-1]
					}
				} else if j < len(cc.Args) {
					a = cc.Args[j]
				}
				if _, isGo := c.(*ssa.Go); a == nil || isGo || !li.freshAt(a, c) {
					ok = false
					break
				}
			}
			if !ok {
				li.fresh[p] = false
				changed = true
			}
		}
	}
}
