package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	mSync   = "lightstep/sdk/metric/internal/syncstate"
	mAsync  = "lightstep/sdk/metric/internal/asyncstate"
	mView   = "lightstep/sdk/metric/internal/viewstate"
	mMetric = "lightstep/sdk/metric"
	mAgg    = "lightstep/sdk/metric/aggregator"
	mAggn   = "lightstep/sdk/metric/aggregator/aggregation"
	mData   = "lightstep/sdk/metric/data"
	mNumber = "lightstep/sdk/metric/number"
	mInst   = "lightstep/sdk/metric/sdkinstrument"
	mViewP  = "lightstep/sdk/metric/view"
	mPipe   = "lightstep/sdk/metric/internal/pipeline"
	mExport = "lightstep/sdk/metric/internal/export"
	mLaunch = "launcher"
	mPls    = "pipelines"
)

// atomicOp classifies sync/atomic operations in both the function and the
// method form; args are addr followed by operands in either case.
func atomicOp(ci CallInfo) (op string, ok bool) {
	if ci.Callee == nil {
		return "", false
	}
	n := fullName(ci.Callee)
	if !strings.HasPrefix(n, "sync/atomic.") {
		return "", false
	}
	n = strings.TrimPrefix(n, "sync/atomic.")
	if i := strings.IndexByte(n, '.'); i >= 0 {
		switch n[i+1:] {
		case "Load":
			return "load", true
		case "Store":
			return "store", true
		case "Add":
			return "add", true
		case "CompareAndSwap":
			return "cas", true
		case "Swap":
			return "swap", true
		}
		return "", false
	}
	for _, p := range [][2]string{{"Load", "load"}, {"Store", "store"}, {"Add", "add"}, {"CompareAndSwap", "cas"}, {"Swap", "swap"}} {
		if strings.HasPrefix(n, p[0]) {
			return p[1], true
		}
	}
	return "", false
}

// lockOp classifies mutex operations: Lock, Unlock, RLock, RUnlock, TryLock.
func lockOp(callee *ssa.Function) string {
	if callee == nil {
		return ""
	}
	switch fullName(callee) {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		return "Lock"
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		return "Unlock"
	case "sync.RWMutex.RLock":
		return "RLock"
	case "sync.RWMutex.RUnlock":
		return "RUnlock"
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock":
		return "TryLock"
	}
	return ""
}

// lastField returns the innermost field of an address/field term.
func lastField(t *Term) *types.Var {
	for t != nil {
		switch t.Op {
		case "&", "conv", "iface":
			t = t.Args[0]
		case "field":
			return t.Fld
		default:
			return nil
		}
	}
	return nil
}

// baseOf strips one field (and &) off a field term.
func baseOf(t *Term) *Term {
	t = t.NoAddr()
	if t.Op == "field" {
		return t.Args[0]
	}
	return t
}

// fieldOrigin maps a field of an instantiated generic struct to a stable key.
func fieldKey(v *types.Var) string {
	if v == nil {
		return ""
	}
	if v.Origin() != nil {
		v = v.Origin()
	}
	p := ""
	if v.Pkg() != nil {
		p = v.Pkg().Path()
	}
	return p + "." + v.Name() + "@" + itoa(int(v.Pos()))
}

func itoa(i int) string { return constant.MakeInt64(int64(i)).ExactString() }

func constInt(t *Term) (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	if t.C == nil {
		if t.Sub == "zero" {
			return 0, true
		}
		return 0, false
	}
	if v := constant.ToInt(t.C); v.Kind() == constant.Int {
		return constant.Int64Val(v)
	}
	return 0, false
}

func constBool(t *Term) (val, ok bool) {
	if t == nil || t.Op != "const" {
		return false, false
	}
	if t.C == nil {
		return false, t.Sub == "zero"
	}
	if t.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.C), true
}

func factInt(i int64) Fact { return Fact{K: FConst, C: constant.MakeInt64(i)} }
func factBool(b bool) Fact { return Fact{K: FConst, C: constant.MakeBool(b)} }

// callsIn lists every call instruction of fn (incl. go/defer).
func callsIn(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// implementers: named repo types (or pointers) implementing iface, non-generic.
func (p *Prog) localNamed() []*types.Named {
	var out []*types.Named
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nm, ok := tn.Type().(*types.Named); ok {
					out = append(out, nm)
				}
			}
		}
	}
	return out
}

// instances of a (generic or plain) repo method/function by origin.
func (p *Prog) instancesOf(origin func(f *ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.all {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		if rc := f.Signature.Recv(); rc != nil && f.Origin() == nil {
			if n := namedOf(rc.Type()); n != nil && n.TypeParams().Len() > 0 && n.TypeArgs().Len() == 0 {
				continue
			}
		}
		if origin(f) {
			out = append(out, f)
		}
	}
	return dedupInst(out)
}

func (p *Prog) repoName(rel, rest string) string { return p.Module + "/" + rel + "." + rest }

// dedupInst keeps, for each generic origin, one instance per distinct set of
// callees: instances whose bodies call the same origins are alike.
func dedupInst(fs []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[string]bool{}
	for _, f := range fs {
		if f.Origin() == nil {
			out = append(out, f)
			continue
		}
		k := f.Origin().String()
		if len(f.TypeArgs()) > 0 {
			k += "|" + f.TypeArgs()[0].String()
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, f)
	}
	return out
}

// reach: functions (transitively through static repo calls, closures and
// goroutines) that contain an instruction satisfying pred.
type reach struct {
	p    *Prog
	pred func(ssa.Instruction) bool
	memo map[*ssa.Function]int // 1 in progress, 2 no, 3 yes
}

func newReach(p *Prog, pred func(ssa.Instruction) bool) *reach {
	return &reach{p, pred, map[*ssa.Function]int{}}
}

func (r *reach) has(fn *ssa.Function) bool {
	switch r.memo[fn] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	r.memo[fn] = 1
	res := false
	var seen = map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 && !res {
		f := work[0]
		work = work[1:]
		if r.memo[f] == 3 {
			res = true
			break
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r.pred(in) {
					res = true
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && r.p.isLocal(g) && !seen[g] {
						seen[g] = true
						work = append(work, g)
					}
				}
			}
		}
	}
	r.memo[fn] = 2
	if res {
		r.memo[fn] = 3
	}
	return res
}

// inlineRelevant enters only repo functions from which a relevant instruction is reachable.
func inlineRelevant(p *Prog, pred func(ssa.Instruction) bool) func(*Frame, ssa.CallInstruction, *ssa.Function) bool {
	r := newReach(p, pred)
	return func(fr *Frame, c ssa.CallInstruction, cal *ssa.Function) bool {
		return p.isLocal(cal) && (r.has(cal) || p.pureLeaf(cal))
	}
}

// pureLeaf: a small local function that only computes its result: no loops,
// no calls (but builtins and other small leaves), no stores outside its frame.
func (p *Prog) pureLeaf(f *ssa.Function) bool {
	if p.leaves == nil {
		p.leaves = map[*ssa.Function]bool{}
	}
	if v, ok := p.leaves[f]; ok {
		return v
	}
	p.leaves[f] = false
	p.leaves[f] = p.isPureLeaf(f)
	return p.leaves[f]
}

func (p *Prog) isPureLeaf(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 8 || f.Signature.Results().Len() == 0 || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.MakeClosure:
				return false
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if al, ok := a.(*ssa.Alloc); !ok || al.Heap {
					return false
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !p.isLocal(g) || !p.pureLeaf(g) {
					return false
				}
			}
		}
	}
	return true
}

// isInvokeOf reports a dynamic call of one of the named methods.
func isInvokeOf(in ssa.Instruction, names ...string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || !c.Common().IsInvoke() {
		return false
	}
	for _, n := range names {
		if c.Common().Method.Name() == n {
			return true
		}
	}
	return false
}

func isAtomic(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	_, ok = atomicCallOp(c)
	return ok
}

func isLockCall(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && lockOp(c.Common().StaticCallee()) != ""
}

// hasInstr: fn itself contains such an instruction.
func hasInstr(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	return false
}

// tupT is the type of one element, an invalid type when there is none.
func tupT(t *types.Tuple, i int) types.Type {
	if i < 0 || i >= t.Len() {
		return types.Typ[types.Invalid]
	}
	return t.At(i).Type()
}
