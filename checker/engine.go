package main

// Path-sensitive (ESP-style) typestate dataflow over the inlined SSA of an
// entry function.  A dataflow fact is a pair (automaton value A, finite map of
// known scalar/alias facts).  Facts are never joined across different
// automaton values; a block is re-visited only for states not seen before, so
// the iteration is a fixpoint over a finite lattice.  Calls to functions whose
// body belongs to the repository are entered (so extracting or inlining a
// helper does not change the result); everything else is an event handed to
// the rule.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	ID     int
	Fn     *ssa.Function
	Parent *Frame
	Site   ssa.Instruction
	Args   []VRef
	Free   []VRef
	Depth  int
	// InLoop: the call site (or an ancestor's) sits in a loop
	live *liveness
}

type VRef struct {
	F *Frame
	V ssa.Value
}

type FKind uint8

const (
	FConst FKind = iota // C (nil constant.Value means typed nil)
	FNil
	FNonNil
	FZero
	FSym // Ref
)

type Fact struct {
	K   FKind
	C   constant.Value
	Ref VRef
}

func (f Fact) str() string {
	switch f.K {
	case FConst:
		return "=" + f.C.ExactString()
	case FNil:
		return "nil"
	case FNonNil:
		return "!nil"
	case FZero:
		return "zero"
	default:
		return fmt.Sprintf("~%d.%s", f.Ref.F.ID, f.Ref.V.Name())
	}
}

// Facts is an immutable map.
type Facts struct {
	m   map[string]Fact
	key string
}

var emptyFacts = &Facts{m: map[string]Fact{}}

func (f *Facts) Key() string {
	if f.key == "" && len(f.m) > 0 {
		ks := make([]string, 0, len(f.m))
		for k := range f.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		for _, k := range ks {
			b.WriteString(k)
			b.WriteString(f.m[k].str())
			b.WriteByte(';')
		}
		f.key = b.String()
	}
	return f.key
}

func (f *Facts) clone() *Facts {
	n := make(map[string]Fact, len(f.m)+1)
	for k, v := range f.m {
		n[k] = v
	}
	return &Facts{m: n}
}

func under(k, prefix string) bool {
	return len(k) >= len(prefix) && k[:len(prefix)] == prefix &&
		(len(k) == len(prefix) || k[len(prefix)] == '/')
}

func (f *Facts) set(k string, v Fact) *Facts {
	if o, ok := f.m[k]; ok && o.str() == v.str() {
		return f
	}
	n := f.clone()
	n.m[k] = v
	return n
}

func (f *Facts) killPrefix(p string) *Facts {
	hit := false
	for k := range f.m {
		if under(k, p) {
			hit = true
			break
		}
	}
	if !hit {
		return f
	}
	n := &Facts{m: map[string]Fact{}}
	for k, v := range f.m {
		if !under(k, p) {
			n.m[k] = v
		}
	}
	return n
}

// State of the dataflow.
type State struct {
	A      any // comparable automaton value
	F      *Facts
	Defers string // encoded stack of pending defers of live frames
	defs   []deferRec
}

type deferRec struct {
	F *Frame
	D *ssa.Defer
}

func (s State) key() string { return fmt.Sprintf("%v|%s|%s", s.A, s.Defers, s.F.Key()) }

type step struct {
	prev *step
	pos  string
}

type pstate struct {
	State
	tr *step
}

// Ctx is handed to rule hooks.
type Ctx struct {
	E     *Engine
	F     *Frame
	In    ssa.Instruction
	St    *State
	tr    *step
	forks []forkOut
	stop  bool
	skip  bool
	pre   *Facts // facts before the branch assumption
}

type forkOut struct {
	A    any
	Res  map[int]Fact // result facts, index 0.. (0 for single result)
	Stop bool
}

func (c *Ctx) A() any      { return c.St.A }
func (c *Ctx) Set(a any)   { c.St.A = a }
func (c *Ctx) Stop()       { c.stop = true }
func (c *Ctx) Opaque()     { c.skip = true } // do not inline this call
func (c *Ctx) Pos() string { return c.E.P.posOf(c.In) }

// Fork replaces the successor with several outcomes of an opaque call.
func (c *Ctx) Fork(a any, res map[int]Fact) { c.forks = append(c.forks, forkOut{A: a, Res: res}) }

// Trace lists the source positions of the decisions leading here.
func (c *Ctx) Trace() []string {
	var out []string
	last := ""
	for s := c.tr; s != nil; s = s.prev {
		if s.pos != last {
			out = append(out, s.pos)
		}
		last = s.pos
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 60 {
		out = append(out[:30], out[len(out)-30:]...)
	}
	return out
}

// T resolves a value of the current frame under the current facts.
func (c *Ctx) T(v ssa.Value) *Term {
	f := c.St.F
	if c.pre != nil {
		f = c.pre
	}
	return c.E.term(VRef{c.F, v}, f, 0)
}

// Arg returns the i-th argument term of the call at c.In (receiver first for static methods).
func (c *Ctx) Arg(i int) *Term {
	ci := c.In.(ssa.CallInstruction)
	cc := ci.Common()
	if i >= len(cc.Args) {
		return &Term{Op: "none"}
	}
	return c.T(cc.Args[i])
}

type Hooks struct {
	Inline  func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool
	Call    func(c *Ctx, ci CallInfo)
	Instr   func(c *Ctx)
	Branch  func(c *Ctx, cond ssa.Value, taken bool)
	Exit    func(c *Ctx, results []ssa.Value, panicking bool)
	Eval    func(e *Engine, f *Facts, r VRef) (Fact, bool)
	Return  func(c *Ctx, fr *Frame) // on return from an inlined frame (c.F is the callee frame)
	EvalCmp func(e *Engine, f *Facts, r VRef) (constant.Value, bool)
	// Edge runs when control passes from->to, before to's phis are bound;
	// pred is the index of from in to.Preds.
	Edge func(c *Ctx, from, to *ssa.BasicBlock, pred int)
}

// CallInfo describes a call event.
type CallInfo struct {
	Site    ssa.CallInstruction
	Callee  *ssa.Function // static or resolved callee, nil when dynamic
	Invoke  bool
	Method  string // invoked method or function name
	Recv    VRef   // receiver of invoke
	Go      bool
	Defer   bool
	Common  *ssa.CallCommon
	Results ssa.Value
}

// Full is "pkgpath.Func" or "pkgpath.Type.Method" for static, "invoke Type.Method" otherwise.
func (ci CallInfo) Full() string { return callName(ci.Callee, ci.Common) }

func callName(callee *ssa.Function, cc *ssa.CallCommon) string {
	if callee != nil {
		return fullName(callee)
	}
	if cc != nil && cc.IsInvoke() {
		return "invoke " + originName(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if cc != nil {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return "builtin " + b.Name()
		}
	}
	return "dynamic"
}

func fullName(f *ssa.Function) string {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	name := o.Name()
	if recv := o.Signature.Recv(); recv != nil {
		return originName(recv.Type()) + "." + name
	}
	if o.Parent() != nil {
		return fullName(o.Parent()) + "$" + name
	}
	if o.Pkg != nil {
		return o.Pkg.Pkg.Path() + "." + name
	}
	if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path() + "." + name
	}
	return name
}

type Engine struct {
	P         *Prog
	H         Hooks
	frames    map[string]*Frame
	nframes   int
	memo      map[string][]exit
	Visited   int
	Budget    int
	Exceeded  bool
	MaxDepth  int
	entry     *Frame
	liveC     map[*ssa.Function]*liveness
	loopC     map[*ssa.Function]map[*ssa.BasicBlock]bool
	Funcs     map[*ssa.Function]bool // functions whose bodies were analysed
	KeepAll   bool                   // keep alias facts for every phi
	DeferHeld bool
}

type exit struct {
	st      pstate
	results map[int][]factKV // result index -> facts (relative paths)
	refs    []ssa.Value
	panics  bool
}

type factKV struct {
	path string
	f    Fact
}

// theEngine is the engine currently running.
var theEngine *Engine

func newEngine(p *Prog, h Hooks) *Engine {
	return &Engine{P: p, H: h, frames: map[string]*Frame{}, memo: map[string][]exit{}, Budget: 400000, MaxDepth: 14,
		liveC: map[*ssa.Function]*liveness{}, loopC: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, Funcs: map[*ssa.Function]bool{}}
}

func (e *Engine) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function, args, free []VRef) *Frame {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.ID
		d = parent.Depth + 1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, site, fn)
	for _, a := range args {
		if a.F != nil {
			k += fmt.Sprintf("|%d.%s", a.F.ID, a.V.Name())
		}
	}
	for _, a := range free {
		if a.F != nil {
			k += fmt.Sprintf("|%d.%s", a.F.ID, a.V.Name())
		}
	}
	if f, ok := e.frames[k]; ok {
		return f
	}
	e.nframes++
	f := &Frame{ID: e.nframes, Fn: fn, Parent: parent, Site: site, Args: args, Free: free, Depth: d, live: e.liveness(fn)}
	e.frames[k] = f
	return f
}

// Run analyses entry from initial automaton value a0.
func (e *Engine) Run(entry *ssa.Function, a0 any) { e.RunWith(entry, a0, nil) }

func (e *Engine) RunWith(entry *ssa.Function, a0 any, init map[string]Fact) {
	theEngine = e
	if entry == nil || len(entry.Blocks) == 0 {
		return
	}
	fr := e.frame(nil, nil, entry, nil, nil)
	e.entry = fr
	st := State{A: a0, F: emptyFacts}
	for k, v := range init {
		st.F = st.F.set(fmt.Sprintf("v%d.%s", fr.ID, k), v)
	}
	for _, x := range e.run(fr, pstate{State: st}) {
		if e.H.Exit != nil {
			s := x.st.State
			ret := fr.Fn.Blocks[0].Instrs[0]
			c := &Ctx{E: e, F: fr, In: ret, St: &s, tr: x.st.tr}
			e.H.Exit(c, x.refs, x.panics)
		}
	}
}

// ---- facts about values ----

func (e *Engine) strip(r VRef) VRef {
	for i := 0; i < 64; i++ {
		switch x := r.V.(type) {
		case *ssa.Parameter:
			if r.F.Args != nil {
				for i, p := range r.F.Fn.Params {
					if p == x && i < len(r.F.Args) && r.F.Args[i].F != nil {
						r = r.F.Args[i]
						goto next
					}
				}
			}
			return r
		case *ssa.FreeVar:
			for i, p := range r.F.Fn.FreeVars {
				if p == x && i < len(r.F.Free) && r.F.Free[i].F != nil {
					r = r.F.Free[i]
					goto next
				}
			}
			return r
		case *ssa.ChangeType:
			r.V = x.X
		case *ssa.MakeInterface:
			r.V = x.X
		case *ssa.ChangeInterface:
			r.V = x.X
		default:
			return r
		}
	next:
	}
	return r
}

func vkey(r VRef) string { return fmt.Sprintf("v%d.%s", r.F.ID, r.V.Name()) }

// lookup finds the fact for value r (following Sym chains for scalars).
func (e *Engine) lookup(f *Facts, r VRef) (Fact, bool) {
	for i := 0; i < 20; i++ {
		r = e.strip(r)
		if c, ok := r.V.(*ssa.Const); ok {
			if c.Value == nil {
				if isNilable(c.Type()) {
					return Fact{K: FNil}, true
				}
				return Fact{K: FZero}, true
			}
			return Fact{K: FConst, C: c.Value}, true
		}
		if e.H.Eval != nil {
			if ft, ok := e.H.Eval(e, f, r); ok {
				return ft, true
			}
		}
		switch r.V.(type) {
		case *ssa.Function, *ssa.MakeClosure, *ssa.Alloc, *ssa.FieldAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Global:
			return Fact{K: FNonNil}, true
		}
		ft, ok := f.m[vkey(r)]
		if !ok {
			return Fact{}, false
		}
		if ft.K == FSym {
			r = ft.Ref
			continue
		}
		return ft, true
	}
	return Fact{}, false
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// constOf returns the scalar constant known for r.
func (e *Engine) constOf(f *Facts, r VRef) (constant.Value, bool) {
	if e.H.EvalCmp != nil {
		if c, ok := e.H.EvalCmp(e, f, e.strip(r)); ok {
			return c, true
		}
	}
	ft, ok := e.lookup(f, r)
	if ok {
		switch ft.K {
		case FConst:
			return ft.C, true
		case FZero:
			return zeroConst(r.V.Type())
		}
	}
	r = e.strip(r)
	switch x := r.V.(type) {
	case *ssa.BinOp:
		return e.foldBin(f, r.F, x)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if c, ok := e.constOf(f, VRef{r.F, x.X}); ok && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c)), true
			}
		}
		if x.Op == token.SUB {
			if c, ok := e.constOf(f, VRef{r.F, x.X}); ok {
				return constant.UnaryOp(token.SUB, c, 0), true
			}
		}
	case *ssa.Convert:
		if c, ok := e.constOf(f, VRef{r.F, x.X}); ok {
			if b, okb := x.Type().Underlying().(*types.Basic); okb && b.Info()&types.IsInteger != 0 && c.Kind() == constant.Int {
				return c, true
			}
			if b, okb := x.Type().Underlying().(*types.Basic); okb && b.Info()&types.IsString != 0 && c.Kind() == constant.String {
				return c, true
			}
		}
	}
	return nil, false
}

func zeroConst(t types.Type) (constant.Value, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false), true
		case b.Info()&types.IsInteger != 0:
			return constant.MakeInt64(0), true
		case b.Info()&types.IsFloat != 0:
			return constant.MakeFloat64(0), true
		case b.Info()&types.IsString != 0:
			return constant.MakeString(""), true
		}
	}
	return nil, false
}

// boxed: r is an interface made from a value that cannot be nil.
func (e *Engine) boxed(f *Facts, r VRef) (VRef, bool) {
	for i := 0; i < 40; i++ {
		switch x := r.V.(type) {
		case *ssa.MakeInterface:
			if !isNilable(x.X.Type()) {
				return r, true
			}
			return r, false
		case *ssa.ChangeInterface:
			r.V = x.X
			continue
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				switch fullName(g) {
				case "fmt.Errorf", "errors.New":
					return r, true
				}
			}
		case *ssa.Parameter, *ssa.FreeVar:
			n := e.strip1(r)
			if n == r {
				break
			}
			r = n
			continue
		}
		if ft, ok := f.m[vkey(r)]; ok && ft.K == FSym {
			r = ft.Ref
			continue
		}
		return r, false
	}
	return r, false
}

// strip1 replaces a parameter or free variable by the argument bound to it.
func (e *Engine) strip1(r VRef) VRef {
	switch x := r.V.(type) {
	case *ssa.Parameter:
		for i, p := range r.F.Fn.Params {
			if p == x && i < len(r.F.Args) && r.F.Args[i].F != nil {
				return r.F.Args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range r.F.Fn.FreeVars {
			if p == x && i < len(r.F.Free) && r.F.Free[i].F != nil {
				return r.F.Free[i]
			}
		}
	}
	return r
}

func (e *Engine) nilness(f *Facts, r VRef) (isNil, known bool) {
	if _, ok := e.boxed(f, r); ok {
		return false, true
	}
	ft, ok := e.lookup(f, r)
	if !ok {
		return false, false
	}
	switch ft.K {
	case FNil:
		return true, true
	case FNonNil:
		return false, true
	case FZero:
		return true, isNilable(r.V.Type())
	case FConst:
		return false, true
	}
	return false, false
}

func (e *Engine) foldBin(f *Facts, fr *Frame, b *ssa.BinOp) (constant.Value, bool) {
	switch b.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		x, okx := e.constOf(f, VRef{fr, b.X})
		y, oky := e.constOf(f, VRef{fr, b.Y})
		if okx && oky && x.Kind() != constant.Unknown && y.Kind() != constant.Unknown && comparableKinds(x, y) {
			if x.Kind() == constant.Bool && b.Op != token.EQL && b.Op != token.NEQ {
				return nil, false
			}
			return constant.MakeBool(constant.Compare(x, b.Op, y)), true
		}
		if b.Op == token.EQL || b.Op == token.NEQ {
			nx, kx := e.nilness(f, VRef{fr, b.X})
			ny, ky := e.nilness(f, VRef{fr, b.Y})
			if kx && ky && isNilable(b.X.Type()) && (nx || ny) {
				eq := nx && ny
				return constant.MakeBool(eq == (b.Op == token.EQL)), true
			}
		}
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.REM, token.XOR, token.AND_NOT:
		x, okx := e.constOf(f, VRef{fr, b.X})
		y, oky := e.constOf(f, VRef{fr, b.Y})
		if okx && oky && x.Kind() == constant.Int && y.Kind() == constant.Int {
			if b.Op == token.REM && constant.Sign(y) == 0 {
				return nil, false
			}
			return constant.BinaryOp(x, b.Op, y), true
		}
		if okx && oky && x.Kind() == constant.String && y.Kind() == constant.String && b.Op == token.ADD {
			return constant.BinaryOp(x, b.Op, y), true
		}
	}
	return nil, false
}

func comparableKinds(x, y constant.Value) bool {
	num := func(k constant.Kind) bool { return k == constant.Int || k == constant.Float }
	return x.Kind() == y.Kind() || num(x.Kind()) && num(y.Kind())
}

// assume refines facts with cond==val; ok=false when contradictory.
func (e *Engine) assume(f *Facts, fr *Frame, cond ssa.Value, val bool) *Facts {
	r := e.strip(VRef{fr, cond})
	if _, isc := r.V.(*ssa.Const); isc {
		return f
	}
	// follow alias
	for i := 0; i < 10; i++ {
		if ft, ok := f.m[vkey(r)]; ok && ft.K == FSym {
			r = e.strip(ft.Ref)
			continue
		}
		break
	}
	if _, isc := r.V.(*ssa.Const); isc {
		return f
	}
	f = f.set(vkey(r), Fact{K: FConst, C: constant.MakeBool(val)})
	switch x := r.V.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.assume(f, r.F, x.X, !val)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == val
			f = e.assumeEq(f, r.F, x.X, x.Y, eq)
			f = e.assumeEq(f, r.F, x.Y, x.X, eq)
		}
	}
	return f
}

func (e *Engine) assumeEq(f *Facts, fr *Frame, v, w ssa.Value, eq bool) *Facts {
	rv := e.strip(VRef{fr, v})
	for i := 0; i < 10; i++ {
		if ft, ok := f.m[vkey(rv)]; ok && ft.K == FSym {
			rv = e.strip(ft.Ref)
			continue
		}
		break
	}
	switch rv.V.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Alloc, *ssa.Builtin:
		return f
	}
	if n, k := e.nilness(f, VRef{fr, w}); k && n && isNilable(w.Type()) {
		if eq {
			return f.set(vkey(rv), Fact{K: FNil})
		}
		return f.set(vkey(rv), Fact{K: FNonNil})
	}
	if c, ok := e.constOf(f, VRef{fr, w}); ok && eq {
		return f.set(vkey(rv), Fact{K: FConst, C: c})
	}
	return f
}

// ---- memory keys ----

// addrKey names the memory cell for address r when it is rooted in a known allocation.
func (e *Engine) addrKey(f *Facts, r VRef) (string, bool) {
	for i := 0; i < 30; i++ {
		r = e.strip(r)
		switch x := r.V.(type) {
		case *ssa.Alloc:
			return fmt.Sprintf("m%d.%s", r.F.ID, x.Name()), true
		case *ssa.FieldAddr:
			b, ok := e.addrKey(f, VRef{r.F, x.X})
			if !ok {
				return "", false
			}
			return b + "/" + fieldOf(x).Name(), true
		case *ssa.IndexAddr:
			if c, ok := e.constOf(f, VRef{r.F, x.Index}); ok && c.Kind() == constant.Int {
				b, ok := e.addrKey(f, VRef{r.F, x.X})
				if !ok {
					return "", false
				}
				return b + "/#" + c.ExactString(), true
			}
			return "", false
		}
		ft, ok := f.m[vkey(r)]
		if ok && ft.K == FSym {
			r = ft.Ref
			continue
		}
		return "", false
	}
	return "", false
}

// memGet returns facts for the cell at key: exact plus sub-paths.
func memGet(f *Facts, key string) []factKV {
	var out []factKV
	exact := false
	for k, v := range f.m {
		if under(k, key) {
			out = append(out, factKV{k[len(key):], v})
			if len(k) == len(key) {
				exact = true
			}
		}
	}
	if !exact {
		// ancestor zero
		k := key
		for {
			i := strings.LastIndexByte(k, '/')
			if i < 0 {
				break
			}
			k = k[:i]
			if v, ok := f.m[k]; ok {
				if v.K == FZero {
					out = append(out, factKV{"", Fact{K: FZero}})
				}
				break
			}
		}
	}
	return out
}

func (f *Facts) put(key string, kvs []factKV) *Facts {
	f = f.killPrefix(key)
	if len(kvs) == 0 {
		return f
	}
	n := f.clone()
	for _, kv := range kvs {
		n.m[key+kv.path] = kv.f
	}
	return n
}

// valueFacts returns the facts describing value r, to be copied elsewhere.
func (e *Engine) valueFacts(f *Facts, r VRef) []factKV {
	if b, ok := e.boxed(f, r); ok {
		return []factKV{{"", Fact{K: FSym, Ref: b}}}
	}
	r = e.strip(r)
	if ft, ok := e.lookup(f, r); ok && (ft.K == FConst || ft.K == FNil) {
		return []factKV{{"", ft}}
	}
	if c, ok := e.constOf(f, r); ok {
		return []factKV{{"", Fact{K: FConst, C: c}}}
	}
	var out []factKV
	k := vkey(r)
	for kk, v := range f.m {
		if under(kk, k) {
			out = append(out, factKV{kk[len(k):], v})
		}
	}
	for _, kv := range out {
		if kv.path == "" {
			if kv.f.K == FNonNil {
				// keep identity too
				return []factKV{{"", Fact{K: FSym, Ref: r}}}
			}
			return out
		}
	}
	if len(out) > 0 {
		return out
	}
	return []factKV{{"", Fact{K: FSym, Ref: r}}}
}

// ---- execution ----

func (e *Engine) killDef(f *Facts, fr *Frame, v ssa.Value) *Facts {
	if v == nil {
		return f
	}
	k := vkey(VRef{fr, v})
	dirty := false
	for kk, ft := range f.m {
		if under(kk, k) || ft.K == FSym && ft.Ref.F == fr && ft.Ref.V == v {
			dirty = true
			break
		}
	}
	if !dirty {
		return f
	}
	n := &Facts{m: map[string]Fact{}}
	for kk, ft := range f.m {
		if under(kk, k) || ft.K == FSym && ft.Ref.F == fr && ft.Ref.V == v {
			continue
		}
		n.m[kk] = ft
	}
	return n
}

func (e *Engine) run(fr *Frame, st0 pstate) []exit {
	mk := fmt.Sprintf("%d#%s", fr.ID, st0.key())
	if r, ok := e.memo[mk]; ok {
		return r
	}
	e.memo[mk] = nil // recursion guard
	e.Funcs[fr.Fn] = true
	var exits []exit
	seenExit := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		pred int
		st   pstate
	}
	wl := []item{{fr.Fn.Blocks[0], -1, st0}}
	visited := map[string]bool{}
	loops := e.loopHeaders(fr.Fn)
	for len(wl) > 0 {
		it := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		st := it.st
		if e.H.Edge != nil && it.pred >= 0 {
			from := it.b.Preds[it.pred]
			cx := &Ctx{E: e, F: fr, In: from.Instrs[len(from.Instrs)-1], St: &st.State, tr: st.tr}
			e.H.Edge(cx, from, it.b, it.pred)
			if cx.stop {
				continue
			}
		}
		// phis
		if it.pred >= 0 {
			st.F = e.doPhis(fr, it.b, it.pred, st.F, loops[it.b])
		}
		st.F = fr.live.prune(fr, it.b, st.F)
		vk := fmt.Sprintf("%d:%s", it.b.Index, st.key())
		if visited[vk] {
			continue
		}
		visited[vk] = true
		e.Visited++
		if e.Visited > e.Budget {
			e.Exceeded = true
			e.memo[mk] = exits
			return exits
		}
		cur := []pstate{st}
		var term ssa.Instruction
		for _, in := range it.b.Instrs {
			switch in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				term = in
			default:
				var next []pstate
				seen := map[string]bool{}
				for _, s := range cur {
					for _, o := range e.exec(fr, in, s) {
						k := o.key()
						if !seen[k] {
							seen[k] = true
							next = append(next, o)
						}
					}
				}
				cur = next
			}
			if len(cur) == 0 {
				break
			}
		}
		if len(cur) == 0 {
			continue
		}
		for _, s := range cur {
			switch t := term.(type) {
			case *ssa.Jump:
				wl = append(wl, item{it.b.Succs[0], predIndex(it.b.Succs[0], it.b, 0), s})
			case *ssa.If:
				pos := e.P.posOf(t)
				if c, ok := e.constOf(s.F, VRef{fr, t.Cond}); ok && c.Kind() == constant.Bool {
					i := 1
					if constant.BoolVal(c) {
						i = 0
					}
					ns := s
					ns.tr = &step{s.tr, fmt.Sprintf("%s[%v]", pos, i == 0)}
					if e.H.Branch != nil {
						cx := &Ctx{E: e, F: fr, In: t, St: &ns.State, tr: ns.tr}
						e.H.Branch(cx, t.Cond, i == 0)
						if cx.stop {
							continue
						}
					}
					wl = append(wl, item{it.b.Succs[i], predIndex(it.b.Succs[i], it.b, i), ns})
					continue
				}
				for i, val := range []bool{true, false} {
					ns := s
					ns.F = e.assume(s.F, fr, t.Cond, val)
					ns.tr = &step{s.tr, fmt.Sprintf("%s[%v]", pos, val)}
					if e.H.Branch != nil {
						cx := &Ctx{E: e, F: fr, In: t, St: &ns.State, tr: ns.tr, pre: s.F}
						e.H.Branch(cx, t.Cond, val)
						if cx.stop {
							continue
						}
					}
					wl = append(wl, item{it.b.Succs[i], predIndex(it.b.Succs[i], it.b, i), ns})
				}
			case *ssa.Return:
				if e.H.Instr != nil {
					cx := &Ctx{E: e, F: fr, In: t, St: &s.State, tr: s.tr}
					e.H.Instr(cx)
					if cx.stop {
						continue
					}
				}
				if e.H.Return != nil {
					cx := &Ctx{E: e, F: fr, In: t, St: &s.State, tr: s.tr}
					e.H.Return(cx, fr)
				}
				x := exit{st: s, results: map[int][]factKV{}, refs: t.Results}
				sig := ""
				for i, rv := range t.Results {
					x.results[i] = e.valueFacts(s.F, VRef{fr, rv})
					for _, kv := range x.results[i] {
						sig += fmt.Sprint(i, kv.path, kv.f.str())
					}
				}
				k := s.key() + sig
				if !seenExit[k] {
					seenExit[k] = true
					exits = append(exits, x)
				}
			case *ssa.Panic:
				if e.H.Instr != nil {
					cx := &Ctx{E: e, F: fr, In: t, St: &s.State, tr: s.tr}
					e.H.Instr(cx)
				}
				k := s.key() + "panic"
				if !seenExit[k] {
					seenExit[k] = true
					exits = append(exits, exit{st: s, panics: true})
				}
			}
		}
	}
	e.memo[mk] = exits
	return exits
}

func predIndex(b, pred *ssa.BasicBlock, which int) int {
	// handle the (rare) double edge
	first := -1
	for i, p := range b.Preds {
		if p == pred {
			if first < 0 {
				first = i
				if len(pred.Succs) < 2 || pred.Succs[0] != pred.Succs[1] || which == 0 {
					return i
				}
			} else {
				return i
			}
		}
	}
	return first
}

func (e *Engine) doPhis(fr *Frame, b *ssa.BasicBlock, pred int, f *Facts, isLoop bool) *Facts {
	type upd struct {
		phi *ssa.Phi
		kvs []factKV
	}
	var ups []upd
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r := VRef{fr, phi.Edges[pred]}
		kvs := e.valueFacts(f, r)
		if isLoop {
			var keep []factKV
			for _, kv := range kvs {
				switch kv.f.K {
				case FConst:
					if kv.f.C.Kind() == constant.Bool || kv.f.C.Kind() == constant.String {
						keep = append(keep, kv)
					}
				case FNil:
					keep = append(keep, kv)
				case FNonNil, FZero:
					keep = append(keep, kv)
				case FSym:
					// identity across iterations is not tracked, nilness is
					if ft, ok := e.lookup(f, kv.f.Ref); ok && ft.K == FNonNil {
						keep = append(keep, factKV{kv.path, Fact{K: FNonNil}})
					}
				}
			}
			kvs = keep
		}
		ups = append(ups, upd{phi, kvs})
	}
	for _, u := range ups {
		f = e.killDef(f, fr, u.phi)
	}
	for _, u := range ups {
		// drop self references
		var kvs []factKV
		for _, kv := range u.kvs {
			if kv.f.K == FSym && kv.f.Ref.F == fr {
				if p2, ok := kv.f.Ref.V.(*ssa.Phi); ok && p2.Block() == b {
					continue
				}
			}
			kvs = append(kvs, kv)
		}
		f = f.put(vkey(VRef{fr, u.phi}), kvs)
	}
	return f
}

func (e *Engine) loopHeaders(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := e.loopC[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m[s] = true
			}
		}
	}
	e.loopC[fn] = m
	return m
}

func (e *Engine) exec(fr *Frame, in ssa.Instruction, s pstate) []pstate {
	if v, ok := in.(ssa.Value); ok {
		s.F = e.killDef(s.F, fr, v)
	}
	if e.H.Instr != nil {
		if _, isCall := in.(ssa.CallInstruction); !isCall {
			c := &Ctx{E: e, F: fr, In: in, St: &s.State, tr: s.tr}
			e.H.Instr(c)
			if c.stop {
				return nil
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		k := fmt.Sprintf("m%d.%s", fr.ID, x.Name())
		s.F = s.F.put(k, []factKV{{"", Fact{K: FZero}}})
	case *ssa.Store:
		if k, ok := e.addrKey(s.F, VRef{fr, x.Addr}); ok {
			s.F = s.F.put(k, e.valueFacts(s.F, VRef{fr, x.Val}))
		} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if k, ok := e.addrKey(s.F, VRef{fr, ia.X}); ok {
				s.F = s.F.killPrefix(k)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, ok := e.addrKey(s.F, VRef{fr, x.X}); ok {
				kvs := memGet(s.F, k)
				s.F = s.F.put(vkey(VRef{fr, x}), kvs)
			}
		} else if c, ok := e.constOf(s.F, VRef{fr, x}); ok {
			s.F = s.F.put(vkey(VRef{fr, x}), []factKV{{"", Fact{K: FConst, C: c}}})
		}
	case *ssa.Field:
		k := vkey(e.strip(VRef{fr, x.X})) + "/" + fieldOf(x).Name()
		kvs := memGet(s.F, k)
		if len(kvs) > 0 {
			s.F = s.F.put(vkey(VRef{fr, x}), kvs)
		} else if ft, ok := s.F.m[vkey(e.strip(VRef{fr, x.X}))]; ok && ft.K == FSym {
			k := vkey(e.strip(ft.Ref)) + "/" + fieldOf(x).Name()
			if kvs := memGet(s.F, k); len(kvs) > 0 {
				s.F = s.F.put(vkey(VRef{fr, x}), kvs)
			}
		}
	case *ssa.BinOp:
		if c, ok := e.constOf(s.F, VRef{fr, x}); ok {
			s.F = s.F.put(vkey(VRef{fr, x}), []factKV{{"", Fact{K: FConst, C: c}}})
		}
	case *ssa.Convert:
		if c, ok := e.constOf(s.F, VRef{fr, x}); ok {
			s.F = s.F.put(vkey(VRef{fr, x}), []factKV{{"", Fact{K: FConst, C: c}}})
		}
	case *ssa.Extract:
		k := vkey(VRef{fr, x.Tuple}) + fmt.Sprintf("/%%%d", x.Index)
		kvs := memGet(s.F, k)
		if len(kvs) > 0 {
			s.F = s.F.put(vkey(VRef{fr, x}), kvs)
		}
	case *ssa.TypeAssert:
		// asserting keeps identity; handled in term()
	case *ssa.Defer:
		s.defs = append(append([]deferRec{}, s.defs...), deferRec{fr, x})
		s.Defers += fmt.Sprintf("%d.%p,", fr.ID, x)
		return e.doCall(fr, x, s, true)
	case *ssa.RunDefers:
		return e.runDefers(fr, s)
	case *ssa.Call:
		return e.doCall(fr, x, s, false)
	case *ssa.Go:
		return e.doCall(fr, x, s, false)
	}
	return []pstate{s}
}

func (e *Engine) runDefers(fr *Frame, s pstate) []pstate {
	n := len(s.defs)
	if n == 0 || s.defs[n-1].F != fr {
		return []pstate{s}
	}
	d := s.defs[n-1]
	s.defs = s.defs[:n-1]
	s.Defers = ""
	for _, x := range s.defs {
		s.Defers += fmt.Sprintf("%d.%p,", x.F.ID, x.D)
	}
	var out []pstate
	for _, o := range e.invoke(fr, d.D, s, true) {
		out = append(out, e.runDefers(fr, o)...)
	}
	return out
}

// doCall handles call/go/defer instructions at their program point.
func (e *Engine) doCall(fr *Frame, in ssa.CallInstruction, s pstate, isDefer bool) []pstate {
	if isDefer {
		// only registration; args are evaluated now
		if e.H.Instr != nil {
			c := &Ctx{E: e, F: fr, In: in, St: &s.State, tr: s.tr}
			e.H.Instr(c)
			if c.stop {
				return nil
			}
		}
		return []pstate{s}
	}
	return e.invoke(fr, in, s, false)
}

// resolveCallee finds the function value a call goes to.
func (e *Engine) resolveCallee(fr *Frame, f *Facts, cc *ssa.CallCommon) (*ssa.Function, []VRef, *ssa.CallCommon, VRef) {
	if cc.IsInvoke() {
		return nil, nil, nil, VRef{fr, cc.Value}
	}
	r := VRef{fr, cc.Value}
	for i := 0; i < 20; i++ {
		r = e.strip(r)
		switch x := r.V.(type) {
		case *ssa.Function:
			return x, nil, nil, r
		case *ssa.MakeClosure:
			var free []VRef
			for _, b := range x.Bindings {
				free = append(free, VRef{r.F, b})
			}
			return x.Fn.(*ssa.Function), free, nil, r
		case *ssa.UnOp:
			// load of a closure variable
			if x.Op == token.MUL {
				if al, ok := e.strip(VRef{r.F, x.X}).V.(*ssa.Alloc); ok {
					var st *ssa.Store
					cnt := 0
					for _, u := range *al.Referrers() {
						if ss, ok := u.(*ssa.Store); ok && ss.Addr == al {
							st = ss
							cnt++
						}
					}
					if cnt == 1 {
						r = VRef{e.strip(VRef{r.F, x.X}).F, st.Val}
						continue
					}
				}
			}
		}
		ft, ok := f.m[vkey(r)]
		if ok && ft.K == FSym {
			r = ft.Ref
			continue
		}
		break
	}
	return nil, nil, nil, r
}

func (e *Engine) invoke(fr *Frame, in ssa.CallInstruction, s pstate, deferred bool) []pstate {
	cc := in.Common()
	callee, free, _, recv := e.resolveCallee(fr, s.F, cc)
	_, isGo := in.(*ssa.Go)
	ci := CallInfo{Site: in, Callee: callee, Common: cc, Invoke: cc.IsInvoke(), Go: isGo, Defer: deferred, Recv: recv}
	if v := in.Value(); v != nil {
		ci.Results = v
	}
	switch {
	case cc.IsInvoke():
		ci.Method = cc.Method.Name()
	case callee != nil:
		ci.Method = callee.Name()
	default:
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			ci.Method = "builtin:" + b.Name()
		}
	}
	c := &Ctx{E: e, F: fr, In: in, St: &s.State, tr: s.tr}
	if e.H.Call != nil {
		e.H.Call(c, ci)
		if c.stop {
			return nil
		}
		if len(c.forks) > 0 {
			var out []pstate
			for _, fo := range c.forks {
				n := s
				n.A = fo.A
				n.tr = &step{s.tr, e.P.posOf(in)}
				if v := in.Value(); v != nil {
					n.F = e.bindRes(n.F, fr, v, fo.Res)
				}
				out = append(out, n)
			}
			return out
		}
	}
	if callee != nil && !c.skip && !isGo && len(callee.Blocks) > 0 && e.shouldInline(fr, in, callee) {
		var args []VRef
		for _, a := range cc.Args {
			args = append(args, VRef{fr, a})
		}
		nf := e.frame(fr, in, callee, args, free)
		var out []pstate
		for _, x := range e.run(nf, s) {
			if x.panics {
				continue
			}
			n := x.st
			if v := in.Value(); v != nil && !deferred {
				if len(x.refs) == 1 {
					n.F = n.F.put(vkey(VRef{fr, v}), x.results[0])
				} else {
					for i := range x.refs {
						n.F = n.F.put(vkey(VRef{fr, v})+fmt.Sprintf("/%%%d", i), x.results[i])
					}
				}
			}
			n.F = e.dropFrame(n.F, nf)
			out = append(out, n)
		}
		return out
	}
	// sync.Once.Do(f): f runs now or ran before
	if callee != nil && fullName(callee) == "sync.Once.Do" && len(cc.Args) == 2 {
		fr2, free2, _, _ := e.resolveCallee(fr, s.F, &ssa.CallCommon{Value: cc.Args[1]})
		out := []pstate{s}
		if fr2 != nil && len(fr2.Blocks) > 0 {
			nf := e.frame(fr, in, fr2, nil, free2)
			for _, x := range e.run(nf, s) {
				if !x.panics {
					n := x.st
					n.F = e.dropFrame(n.F, nf)
					out = append(out, n)
				}
			}
		}
		return out
	}
	// opaque call: pointers to tracked allocations passed in may be modified
	if callee == nil || !pureCallee(callee) {
		for i, a := range cc.Args {
			if k, ok := e.addrKey(s.F, VRef{fr, a}); ok && (callee == nil || e.P.writesParam(callee, i)) {
				s.F = s.F.killPrefix(k)
			}
		}
	}
	return []pstate{s}
}

// writesParam reports whether fn may store through, or keep, the pointer it is
// given as parameter i.  Functions without a body are assumed to.
func (p *Prog) writesParam(fn *ssa.Function, i int) bool {
	if len(fn.Blocks) == 0 || i >= len(fn.Params) {
		return true
	}
	if p.wparam == nil {
		p.wparam = map[*ssa.Parameter]int{}
	}
	pr := fn.Params[i]
	switch p.wparam[pr] {
	case 1, 2: // 1: in progress, a recursive call
		return true
	case 3:
		return false
	}
	p.wparam[pr] = 1
	w := p.writesThrough(pr, 0)
	if w {
		p.wparam[pr] = 2
	} else {
		p.wparam[pr] = 3
	}
	return w
}

func (p *Prog) writesThrough(v ssa.Value, d int) bool {
	if d > 10 || v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			return true
		case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.FieldAddr:
			if p.writesThrough(x, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if p.writesThrough(x, d+1) {
				return true
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return true
			}
			for i, a := range x.Call.Args {
				if a == v && p.writesParam(g, i) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (e *Engine) bindRes(f *Facts, fr *Frame, v ssa.Value, res map[int]Fact) *Facts {
	_, tup := v.Type().(*types.Tuple)
	for i, ft := range res {
		if tup {
			f = f.put(vkey(VRef{fr, v})+fmt.Sprintf("/%%%d", i), []factKV{{"", ft}})
		} else {
			f = f.put(vkey(VRef{fr, v}), []factKV{{"", ft}})
		}
	}
	return f
}

func pureCallee(f *ssa.Function) bool {
	n := fullName(f)
	return strings.HasPrefix(n, "sync/atomic.Load")
}

// dropFrame forgets register facts of a finished frame (memory facts stay).
func (e *Engine) dropFrame(f *Facts, fr *Frame) *Facts {
	p := fmt.Sprintf("v%d.", fr.ID)
	hit := false
	for k := range f.m {
		if strings.HasPrefix(k, p) {
			hit = true
			break
		}
	}
	if !hit {
		return f
	}
	n := &Facts{m: map[string]Fact{}}
	used := map[string]bool{}
	for _, v := range f.m {
		if v.K == FSym && v.Ref.F == fr {
			used[vkey(v.Ref)] = true
		}
	}
	for k, v := range f.m {
		if strings.HasPrefix(k, p) && !used[k] {
			continue
		}
		n.m[k] = v
	}
	return n
}

func (e *Engine) shouldInline(fr *Frame, in ssa.CallInstruction, callee *ssa.Function) bool {
	if fr.Depth >= e.MaxDepth {
		return false
	}
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == callee {
			return false
		}
	}
	if e.H.Inline != nil {
		return e.H.Inline(fr, in, callee)
	}
	return e.P.isLocal(callee)
}

// ---- liveness ----

type liveness struct {
	fn   *ssa.Function
	live map[*ssa.BasicBlock]map[string]bool // live-in value names
	// cells: local variables whose address stays in the function; their memory
	// is dead where no use is reachable
	cells map[string]bool
}

// localCells finds the allocations of fn whose address is not kept anywhere.
func localCells(fn *ssa.Function) map[*ssa.Alloc]bool {
	out := map[*ssa.Alloc]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && !keepsAddr(al, al.Comment == "varargs", 0) {
				out[al] = true
			}
		}
	}
	return out
}

func keepsAddr(v ssa.Value, varargs bool, d int) bool {
	if d > 8 || v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if keepsAddr(x, varargs, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if keepsAddr(x, varargs, d+1) {
				return true
			}
		case *ssa.Slice:
			if !varargs || keepsAddr(x, varargs, d+1) {
				return true
			}
		case *ssa.Call:
			if !varargs {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// cellRoot is the allocation an address is derived from.
func cellRoot(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func (e *Engine) liveness(fn *ssa.Function) *liveness {
	if l, ok := e.liveC[fn]; ok {
		return l
	}
	l := &liveness{fn: fn, live: map[*ssa.BasicBlock]map[string]bool{}, cells: map[string]bool{}}
	local := localCells(fn)
	for al := range local {
		l.cells[al.Name()] = true
	}
	use := func(set map[string]bool, v ssa.Value) {
		switch v.(type) {
		case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return
		}
		if al := cellRoot(v); al != nil && local[al] {
			set["m:"+al.Name()] = true
		}
		set[v.Name()] = true
	}
	// closed: transitively keep operands of live expression values, since
	// facts are consulted through them.
	for _, b := range fn.Blocks {
		l.live[b] = map[string]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := map[string]bool{}
			for _, s := range b.Succs {
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for k := range l.live[s] {
					set[k] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 {
						use(set, phi.Edges[pi])
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok && set[v.Name()] {
					// operands of a live derived value matter too
					delete(set, v.Name())
				}
				if al, ok := in.(*ssa.Alloc); ok {
					delete(set, "m:"+al.Name())
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						use(set, *op)
					}
				}
			}
			for k := range set {
				if !l.live[b][k] {
					l.live[b][k] = true
					changed = true
				}
			}
		}
	}
	e.liveC[fn] = l
	return l
}

// prune drops facts on dead registers of fr.  Phi results of b are live.
func (l *liveness) prune(fr *Frame, b *ssa.BasicBlock, f *Facts) *Facts {
	p := fmt.Sprintf("v%d.", fr.ID)
	live := l.live[b]
	phi := map[string]bool{}
	for _, in := range b.Instrs {
		if x, ok := in.(*ssa.Phi); ok {
			phi[x.Name()] = true
		} else {
			break
		}
	}
	var dead []string
	used := map[string]bool{}
	for _, v := range f.m {
		if v.K == FSym && v.Ref.F == fr {
			used[v.Ref.V.Name()] = true
		}
	}
	pm := fmt.Sprintf("m%d.", fr.ID)
	for k := range f.m {
		if strings.HasPrefix(k, pm) {
			n := k[len(pm):]
			if i := strings.IndexByte(n, '/'); i >= 0 {
				n = n[:i]
			}
			if l.cells[n] && !live["m:"+n] && !used[n] {
				dead = append(dead, k)
			}
			continue
		}
		if !strings.HasPrefix(k, p) {
			continue
		}
		n := k[len(p):]
		if i := strings.IndexByte(n, '/'); i >= 0 {
			n = n[:i]
		}
		if !live[n] && !phi[n] && !used[n] && !l.derivedLive(n, live, phi) {
			dead = append(dead, k)
		}
	}
	if len(dead) == 0 {
		return f
	}
	n := f.clone()
	for _, k := range dead {
		delete(n.m, k)
	}
	return n
}

// derivedLive: a parameter/register whose extract/field is still live.
func (l *liveness) derivedLive(n string, live, phi map[string]bool) bool { return false }
