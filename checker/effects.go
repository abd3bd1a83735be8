package main

// Effect summaries: for each control-flow path of a function, the values it
// returns, the values it leaves in memory and the calls it makes, as canonical
// terms over the values on entry.  A path is a sequence of branch decisions; a
// decision repeated on the same term is taken the same way.  No solver is
// involved: terms are only normalised and compared.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Ex is a value term.
type Ex struct {
	Op   string
	Sub  string
	Args []*Ex
	C    constant.Value
	Typ  types.Type
	Fn   *ssa.Function
	k    string
}

func (x *Ex) Key() string {
	if x == nil {
		return "_"
	}
	if x.k != "" {
		return x.k
	}
	var sb strings.Builder
	switch x.Op {
	case "const":
		if x.C == nil {
			sb.WriteString(x.Sub) // nil or zero:T
		} else {
			sb.WriteString(x.C.ExactString())
		}
	case "ptr":
		sb.WriteString("&" + x.Args[0].Key() + x.Sub)
	default:
		sb.WriteString(x.Op)
		if x.Sub != "" {
			sb.WriteString(":" + x.Sub)
		}
		if len(x.Args) > 0 {
			sb.WriteString("(")
			for i, a := range x.Args {
				if i > 0 {
					sb.WriteString(",")
				}
				sb.WriteString(a.Key())
			}
			sb.WriteString(")")
		}
	}
	x.k = sb.String()
	return x.k
}

func (x *Ex) is(op, sub string) bool { return x != nil && x.Op == op && x.Sub == sub }

// Any reports whether pred holds for x or a part of it.
func (x *Ex) Any(pred func(*Ex) bool) bool {
	if x == nil {
		return false
	}
	if pred(x) {
		return true
	}
	for _, a := range x.Args {
		if a.Any(pred) {
			return true
		}
	}
	return false
}

// Has reports whether the term with key k occurs in x.
func (x *Ex) Has(k string) bool { return x.Any(func(y *Ex) bool { return y.Key() == k }) }

// bare removes conversions, interface boxing and assertions.
func (x *Ex) bare() *Ex {
	for x != nil && (x.Op == "iface" || x.Op == "assert" || x.Op == "conv") {
		x = x.Args[0]
	}
	return x
}

func (x *Ex) isNil() bool { return x != nil && x.Op == "const" && x.C == nil && x.Sub == "nil" }
func (x *Ex) str() (string, bool) {
	if x != nil && x.Op == "const" && x.C != nil && x.C.Kind() == constant.String {
		return constant.StringVal(x.C), true
	}
	return "", false
}
func (x *Ex) int() (int64, bool) {
	if x != nil && x.Op == "const" && x.C != nil && x.C.Kind() == constant.Int {
		return constant.Int64Val(x.C)
	}
	return 0, false
}
func (x *Ex) boolVal() (bool, bool) {
	if x != nil && x.Op == "const" && x.C != nil && x.C.Kind() == constant.Bool {
		return constant.BoolVal(x.C), true
	}
	return false, false
}

func exConst(c constant.Value, t types.Type) *Ex { return &Ex{Op: "const", C: c, Typ: t} }
func exInt(i int64) *Ex                          { return exConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func exBool(b bool) *Ex                          { return exConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func exNil(t types.Type) *Ex                     { return &Ex{Op: "const", Sub: "nil", Typ: t} }
func exPtr(base *Ex, path string, t types.Type) *Ex {
	return &Ex{Op: "ptr", Sub: path, Args: []*Ex{base}, Typ: t}
}

// exZero is the zero value of t.
func exZero(t types.Type) *Ex {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return exConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return exConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return exConst(constant.MakeInt64(0), t)
		}
		return exNil(t)
	case *types.Struct, *types.Array:
		return &Ex{Op: "const", Sub: "zero:" + types.TypeString(t, nil), Typ: t}
	}
	return exNil(t)
}

// Ev is something a path does besides computing.
type Ev struct {
	Kind  string // call, go, defer, store, mapupdate, send, panic
	Name  string
	Fn    *ssa.Function
	Args  []*Ex
	Res   *Ex
	Pos   string
	In    ssa.Instruction
	In0   *ssa.Function
	Conds int
	mem   *xmem
	e     *Effects
}

// Deref reads the memory behind a pointer as it was when the event happened.
func (ev *Ev) Deref(x *Ex, t types.Type) *Ex { return ev.e.read(&xpath{mem: ev.mem}, x, t) }

type xcond struct {
	A   *Ex
	Val bool
	Pos string
}

type xmem struct {
	m map[string]*Ex
}

type xdefer struct {
	in   *ssa.Defer
	fn   *ssa.Function
	args []*Ex
	free []*Ex
	name string
}

// Outcome is one path through the function.
type Outcome struct {
	Ret   []*Ex
	Conds []xcond
	Ev    []*Ev
	Panic bool
	mem   *xmem
	e     *Effects
	args  []*Ex
}

func (o *Outcome) Read(ptr *Ex, t types.Type) *Ex { return o.e.read(&xpath{mem: o.mem}, ptr, t) }

// Cond returns the value decided for the term, if any.
func (o *Outcome) Cond(k string) (val, known bool) {
	for _, c := range o.Conds {
		if c.A.Key() == k {
			return c.Val, true
		}
	}
	return false, false
}

func (o *Outcome) Trace() []string {
	var out []string
	for _, c := range o.Conds {
		out = append(out, fmt.Sprintf("%s is %v at %s", c.A.Key(), c.Val, c.Pos))
	}
	return out
}

type xpath struct {
	mem   *xmem
	conds []xcond
	ev    []*Ev
	n     int // fresh name counter
	iters int // undecided loop iterations
}

func (p *xpath) fork() *xpath {
	q := &xpath{mem: p.mem, n: p.n, iters: p.iters}
	q.conds = append(q.conds, p.conds...)
	q.ev = append(q.ev, p.ev...)
	return q
}

type xframe struct {
	fn     *ssa.Function
	up     *xframe
	env    map[ssa.Value]*Ex
	visits map[*ssa.BasicBlock]int
	defers []xdefer
	depth  int
	// allocation ids, so that a loop iteration gets a new object
	allocs map[ssa.Value]int
}

func (f *xframe) fork() *xframe {
	g := &xframe{fn: f.fn, up: f.up, env: map[ssa.Value]*Ex{}, visits: map[*ssa.BasicBlock]int{}, depth: f.depth}
	for k, v := range f.env {
		g.env[k] = v
	}
	for k, v := range f.visits {
		g.visits[k] = v
	}
	g.defers = append(g.defers, f.defers...)
	return g
}

// Effects computes effect summaries.
type Effects struct {
	P *Prog
	// Model gives the effect of a call.  ok: handled.
	Model func(x *XC) bool
	// Opaque calls are not entered.
	Opaque func(fn *ssa.Function) bool
	// Max visits of a block by undecided branches (default 2).
	MaxVisits  int
	MaxPaths   int
	MaxDecided int // visits of a block by decided branches (0: 200)
	MaxIter    int // total undecided loop iterations on a path (0: no limit)
	// Assume decides conditions up front (to look at one case at a time).
	Assume  func(c *Ex) (val, ok bool)
	Atomics bool // record atomic writes as events
	Lookups bool // record map look-ups as events
	Cut     int  // paths dropped at the visit bound
	Over    bool
	Depth   int
	paths   int
}

// XC is a call being modelled.
type XC struct {
	E    *Effects
	P    *xpath
	F    *xframe
	In   ssa.CallInstruction
	Fn   *ssa.Function
	Name string
	Args []*Ex
	Res  []*Ex
	// Alts: when set, the call has several outcomes.
	Alts  []XAlt
	Quiet bool // no event
}

type XAlt struct {
	Res  []*Ex
	Do   func(p *xpath)
	Cond *xcond
}

func (x *XC) Read(ptr *Ex, t types.Type) *Ex { return x.E.read(x.P, ptr, t) }
func (x *XC) Write(ptr, v *Ex)               { x.E.write(x.P, ptr, v) }

type xres struct {
	p     *xpath
	ret   []*Ex
	panic bool
}

// Run summarises fn.  Parameters are named $0, $1, ... unless given.
func (e *Effects) Run(fn *ssa.Function, args []*Ex) []*Outcome {
	if e.MaxVisits == 0 {
		e.MaxVisits = 2
	}
	if e.MaxPaths == 0 {
		e.MaxPaths = 20000
	}
	if e.Depth == 0 {
		e.Depth = 14
	}
	e.paths, e.Cut, e.Over = 0, 0, false
	p := &xpath{mem: &xmem{m: map[string]*Ex{}}}
	full := make([]*Ex, len(fn.Params))
	for i, q := range fn.Params {
		if i < len(args) && args[i] != nil {
			full[i] = args[i]
		} else {
			full[i] = exParam(i, q.Type())
		}
	}
	var free []*Ex
	if len(fn.Params) == 0 {
		free = e.captured(p, fn)
	}
	var out []*Outcome
	for _, r := range e.call(nil, p, fn, full, free) {
		out = append(out, &Outcome{Ret: r.ret, Conds: r.p.conds, Ev: r.p.ev, Panic: r.panic, mem: r.p.mem, e: e, args: full})
	}
	return out
}

// Apply runs a function value on the memory a path left behind.
func (o *Outcome) Apply(f *Ex, args ...*Ex) []*Outcome {
	if f == nil || f.Op != "closure" && f.Op != "func" || f.Fn == nil || len(f.Fn.Blocks) == 0 {
		return nil
	}
	var free []*Ex
	if f.Op == "closure" {
		free = f.Args
	}
	full := make([]*Ex, len(f.Fn.Params))
	for i, q := range f.Fn.Params {
		if i < len(args) && args[i] != nil {
			full[i] = args[i]
		} else {
			full[i] = exParam(i, q.Type())
		}
	}
	p := &xpath{mem: &xmem{m: map[string]*Ex{}}}
	for k, v := range o.mem.m {
		p.mem.m[k] = v
	}
	p.conds = append(p.conds, o.Conds...)
	p.n = 100000
	var out []*Outcome
	for _, r := range o.e.call(nil, p, f.Fn, full, free) {
		out = append(out, &Outcome{Ret: r.ret, Conds: r.p.conds, Ev: r.p.ev, Panic: r.panic, mem: r.p.mem, e: o.e, args: full})
	}
	return out
}

// captured: what a function literal without parameters captures, where it is
// the receiver of the method it is in and that is never assigned.
func (e *Effects) captured(p *xpath, fn *ssa.Function) []*Ex {
	up := fn.Parent()
	if up == nil || up.Signature.Recv() == nil || len(up.Params) == 0 {
		return nil
	}
	var mc *ssa.MakeClosure
	for _, b := range up.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.MakeClosure); ok && c.Fn == fn {
				mc = c
			}
		}
	}
	if mc == nil {
		return nil
	}
	out := make([]*Ex, len(fn.FreeVars))
	for i, fv := range fn.FreeVars {
		out[i] = &Ex{Op: "undef:" + fv.Name(), Typ: fv.Type()}
		recv := up.Params[0]
		if mc.Bindings[i] == ssa.Value(recv) {
			out[i] = exParam(0, recv.Type())
			continue
		}
		al, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		stores, is := 0, false
		for _, in := range *al.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(al) {
					stores++
					is = x.Val == ssa.Value(recv)
				}
			case *ssa.MakeClosure:
				for j, bd := range x.Bindings {
					if bd != ssa.Value(al) {
						continue
					}
					cf := x.Fn.(*ssa.Function)
					for _, u := range *cf.FreeVars[j].Referrers() {
						if ld, ok := u.(*ssa.UnOp); !ok || ld.Op != token.MUL {
							stores++
						}
					}
				}
			case *ssa.UnOp:
			default:
				stores++
			}
		}
		if stores == 1 && is {
			p.mem.m[loc(out[i])] = exParam(0, recv.Type())
		}
	}
	return out
}

func exParam(i int, t types.Type) *Ex {
	return &Ex{Op: "$" + itoa(i), Typ: t}
}

func isPtrT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// loc gives the memory key of a pointer value.
func loc(ptr *Ex) string {
	if ptr.Op == "ptr" {
		return ptr.Args[0].Key() + ptr.Sub
	}
	return "*" + ptr.Key()
}

// asPtr turns any pointer value into base+path form.
func asPtr(ptr *Ex) *Ex {
	if ptr.Op == "ptr" {
		return ptr
	}
	return &Ex{Op: "ptr", Args: []*Ex{{Op: "*" + ptr.Key(), Typ: derefT(ptr.Typ)}}, Typ: ptr.Typ}
}

func under2(k, pre string) bool {
	return len(k) > len(pre) && strings.HasPrefix(k, pre) && (k[len(pre)] == '.' || k[len(pre)] == '[')
}

func (e *Effects) write(p *xpath, ptr, v *Ex) {
	if ptr.Op == "cast" { // a float seen as its bits
		e.write(p, ptr.Args[0], exFrombits(v, ptr.Args[0]))
		return
	}
	k := loc(ptr)
	m := make(map[string]*Ex, len(p.mem.m)+1)
	for q, w := range p.mem.m {
		if !under2(q, k) {
			m[q] = w
		}
	}
	m[k] = v
	p.mem = &xmem{m: m}
}

func (e *Effects) read(p *xpath, ptr *Ex, t types.Type) *Ex {
	if ptr.Op == "cast" {
		return exBits(e.read(p, ptr.Args[0], derefT(ptr.Args[0].Typ)))
	}
	k := loc(ptr)
	if st := structOf(t); st != nil {
		sub := false
		for q := range p.mem.m {
			if under2(q, k) {
				sub = true
				break
			}
		}
		if sub {
			x := &Ex{Op: "struct", Sub: types.TypeString(t, nil), Typ: t}
			for i := 0; i < st.NumFields(); i++ {
				x.Args = append(x.Args, e.read(p, fieldPtr(ptr, st.Field(i)), st.Field(i).Type()))
			}
			return x
		}
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 16 {
		sub, known := false, true
		for q := range p.mem.m {
			if under2(q, k) {
				sub = true
				j := strings.Index(q[len(k):], "]")
				if q[len(k)] != '[' || j < 0 {
					known = false
				} else if _, err := strconv.Atoi(q[len(k)+1 : len(k)+j]); err != nil {
					known = false
				}
			}
		}
		if sub && known {
			x := &Ex{Op: "array", Sub: types.TypeString(t, nil), Typ: t}
			b := asPtr(ptr)
			for i := 0; i < int(at.Len()); i++ {
				x.Args = append(x.Args, e.read(p, exPtr(b.Args[0], b.Sub+"["+itoa(i)+"]", types.NewPointer(at.Elem())), at.Elem()))
			}
			return x
		}
	}
	if v, ok := p.mem.m[k]; ok {
		return v
	}
	// the nearest enclosing object that was written
	for i := len(k) - 1; i > 0; i-- {
		if k[i] != '.' && k[i] != '[' {
			continue
		}
		if v, ok := p.mem.m[k[:i]]; ok {
			return selectPath(v, k[i:], t)
		}
	}
	base := ptr
	if ptr.Op == "ptr" {
		base = ptr.Args[0]
	}
	if base.Op == "alloc" || base.Op == "make" {
		return exZero(t)
	}
	return &Ex{Op: "init", Sub: k, Typ: t}
}

// canonType names a type without aliases.
func canonType(t types.Type) string {
	t = types.Unalias(t)
	if q, ok := t.(*types.Pointer); ok {
		return "*" + canonType(q.Elem())
	}
	return types.TypeString(t, nil)
}

func fieldPtr(ptr *Ex, f *types.Var) *Ex {
	b := asPtr(ptr)
	return exPtr(b.Args[0], b.Sub+"."+f.Name(), types.NewPointer(f.Type()))
}

// selectPath selects a component of a value.
func selectPath(v *Ex, path string, t types.Type) *Ex {
	for path != "" {
		end := 1
		depth := 0
		for end < len(path) {
			c := path[end]
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
			if depth == 0 && (c == '.' || c == '[') && path[0] != '[' {
				break
			}
			if path[0] == '[' && c == ']' && depth == 0 {
				end++
				break
			}
			end++
		}
		step := path[:end]
		path = path[end:]
		v = selectStep(v, step)
	}
	if v.Op == "sel" {
		v.Typ = t
	}
	return v
}

func selectStep(v *Ex, step string) *Ex {
	if step[0] == '.' {
		name := step[1:]
		if st := structOf(v.Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					if v.Op == "struct" {
						return v.Args[i]
					}
					if v.Op == "const" && strings.HasPrefix(v.Sub, "zero:") {
						return exZero(st.Field(i).Type())
					}
					if v.Op == "init" {
						return &Ex{Op: "init", Sub: v.Sub + step, Typ: st.Field(i).Type()}
					}
					return &Ex{Op: "sel", Sub: name, Args: []*Ex{v}, Typ: st.Field(i).Type()}
				}
			}
		}
	}
	if v.Op == "array" && step[0] == '[' {
		if n, err := strconv.Atoi(strings.Trim(step, "[]")); err == nil && n >= 0 && n < len(v.Args) {
			return v.Args[n]
		}
	}
	if v.Op == "const" && strings.HasPrefix(v.Sub, "zero:") {
		if a, ok := v.Typ.Underlying().(*types.Array); ok {
			return exZero(a.Elem())
		}
	}
	return &Ex{Op: "sel", Sub: step, Args: []*Ex{v}}
}

func exBits(v *Ex) *Ex {
	if v.Op == "frombits" {
		return v.Args[0]
	}
	if i, ok := v.int(); ok && i == 0 {
		return exConst(constant.MakeInt64(0), types.Typ[types.Uint64])
	}
	return &Ex{Op: "bits", Args: []*Ex{v}, Typ: types.Typ[types.Uint64]}
}

func exFrombits(v, like *Ex) *Ex {
	if i, ok := v.int(); ok && i == 0 {
		return exConst(constant.MakeInt64(0), types.Typ[types.Float64])
	}
	if v.Op == "bits" {
		return v.Args[0]
	}
	return &Ex{Op: "frombits", Args: []*Ex{v}, Typ: types.Typ[types.Float64]}
}

func (e *Effects) val(f *xframe, p *xpath, v ssa.Value) *Ex {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return exZero(x.Type())
		}
		return exConst(x.Value, x.Type())
	case *ssa.Global:
		return exPtr(&Ex{Op: "g:" + x.Pkg.Pkg.Path() + "." + x.Name(), Typ: derefT(x.Type())}, "", x.Type())
	case *ssa.Function:
		return &Ex{Op: "func", Sub: fullName(x), Fn: x, Typ: x.Type()}
	case *ssa.Builtin:
		return &Ex{Op: "builtin", Sub: x.Name(), Typ: x.Type()}
	}
	if y, ok := f.env[v]; ok {
		return y
	}
	return &Ex{Op: "undef", Sub: v.Name(), Typ: v.Type()}
}

func (e *Effects) fresh(p *xpath) string { p.n++; return itoa(p.n) }

// call runs fn with the given arguments.
func (e *Effects) call(up *xframe, p *xpath, fn *ssa.Function, args, free []*Ex) []xres {
	f := &xframe{fn: fn, up: up, env: map[ssa.Value]*Ex{}, visits: map[*ssa.BasicBlock]int{}}
	if up != nil {
		f.depth = up.depth + 1
	}
	for i, q := range fn.Params {
		if i < len(args) {
			f.env[q] = args[i]
		}
	}
	for i, q := range fn.FreeVars {
		if i < len(free) {
			f.env[q] = free[i]
		}
	}
	return e.block(f, p, fn.Blocks[0], -1)
}

func (e *Effects) block(f *xframe, p *xpath, b *ssa.BasicBlock, pred int) []xres {
	// phis are assigned together
	var phis []*ssa.Phi
	var vals []*Ex
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(f, p, ph.Edges[pred]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	return e.instrs(f, p, b, len(phis))
}

func (e *Effects) instrs(f *xframe, p *xpath, b *ssa.BasicBlock, i int) []xres {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(f, p, x.Cond)
			return e.branch(f, p, b, in, c)
		case *ssa.Jump:
			return e.goTo(f, p, b, b.Succs[0], false)
		case *ssa.Return:
			var ret []*Ex
			for _, r := range x.Results {
				ret = append(ret, e.val(f, p, r))
			}
			e.paths++
			if e.paths > e.MaxPaths {
				e.Over = true
				return nil
			}
			return []xres{{p: p, ret: ret}}
		case *ssa.Panic:
			p.ev = append(p.ev, &Ev{Kind: "panic", Args: []*Ex{e.val(f, p, x.X)}, Pos: e.P.posOf(in), In: in, In0: f.fn, mem: p.mem, e: e})
			return []xres{{p: p, panic: true}}
		case *ssa.RunDefers:
			ds := f.defers
			f.defers = nil
			return e.runDefers(f, p, ds, func(p *xpath, g *xframe) []xres { return e.instrs(g, p, b, i+1) })
		case *ssa.Defer:
			fn, args, free, name := e.target(f, p, &x.Call)
			f.defers = append(f.defers, xdefer{in: x, fn: fn, args: args, free: free, name: name})
		case *ssa.Go:
			fn, args, _, name := e.target(f, p, &x.Call)
			p.ev = append(p.ev, &Ev{Kind: "go", Name: name, Fn: fn, Args: args, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
		case *ssa.Call:
			rs := e.doCall(f, p, x, &x.Call)
			if len(rs) == 1 && !rs[0].panic {
				p = rs[0].p
				e.bind(f, x, rs[0].ret)
				continue
			}
			var out []xres
			for _, r := range rs {
				if r.panic {
					out = append(out, r)
					continue
				}
				g := f.fork()
				e.bind(g, x, r.ret)
				out = append(out, e.instrs(g, r.p, b, i+1)...)
			}
			return out
		case *ssa.TypeAssert:
			v := e.val(f, p, x.X)
			if !x.CommaOk {
				f.env[x] = e.assertTo(v, x.AssertedType)
				continue
			}
			is := e.isType(p, v, x.AssertedType)
			if bv, ok := is.boolVal(); ok {
				if bv {
					f.env[x] = &Ex{Op: "tuple", Args: []*Ex{e.assertTo(v, x.AssertedType), exBool(true)}}
				} else {
					f.env[x] = &Ex{Op: "tuple", Args: []*Ex{exZero(x.AssertedType), exBool(false)}}
				}
				continue
			}
			f.env[x] = &Ex{Op: "tuple", Args: []*Ex{e.assertTo(v, x.AssertedType), is}}
		case *ssa.Select:
			var out []xres
			if f.visits[b] > e.MaxVisits+1 {
				// which case is taken is undecided, as a branch is
				e.Cut++
				return nil
			}
			id := e.fresh(p)
			n := len(x.States)
			lo := 0
			if !x.Blocking {
				lo = -1
			}
			for k := lo; k < n; k++ {
				g, q := f.fork(), p.fork()
				tup := []*Ex{exInt(int64(k)), {Op: "recvok", Sub: id}}
				for j, s := range x.States {
					if s.Dir == types.RecvOnly {
						tup = append(tup, &Ex{Op: "recv", Sub: id + "." + itoa(j), Args: []*Ex{e.val(f, p, s.Chan)}})
					}
				}
				ev := &Ev{Kind: "select", Name: itoa(k), Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(q.conds), mem: q.mem, e: e}
				if k >= 0 {
					ev.Args = []*Ex{e.val(f, p, x.States[k].Chan)}
				}
				q.ev = append(q.ev, ev)
				g.env[x] = &Ex{Op: "tuple", Args: tup}
				out = append(out, e.instrs(g, q, b, i+1)...)
			}
			return out
		default:
			e.step(f, p, in)
		}
	}
	return nil
}

func (e *Effects) bind(f *xframe, v ssa.Value, ret []*Ex) {
	switch len(ret) {
	case 0:
	case 1:
		if _, tup := v.Type().(*types.Tuple); tup {
			f.env[v] = &Ex{Op: "tuple", Args: ret}
		} else {
			f.env[v] = ret[0]
		}
	default:
		f.env[v] = &Ex{Op: "tuple", Args: ret}
	}
}

func (e *Effects) branch(f *xframe, p *xpath, b *ssa.BasicBlock, in ssa.Instruction, c *Ex) []xres {
	neg := false
	for c.Op == "not" {
		c, neg = c.Args[0], !neg
	}
	if v, ok := c.boolVal(); ok {
		if v != neg {
			return e.goTo(f, p, b, b.Succs[0], true)
		}
		return e.goTo(f, p, b, b.Succs[1], true)
	}
	if v, ok := decided(p, c); ok {
		if v != neg {
			return e.goTo(f, p, b, b.Succs[0], true)
		}
		return e.goTo(f, p, b, b.Succs[1], true)
	}
	var out []xres
	av, assumed := false, false
	if e.Assume != nil {
		av, assumed = e.Assume(c)
	}
	for _, taken := range []bool{true, false} {
		if assumed && (taken != neg) != av {
			continue
		}
		q, g := p.fork(), f.fork()
		q.conds = append(q.conds, xcond{c, taken != neg, e.P.posOf(in)})
		s := b.Succs[1]
		if taken {
			s = b.Succs[0]
		}
		if e.MaxIter > 0 && continues(b, s) {
			if q.iters++; q.iters > e.MaxIter {
				e.Cut++
				continue
			}
		}
		out = append(out, e.goTo(g, q, b, s, false)...)
	}
	return out
}

var continuesMemo = map[[2]*ssa.BasicBlock]bool{}
var continuesMu sync.Mutex

// continues: the edge b->s stays in a loop that b's other edge leaves.
func continues(b, s *ssa.BasicBlock) bool {
	k := [2]*ssa.BasicBlock{b, s}
	continuesMu.Lock()
	defer continuesMu.Unlock()
	if v, ok := continuesMemo[k]; ok {
		return v
	}
	v := false
	for _, h := range b.Parent().Blocks {
		loop := false
		for _, q := range h.Preds {
			loop = loop || isBack(q, h)
		}
		if !loop {
			continue
		}
		body := loopBody(h)
		if body[b] && body[s] {
			for _, o := range b.Succs {
				v = v || !body[o]
			}
		}
	}
	continuesMemo[k] = v
	return v
}

// decided: an earlier decision on the path settles the condition.
func decided(p *xpath, c *Ex) (bool, bool) {
	k := c.Key()
	for _, d := range p.conds {
		if d.A.Key() == k {
			return d.Val, true
		}
		if c.Op == "==" && d.A.Op == "==" && d.Val && len(c.Args) == 2 {
			// x == c1 settles x == c2
			x, y := c.Args[0], c.Args[1]
			u, w := d.A.Args[0], d.A.Args[1]
			if y.Op == "const" && w.Op == "const" && x.Key() == u.Key() && y.C != nil && w.C != nil {
				return constant.Compare(y.C, token.EQL, w.C), true
			}
		}
		if c.Op == "is" && d.A.Op == "is" && d.Val && c.Args[0].Key() == d.A.Args[0].Key() && !types.IsInterface(c.Typ) && !types.IsInterface(d.A.Typ) && c.Sub != d.A.Sub {
			return false, true
		}
		if c.Op == "==" && d.A.Op == "==" && len(c.Args) == 2 && len(d.A.Args) == 2 {
			// an empty string has no length
			if x, y := emptyTest(c), emptyTest(d.A); x != nil && y != nil && x.Key() == y.Key() {
				return d.Val, true
			}
		}
		if c.Op == "==" && d.A.Op == "is" && d.Val && c.Args[1].isNil() && c.Args[0].Key() == d.A.Args[0].Key() {
			return false, true
		}
		if c.Op == "is" && d.A.Op == "==" && d.Val && d.A.Args[1].isNil() && c.Args[0].Key() == d.A.Args[0].Key() {
			return false, true
		}
	}
	return false, false
}

// emptyTest: the string a condition compares with the empty one.
func emptyTest(c *Ex) *Ex {
	a, b := c.Args[0], c.Args[1]
	if a.is("builtin", "len") && b.Key() == "0" {
		a = a.Args[0]
		if a.Typ != nil {
			if bt, ok := a.Typ.Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
				return nil
			}
		}
		return a
	}
	if s, ok := b.str(); ok && s == "" {
		return a
	}
	return nil
}

func (e *Effects) goTo(f *xframe, p *xpath, from, to *ssa.BasicBlock, decided bool) []xres {
	if e.Over {
		return nil
	}
	f.visits[to]++
	max := e.MaxVisits
	if decided || len(from.Succs) == 1 {
		max = 200
		if e.MaxDecided > 0 {
			max = e.MaxDecided
		}
	}
	if f.visits[to] > max {
		e.Cut++
		return nil
	}
	pi := -1
	for j, q := range to.Preds {
		if q == from {
			pi = j
		}
	}
	return e.block(f, p, to, pi)
}

func (e *Effects) runDefers(f *xframe, p *xpath, ds []xdefer, k func(*xpath, *xframe) []xres) []xres {
	if len(ds) == 0 {
		return k(p, f)
	}
	d := ds[len(ds)-1]
	var out []xres
	rs := e.apply(f, p, d.in, d.fn, d.name, d.args, d.free, nil)
	for i, r := range rs {
		if r.panic {
			out = append(out, r)
			continue
		}
		g := f
		if i < len(rs)-1 {
			g = f.fork()
		}
		out = append(out, e.runDefers(g, r.p, ds[:len(ds)-1], k)...)
	}
	return out
}

// target resolves the callee of a call.
func (e *Effects) target(f *xframe, p *xpath, cc *ssa.CallCommon) (fn *ssa.Function, args, free []*Ex, name string) {
	if cc.IsInvoke() {
		recv := e.val(f, p, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, e.val(f, p, a))
		}
		if recv.Op == "iface" {
			if m := e.P.method(recv.Args[0].Typ, cc.Method.Name()); m != nil {
				args[0] = recv.Args[0]
				return m, args, nil, fullName(m)
			}
		}
		return nil, args, nil, "invoke " + types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
	}
	for _, a := range cc.Args {
		args = append(args, e.val(f, p, a))
	}
	if g := cc.StaticCallee(); g != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if c := e.val(f, p, mc); c.Op == "closure" {
				free = c.Args
			}
		}
		return g, args, free, fullName(g)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args, nil, "builtin:" + b.Name()
	}
	v := e.val(f, p, cc.Value)
	switch v.Op {
	case "func":
		return v.Fn, args, nil, v.Sub
	case "closure":
		return v.Fn, args, v.Args, fullName(v.Fn)
	}
	return nil, append([]*Ex{v}, args...), nil, "dyn"
}

func (e *Effects) doCall(f *xframe, p *xpath, in ssa.CallInstruction, cc *ssa.CallCommon) []xres {
	fn, args, free, name := e.target(f, p, cc)
	return e.apply(f, p, in, fn, name, args, free, cc)
}

func (e *Effects) apply(f *xframe, p *xpath, in ssa.CallInstruction, fn *ssa.Function, name string, args, free []*Ex, cc *ssa.CallCommon) []xres {
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = in.Common().Signature()
	}
	x := &XC{E: e, P: p, F: f, In: in, Fn: fn, Name: name, Args: args}
	record := func(p *xpath, res *Ex) *Ev {
		ev := &Ev{Kind: "call", Name: name, Fn: fn, Args: args, Res: res, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e}
		if !x.Quiet {
			p.ev = append(p.ev, ev)
		}
		return ev
	}
	if e.Model != nil && e.Model(x) || e.stdModel(x) {
		if x.Alts == nil {
			record(p, exTuple(x.Res))
			return []xres{{p: p, ret: x.Res}}
		}
		var out []xres
		for _, a := range x.Alts {
			q := p.fork()
			if a.Cond != nil {
				if v, ok := decided(q, a.Cond.A); ok && v != a.Cond.Val {
					continue
				}
				q.conds = append(q.conds, *a.Cond)
			}
			if a.Do != nil {
				a.Do(q)
			}
			record(q, exTuple(a.Res))
			out = append(out, xres{p: q, ret: a.Res})
		}
		return out
	}
	if strings.HasPrefix(name, "builtin:") {
		return []xres{{p: p, ret: []*Ex{e.builtin(f, p, in, name[8:], args)}}}
	}
	if fn != nil && len(fn.Blocks) > 0 && f.depth < e.Depth && (e.P.isLocal(fn) || free != nil || fn.Synthetic != "" && e.P.isLocalish(fn)) && (e.Opaque == nil || free != nil && fn.Parent() == nil || !e.Opaque(fn)) && !recursive(f, fn) {
		record(p, nil)
		return e.call(f, p, fn, args, free)
	}
	// opaque
	pure := fn != nil && pureExt(fn)
	var res []*Ex
	id := ""
	if !pure {
		id = "#" + e.fresh(p)
	}
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		r := &Ex{Op: "call", Sub: name + id, Args: args, Typ: tupT(sig.Results(), i), Fn: fn}
		if n > 1 {
			r = &Ex{Op: "res", Sub: itoa(i), Args: []*Ex{r}, Typ: tupT(sig.Results(), i)}
		}
		res = append(res, r)
	}
	record(p, exTuple(res))
	if !pure {
		for i, a := range args {
			if (a.Op == "ptr" || isPtr(a)) && !(fn != nil && !fn.Signature.Variadic() && len(fn.Params) == len(args) && !e.P.writesParam(fn, i)) {
				e.havoc(p, a, id)
			}
		}
	}
	return []xres{{p: p, ret: res}}
}

func isPtr(a *Ex) bool { return a.Typ != nil && isPtrT(a.Typ) && !a.isNil() }

// havoc forgets what is behind a pointer.
func (e *Effects) havoc(p *xpath, ptr *Ex, id string) {
	if ptr.Op == "cast" {
		ptr = ptr.Args[0]
	}
	if ptr.Typ == nil {
		return
	}
	e.write(p, ptr, &Ex{Op: "after", Sub: id, Args: []*Ex{ptr}, Typ: derefT(ptr.Typ)})
}

func exTuple(r []*Ex) *Ex {
	switch len(r) {
	case 0:
		return nil
	case 1:
		return r[0]
	}
	return &Ex{Op: "tuple", Args: r}
}

func recursive(f *xframe, fn *ssa.Function) bool {
	for ; f != nil; f = f.up {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// isLocalish: a synthetic wrapper of a repository method.
func (p *Prog) isLocalish(fn *ssa.Function) bool {
	pk := pkgOf(fn)
	return pk != nil && (pk.Path() == p.Module || strings.HasPrefix(pk.Path(), p.Module+"/"))
}

// pureExt: a library function whose result depends on its arguments only.
func pureExt(fn *ssa.Function) bool {
	pk := pkgOf(fn)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "strings", "math", "strconv", "errors", "math/bits", "path", "unicode", "unicode/utf8", "sort", "slices":
		return fn.Name() != "Sort" && fn.Name() != "SortFunc" && fn.Name() != "Strings" && fn.Name() != "Slice"
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	case "time":
		return fn.Signature.Recv() != nil && !isPtrT(fn.Signature.Recv().Type())
	case "go.opentelemetry.io/otel/attribute":
		return fn.Signature.Recv() != nil && !isPtrT(fn.Signature.Recv().Type()) || fn.Signature.Recv() == nil
	case "go.opentelemetry.io/otel/metric":
		return strings.HasPrefix(fn.Name(), "New") || strings.HasPrefix(fn.Name(), "With") || fn.Signature.Recv() != nil
	}
	return false
}

func (e *Effects) builtin(f *xframe, p *xpath, in ssa.CallInstruction, name string, args []*Ex) *Ex {
	var t types.Type
	if v := in.Value(); v != nil {
		t = v.Type()
	}
	switch name {
	case "len":
		a := args[0]
		switch a.Op {
		case "list":
			return exInt(int64(len(a.Args)))
		case "const":
			if a.isNil() {
				return exInt(0)
			}
			if s, ok := a.str(); ok {
				return exInt(int64(len(s)))
			}
		}
		if a.Typ != nil {
			if at, ok := a.Typ.Underlying().(*types.Array); ok {
				return exInt(at.Len())
			}
		}
	case "append":
		a, b := args[0], args[0]
		if len(args) > 1 {
			b = args[1]
		} else {
			return a
		}
		if b.isNil() {
			return a
		}
		if a.isNil() {
			a = &Ex{Op: "list", Typ: t}
		}
		if a.Op == "list" && b.Op == "list" {
			return &Ex{Op: "list", Args: append(append([]*Ex(nil), a.Args...), b.Args...), Typ: t}
		}
		return &Ex{Op: "append", Args: []*Ex{a, b}, Typ: t}
	case "min", "max":
		x := &Ex{Op: name, Args: append([]*Ex(nil), args...), Typ: t}
		sort.Slice(x.Args, func(i, j int) bool { return x.Args[i].Key() < x.Args[j].Key() })
		return x
	case "copy", "delete", "close", "clear", "panic", "print", "println":
		p.ev = append(p.ev, &Ev{Kind: "builtin", Name: name, Args: args, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
	case "ssa:wrapnilchk":
		return args[0]
	}
	return &Ex{Op: "builtin", Sub: name, Args: args, Typ: t}
}

func (e *Effects) assertTo(v *Ex, t types.Type) *Ex {
	if v.Op == "iface" {
		if types.IsInterface(t) {
			return v
		}
		if types.Identical(v.Args[0].Typ, t) {
			return v.Args[0]
		}
	}
	return &Ex{Op: "assert", Sub: canonType(t), Args: []*Ex{v}, Typ: t}
}

func (e *Effects) isType(p *xpath, v *Ex, t types.Type) *Ex {
	if v.isNil() {
		return exBool(false)
	}
	if v.Op == "iface" {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return exBool(types.Implements(v.Args[0].Typ, it))
		}
		return exBool(types.Identical(v.Args[0].Typ, t))
	}
	return &Ex{Op: "is", Sub: canonType(t), Args: []*Ex{v}, Typ: t}
}

func (e *Effects) step(f *xframe, p *xpath, in ssa.Instruction) {
	set := func(v ssa.Value, x *Ex) {
		if x.Typ == nil {
			x.Typ = v.Type()
		}
		f.env[v] = x
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		set(x, exPtr(&Ex{Op: "alloc", Sub: e.fresh(p), Typ: derefT(x.Type())}, "", x.Type()))
	case *ssa.Store:
		a, v := e.val(f, p, x.Addr), e.val(f, p, x.Val)
		p.ev = append(p.ev, &Ev{Kind: "store", Args: []*Ex{a, v}, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
		e.write(p, a, v)
	case *ssa.FieldAddr:
		b := e.val(f, p, x.X)
		st := structOf(derefT(x.X.Type()))
		set(x, fieldPtr(withTyp(b, x.X.Type()), st.Field(x.Field)))
	case *ssa.Field:
		b := e.val(f, p, x.X)
		st := structOf(x.X.Type())
		b = withTyp(b, x.X.Type())
		set(x, selectStep(b, "."+st.Field(x.Field).Name()))
	case *ssa.IndexAddr:
		b, i := e.val(f, p, x.X), e.val(f, p, x.Index)
		if b.Op == "list" {
			if n, ok := i.int(); ok && n >= 0 && int(n) < len(b.Args) {
				c := exPtr(&Ex{Op: "alloc", Sub: e.fresh(p), Typ: b.Args[n].Typ}, "", x.Type())
				e.write(p, c, b.Args[n])
				set(x, c)
				return
			}
		}
		if isPtrT(x.X.Type()) {
			b = asPtr(withTyp(b, x.X.Type()))
			set(x, exPtr(b.Args[0], b.Sub+"["+i.Key()+"]", x.Type()))
			return
		}
		set(x, exPtr(b, "["+i.Key()+"]", x.Type()))
	case *ssa.Index:
		b, i := e.val(f, p, x.X), e.val(f, p, x.Index)
		if n, ok := i.int(); ok && b.Op == "array" && n >= 0 && int(n) < len(b.Args) {
			set(x, b.Args[n])
			return
		}
		set(x, &Ex{Op: "index", Args: []*Ex{b, i}, Typ: x.Type()})
	case *ssa.UnOp:
		v := e.val(f, p, x.X)
		switch x.Op {
		case token.MUL:
			set(x, e.read(p, withTyp(v, x.X.Type()), x.Type()))
		case token.NOT:
			set(x, exNot(v))
		case token.ARROW:
			r := &Ex{Op: "recv", Sub: e.fresh(p), Args: []*Ex{v}}
			p.ev = append(p.ev, &Ev{Kind: "recv", Args: []*Ex{v}, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
			if x.CommaOk {
				r = &Ex{Op: "tuple", Args: []*Ex{r, {Op: "recvok", Sub: r.Sub}}}
			}
			set(x, r)
		default:
			if v.Op == "const" && v.C != nil {
				set(x, exConst(constant.UnaryOp(x.Op, v.C, 0), x.Type()))
				return
			}
			set(x, &Ex{Op: "un" + x.Op.String(), Args: []*Ex{v}})
		}
	case *ssa.BinOp:
		set(x, exBin(x.Op, e.val(f, p, x.X), e.val(f, p, x.Y), x.Type()))
	case *ssa.ChangeType:
		v := *e.val(f, p, x.X)
		v.Typ = x.Type()
		f.env[x] = &v
	case *ssa.ChangeInterface:
		f.env[x] = e.val(f, p, x.X)
	case *ssa.MakeInterface:
		set(x, &Ex{Op: "iface", Args: []*Ex{withTyp(e.val(f, p, x.X), x.X.Type())}, Typ: x.Type()})
	case *ssa.Convert:
		set(x, exConvert(e.val(f, p, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, &Ex{Op: "conv", Sub: types.TypeString(x.Type(), nil), Args: []*Ex{e.val(f, p, x.X)}})
	case *ssa.Extract:
		t := e.val(f, p, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			f.env[x] = t.Args[x.Index]
			return
		}
		set(x, &Ex{Op: "res", Sub: itoa(x.Index), Args: []*Ex{t}})
	case *ssa.MakeClosure:
		c := &Ex{Op: "closure", Sub: fullName(x.Fn.(*ssa.Function)), Fn: x.Fn.(*ssa.Function), Typ: x.Type()}
		for _, b := range x.Bindings {
			c.Args = append(c.Args, e.val(f, p, b))
		}
		f.env[x] = c
	case *ssa.MakeMap:
		set(x, &Ex{Op: "make", Sub: e.fresh(p)})
	case *ssa.MakeChan:
		set(x, &Ex{Op: "make", Sub: e.fresh(p), Args: []*Ex{e.val(f, p, x.Size)}})
	case *ssa.MakeSlice:
		l := e.val(f, p, x.Len)
		if n, ok := l.int(); ok && n == 0 {
			set(x, &Ex{Op: "list"})
			return
		}
		set(x, &Ex{Op: "make", Sub: e.fresh(p), Args: []*Ex{l}})
	case *ssa.Slice:
		b := e.val(f, p, x.X)
		if isPtrT(x.X.Type()) && x.Low == nil && x.High == nil {
			if at, ok := derefT(x.X.Type()).Underlying().(*types.Array); ok && b.Op == "ptr" && b.Args[0].Op == "alloc" {
				l := &Ex{Op: "list", Typ: x.Type()}
				for i := int64(0); i < at.Len(); i++ {
					l.Args = append(l.Args, e.read(p, exPtr(b.Args[0], b.Sub+"["+exInt(i).Key()+"]", types.NewPointer(at.Elem())), at.Elem()))
				}
				f.env[x] = l
				return
			}
		}
		s := &Ex{Op: "slice", Args: []*Ex{b, nil, nil}}
		if x.Low != nil {
			s.Args[1] = e.val(f, p, x.Low)
		}
		if x.High != nil {
			s.Args[2] = e.val(f, p, x.High)
			if n, ok := s.Args[2].int(); ok && n == 0 && x.Low == nil {
				s = &Ex{Op: "empty", Args: []*Ex{b}}
			}
		}
		if x.Low == nil && x.High == nil {
			f.env[x] = b
			return
		}
		set(x, s)
	case *ssa.Lookup:
		m, k := e.val(f, p, x.X), e.val(f, p, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			set(x, &Ex{Op: "index", Args: []*Ex{m, k}})
			return
		}
		if e.Lookups {
			p.ev = append(p.ev, &Ev{Kind: "lookup", Args: []*Ex{m, k}, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
		}
		key := "m:" + m.Key() + "{" + k.Key() + "}"
		et := x.X.Type().Underlying().(*types.Map).Elem()
		v, ok := p.mem.m[key]
		has := exBool(true)
		if !ok {
			if m.Op == "make" || m.isNil() {
				any := false
				for q := range p.mem.m {
					any = any || strings.HasPrefix(q, "m:"+m.Key()+"{")
				}
				if !any {
					v, has = exZero(et), exBool(false)
				}
			}
			if v == nil {
				v = &Ex{Op: "lookup", Args: []*Ex{m, k}, Typ: et}
				has = &Ex{Op: "has", Args: []*Ex{m, k}, Typ: types.Typ[types.Bool]}
			}
		}
		if x.CommaOk {
			f.env[x] = &Ex{Op: "tuple", Args: []*Ex{v, has}}
			return
		}
		f.env[x] = v
	case *ssa.MapUpdate:
		m, k, v := e.val(f, p, x.Map), e.val(f, p, x.Key), e.val(f, p, x.Value)
		p.ev = append(p.ev, &Ev{Kind: "mapupdate", Args: []*Ex{m, k, v}, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
		nm := make(map[string]*Ex, len(p.mem.m)+1)
		for q, w := range p.mem.m {
			nm[q] = w
		}
		nm["m:"+m.Key()+"{"+k.Key()+"}"] = v
		p.mem = &xmem{m: nm}
	case *ssa.Range:
		set(x, &Ex{Op: "range", Sub: e.fresh(p), Args: []*Ex{e.val(f, p, x.X)}})
	case *ssa.Next:
		r := e.val(f, p, x.Iter)
		id := e.fresh(p)
		f.env[x] = &Ex{Op: "tuple", Args: []*Ex{
			{Op: "next", Sub: id, Args: []*Ex{r}, Typ: types.Typ[types.Bool]},
			{Op: "rkey", Sub: id, Args: []*Ex{r}}, {Op: "relem", Sub: id, Args: []*Ex{r}}}}
	case *ssa.Send:
		p.ev = append(p.ev, &Ev{Kind: "send", Args: []*Ex{e.val(f, p, x.Chan), e.val(f, p, x.X)}, Pos: e.P.posOf(in), In: in, In0: f.fn, Conds: len(p.conds), mem: p.mem, e: e})
	case *ssa.SliceToArrayPointer:
		set(x, &Ex{Op: "conv", Sub: "arrayptr", Args: []*Ex{e.val(f, p, x.X)}})
	case *ssa.DebugRef:
	}
}

func withTyp(x *Ex, t types.Type) *Ex {
	if x.Typ != nil && types.Identical(x.Typ, t) {
		return x
	}
	y := *x
	y.Typ = t
	return &y
}

func exNot(v *Ex) *Ex {
	if b, ok := v.boolVal(); ok {
		return exBool(!b)
	}
	if v.Op == "not" {
		return v.Args[0]
	}
	return &Ex{Op: "not", Args: []*Ex{v}, Typ: types.Typ[types.Bool]}
}

func nonNil(x *Ex) bool {
	switch x.Op {
	case "failure", "mkerr":
		return true
	case "ptr", "iface", "closure", "func", "make", "list":
		if l, ok := listItems(x); ok && len(l) > 0 {
			return true
		}
		return !(x.Op == "list")
	case "append":
		l, ok := listItems(x)
		return ok && len(l) > 0
	case "call":
		return strings.HasPrefix(x.Sub, "fmt.Errorf") || strings.HasPrefix(x.Sub, "errors.New")
	}
	return false
}

func exBin(op token.Token, a, b *Ex, t types.Type) *Ex {
	if a.Op == "const" && b.Op == "const" && a.C != nil && b.C != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if comparableKinds(a.C, b.C) {
				return exBool(constant.Compare(a.C, op, b.C))
			}
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(b.C); ok {
				return exConst(constant.Shift(a.C, op, uint(s)), t)
			}
		case token.QUO:
			if a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
				if constant.Sign(b.C) != 0 {
					return exConst(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), t)
				}
			}
		default:
			if a.C.Kind() == b.C.Kind() && (op != token.REM || constant.Sign(b.C) != 0) {
				return exConst(constant.BinaryOp(a.C, op, b.C), t)
			}
		}
	}
	zero := func(x *Ex) bool { i, ok := x.int(); return ok && i == 0 }
	bt := types.Typ[types.Bool]
	switch op {
	case token.ADD:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString == 0 && a.Key() > b.Key() {
			a, b = b, a
		}
		return &Ex{Op: "+", Args: []*Ex{a, b}, Typ: t}
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.Key() > b.Key() {
			a, b = b, a
		}
	case token.EQL, token.NEQ:
		if a.Op == "const" && b.Op != "const" {
			a, b = b, a
		}
		eq := (*Ex)(nil)
		switch {
		case b.isNil() && a.isNil():
			eq = exBool(true)
		case b.isNil() && nonNil(a):
			eq = exBool(false)
		case a.Key() == b.Key():
			if !isFloatT(a.Typ) {
				eq = exBool(true)
			}
		}
		// a concatenation that starts or ends with a constant
		if bs, ok := b.str(); ok && eq == nil && a.Op == "+" {
			first, last := a, a
			for first.Op == "+" {
				first = first.Args[0]
			}
			for last.Op == "+" {
				last = last.Args[len(last.Args)-1]
			}
			if l, isS := first.str(); isS && !strings.HasPrefix(bs, l) {
				eq = exBool(false)
			}
			if l, isS := last.str(); isS && !strings.HasSuffix(bs, l) {
				eq = exBool(false)
			}
		}
		if bv, ok := b.boolVal(); ok && eq == nil {
			eq = a
			if !bv {
				eq = exNot(a)
			}
		}
		if eq == nil {
			if b.Op != "const" && a.Key() > b.Key() {
				a, b = b, a
			}
			eq = &Ex{Op: "==", Args: []*Ex{a, b}, Typ: bt}
		}
		if op == token.NEQ {
			return exNot(eq)
		}
		return eq
	case token.LSS:
		return exLess(a, b)
	case token.GTR:
		return exLess(b, a)
	case token.LEQ:
		return exNot(exLess(b, a))
	case token.GEQ:
		return exNot(exLess(a, b))
	}
	return &Ex{Op: op.String(), Args: []*Ex{a, b}, Typ: t}
}

func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func exLess(a, b *Ex) *Ex {
	bt := types.Typ[types.Bool]
	lenLike := func(x *Ex) bool { return x.is("builtin", "len") || isUnsigned(x.Typ) }
	eq0 := func(x *Ex) *Ex { return &Ex{Op: "==", Args: []*Ex{x, exConst(constant.MakeInt64(0), x.Typ)}, Typ: bt} }
	if i, ok := b.int(); ok && lenLike(a) {
		if i <= 0 {
			return exBool(false)
		}
		if i == 1 { // len < 1
			return eq0(a)
		}
	}
	if i, ok := a.int(); ok && lenLike(b) {
		if i < 0 {
			return exBool(true)
		}
		if i == 0 { // 0 < len
			return exNot(eq0(b))
		}
	}
	if a.Key() == b.Key() {
		return exBool(false)
	}
	return &Ex{Op: "<", Args: []*Ex{a, b}, Typ: bt}
}

func basicOf(t types.Type) *types.Basic { b, _ := t.Underlying().(*types.Basic); return b }

func exConvert(v *Ex, from, to types.Type) *Ex {
	// pointers through unsafe.Pointer
	fb, tb := basicOf(from), basicOf(to)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v // keep the typed pointer
	}
	if fb != nil && fb.Kind() == types.UnsafePointer && isPtrT(to) {
		if v.Typ != nil && isPtrT(v.Typ) {
			ft, tt := derefT(v.Typ), derefT(to)
			if types.Identical(ft, tt) {
				return v
			}
			if b1, b2 := basicOf(ft), basicOf(tt); b1 != nil && b2 != nil && b1.Kind() == types.Float64 && b2.Kind() == types.Uint64 {
				return &Ex{Op: "cast", Args: []*Ex{v}, Typ: to}
			}
		}
		return &Ex{Op: "unsafe", Args: []*Ex{v}, Typ: to}
	}
	if fb == nil || tb == nil {
		return &Ex{Op: "conv", Sub: types.TypeString(to, nil), Args: []*Ex{v}, Typ: to}
	}
	if v.Op == "const" && v.C != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && constant.Sign(v.C) >= 0 {
		return exConst(v.C, to)
	}
	if fb.Kind() == tb.Kind() {
		return withTyp(v, to)
	}
	is64 := func(b *types.Basic) bool {
		switch b.Kind() {
		case types.Int64, types.Uint64, types.Int, types.Uint:
			return true
		}
		return false
	}
	if v.Op == "conv" && v.Args[0].Typ != nil {
		if ob := basicOf(v.Args[0].Typ); ob != nil && is64(ob) && is64(fb) && is64(tb) {
			// 64-bit integer conversions compose
			if ob.Kind() == tb.Kind() {
				return withTyp(v.Args[0], to)
			}
			return &Ex{Op: "conv", Sub: tb.Name(), Args: v.Args, Typ: to}
		}
	}
	return &Ex{Op: "conv", Sub: tb.Name(), Args: []*Ex{v}, Typ: to}
}

// stdModel: the effects of sync/atomic and a few other library calls.
func (e *Effects) stdModel(x *XC) bool {
	if x.Fn == nil {
		return false
	}
	n := x.Name
	switch {
	case strings.HasPrefix(n, "sync/atomic."):
		x.Quiet = true
		m := strings.TrimPrefix(n, "sync/atomic.")
		recv := ""
		if i := strings.IndexByte(m, '.'); i >= 0 {
			recv, m = m[:i], m[i+1:]
		}
		if len(x.Args) == 0 {
			return false
		}
		ptr := x.Args[0]
		var t types.Type
		if recv == "" {
			t = derefT(tupT(x.Fn.Signature.Params(), 0))
			for _, suf := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
				if strings.HasSuffix(m, suf) {
					m = strings.TrimSuffix(m, suf)
					break
				}
			}
		} else if r := x.Fn.Signature.Results(); r.Len() == 1 && m != "CompareAndSwap" {
			t = r.At(0).Type()
		} else if ps := x.Fn.Signature.Params(); ps.Len() > 0 {
			t = ps.At(ps.Len() - 1).Type()
		}
		note := func(p *xpath, seen, nw *Ex) {
			if e.Atomics {
				p.ev = append(p.ev, &Ev{Kind: "atomic", Name: m, Args: []*Ex{ptr, seen, nw}, Pos: e.P.posOf(x.In), In: x.In, mem: p.mem, e: e})
			}
		}
		switch m {
		case "Store", "Swap":
			note(x.P, x.Read(ptr, t), x.Args[1])
		case "Add":
			v := x.Read(ptr, t)
			note(x.P, v, exBin(token.ADD, v, x.Args[1], t))
		}
		switch m {
		case "Load":
			x.Res = []*Ex{x.Read(ptr, t)}
		case "Store":
			x.Write(ptr, x.Args[1])
		case "Swap":
			x.Res = []*Ex{x.Read(ptr, t)}
			x.Write(ptr, x.Args[1])
		case "Add":
			v := exBin(token.ADD, x.Read(ptr, t), x.Args[1], t)
			x.Write(ptr, v)
			x.Res = []*Ex{v}
		case "CompareAndSwap":
			cur := x.Read(ptr, t)
			old, nw := x.Args[1], x.Args[2]
			eq := exBin(token.EQL, cur, old, types.Typ[types.Bool])
			id := e.fresh(x.P)
			fail := XAlt{Res: []*Ex{exBool(false)}, Do: func(p *xpath) { e.havocAt(p, ptr, "cas"+id) }}
			if b, ok := eq.boolVal(); ok && !b {
				x.Alts = []XAlt{fail}
				return true
			}
			x.Alts = []XAlt{{Res: []*Ex{exBool(true)}, Do: func(p *xpath) { note(p, cur, nw); e.write(p, ptr, nw) }}, fail}
		default:
			x.Quiet = false
			return false
		}
		return true
	case n == "math.Float64bits":
		x.Quiet = true
		x.Res = []*Ex{exBits(x.Args[0])}
		return true
	case n == "math.Float64frombits":
		x.Quiet = true
		x.Res = []*Ex{exFrombits(x.Args[0], nil)}
		return true
	}
	return false
}

// havocAt: another goroutine changed the location.
func (e *Effects) havocAt(p *xpath, ptr *Ex, id string) {
	q := ptr
	if q.Op == "cast" {
		q = q.Args[0]
	}
	e.write(p, q, &Ex{Op: "other", Sub: id, Typ: derefT(q.Typ)})
}

// Rewrite replaces values held by the path's memory, wherever f gives another.
func (o *Outcome) Rewrite(f func(*Ex) *Ex) {
	var walk func(x *Ex) *Ex
	walk = func(x *Ex) *Ex {
		if x == nil {
			return nil
		}
		if y := f(x); y != nil {
			return y
		}
		args := make([]*Ex, len(x.Args))
		same := true
		for i, a := range x.Args {
			args[i] = walk(a)
			same = same && args[i] == a
		}
		if same {
			return x
		}
		y := *x
		y.Args, y.k = args, ""
		return &y
	}
	m := map[string]*Ex{}
	for k, v := range o.mem.m {
		m[k] = walk(v)
	}
	o.mem = &xmem{m: m}
}
