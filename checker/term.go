package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a canonical description of where a value comes from.
type Term struct {
	Op   string // const param alloc global func field & index lookup elem key call extract phi bin un conv assert closure make varargs cyc none
	Sub  string
	Args []*Term
	Ref  VRef
	Typ  types.Type
	Fld  *types.Var
	C    constant.Value
	key  string
}

func (t *Term) Key() string {
	if t.key != "" {
		return t.key
	}
	var b strings.Builder
	switch t.Op {
	case "field":
		b.WriteString(t.Args[0].Key() + "." + t.Sub)
	case "const":
		b.WriteString(t.Sub)
	case "param":
		b.WriteString("$" + t.Sub)
	default:
		b.WriteString(t.Op)
		if t.Sub != "" {
			b.WriteString(":" + t.Sub)
		}
		if t.identity() {
			fmt.Fprintf(&b, "@%d.%s", t.Ref.F.ID, t.Ref.V.Name())
		}
		if len(t.Args) > 0 {
			b.WriteByte('(')
			for i, a := range t.Args {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(a.Key())
			}
			b.WriteByte(')')
		}
	}
	t.key = b.String()
	return t.key
}

func (t *Term) identity() bool {
	switch t.Op {
	case "call", "alloc", "make", "invoke", "dyn", "cyc", "elem", "ekey", "recv", "select", "closure", "other":
		return t.Ref.F != nil && t.Ref.V != nil
	}
	return false
}

// Is reports whether t is field path ending in names... e.g. Is("Start").
func (t *Term) IsField(name string) bool { return t.Op == "field" && t.Sub == name }

// Strip removes conversions and address-of.
func (t *Term) Strip() *Term {
	for t.Op == "conv" || t.Op == "&" || t.Op == "assert" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func (t *Term) NoAddr() *Term {
	if t.Op == "&" {
		return t.Args[0]
	}
	return t
}

// Leaves: alternatives when t is a phi.
func (t *Term) Alts() []*Term {
	if t.Op == "phi" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, a.Alts()...)
		}
		return out
	}
	return []*Term{t}
}

// Any reports whether pred holds for some sub-term.
func (t *Term) Any(pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(pred) {
			return true
		}
	}
	return false
}

// Path returns root and field names for a field chain.
func (t *Term) Path() (*Term, []string) {
	var names []string
	x := t
	for x.Op == "field" || x.Op == "&" || x.Op == "conv" || x.Op == "iface" {
		if x.Op == "field" {
			names = append([]string{x.Sub}, names...)
		}
		x = x.Args[0]
	}
	return x, names
}

func (t *Term) PathStr() string {
	r, n := t.Path()
	return r.Key() + "." + strings.Join(n, ".")
}

// CallTo reports whether t is a call (or invoke) of the named function/method.
func (t *Term) CallTo(names ...string) bool {
	if t.Op != "call" && t.Op != "invoke" {
		return false
	}
	for _, n := range names {
		if t.Sub == n || strings.HasSuffix(t.Sub, "."+n) || strings.HasSuffix(t.Sub, "/"+n) {
			return true
		}
	}
	return false
}

func (e *Engine) Term(f *Facts, r VRef) *Term { return e.term(r, f, 0) }

const maxTermDepth = 40

func (e *Engine) term(r VRef, f *Facts, d int) *Term {
	if d > maxTermDepth {
		return &Term{Op: "cyc", Ref: r, Typ: r.V.Type()}
	}
	r0 := r
	r = e.strip(r)
	_ = r0
	if f != nil {
		if ft, ok := f.m[vkeySafe(r)]; ok {
			switch ft.K {
			case FConst:
				return constTerm(ft.C, r.V.Type())
			case FNil:
				return &Term{Op: "const", Sub: "nil", Typ: r.V.Type()}
			case FSym:
				if ft.Ref != r {
					return e.term(ft.Ref, f, d+1)
				}
			case FZero:
				if structOf0(r.V.Type()) == nil || !f.hasUnder(vkeySafe(r)+"/") {
					return &Term{Op: "const", Sub: "zero", Typ: r.V.Type()}
				}
			}
		}
		if e.H.Eval != nil {
			if ft, ok := e.H.Eval(e, f, r); ok && ft.K == FConst {
				return constTerm(ft.C, r.V.Type())
			}
		}
	}
	t := &Term{Ref: r, Typ: r.V.Type()}
	switch x := r.V.(type) {
	case *ssa.Const:
		if x.Value == nil {
			t.Op, t.Sub = "const", "nil"
			if !isNilable(x.Type()) {
				t.Sub = "zero"
			}
			return t
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Parameter:
		for i, p := range r.F.Fn.Params {
			if p == x {
				t.Op, t.Sub = "param", fmt.Sprint(i)
			}
		}
		if r.F.Parent != nil {
			t.Sub = fmt.Sprintf("%d@%d", r.F.ID, indexOfParam(r.F.Fn, x))
		}
		return t
	case *ssa.FreeVar:
		t.Op, t.Sub = "free", x.Name()
		return t
	case *ssa.Global:
		t.Op, t.Sub = "&", ""
		t.Args = []*Term{{Op: "global", Sub: x.RelString(nil), Ref: r, Typ: derefT(x.Type())}}
		return t
	case *ssa.Function:
		t.Op, t.Sub = "func", fullName(x)
		return t
	case *ssa.Builtin:
		t.Op, t.Sub = "func", x.Name()
		return t
	case *ssa.MakeClosure:
		t.Op, t.Sub = "closure", fullName(x.Fn.(*ssa.Function))
		return t
	case *ssa.Alloc:
		t.Op, t.Sub = "alloc", types.TypeString(derefT(x.Type()), shortQual)
		return t
	case *ssa.FieldAddr:
		b := e.term(VRef{r.F, x.X}, f, d+1)
		fl := fieldOf(x)
		return &Term{Op: "&", Ref: r, Typ: x.Type(), Args: []*Term{{Op: "field", Sub: fl.Name(), Fld: fl, Args: []*Term{b.NoAddr()}, Ref: r, Typ: fl.Type()}}}
	case *ssa.Field:
		b := e.term(VRef{r.F, x.X}, f, d+1)
		fl := fieldOf(x)
		if b.Op == "const" && b.Sub == "zero" {
			return &Term{Op: "const", Sub: "zero", Typ: fl.Type()}
		}
		if b.Op == "alloc" || b.Op == "load" {
			if v := e.structFieldStatic(b, fl.Name(), f, d); v != nil {
				return v
			}
		}
		return &Term{Op: "field", Sub: fl.Name(), Fld: fl, Args: []*Term{b.NoAddr()}, Ref: r, Typ: fl.Type()}
	case *ssa.IndexAddr:
		b := e.term(VRef{r.F, x.X}, f, d+1)
		i := e.term(VRef{r.F, x.Index}, f, d+1)
		return &Term{Op: "&", Ref: r, Typ: x.Type(), Args: []*Term{{Op: "index", Args: []*Term{b.NoAddr(), i}, Ref: r, Typ: derefT(x.Type())}}}
	case *ssa.Index:
		b := e.term(VRef{r.F, x.X}, f, d+1)
		i := e.term(VRef{r.F, x.Index}, f, d+1)
		return &Term{Op: "index", Args: []*Term{b.NoAddr(), i}, Ref: r, Typ: x.Type()}
	case *ssa.Lookup:
		b := e.term(VRef{r.F, x.X}, f, d+1)
		i := e.term(VRef{r.F, x.Index}, f, d+1)
		return &Term{Op: "lookup", Args: []*Term{b, i}, Ref: r, Typ: x.Type()}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return e.loadTerm(r, x, f, d)
		case token.ARROW:
			t.Op = "recv"
			t.Args = []*Term{e.term(VRef{r.F, x.X}, f, d+1)}
			return t
		}
		t.Op, t.Sub = "un", x.Op.String()
		t.Args = []*Term{e.term(VRef{r.F, x.X}, f, d+1)}
		return t
	case *ssa.BinOp:
		a := e.term(VRef{r.F, x.X}, f, d+1)
		b := e.term(VRef{r.F, x.Y}, f, d+1)
		op := x.Op
		if a.Op == "const" && b.Op != "const" {
			switch op {
			case token.EQL, token.NEQ, token.ADD, token.MUL, token.AND, token.OR:
				a, b = b, a
			case token.LSS:
				a, b, op = b, a, token.GTR
			case token.GTR:
				a, b, op = b, a, token.LSS
			case token.LEQ:
				a, b, op = b, a, token.GEQ
			case token.GEQ:
				a, b, op = b, a, token.LEQ
			}
		}
		t.Op, t.Sub, t.Args = "bin", op.String(), []*Term{a, b}
		return t
	case *ssa.Convert:
		a := e.term(VRef{r.F, x.X}, f, d+1)
		t.Op, t.Sub, t.Args = "conv", types.TypeString(x.Type(), shortQual), []*Term{a}
		return t
	case *ssa.SliceToArrayPointer:
		t.Op, t.Sub, t.Args = "conv", types.TypeString(x.Type(), shortQual), []*Term{e.term(VRef{r.F, x.X}, f, d+1)}
		return t
	case *ssa.TypeAssert:
		t.Op, t.Sub, t.Args = "assert", types.TypeString(x.AssertedType, shortQual), []*Term{e.term(VRef{r.F, x.X}, f, d+1)}
		return t
	case *ssa.Extract:
		tup := e.term(VRef{r.F, x.Tuple}, f, d+1)
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			rg, _ := nx.Iter.(*ssa.Range)
			var coll *Term
			if rg != nil {
				coll = e.term(VRef{r.F, rg.X}, f, d+1)
			} else {
				coll = &Term{Op: "none"}
			}
			switch x.Index {
			case 0:
				t.Op = "more"
			case 1:
				t.Op = "ekey"
			default:
				t.Op = "elem"
			}
			t.Args = []*Term{coll}
			t.Ref = VRef{r.F, nx}
			return t
		}
		if tup.Op == "lookup" {
			if x.Index == 0 {
				return tup
			}
			t.Op, t.Args = "has", tup.Args
			return t
		}
		if tup.Op == "assert" {
			if x.Index == 0 {
				return tup
			}
			t.Op, t.Sub, t.Args = "asserted", tup.Sub, tup.Args
			return t
		}
		// inlined multi-result call: union of returned operands
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if alts := e.returnAlts(r.F, call, x.Index, f, d); alts != nil {
				return mkPhi(alts, r)
			}
		}
		t.Op, t.Sub, t.Args = "extract", fmt.Sprint(x.Index), []*Term{tup}
		return t
	case *ssa.Call:
		cc := x.Common()
		callee, _, _, _ := e.resolveCallee(r.F, factsOr(f), cc)
		if cc.IsInvoke() {
			t.Op, t.Sub = "invoke", originName(cc.Value.Type())+"."+cc.Method.Name()
			t.Args = append(t.Args, e.term(VRef{r.F, cc.Value}, f, d+1))
		} else if callee != nil {
			if alts := e.returnAlts(r.F, x, 0, f, d); alts != nil && callee.Signature.Results().Len() == 1 {
				return mkPhi(alts, r)
			}
			t.Op, t.Sub = "call", fullName(callee)
		} else if b, ok := cc.Value.(*ssa.Builtin); ok {
			t.Op, t.Sub = "call", b.Name()
			switch b.Name() {
			case "len", "cap", "append", "min", "max":
				t.Op = "pure"
			}
		} else {
			t.Op, t.Sub = "dyn", ""
			t.Args = append(t.Args, e.term(VRef{r.F, cc.Value}, f, d+1))
		}
		for _, a := range cc.Args {
			t.Args = append(t.Args, e.term(VRef{r.F, a}, f, d+1))
		}
		return t
	case *ssa.Phi:
		var alts []*Term
		for _, ed := range x.Edges {
			if ed == x {
				continue
			}
			if d > 12 {
				alts = append(alts, &Term{Op: "cyc", Ref: r, Typ: r.V.Type()})
				break
			}
			alts = append(alts, e.term(VRef{r.F, ed}, nil, d+12))
		}
		ph := mkPhi(alts, r)
		return ph
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		t.Op, t.Sub = "make", types.TypeString(x.Type(), shortQual)
		return t
	case *ssa.Slice:
		if al, ok := e.strip(VRef{r.F, x.X}).V.(*ssa.Alloc); ok {
			if at, ok := derefT(al.Type()).Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
				return e.varargs(e.strip(VRef{r.F, x.X}).F, al, at, f, d)
			}
		}
		t.Op = "slice"
		t.Args = []*Term{e.term(VRef{r.F, x.X}, f, d+1)}
		for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
			if o == nil {
				t.Args = append(t.Args, &Term{Op: "none"})
			} else {
				t.Args = append(t.Args, e.term(VRef{r.F, o}, f, d+1))
			}
		}
		return t
	}
	t.Op = "other"
	return t
}

func vkeySafe(r VRef) string {
	if r.F == nil {
		return ""
	}
	return vkey(r)
}

func factsOr(f *Facts) *Facts {
	if f == nil {
		return emptyFacts
	}
	return f
}

func indexOfParam(fn *ssa.Function, p *ssa.Parameter) int {
	for i, q := range fn.Params {
		if q == p {
			return i
		}
	}
	return -1
}

func shortQual(p *types.Package) string { return p.Name() }

func constTerm(c constant.Value, t types.Type) *Term {
	return &Term{Op: "const", Sub: c.ExactString(), C: c, Typ: t}
}

func mkPhi(alts []*Term, r VRef) *Term {
	var uniq []*Term
	seen := map[string]bool{}
	for _, a := range alts {
		for _, x := range a.Alts() {
			if !seen[x.Key()] {
				seen[x.Key()] = true
				uniq = append(uniq, x)
			}
		}
	}
	if len(uniq) == 1 {
		return uniq[0]
	}
	return &Term{Op: "phi", Args: uniq, Ref: r, Typ: r.V.Type()}
}

// returnAlts: terms returned by the repo-local callee of an (inlinable) call.
func (e *Engine) returnAlts(fr *Frame, call *ssa.Call, idx int, f *Facts, d int) []*Term {
	callee, free, _, _ := e.resolveCallee(fr, factsOr(f), call.Common())
	if callee == nil || len(callee.Blocks) == 0 || !e.shouldInline(fr, call, callee) {
		return nil
	}
	if d > 20 {
		return nil
	}
	var args []VRef
	for _, a := range call.Common().Args {
		args = append(args, VRef{fr, a})
	}
	nf := e.frame(fr, call, callee, args, free)
	var alts []*Term
	for _, b := range callee.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && idx < len(rt.Results) && (b != callee.Recover || e.callsRecover(callee)) {
				alts = append(alts, e.term(VRef{nf, rt.Results[idx]}, f, d+3))
			}
		}
	}
	return alts
}

// loadTerm resolves *addr.
func (e *Engine) loadTerm(r VRef, x *ssa.UnOp, f *Facts, d int) *Term {
	ar := e.strip(VRef{r.F, x.X})
	switch a := ar.V.(type) {
	case *ssa.Alloc:
		// whole-variable load
		if v := e.allocStatic(ar.F, a, "", r.F, x, f, d); v != nil {
			return v
		}
		return &Term{Op: "load", Ref: ar, Typ: x.Type(), Args: []*Term{e.term(ar, f, d+1)}}
	case *ssa.FieldAddr:
		root, path := e.addrRoot(ar)
		if al, ok := root.V.(*ssa.Alloc); ok {
			if v := e.allocStatic(root.F, al, path, r.F, x, f, d); v != nil {
				return v
			}
		}
	}
	t := e.term(ar, f, d+1)
	if t.Op == "&" {
		return t.Args[0]
	}
	return &Term{Op: "load", Ref: r, Typ: x.Type(), Args: []*Term{t}}
}

func (e *Engine) addrRoot(r VRef) (VRef, string) {
	path := ""
	for {
		r = e.strip(r)
		fa, ok := r.V.(*ssa.FieldAddr)
		if !ok {
			return r, path
		}
		path = "/" + fieldOf(fa).Name() + path
		r = VRef{r.F, fa.X}
	}
}

// allocStatic finds the unique (or union of) stores into alloc+path, flow-insensitively.
func (e *Engine) allocStatic(fr *Frame, al *ssa.Alloc, path string, useF *Frame, use ssa.Instruction, f *Facts, d int) *Term {
	if d > 25 {
		return nil
	}
	var alts []*Term
	escaped := false
	var walk func(f2 *Frame, v ssa.Value, p string)
	var last *ssa.Store
	var lastF *Frame
	n := 0
	walk = func(f2 *Frame, v ssa.Value, p string) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, u := range *refs {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr != v {
					continue
				}
				if ld, ok := y.Val.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == v {
					continue // stores what is there
				}
				if p == path {
					n++
					last, lastF = y, f2
					alts = append(alts, e.term(VRef{f2, y.Val}, f, d+2))
				} else if strings.HasPrefix(path, p+"/") || (p == "" && path != "") {
					// store of an enclosing struct: take its sub-field
					sub := strings.Split(strings.TrimPrefix(path, p+"/"), "/")
					if p == "" {
						sub = strings.Split(strings.TrimPrefix(path, "/"), "/")
					}
					st := e.term(VRef{f2, y.Val}, f, d+2)
					n++
					last, lastF = y, f2
					alts = append(alts, subField(e, st, sub, f, d))
				}
			case *ssa.FieldAddr:
				np := p + "/" + fieldOf(y).Name()
				if np == path || strings.HasPrefix(path, np+"/") {
					walk(f2, y, np)
				}
			}
		}
	}
	walk(fr, al, "")
	_ = escaped
	if n == 0 {
		return nil
	}
	_ = last
	_ = lastF
	t := mkPhi(alts, VRef{fr, al})
	if t.Op == "phi" {
		// the type is that of the part stored, not of the whole variable
		t.Typ = nil
		for _, a := range t.Args {
			if a.Typ != nil {
				t.Typ = a.Typ
			}
		}
	}
	return t
}

func subField(e *Engine, t *Term, names []string, f *Facts, d int) *Term {
	for _, n := range names {
		if f != nil && t.Ref.F != nil && t.Ref.V != nil && (t.Op == "load" || t.Op == "call" || t.Op == "param") && structOf0(t.Ref.V.Type()) != nil {
			if ft, ok := f.m[vkeySafe(t.Ref)+"/"+n]; ok {
				switch ft.K {
				case FConst:
					t = constTerm(ft.C, nil)
					continue
				case FSym:
					t = e.term(ft.Ref, f, d+1)
					continue
				}
			}
		}
		if t.Op == "const" {
			return &Term{Op: "const", Sub: "zero"}
		}
		var ft *types.Var
		if s := structOf0(t.Typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					ft = s.Field(i)
				}
			}
		}
		if t.Op == "load" || t.Op == "alloc" {
			if v := e.structFieldStatic(t, n, f, d+2); v != nil {
				t = v
				continue
			}
		}
		nt := &Term{Op: "field", Sub: n, Fld: ft, Args: []*Term{t.NoAddr()}, Ref: t.Ref}
		if ft != nil {
			nt.Typ = ft.Type()
		}
		t = nt
	}
	return t
}

func structOf0(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	return structOf(t)
}

// structFieldStatic: field `name` of the struct value loaded from an alloc.
func (e *Engine) structFieldStatic(t *Term, name string, f *Facts, d int) *Term {
	r := t.Ref
	if t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "alloc" {
		r = t.Args[0].Ref
	}
	al, ok := r.V.(*ssa.Alloc)
	if !ok {
		return nil
	}
	return e.allocStatic(r.F, al, "/"+name, r.F, nil, f, d+2)
}

func (e *Engine) varargs(fr *Frame, al *ssa.Alloc, at *types.Array, f *Facts, d int) *Term {
	elems := make([]*Term, at.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i, _ := constant.Int64Val(c.Value)
		for _, v := range *ia.Referrers() {
			if st, ok := v.(*ssa.Store); ok && st.Addr == ia && int(i) < len(elems) {
				elems[i] = e.term(VRef{fr, st.Val}, f, d+1)
			}
		}
	}
	for i := range elems {
		if elems[i] == nil {
			elems[i] = &Term{Op: "none"}
		}
	}
	return &Term{Op: "varargs", Args: elems, Ref: VRef{fr, al}, Typ: al.Type()}
}

// hasUnder: some fact is recorded below the key.
func (f *Facts) hasUnder(prefix string) bool {
	for k := range f.m {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

// callsRecover: some function deferred here recovers from panics.
func (e *Engine) callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
			}
			if g == nil {
				continue
			}
			for _, b2 := range g.Blocks {
				for _, i2 := range b2.Instrs {
					if c, ok := i2.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
