package main

// Decision tables: constant propagation through a function for given abstract
// inputs, returning every result the function can produce.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Decide struct {
	P      *Prog
	Fn     *ssa.Function
	Vals   map[string]constant.Value                             // term key -> constant
	Nil    map[string]bool                                       // term key -> is nil
	Cmp    func(op token.Token, x, y *Term) (bool, bool)         // comparisons of abstract values
	Call   func(c *Ctx, ci CallInfo)                             // models of external calls
	Instr  func(c *Ctx)                                          //
	Branch func(c *Ctx, cond ssa.Value, taken bool)              //
	Inline func(*Frame, ssa.CallInstruction, *ssa.Function) bool // default: everything local
	Edge   func(c *Ctx, from, to *ssa.BasicBlock, pred int)
	Exit   func(c *Ctx, res []*Term, refs []ssa.Value, panic bool) // per outcome
	A0     any
	Loads  func(e *Engine, f *Facts, r VRef) (Fact, bool) // facts for otherwise unknown loads
	Init   map[string]Fact                                // entry facts, by parameter name and path ("p/Field")
	E      *Engine
}

func (d *Decide) key(t *Term) string { return t.Strip().Key() }

func (d *Decide) Run() {
	busy := false
	h := Hooks{Inline: d.Inline, Edge: d.Edge, Call: d.Call, Instr: d.Instr, Branch: d.Branch}
	if h.Inline == nil {
		h.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool { return d.P.isLocal(g) }
	}
	h.Eval = func(e *Engine, f *Facts, r VRef) (Fact, bool) {
		if busy {
			return Fact{}, false
		}
		if ft, ok := f.m[vkey(r)]; ok {
			switch ft.K {
			case FConst, FNil, FNonNil, FZero, FSym:
				return Fact{}, false
			}
		}
		switch x := r.V.(type) {
		case *ssa.Parameter, *ssa.Field, *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.Index, *ssa.FreeVar:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return Fact{}, false
			}
		default:
			return Fact{}, false
		}
		if ft, ok := d.P.evalTable(e, f, r); ok {
			return ft, true
		}
		if d.Loads != nil {
			if ft, ok := d.Loads(e, f, r); ok {
				return ft, true
			}
		}
		if len(d.Vals)+len(d.Nil) == 0 {
			return Fact{}, false
		}
		busy = true
		t := e.term(r, f, 0)
		busy = false
		if t.Op == "conv" {
			return Fact{}, false
		}
		k := d.key(t)
		if v, ok := d.Vals[k]; ok {
			return Fact{K: FConst, C: v}, true
		}
		if n, ok := d.Nil[k]; ok {
			if n {
				return Fact{K: FNil}, true
			}
			return Fact{K: FNonNil}, true
		}
		return Fact{}, false
	}
	if d.Cmp != nil {
		cb := false
		h.EvalCmp = func(e *Engine, f *Facts, r VRef) (constant.Value, bool) {
			b, ok := r.V.(*ssa.BinOp)
			if !ok || cb {
				return nil, false
			}
			switch b.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return nil, false
			}
			cb = true
			x, y := e.term(VRef{r.F, b.X}, f, 0), e.term(VRef{r.F, b.Y}, f, 0)
			cb = false
			if v, ok := d.Cmp(b.Op, x, y); ok {
				return constant.MakeBool(v), true
			}
			return nil, false
		}
	}
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
		if d.Exit == nil {
			return
		}
		var ts []*Term
		for _, v := range res {
			ts = append(ts, c.T(v))
		}
		d.Exit(c, ts, res, panics)
	}
	d.E = newEngine(d.P, h)
	d.E.RunWith(d.Fn, d.A0, d.Init)
}

// enumConsts lists the declared constants of a named type, by value.
func (p *Prog) enumConsts(rel, typ string) (names []string, vals map[string]constant.Value) {
	pk := p.pkg(rel)
	vals = map[string]constant.Value{}
	if pk == nil {
		return
	}
	for _, m := range pk.Members {
		nc, ok := m.(*ssa.NamedConst)
		if !ok {
			continue
		}
		if n := namedOf(nc.Type()); n == nil || n.Obj().Name() != typ || n.Obj().Pkg() != pk.Pkg {
			continue
		}
		names = append(names, nc.Name())
		vals[nc.Name()] = nc.Value.Value
	}
	sort.Strings(names)
	return
}

// ival is an interval of numbers; nan stands for NaN.
type ival struct {
	lo, hi         float64
	loOpen, hiOpen bool
	nan            bool
}

// cmpIval compares an interval with a constant, when decided.
func cmpIval(op token.Token, v ival, c float64) (bool, bool) {
	if v.nan {
		return op == token.NEQ, true
	}
	lt := v.hi < c || v.hi == c && v.hiOpen
	le := v.hi <= c
	gt := v.lo > c || v.lo == c && v.loOpen
	ge := v.lo >= c
	eq := v.lo == v.hi && v.lo == c
	switch op {
	case token.LSS:
		return lt, lt || ge
	case token.LEQ:
		return le, le || gt
	case token.GTR:
		return gt, gt || le
	case token.GEQ:
		return ge, ge || lt
	case token.EQL:
		return eq, eq || lt || gt
	case token.NEQ:
		return !eq, eq || lt || gt
	}
	return false, false
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func constFloat(t *Term) (float64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	if t.Sub == "zero" {
		return 0, true
	}
	if t.C == nil || t.C.Kind() != constant.Int && t.C.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(t.C))
	return f, true
}

// isKind: a named type of the repository.
func isNamedType(t types.Type, full string) bool {
	n := namedOf(t)
	return n != nil && originName(n) == full
}

func joinS(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}
