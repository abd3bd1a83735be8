package main

// P05: invalid measurement values never reach an aggregation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P05", ruleRange) }

type rtClass struct {
	name string
	v    ival
}

func ruleRange(p *Prog, r *Report) {
	ruleRangeTable(p, r)
	ruleRangeGate(p, r)
}

func ruleRangeTable(p *Prog, r *Report) {
	const R = "range-table"
	r.Rule(R, "abstract evaluation of RangeTest over sign classes (-Inf, negative, zero, positive, +Inf, NaN), both number types and every instrument kind: false exactly for NaN, infinities, and negatives on synchronous counters and histograms")
	names, vals := p.enumConsts(mMetric+"/sdkinstrument", "Kind")
	inst := p.instancesOf(func(f *ssa.Function) bool { return fullName(f) == p.repoName(mAgg, "RangeTest") })
	n := 0
	for _, fn := range inst {
		if len(fn.Params) < 2 {
			continue
		}
		b, ok := fn.Params[0].Type().Underlying().(*types.Basic)
		if !ok {
			continue
		}
		isF := b.Info()&types.IsFloat != 0
		var classes []rtClass
		if isF {
			classes = []rtClass{
				{"-Inf", ival{lo: math.Inf(-1), hi: math.Inf(-1)}},
				{"negative", ival{lo: -math.MaxFloat64, hi: 0, hiOpen: true}},
				{"zero", ival{}},
				{"positive", ival{lo: 0, loOpen: true, hi: math.MaxFloat64}},
				{"+Inf", ival{lo: math.Inf(1), hi: math.Inf(1)}},
				{"NaN", ival{nan: true}},
			}
		} else {
			classes = []rtClass{
				{"negative", ival{lo: math.MinInt64, hi: -1}},
				{"zero", ival{}},
				{"positive", ival{lo: 1, hi: math.MaxInt64}},
			}
		}
		for _, kn := range names {
			if strings.HasPrefix(kn, "NumKinds") {
				continue
			}
			for _, cl := range classes {
				n++
				want := !(cl.v.nan || math.IsInf(cl.v.lo, 0) || cl.name == "negative" && (kn == "SyncCounter" || kn == "SyncHistogram"))
				got := map[string]bool{}
				isNum := func(t *Term) bool { return t.Key() == "$0" }
				d := &Decide{P: p, Fn: fn, Vals: map[string]constant.Value{"$1.Kind": vals[kn]}}
				d.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
					return p.isLocal(g) && !strings.Contains(fullName(g), "/doevery.")
				}
				d.Cmp = func(op token.Token, x, y *Term) (bool, bool) {
					if isNum(x) && isNum(y) {
						if cl.v.nan {
							return op == token.NEQ, true
						}
						return op == token.EQL || op == token.LEQ || op == token.GEQ, true
					}
					if isNum(x) {
						if c, ok := constFloat(y); ok {
							return cmpIval(op, cl.v, c)
						}
					}
					if isNum(y) {
						if c, ok := constFloat(x); ok {
							return cmpIval(flipOp(op), cl.v, c)
						}
					}
					return false, false
				}
				d.Call = func(c *Ctx, ci CallInfo) {
					switch ci.Full() {
					case "math.IsNaN":
						if isNum(c.Arg(0)) {
							c.Fork(c.A(), map[int]Fact{0: factBool(cl.v.nan)})
						}
					case "math.IsInf":
						if s, ok := constInt(c.Arg(1)); ok && isNum(c.Arg(0)) {
							inf := !cl.v.nan && (math.IsInf(cl.v.lo, 1) && s >= 0 || math.IsInf(cl.v.lo, -1) && s <= 0)
							c.Fork(c.A(), map[int]Fact{0: factBool(inf)})
						}
					case "math.Signbit":
						if isNum(c.Arg(0)) && !cl.v.nan && cl.name != "zero" {
							c.Fork(c.A(), map[int]Fact{0: factBool(cl.v.hi <= 0)})
						}
					}
				}
				d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
					if panics || len(res) != 1 {
						got["panic"] = true
						return
					}
					if v, ok := c.E.constOf(c.St.F, VRef{c.F, refs[0]}); ok {
						got[v.ExactString()] = true
					} else {
						got["unknown"] = true
					}
				}
				d.Run()
				r.Engine(d.E)
				r.Ob(R, len(got) == 1 && got[fmt.Sprint(want)], fn, fmt.Sprintf("%s %s on %s", b.Name(), cl.name, kn), p.pos(fn.Pos()),
					fmt.Sprintf("a %s %s value on a %s instrument yields %s, expected %v", cl.name, b.Name(), kn, joinS(got), want))
			}
		}
	}
	r.AtLeast(R, n, 6*3+6*6, "table entry")
}

type gateSt struct {
	tested int8 // 0 not tested, 1 accepted, 2 rejected
	upd    int8
	other  bool // rejected for another reason
}

func ruleRangeGate(p *Prog, r *Report) {
	const R = "range-gate"
	r.Rule(R, "on every path of every measurement entry point, the aggregator Update is called with the measured value only after RangeTest accepted that same value for the instrument's own descriptor; after acceptance a missing Update is reached only when the view disabled the instrument")
	upd := func(in ssa.Instruction) bool { return isInvokeOf(in, "Update") }
	rc := newReach(p, upd)
	var roots []*ssa.Function
	for _, pk := range []string{mSync, mAsync} {
		for _, f := range p.all {
			if len(f.Blocks) == 0 || generic(f) || wrapper(f) || f.Parent() != nil || pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+pk || !rc.has(f) {
				continue
			}
			if len(lockInfo(p).callers[f]) > 0 && !isExported(f) {
				continue
			}
			num := -1
			for i, prm := range f.Params {
				if b, ok := prm.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int64 || b.Kind() == types.Float64) {
					num = i
				}
			}
			if num < 0 {
				continue
			}
			roots = append(roots, f)
		}
	}
	roots = dedupRoots(roots)
	nUpd := 0
	for _, fn := range roots {
		value := ""
		for i, prm := range fn.Params {
			if b, ok := prm.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int64 || b.Kind() == types.Float64) {
				value = "$" + itoa(i)
			}
		}
		h := Hooks{}
		h.Inline = inlineRelevant(p, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return upd(in) || ok && callName(c.Common().StaticCallee(), c.Common()) == p.repoName(mAgg, "RangeTest")
		})
		h.Call = func(c *Ctx, ci CallInfo) {
			st := c.A().(gateSt)
			switch {
			case ci.Full() == p.repoName(mAgg, "RangeTest"):
				r.Ob(R, c.Arg(0).Key() == value, c.F.Fn, "tested value", c.Pos(), "the range test is applied to "+c.Arg(0).Key()+" instead of the measured value")
				d := c.Arg(1)
				r.Ob(R, isNamedType(d.Typ, p.repoName(mMetric+"/sdkinstrument", "Descriptor")) && d.Op == "field" && isObserver(p, d.Args[0].Typ), c.F.Fn, "tested descriptor", c.Pos(), "the range test uses a descriptor that is not the instrument's own")
				a, b := st, st
				a.tested, b.tested = 1, 2
				c.Fork(a, map[int]Fact{0: factBool(true)})
				c.Fork(b, map[int]Fact{0: factBool(false)})
			case ci.Invoke && ci.Method == "Update" && len(ci.Common.Args) == 1:
				nUpd++
				r.Ob(R, st.tested == 1, c.F.Fn, "aggregator update", c.Pos(), "the aggregator is updated on a path where the value was not accepted by the range test", c.Trace()...)
				r.Ob(R, c.Arg(0).Key() == value, c.F.Fn, "updated value", c.Pos(), "the aggregator is updated with "+c.Arg(0).Key()+" instead of the measured value")
				st.upd = inc(st.upd)
				c.Set(st)
			}
		}
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			t := c.T(cond)
			st := c.A().(gateSt)
			if st.other {
				return
			}
			switch {
			case t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && t.Args[1].Sub == "nil" && (t.Sub == "==") == taken:
				st.other = true // disabled instrument or invalid callback state
			case t.Op == "asserted" && !taken, t.Op == "has" && !taken:
				st.other = true
			}
			c.Set(st)
		}
		h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
			if panics {
				return
			}
			st := c.A().(gateSt)
			r.Ob(R, st.upd <= 1 && (st.upd == 1 || st.tested == 2 || st.other), fn, "accepted value recorded", p.pos(fn.Pos()), fmt.Sprintf("a path with an accepted value ends with %d updates", st.upd), c.Trace()...)
		}
		e := newEngine(p, h)
		e.Run(fn, gateSt{})
		r.Engine(e)
	}
	r.AtLeast(R, nUpd, 4, "aggregator update")
	r.AtLeast(R, len(roots), 4, "measurement entry point")
}

func dedupRoots(fs []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[string]bool{}
	for _, f := range fs {
		k := f.String()
		if !seen[k] {
			seen[k] = true
			out = append(out, f)
		}
	}
	return out
}

func isObserver(p *Prog, t types.Type) bool {
	n := namedOf(derefT(t))
	return n != nil && (originName(n) == p.repoName(mSync, "Observer") || originName(n) == p.repoName(mAsync, "Observer"))
}

func isExported(f *ssa.Function) bool {
	ob := f.Object()
	if ob == nil && f.Origin() != nil {
		ob = f.Origin().Object()
	}
	return ob != nil && ob.Exported()
}
