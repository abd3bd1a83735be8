package main

// P19: the algebra of the aggregators, from effect summaries.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", func(p *Prog, r *Report) {
		ruleAggregators(p, r)
		ruleNumbers(p, r)
		ruleStorageLocks(p, r)
	})
}

const structureHist = "github.com/lightstep/go-expohisto/structure.Histogram."

// histModel gives the library histogram's operations as operations on one value.
func histModel(x *XC) bool {
	if !strings.HasPrefix(x.Name, structureHist) || len(x.Args) == 0 || x.Fn == nil {
		return false
	}
	h := x.Args[0]
	if h.Typ == nil || !isPtrT(h.Typ) {
		return false
	}
	t := derefT(h.Typ)
	rd := func(p *Ex) *Ex { return x.Read(p, t) }
	mk := func(op string, args ...*Ex) *Ex { return &Ex{Op: op, Args: args, Typ: t} }
	switch strings.TrimPrefix(x.Name, structureHist) {
	case "Update", "UpdateByIncr":
		x.Write(h, mk("hupd", append([]*Ex{rd(h)}, x.Args[1:]...)...))
	case "Clear":
		x.Write(h, mk("hempty"))
	case "Init":
		x.Write(h, mk("hempty", x.Args[1]))
	case "Swap":
		a, b := rd(h), rd(x.Args[1])
		x.Write(h, b)
		x.Write(x.Args[1], a)
	case "CopyInto":
		x.Write(x.Args[1], rd(h))
	case "MergeFrom":
		x.Write(h, mk("hmerge", rd(h), rd(x.Args[1])))
	case "Count", "Sum", "Min", "Max", "ZeroCount", "Scale", "Positive", "Negative":
		m := strings.ToLower(strings.TrimPrefix(x.Name, structureHist))
		r := &Ex{Op: "h" + m, Args: []*Ex{rd(h)}, Typ: tupT(x.Fn.Signature.Results(), 0)}
		x.Res = []*Ex{r}
	default:
		return false
	}
	return true
}

// leafPaths lists the data fields of a state type.
func leafPaths(p *Prog, t types.Type, pre string) []string {
	st := structOf(t)
	if st == nil {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() != nil {
			if n.Obj().Pkg().Path() == "sync" {
				continue
			}
			if strings.HasPrefix(n.Obj().Pkg().Path(), p.Module) && structOf(f.Type()) != nil {
				out = append(out, leafPaths(p, f.Type(), pre+"."+f.Name())...)
				continue
			}
		}
		out = append(out, pre+"."+f.Name())
	}
	return out
}

func fieldTypeAt(t types.Type, path string) types.Type {
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		st := structOf(t)
		if st == nil {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				t = st.Field(i).Type()
			}
		}
	}
	return t
}

type aggrKit struct {
	p        *Prog
	r        *Report
	T        types.Type // Methods instance
	S        types.Type // storage
	leaves   []string
	kind     string
	role     map[string]string // accessor -> leaf
	change   string            // the leaf HasChange tests
	changeEx func(param string) string
	name     string
}

func (k *aggrKit) eff() *Effects { return &Effects{P: k.p, Model: histModel, Atomics: true} }

func (k *aggrKit) leaf(o *Outcome, param int, path string) *Ex {
	ft := fieldTypeAt(k.S, path)
	return o.Read(exPtr(&Ex{Op: "*$" + itoa(param), Typ: k.S}, path, types.NewPointer(ft)), ft)
}

func initKey(param int, path string) string { return "init:*$" + itoa(param) + path }

func isInit(x *Ex, param int, path string) bool { return x.Key() == initKey(param, path) }

func (k *aggrKit) run(rule, m string) (*ssa.Function, []*Outcome) {
	fn := k.p.method(k.T, m)
	if !k.r.Need(rule, fn != nil && len(fn.Blocks) > 0, k.name+"."+m, "not found") {
		return nil, nil
	}
	e := k.eff()
	os := e.Run(fn, nil)
	k.r.Ob(rule, !e.Over, fn, m+" analysed", k.p.pos(fn.Pos()), "too many paths to enumerate")
	k.r.Summ(fn, len(os))
	return fn, os
}

func live(os []*Outcome) []*Outcome {
	var out []*Outcome
	for _, o := range os {
		if !o.Panic {
			out = append(out, o)
		}
	}
	return out
}

func aggKindName(p *Prog, c *Ex) string {
	pk := p.pkg(mAggn)
	i, ok := c.int()
	if pk == nil || !ok {
		return ""
	}
	for _, n := range pk.Pkg.Scope().Names() {
		if cn, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok && isNamedType(cn.Type(), p.repoName(mAggn, "Kind")) {
			if v, ok := constant.Int64Val(cn.Val()); ok && v == i {
				return n
			}
		}
	}
	return ""
}

// scenario: an order type of the values involved plus zero tests.
type scenario struct {
	rank map[string]int  // term key -> rank
	zero map[string]bool // term key -> is zero
}

func (s scenario) eval(x *Ex) (int, bool) {
	if r, ok := s.rank[x.Key()]; ok {
		return r, true
	}
	if x.Op == "min" || x.Op == "max" {
		best, have := 0, false
		for _, a := range x.Args {
			r, ok := s.eval(a)
			if !ok {
				return 0, false
			}
			if !have || x.Op == "min" && r < best || x.Op == "max" && r > best {
				best, have = r, true
			}
		}
		return best, have
	}
	return 0, false
}

func (s scenario) cond(a *Ex) (bool, bool) {
	switch a.Op {
	case "not":
		v, ok := s.cond(a.Args[0])
		return !v, ok
	case "==":
		if z, ok := s.zero[a.Args[0].Key()]; ok {
			if n, ok := a.Args[1].int(); ok && n == 0 {
				return z, true
			}
		}
		x, ok1 := s.eval(a.Args[0])
		y, ok2 := s.eval(a.Args[1])
		return x == y, ok1 && ok2
	case "<":
		if z, ok := s.zero[a.Args[1].Key()]; ok && unsignedT(a.Args[1].Typ) {
			if n, ok := a.Args[0].int(); ok && n == 0 {
				return !z, true
			}
		}
		x, ok1 := s.eval(a.Args[0])
		y, ok2 := s.eval(a.Args[1])
		return x < y, ok1 && ok2
	}
	return false, false
}

func (s scenario) allows(o *Outcome) bool {
	for _, c := range o.Conds {
		if v, ok := s.cond(c.A); ok && v != c.Val {
			return false
		}
	}
	return true
}

func unsignedT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}

func isSumOf(x *Ex, a func(*Ex) bool, b string) bool {
	if x.Op != "+" || len(x.Args) != 2 {
		return false
	}
	return a(x.Args[0]) && x.Args[1].Key() == b || a(x.Args[1]) && x.Args[0].Key() == b
}

// isAggrKit says whether a type has the operations of an aggregator.
func isAggrKit(p *Prog, n types.Type) bool {
	for _, m := range []string{"Kind", "Init", "Update", "Move", "Copy", "Merge", "HasChange", "ToAggregation", "ToStorage"} {
		if p.method(n, m) == nil {
			return false
		}
	}
	return true
}

func ruleAggregators(p *Prog, r *Report) {
	const R = "aggregator-algebra"
	r.Rule(R, "effect summary of each aggregator operation on every path, over all fields of the state: Update adds one observation, Merge adds the source's state and leaves the source alone, Move hands over every field and leaves nothing to report, Copy duplicates every field, SubtractSwap is current minus previous, HasChange is true exactly when there is something to report; extrema are decided over all orderings of the values involved")
	var kits []*aggrKit
	seen := map[string]bool{}
	for _, fn := range p.all {
		rc := fn.Signature.Recv()
		if rc == nil || fn.Name() != "Merge" && fn.Name() != "Move" && fn.Name() != "Copy" || len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		n := namedOf(rc.Type())
		if n == nil || n.TypeParams().Len() > 0 && n.TypeArgs().Len() == 0 || !strings.HasPrefix(n.Obj().Pkg().Path(), p.Module) {
			continue
		}
		if hasTypeParam(n) {
			continue
		}
		key := types.TypeString(n, nil)
		if seen[key] || len(fn.Params) < 3 || !isAggrKit(p, n) {
			continue
		}
		seen[key] = true
		S := derefT(fn.Params[1].Type())
		kits = append(kits, &aggrKit{p: p, r: r, T: n, S: S, leaves: leafPaths(p, S, ""), role: map[string]string{}, name: originName(n)})
	}
	sort.Slice(kits, func(i, j int) bool { return types.TypeString(kits[i].T, nil) < types.TypeString(kits[j].T, nil) })
	kinds := map[string]int{}
	for _, k := range kits {
		k.check(R)
		kinds[k.kind]++
	}
	for _, kd := range []string{"MonotonicSumKind", "NonMonotonicSumKind", "GaugeKind", "HistogramKind", "MinMaxSumCountKind"} {
		r.Ob(R, kinds[kd] == 2, nil, kd+" aggregators", "-", "the int64 and float64 aggregators of this kind were not both found: "+itoa(kinds[kd]))
	}
}

func (k *aggrKit) check(R string) {
	p, r := k.p, k.r
	k.r.Need(R, len(k.leaves) > 0, k.name+" state", "no fields")
	// the kind, the same for the methods and the state
	fn, os := k.run(R, "Kind")
	if fn == nil || len(os) != 1 {
		r.Ob(R, false, fn, "Kind", "-", "not a constant")
		return
	}
	k.kind = aggKindName(p, os[0].Ret[0])
	ptrS := types.NewPointer(k.S)
	acc := func(m string) (*ssa.Function, []*Outcome) {
		f := p.method(ptrS, m)
		if f == nil || len(f.Blocks) == 0 {
			return nil, nil
		}
		return f, live(k.eff().Run(f, nil))
	}
	if f, a := acc("Kind"); r.Need(R, f != nil, k.name+" state Kind", "not found") {
		r.Ob(R, len(a) == 1 && a[0].Ret[0].Key() == os[0].Ret[0].Key(), f, "kind of the state", p.pos(f.Pos()), "the state's kind differs from its methods'")
	}
	isSum := strings.HasSuffix(k.kind, "SumKind")
	if isSum {
		if f, a := acc("IsMonotonic"); r.Need(R, f != nil, k.name+" IsMonotonic", "not found") {
			for _, o := range a {
				b, ok := o.Ret[0].boolVal()
				r.Ob(R, ok && b == (k.kind == "MonotonicSumKind"), f, "monotonicity", p.pos(f.Pos()), "does not follow from the kind", o.Trace()...)
			}
		}
	}
	want := map[string][]string{
		"MonotonicSumKind": {"Sum"}, "NonMonotonicSumKind": {"Sum"}, "GaugeKind": {"Gauge"},
		"MinMaxSumCountKind": {"Min", "Max", "Sum", "Count"},
		"HistogramKind":      {"Min", "Max", "Sum", "Count", "ZeroCount", "Scale", "Positive", "Negative"},
	}[k.kind]
	if !r.Need(R, want != nil, k.name, "unknown kind of aggregator") {
		return
	}
	hist := ""
	for _, m := range want {
		f, a := acc(m)
		if !r.Need(R, f != nil, k.name+"."+m, "not found") {
			return
		}
		for _, o := range a {
			v := o.Ret[0]
			if k.kind == "HistogramKind" {
				x := stripNum(v)
				ok := x.Op == "h"+strings.ToLower(m) && x.Args[0].Op == "init"
				r.Ob(R, ok, f, "histogram "+m, p.pos(f.Pos()), "is not the histogram's own: "+v.Key(), o.Trace()...)
				if ok {
					h := strings.TrimPrefix(x.Args[0].Sub, "*$0")
					r.Ob(R, hist == "" || hist == h, f, "one histogram", p.pos(f.Pos()), "accessors read different histograms")
					hist = h
					k.checkNumber(R, f, m, v, x)
				}
				continue
			}
			x := stripNum(v)
			if i, isC := x.int(); isC && i == 0 && k.kind == "GaugeKind" {
				continue // an unset gauge; see the change test
			}
			ok := x.Op == "init" && strings.HasPrefix(x.Sub, "*$0")
			r.Ob(R, ok, f, "value of "+m, p.pos(f.Pos()), "is not a field of the state: "+v.Key(), o.Trace()...)
			if ok {
				k.role[m] = strings.TrimPrefix(x.Sub, "*$0")
				k.checkNumber(R, f, m, v, x)
			}
		}
	}
	if hist != "" {
		k.role["H"] = hist
	}
	used := map[string]string{}
	for m, l := range k.role {
		if o, dup := used[l]; dup {
			r.Ob(R, false, fn, "fields", p.pos(fn.Pos()), m+" and "+o+" read the same field")
		}
		used[l] = m
	}
	k.checkUpdate(R)
	if k.change == "" {
		return
	}
	k.checkChange(R)
	k.checkMerge(R)
	k.checkMove(R)
	k.checkCopy(R)
	k.checkSubtract(R)
	k.checkConversions(R)
}

// stripNum removes the conversion to Number.
func stripNum(x *Ex) *Ex {
	for x.Op == "conv" || x.Op == "bits" || x.Op == "iface" {
		x = x.Args[0]
	}
	return x
}

// atomicWrites lists the atomic writes through pointers below a parameter.
func atomicWrites(o *Outcome, below string) []*Ev {
	var out []*Ev
	for _, ev := range o.Ev {
		if ev.Kind == "atomic" && strings.Contains(ev.Args[0].Key(), below) {
			out = append(out, ev)
		}
	}
	return out
}

// unbits is the number behind its bit pattern.
func unbits(x *Ex) *Ex {
	if x.Op == "bits" {
		return x.Args[0]
	}
	return x
}

// indivisible: the shared state is changed by at most one atomic operation,
// which observes the value it replaces.
func (k *aggrKit) indivisible(R string, fn *ssa.Function, o *Outcome, param int, what string, seen func(*Ex) bool) {
	ws := atomicWrites(o, "*$"+itoa(param))
	if len(ws) == 0 {
		return // under the lock (storage-self-locking)
	}
	ok := len(ws) == 1 && ws[0].Name != "Store" && (seen == nil || seen(unbits(ws[0].Args[1])))
	k.r.Ob(R, ok, fn, what+" is one atomic step", k.p.pos(fn.Pos()), "an update between its atomic operations is lost", o.Trace()...)
}

// checkNumber: the accessor converts with the number type's own representation.
func (k *aggrKit) checkNumber(R string, f *ssa.Function, m string, v, x *Ex) {
	if !isNamedType(tupT(f.Signature.Results(), 0), k.p.repoName(mNumber, "Number")) {
		return
	}
	ft := x.Typ
	ok := false
	if b := basicOf(ft); b != nil {
		if b.Info()&types.IsFloat != 0 {
			ok = v.Op == "bits" || v.Op == "conv" && v.Args[0].Op == "bits"
		} else {
			ok = v.Op == "conv" && v.Args[0] == x
		}
	}
	k.r.Ob(R, ok, f, "number of "+m, k.p.pos(f.Pos()), "is not the 64-bit representation of the value: "+v.Key())
}

func curOrOther(param int, path string) func(*Ex) bool {
	return func(x *Ex) bool { return isInit(x, param, path) || x.Op == "other" }
}

func (k *aggrKit) checkUpdate(R string) {
	p, r := k.p, k.r
	fn, os := k.run(R, "Update")
	if fn == nil {
		return
	}
	pos := p.pos(fn.Pos())
	num := "$2"
	bad := func(o *Outcome, what string, v *Ex) {
		r.Ob(R, false, fn, "Update "+what, pos, "after an update it is "+v.Key(), o.Trace()...)
	}
	good := func() { r.Ob(R, true, fn, "Update", pos, "") }
	for _, o := range os {
		if o.Panic {
			r.Ob(R, false, fn, "Update", pos, "can panic", o.Trace()...)
			continue
		}
		switch k.kind {
		case "MonotonicSumKind", "NonMonotonicSumKind":
			v := k.leaf(o, 1, k.role["Sum"])
			if !isSumOf(v, curOrOther(1, k.role["Sum"]), num) {
				bad(o, "sum", v)
			} else {
				good()
			}
			k.indivisible(R, fn, o, 1, "Update", nil)
			k.change = k.role["Sum"]
		case "GaugeKind":
			v := k.leaf(o, 1, k.role["Gauge"])
			if v.Key() != num {
				bad(o, "value", v)
			} else {
				good()
			}
			// a further field orders the updates
			for _, l := range k.leaves {
				if l == k.role["Gauge"] {
					continue
				}
				v := k.leaf(o, 1, l)
				if isSumOf(v, func(x *Ex) bool { return x.Op == "init" && strings.HasPrefix(x.Sub, "g:") }, "1") {
					if k.change == "" {
						k.change = l
					}
					good()
				} else if k.change == "" || k.change == l {
					bad(o, "order of updates", v)
				}
			}
		case "HistogramKind":
			h := k.role["H"]
			v := k.leaf(o, 1, h)
			if !(v.Op == "hupd" && len(v.Args) == 2 && isInit(v.Args[0], 1, h) && v.Args[1].Key() == num) {
				bad(o, "histogram", v)
			} else {
				good()
			}
			k.change = h
		case "MinMaxSumCountKind":
			if v := k.leaf(o, 1, k.role["Sum"]); !isSumOf(v, curOrOther(1, k.role["Sum"]), num) {
				bad(o, "sum", v)
			} else if v := k.leaf(o, 1, k.role["Count"]); !isSumOf(v, curOrOther(1, k.role["Count"]), "1") {
				bad(o, "count", v)
			} else {
				good()
			}
			k.change = k.role["Count"]
		}
	}
	if k.kind == "MinMaxSumCountKind" {
		mn, mx, ct := initKey(1, k.role["Min"]), initKey(1, k.role["Max"]), initKey(1, k.role["Count"])
		for code := 0; code < 54; code++ {
			a, b, x, z := code%3, code/3%3, code/9%3, code/27 == 1
			if a > b {
				continue
			}
			s := scenario{rank: map[string]int{mn: a, mx: b, num: x}, zero: map[string]bool{ct: z}}
			wMin, wMax := a, b
			if z || x < a {
				wMin = x
			}
			if z || x > b {
				wMax = x
			}
			n := 0
			for _, o := range os {
				if o.Panic || !s.allows(o) {
					continue
				}
				n++
				g, ok := s.eval(k.leaf(o, 1, k.role["Min"]))
				r.Ob(R, ok && g == wMin, fn, "Update min", pos, "after an update it is "+k.leaf(o, 1, k.role["Min"]).Key(), o.Trace()...)
				g, ok = s.eval(k.leaf(o, 1, k.role["Max"]))
				r.Ob(R, ok && g == wMax, fn, "Update max", pos, "after an update it is "+k.leaf(o, 1, k.role["Max"]).Key(), o.Trace()...)
			}
			r.Ob(R, n > 0, fn, "Update cases", pos, "no path for an ordering of the values")
		}
	}
}

// zeroTerm is the term whose being zero means there is nothing to report.
func (k *aggrKit) zeroTerm(param int) string {
	if k.kind == "HistogramKind" {
		return "hcount(" + initKey(param, k.change) + ")"
	}
	return initKey(param, k.change)
}

func (k *aggrKit) checkChange(R string) {
	fn, os := k.run(R, "HasChange")
	if fn == nil {
		return
	}
	for _, sign := range []int{0, 1, -1} {
		z := sign == 0
		if sign < 0 && !strings.HasSuffix(k.kind, "SumKind") {
			continue // a count or sequence number
		}
		s := scenario{zero: map[string]bool{k.zeroTerm(1): z}, rank: map[string]int{k.zeroTerm(1): sign, "0": 0}}
		n := 0
		for _, o := range os {
			if !s.allows(o) {
				continue
			}
			n++
			v, ok := false, false
			if !o.Panic {
				if v, ok = o.Ret[0].boolVal(); !ok {
					v, ok = s.cond(o.Ret[0])
				}
			}
			k.r.Ob(R, ok && v == !z, fn, "HasChange", k.p.pos(fn.Pos()), "is not exactly whether there is something to report", o.Trace()...)
		}
		k.r.Ob(R, n > 0, fn, "HasChange cases", k.p.pos(fn.Pos()), "no outcome")
	}
}

func (k *aggrKit) unchanged(R string, fn *ssa.Function, o *Outcome, param int, what string) {
	for _, l := range k.leaves {
		v := k.leaf(o, param, l)
		k.r.Ob(R, isInit(v, param, l), fn, what, k.p.pos(fn.Pos()), "its field "+l[1:]+" is changed to "+v.Key(), o.Trace()...)
	}
}

func (k *aggrKit) checkMerge(R string) {
	p, r := k.p, k.r
	fn, os := k.run(R, "Merge")
	if fn == nil {
		return
	}
	pos := p.pos(fn.Pos())
	add := func(l string, v *Ex) bool {
		return isSumOf(v, curOrOther(2, l), initKey(1, l))
	}
	for _, o := range os {
		if o.Panic {
			r.Ob(R, false, fn, "Merge", pos, "can panic", o.Trace()...)
			continue
		}
		k.unchanged(R, fn, o, 1, "Merge source")
		empty := scenario{zero: map[string]bool{k.zeroTerm(1): true}}.allows(o)
		full := scenario{zero: map[string]bool{k.zeroTerm(1): false}}.allows(o)
		k.indivisible(R, fn, o, 2, "Merge", nil)
		switch k.kind {
		case "HistogramKind":
			h := k.role["H"]
			v := k.leaf(o, 2, h)
			ok := v.Op == "hmerge" && isInit(v.Args[0], 2, h) && isInit(v.Args[1], 1, h) || !full && isInit(v, 2, h)
			r.Ob(R, ok, fn, "Merge histogram", pos, "the result is "+v.Key(), o.Trace()...)
		case "GaugeKind":
		default:
			for _, a := range []string{"Sum", "Count"} {
				l, ok := k.role[a]
				if !ok {
					continue
				}
				v := k.leaf(o, 2, l)
				toEmpty := !(scenario{zero: map[string]bool{k.zeroTerm(2): false}}).allows(o)
				r.Ob(R, add(l, v) || empty && !full && isInit(v, 2, l) || toEmpty && isInit(v, 1, l), fn, "Merge "+strings.ToLower(a), pos, "the result is "+v.Key(), o.Trace()...)
			}
		}
	}
	if k.kind == "GaugeKind" {
		fs, ts := initKey(1, k.change), initKey(2, k.change)
		// the later update wins; 0 is no update
		for code := 0; code < 9; code++ {
			a, b := code%3, code/3
			s := scenario{rank: map[string]int{fs: a, ts: b, "0": 0}, zero: map[string]bool{fs: a == 0, ts: b == 0}}
			if a == b && a != 0 {
				continue // sequence numbers are unique
			}
			n := 0
			for _, o := range os {
				if o.Panic || !s.allows(o) {
					continue
				}
				n++
				src := 2
				if a > b {
					src = 1
				}
				for _, l := range []string{k.role["Gauge"], k.change} {
					if a == 0 && b == 0 && l != k.change {
						continue
					}
					v := k.leaf(o, 2, l)
					ok := isInit(v, src, l)
					if x, e := s.eval(v); !ok && e && l == k.change {
						w := b
						if a > b {
							w = a
						}
						ok = x == w
					}
					r.Ob(R, ok, fn, "Merge keeps the later gauge", pos, "the result's "+l[1:]+" is "+v.Key(), o.Trace()...)
				}
			}
			r.Ob(R, n > 0, fn, "Merge cases", pos, "no path for an order of the updates")
		}
	}
	if k.kind == "MinMaxSumCountKind" {
		key := func(pa int, a string) string { return initKey(pa, k.role[a]) }
		for code := 0; code < 4*4*4*4*4; code++ {
			fm, fM, tm, tM := code%4, code/4%4, code/16%4, code/64%4
			fz, tz := code/256%2 == 1, code/512 == 1
			if fm > fM || tm > tM || fz && tz {
				continue
			}
			s := scenario{rank: map[string]int{key(1, "Min"): fm, key(1, "Max"): fM, key(2, "Min"): tm, key(2, "Max"): tM},
				zero: map[string]bool{key(1, "Count"): fz, key(2, "Count"): tz}}
			wMin, wMax := tm, tM
			if !fz && (tz || fm < tm) {
				wMin = fm
			}
			if !fz && (tz || fM > tM) {
				wMax = fM
			}
			n := 0
			for _, o := range os {
				if o.Panic || !s.allows(o) {
					continue
				}
				n++
				g, ok := s.eval(k.leaf(o, 2, k.role["Min"]))
				r.Ob(R, ok && g == wMin, fn, "Merge min", pos, "the result is "+k.leaf(o, 2, k.role["Min"]).Key(), o.Trace()...)
				g, ok = s.eval(k.leaf(o, 2, k.role["Max"]))
				r.Ob(R, ok && g == wMax, fn, "Merge max", pos, "the result is "+k.leaf(o, 2, k.role["Max"]).Key(), o.Trace()...)
			}
			r.Ob(R, n > 0, fn, "Merge cases", pos, "no path for an ordering of the values")
		}
	}
}

func isZeroEx(x *Ex) bool {
	if i, ok := x.int(); ok {
		return i == 0
	}
	if x.Op == "const" && x.C != nil {
		return constant.Sign(x.C) == 0
	}
	return x.Op == "hempty" || x.Op == "const" && strings.HasPrefix(x.Sub, "zero:")
}

// mustReset: the fields an update of an emptied state builds upon.
func (k *aggrKit) mustReset() map[string]bool {
	out := map[string]bool{k.change: true}
	fn := k.p.method(k.T, "Update")
	for _, o := range live(k.eff().Run(fn, nil)) {
		if !(scenario{zero: map[string]bool{k.zeroTerm(1): true}}).allows(o) {
			continue
		}
		for _, l := range k.leaves {
			v := k.leaf(o, 1, l)
			for _, m := range k.leaves {
				if v.Has(initKey(1, m)) {
					out[m] = true
				}
			}
		}
	}
	return out
}

func (k *aggrKit) checkMove(R string) {
	fn, os := k.run(R, "Move")
	if fn == nil {
		return
	}
	pos := k.p.pos(fn.Pos())
	reset := k.mustReset()
	for _, o := range os {
		if o.Panic {
			k.r.Ob(R, false, fn, "Move", pos, "can panic", o.Trace()...)
			continue
		}
		if len(k.leaves) == 1 {
			v := k.leaf(o, 2, k.leaves[0])
			k.indivisible(R, fn, o, 1, "Move", func(x *Ex) bool { return x.Key() == v.Key() })
		}
		for _, l := range k.leaves {
			v := k.leaf(o, 2, l)
			k.r.Ob(R, isInit(v, 1, l), fn, "Move hands over "+l[1:], pos, "the destination's is "+v.Key(), o.Trace()...)
			if reset[l] {
				w := k.leaf(o, 1, l)
				k.r.Ob(R, isZeroEx(w), fn, "Move empties "+l[1:], pos, "the source keeps "+w.Key(), o.Trace()...)
			}
		}
	}
}

func (k *aggrKit) checkCopy(R string) {
	fn, os := k.run(R, "Copy")
	if fn == nil {
		return
	}
	pos := k.p.pos(fn.Pos())
	for _, o := range os {
		if o.Panic {
			k.r.Ob(R, false, fn, "Copy", pos, "can panic", o.Trace()...)
			continue
		}
		k.unchanged(R, fn, o, 1, "Copy source")
		for _, l := range k.leaves {
			v := k.leaf(o, 2, l)
			k.r.Ob(R, isInit(v, 1, l), fn, "Copy of "+l[1:], pos, "the destination's is "+v.Key(), o.Trace()...)
		}
	}
}

func (k *aggrKit) checkSubtract(R string) {
	if !strings.HasSuffix(k.kind, "SumKind") {
		// never used for these kinds (see P10)
		return
	}
	fn, os := k.run(R, "SubtractSwap")
	if fn == nil {
		return
	}
	pos := k.p.pos(fn.Pos())
	l := k.role["Sum"]
	for _, o := range os {
		if o.Panic {
			k.r.Ob(R, false, fn, "SubtractSwap", pos, "can panic", o.Trace()...)
			continue
		}
		v := k.leaf(o, 1, l)
		ok := v.Op == "-" && isInit(v.Args[0], 2, l) && isInit(v.Args[1], 1, l)
		k.r.Ob(R, ok, fn, "SubtractSwap", pos, "the result is "+v.Key(), o.Trace()...)
		k.unchanged(R, fn, o, 2, "SubtractSwap argument")
	}
}

func (k *aggrKit) checkConversions(R string) {
	p := k.p
	if fn, os := k.run(R, "ToAggregation"); fn != nil {
		for _, o := range os {
			k.r.Ob(R, !o.Panic && o.Ret[0].bare().Key() == "$1", fn, "ToAggregation", p.pos(fn.Pos()), "is not the state itself", o.Trace()...)
		}
	}
	if fn, os := k.run(R, "ToStorage"); fn != nil {
		st := "*" + canonType(k.S)
		for _, o := range os {
			if o.Panic {
				k.r.Ob(R, false, fn, "ToStorage", p.pos(fn.Pos()), "can panic", o.Trace()...)
				continue
			}
			k.r.Ob(R, o.Ret[0].is("assert", st) && o.Ret[0].Args[0].Key() == "$1" && o.Ret[1].is("is", st) || o.Ret[0].isNil() && isFalse(o.Ret[1]) && decidedFalse(o, "is:"+st+"($1)") ||
				o.Ret[0].is("assert", st) && o.Ret[0].Args[0].Key() == "$1" && isTrue(o.Ret[1]), fn, "ToStorage", p.pos(fn.Pos()), "is not the aggregation's own state", o.Trace()...)
		}
	}
	if fn, os := k.run(R, "Init"); fn != nil {
		for _, o := range os {
			if o.Panic {
				k.r.Ob(R, false, fn, "Init", p.pos(fn.Pos()), "can panic", o.Trace()...)
				continue
			}
			for _, l := range k.leaves {
				v := k.leaf(o, 1, l)
				ok := isZeroEx(v) || isInit(v, 1, l)
				if k.kind == "HistogramKind" && l == k.role["H"] {
					ok = v.Op == "hempty" && len(v.Args) == 1 && v.Args[0].Any(func(x *Ex) bool {
						return x.Key() == "$2" || strings.HasPrefix(x.Key(), "sel:") && x.Args[0].Key() == "$2"
					})
				}
				k.r.Ob(R, ok, fn, "Init", p.pos(fn.Pos()), "leaves "+l[1:]+" as "+v.Key(), o.Trace()...)
			}
		}
	}
}

func isTrue(x *Ex) bool  { b, ok := x.boolVal(); return ok && b }
func isFalse(x *Ex) bool { b, ok := x.boolVal(); return ok && !b }
func decidedFalse(o *Outcome, k string) bool {
	v, ok := o.Cond(k)
	return ok && !v
}

// ruleNumbers: the number traits.
func ruleNumbers(p *Prog, r *Report) {
	const R = "number-representation"
	r.Rule(R, "effect summary of the number types: the 64-bit representation converts back to the same number, each atomic operation has exactly its documented effect using only atomic accesses, the compare-and-swap loop retries with the current value, and a number coerced to floating point keeps its value")
	for _, tn := range []struct {
		name string
		flt  bool
	}{{"Int64Traits", false}, {"Float64Traits", true}} {
		T := p.typ(mNumber, tn.name)
		if !r.Need(R, T != nil, tn.name, "not found") {
			continue
		}
		run := func(m string, args ...*Ex) (*ssa.Function, []*Outcome, *Effects) {
			fn := p.method(T, m)
			if !r.Need(R, fn != nil, tn.name+"."+m, "not found") {
				return nil, nil, nil
			}
			e := &Effects{P: p, Atomics: true}
			os := e.Run(fn, append([]*Ex{nil}, args...))
			r.Ob(R, len(os) > 0 && !e.Over, fn, m+" analysed", p.pos(fn.Pos()), "no outcome")
			r.Summ(fn, len(os))
			return fn, os, e
		}
		for _, m := range []string{"ToNumber", "FromNumber"} {
			back := map[string]string{"ToNumber": "FromNumber", "FromNumber": "ToNumber"}[m]
			fn, os, _ := run(m)
			for _, o := range os {
				if o.Panic {
					r.Ob(R, false, fn, m, p.pos(fn.Pos()), "can panic")
					continue
				}
				_, os2, _ := run(back, o.Ret[0])
				for _, o2 := range os2 {
					r.Ob(R, !o2.Panic && o2.Ret[0].Key() == "$1", fn, m+" converts back", p.pos(fn.Pos()), "a number does not survive "+m+" and "+back)
				}
			}
		}
		ptr := func(fn *ssa.Function) *Ex { return exParam(1, fn.Params[1].Type()) }
		cur := func(o *Outcome, fn *ssa.Function) *Ex { return o.Read(ptr(fn), derefT(fn.Params[1].Type())) }
		for _, m := range []string{"GetAtomic", "SetAtomic", "SwapAtomic", "AddAtomic"} {
			fn, os, _ := run(m)
			if fn == nil {
				continue
			}
			at := true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						at = at && x.Addr != fn.Params[1]
					case *ssa.UnOp:
						at = at && x.X != fn.Params[1]
					}
				}
			}
			r.Ob(R, at, fn, m+" is atomic", p.pos(fn.Pos()), "accesses the number without an atomic operation")
			for _, o := range os {
				ok := !o.Panic
				seen := func(x *Ex) bool { return x.Key() == "init:*$1" || x.Op == "other" }
				if ok {
					switch m {
					case "GetAtomic":
						ok = seen(o.Ret[0]) && seen(cur(o, fn))
					case "SetAtomic":
						ok = cur(o, fn).Key() == "$2"
					case "SwapAtomic":
						ok = cur(o, fn).Key() == "$2" && seen(o.Ret[0])
					case "AddAtomic":
						ok = isSumOf(cur(o, fn), seen, "$2")
					}
				}
				v := "-"
				if !o.Panic {
					v = cur(o, fn).Key()
				}
				ws := atomicWrites(o, "$1")
				switch {
				case o.Panic || m == "GetAtomic":
				case m == "SetAtomic":
					r.Ob(R, len(ws) == 1, fn, m+" is one step", p.pos(fn.Pos()), "writes several times", o.Trace()...)
				default:
					one := len(ws) == 1 && ws[0].Name != "Store" && (m == "AddAtomic" || unbits(ws[0].Args[1]).Key() == o.Ret[0].Key())
					if one && m == "AddAtomic" {
						was := unbits(ws[0].Args[1]).Key()
						one = isSumOf(unbits(ws[0].Args[2]), func(x *Ex) bool { return x.Key() == was }, "$2")
					}
					r.Ob(R, one, fn, m+" is one step", p.pos(fn.Pos()), "another goroutine's operation between its parts is lost", o.Trace()...)
				}
				r.Ob(R, ok, fn, m+" effect", p.pos(fn.Pos()), "the number becomes "+v, o.Trace()...)
			}
		}
		fn, os, _ := run("Kind")
		for _, o := range os {
			i, ok := o.Ret[0].int()
			r.Ob(R, ok && i == constOf(p, mNumber, map[bool]string{true: "Float64Kind", false: "Int64Kind"}[tn.flt]), fn, "Kind", p.pos(fn.Pos()), "not the kind of its number type")
		}
	}
	// conversions used by exporters
	chk := func(fn *ssa.Function, ok func(o *Outcome) (bool, string)) {
		if !r.Need(R, fn != nil, "number conversion", "not found") {
			return
		}
		os := (&Effects{P: p}).Run(fn, nil)
		for _, o := range os {
			if o.Panic {
				r.Ob(R, false, fn, fn.Name(), p.pos(fn.Pos()), "can panic")
				continue
			}
			b, d := ok(o)
			r.Ob(R, b, fn, fn.Name(), p.pos(fn.Pos()), d, o.Trace()...)
		}
		r.Ob(R, len(os) > 0, fn, fn.Name()+" analysed", p.pos(fn.Pos()), "no outcome")
	}
	asInt := func(x *Ex) bool { return x.Op == "conv" && x.Sub == "int64" && x.Args[0].Key() == "$0" }
	asFloat := func(x *Ex) bool {
		return x.Op == "frombits" && (x.Args[0].Key() == "$0" || x.Args[0].Op == "conv" && x.Args[0].Args[0].Key() == "$0")
	}
	chk(p.fn(mNumber, "ToInt64"), func(o *Outcome) (bool, string) { return asInt(o.Ret[0]), "is " + o.Ret[0].Key() })
	chk(p.fn(mNumber, "ToFloat64"), func(o *Outcome) (bool, string) { return asFloat(o.Ret[0]), "is " + o.Ret[0].Key() })
	ik := constOf(p, mNumber, "Int64Kind")
	chk(p.methodOf(mNumber, "Number", "CoerceToFloat64"), func(o *Outcome) (bool, string) {
		isInt, known := o.Cond("==($1," + itoa(int(ik)) + ")")
		if !known {
			if v, k := o.Cond("==($1," + itoa(int(constOf(p, mNumber, "Float64Kind"))) + ")"); k {
				isInt, known = !v, true
			}
		}
		v := o.Ret[0]
		if !known {
			return false, "does not depend on the kind"
		}
		if isInt {
			return v.Op == "conv" && v.Sub == "float64" && asInt(v.Args[0]), "an int64 becomes " + v.Key()
		}
		return asFloat(v), "a float64 becomes " + v.Key()
	})
}

func constOf(p *Prog, rel, name string) int64 {
	pk := p.pkg(rel)
	if pk == nil {
		return -1
	}
	c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return -1
	}
	i, _ := constant.Int64Val(c.Val())
	return i
}
