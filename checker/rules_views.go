package main

// P09: views match, rename, filter and drop exactly as configured.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P09", ruleViews) }

func ruleViews(p *Prog, r *Report) {
	fields := ruleClauseOptions(p, r)
	if fields != nil {
		ruleMatchTable(p, r, fields)
	}
	ruleClauseSelection(p, r)
	ruleKeyFilter(p, r)
	ruleDroppedInstrument(p, r)
	ruleViewDefaults(p, r)
}

// optionField finds the ClauseConfig field an option constructor sets from its argument.
func optionField(p *Prog, rel, ctor, cfgType string) (string, []string) {
	fn := p.fn(rel, ctor)
	if fn == nil {
		return "", nil
	}
	var all []string
	var mine string
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if n := namedOf(fa.X.Type()); n == nil || n.Obj().Name() != cfgType {
					continue
				}
				nm := fieldOf(fa).Name()
				all = append(all, nm)
				v := st.Val
				for {
					switch x := v.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							v = x.X
							continue
						}
					case *ssa.ChangeType:
						v = x.X
						continue
					}
					break
				}
				if _, ok := v.(*ssa.FreeVar); ok {
					mine = nm
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return mine, all
}

func ruleClauseOptions(p *Prog, r *Report) map[string]string {
	const R = "clause-option"
	r.Rule(R, "each clause option stores its argument, and nothing else, in one field of the clause; no two options share a field; each getter returns the field its option sets")
	opts := []string{"MatchInstrumentName", "MatchInstrumentNameRegexp", "MatchInstrumentKind", "MatchNumberKind", "MatchInstrumentationLibrary", "WithKeys", "WithRenameFunction", "WithDescription", "WithAggregation", "WithAggregatorConfig"}
	out := map[string]string{}
	used := map[string]string{}
	for _, o := range opts {
		fn := p.fn(mViewP, o)
		if !r.Need(R, fn != nil, o, "option constructor not found") {
			return nil
		}
		f, all := optionField(p, mViewP, o, "ClauseConfig")
		r.Ob(R, f != "" && len(all) == 1, fn, o, p.pos(fn.Pos()), fmt.Sprintf("the option stores fields %v; its argument goes to %q", all, f))
		if f == "" {
			return nil
		}
		r.Ob(R, used[f] == "", fn, o+" own field", p.pos(fn.Pos()), fmt.Sprintf("field %s is also set by %s", f, used[f]))
		used[f] = o
		out[o] = f
	}
	for g, o := range map[string]string{"Keys": "WithKeys", "Description": "WithDescription", "Aggregation": "WithAggregation", "AggregatorConfig": "WithAggregatorConfig"} {
		fn := p.methodOf(mViewP, "ClauseConfig", g)
		if !r.Need(R, fn != nil, "ClauseConfig."+g, "getter not found") {
			continue
		}
		got := map[string]bool{}
		d := &Decide{P: p, Fn: fn}
		d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
			if len(res) == 1 {
				got[res[0].Strip().Key()] = true
			}
		}
		d.Run()
		r.Engine(d.E)
		r.Ob(R, len(got) == 1 && got["$0."+out[o]], fn, g, p.pos(fn.Pos()), fmt.Sprintf("returns %s, specified the field set by %s", joinS(got), o))
	}
	// Rename: identity when no function is set, else the function of the name
	if fn := p.methodOf(mViewP, "ClauseConfig", "Rename"); r.Need(R, fn != nil, "ClauseConfig.Rename", "not found") {
		key := "$0." + out["WithRenameFunction"]
		for _, isNil := range []bool{true, false} {
			got := map[string]bool{}
			d := &Decide{P: p, Fn: fn, Nil: map[string]bool{key: isNil}}
			d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
				if panics {
					got["panic"] = true
					return
				}
				t := res[0].Strip()
				switch {
				case t.Key() == "$1":
					got["name"] = true
				case t.Op == "dyn" && len(t.Args) >= 2 && t.Args[0].Strip().Key() == key && t.Args[1].Strip().Key() == "$1":
					got["f(name)"] = true
				default:
					got[t.Key()] = true
				}
			}
			d.Run()
			r.Engine(d.E)
			want := "f(name)"
			if isNil {
				want = "name"
			}
			r.Ob(R, len(got) == 1 && got[want], fn, fmt.Sprintf("Rename function nil=%v", isNil), p.pos(fn.Pos()), fmt.Sprintf("returns %s, specified %s", joinS(got), want))
		}
	}
	// unset markers of WithClause
	return out
}

// ruleMatchTable: Matches over every combination of unset / equal / different criteria.
func ruleMatchTable(p *Prog, r *Report, f map[string]string) {
	const R = "match-table"
	r.Rule(R, "abstract evaluation of ClauseConfig.Matches for every combination of unset, satisfied and unsatisfied criteria (scope name, version and schema, instrument name, name regexp, instrument kind, number kind): true exactly when every set criterion is satisfied")
	fn := p.methodOf(mViewP, "ClauseConfig", "Matches")
	if !r.Need(R, fn != nil, "ClauseConfig.Matches", "not found") {
		return
	}
	lib := "$0." + f["MatchInstrumentationLibrary"]
	crit := []struct{ clause, inst string }{
		{lib + ".Name", "$1.Name"}, {lib + ".Version", "$1.Version"}, {lib + ".SchemaURL", "$1.SchemaURL"},
		{"$0." + f["MatchInstrumentName"], "$2.Name"},
		{"$0." + f["MatchInstrumentKind"], "$2.Kind"},
		{"$0." + f["MatchNumberKind"], "$2.NumberKind"},
	}
	re := "$0." + f["MatchInstrumentNameRegexp"]
	isUnset := func(t *Term) bool {
		if t.C == nil {
			return false
		}
		if t.C.Kind() == constant.String {
			return constant.StringVal(t.C) == ""
		}
		n, ok := constant.Int64Val(t.C)
		return ok && n == -1
	}
	total, bad := 0, 0
	nc := len(crit) + 1
	st := make([]int, nc)
	var rec func(i int)
	rec = func(i int) {
		if i < nc {
			for v := 0; v < 3; v++ { // 0 unset, 1 equal, 2 different
				st[i] = v
				rec(i + 1)
			}
			return
		}
		want := true
		for _, v := range st {
			if v == 2 {
				want = false
			}
		}
		got := map[string]bool{}
		d := &Decide{P: p, Fn: fn, Nil: map[string]bool{re: st[nc-1] == 0}}
		d.Cmp = func(op token.Token, x, y *Term) (bool, bool) {
			if op != token.EQL && op != token.NEQ {
				return false, false
			}
			ans := func(eq bool) (bool, bool) { return eq == (op == token.EQL), true }
			xk, yk := x.Strip().Key(), y.Strip().Key()
			for i, c := range crit {
				for _, pr := range [][2]any{{xk, y}, {yk, x}} {
					k, o := pr[0].(string), pr[1].(*Term)
					if k != c.clause {
						continue
					}
					if isUnset(o) {
						return ans(st[i] == 0)
					}
					if o.Strip().Key() == c.inst {
						// an unset criterion differs from the instrument's value
						return ans(st[i] == 1)
					}
				}
			}
			for _, pr := range [][2]*Term{{x, y}, {y, x}} {
				if pr[0].Strip().Key() == lib && (pr[1].Op == "const" || pr[1].Op == "zero") {
					return ans(st[0] == 0 && st[1] == 0 && st[2] == 0)
				}
			}
			return false, false
		}
		d.Call = func(c *Ctx, ci CallInfo) {
			switch ci.Full() {
			case "regexp.Regexp.MatchString", "(*regexp.Regexp).MatchString":
				if c.Arg(0).Strip().Key() == re && c.Arg(1).Strip().Key() == "$2.Name" {
					c.Fork(c.A(), map[int]Fact{0: factBool(st[nc-1] == 1)})
				}
			}
		}
		d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
			if panics {
				got["panic"] = true
			} else if v, ok := c.E.constOf(c.St.F, VRef{c.F, refs[0]}); ok {
				got[v.ExactString()] = true
			} else {
				got["unknown"] = true
			}
		}
		d.Run()
		total++
		if total == 1 {
			r.Engine(d.E)
		}
		if len(got) == 1 && got[fmt.Sprint(want)] {
			r.Ob(R, true, fn, "combination", "", "")
			return
		}
		bad++
		if bad > 5 {
			return
		}
		names := []string{"scope name", "scope version", "schema URL", "instrument name", "instrument kind", "number kind", "name regexp"}
		var d2 []string
		for i, v := range st {
			if v > 0 {
				d2 = append(d2, names[i]+[]string{"", " satisfied", " unsatisfied"}[v])
			}
		}
		r.Ob(R, false, fn, strings.Join(d2, ", "), p.pos(fn.Pos()), fmt.Sprintf("Matches yields %s, specified %v", joinS(got), want))
	}
	rec(0)
	r.AtLeast(R, total, 2187, "criterion combination")
}

var _ types.Type

// behaviourRecord finds the viewstate struct that describes one output of a view.
func behaviourRecord(p *Prog) *types.Named {
	vpath := p.Module + "/" + mView
	for _, nm := range p.localNamed() {
		if nm.Obj().Pkg().Path() != vpath {
			continue
		}
		st, ok := nm.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		k, t := false, false
		for i := 0; i < st.NumFields(); i++ {
			k = k || isNamedType(st.Field(i).Type(), p.repoName(mAggn, "Kind"))
			t = t || isNamedType(st.Field(i).Type(), p.repoName(mAggn, "Temporality"))
		}
		if k && t {
			return nm
		}
	}
	return nil
}

func sliceOfNamed(t types.Type, obj *types.TypeName) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(s.Elem())
	return n != nil && n.Obj() == obj
}

func isAppend(ci CallInfo) bool { return ci.Method == "builtin:append" }

type clSt struct {
	matched bool   // some clause matched
	inLoop  bool   // inside an iteration over clauses
	undef   int8   // 0 unknown, 1 the clause's aggregation is undefined, 2 it is set
	keysNil int8   // 0 unknown, 1 nil, 2 set
	descSet int8   // clause description: 1 empty, 2 set
	defDrop int8   // default aggregation: 1 drop, 2 other
	fields  string // name=class; ...
	defs    int8   // default behaviours appended
}

func setField(s, name, class string) string {
	var keep []string
	for _, kv := range strings.Split(s, ";") {
		if kv != "" && !strings.HasPrefix(kv, name+"=") {
			keep = append(keep, kv)
		}
	}
	keep = append(keep, name+"="+class)
	return strings.Join(keep, ";")
}

func getField(s, name string) string {
	for _, kv := range strings.Split(s, ";") {
		if strings.HasPrefix(kv, name+"=") {
			return kv[len(name)+1:]
		}
	}
	return ""
}

func ruleClauseSelection(p *Prog, r *Report) {
	const R = "clause-selection"
	const R2 = "behaviour-fields"
	r.Rule(R, "on every path of Compiler.Compile, each clause of the view configuration that matches and does not drop is carried over exactly once, a clause that does not match or drops is not; the default behaviour is added exactly when no clause matched and the default does not drop")
	r.Rule(R2, "each output of a clause has the clause's aggregation unless undefined, the clause's rename of the instrument's name, the clause's description unless empty, the instrument's kind, number kind and unit, and the clause's keys exactly when set; a default output is the instrument itself with no key filter")
	fn := p.methodOf(mView, "Compiler", "Compile")
	rec := behaviourRecord(p)
	if !r.Need(R, fn != nil && rec != nil, "Compiler.Compile", "not found") {
		return
	}
	_, akv := p.enumConsts(mAggn, "Kind")
	clause := p.typ(mViewP, "ClauseConfig")
	if !r.Need(R, clause != nil, "ClauseConfig", "not found") {
		return
	}
	kindT := p.repoName(mAggn, "Kind")
	isClauses := func(t types.Type) bool { return sliceOfNamed(t, clause.Obj()) }
	isRecs := func(t types.Type) bool { return sliceOfNamed(t, rec.Obj()) }
	collIs := func(t *Term) bool { return t.Typ != nil && isClauses(t.Typ) }
	isClause := func(t *Term) bool { return isElemOf(allocContent(t), collIs) }
	inline := inlineRelevant(p, func(in ssa.Instruction) bool {
		if c, ok := in.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return isClauses(c.Type()) || isRecs(c.Type())
			}
			if g := c.Call.StaticCallee(); g != nil {
				return fullName(g) == p.repoName(mInst, "NewDescriptor") || fullName(g) == p.repoName(mViewP, "ClauseConfig.Matches")
			}
		}
		return false
	})
	inl := func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
		return strings.HasPrefix(fullName(g), p.Module+"/"+mView+".") && inline(fr, c, g)
	}
	dropV := akv["DropKind"]
	undefV := akv["UndefinedKind"]
	isCall := func(t *Term, m string) bool {
		t = t.Strip()
		return t.Op == "call" && strings.HasSuffix(t.Sub, "ClauseConfig."+m) && len(t.Args) > 0 && isClause(t.Args[0])
	}
	// cmp: cond is (x op constant of type Kind) about the clause's aggregation
	aggCmp := func(t *Term, v constant.Value, about func(*Term) bool) (eq, ok bool) {
		if t.Op != "bin" || t.Sub != "==" && t.Sub != "!=" || len(t.Args) != 2 {
			return false, false
		}
		x, y := t.Args[0], t.Args[1]
		if y.C == nil || v == nil || y.C.ExactString() != v.ExactString() || !isNamedType(y.Typ, kindT) && !(x.Typ != nil && isNamedType(x.Typ, kindT)) || !about(x) {
			return false, false
		}
		return t.Sub == "==", true
	}
	clauseAgg := func(x *Term) bool { return isCall(x, "Aggregation") }
	fa := &ForAll{P: p, R: r, Rule: R, Fn: fn, What: "view clauses", Coll: collIs, Inline: inl,
		Event: func(c *Ctx, ci CallInfo) bool {
			return isAppend(ci) && ci.Results != nil && (isClauses(ci.Results.Type()) || isRecs(ci.Results.Type()))
		},
		Exempt: func(c *Ctx, t *Term, taken bool) bool {
			if isCall(t, "Matches") {
				return !taken
			}
			if eq, ok := aggCmp(t, dropV, clauseAgg); ok {
				return eq == taken
			}
			return false
		},
		Skip: "a clause can be skipped or carried over more than once",
	}
	// a clause that does not match or drops must not be carried over
	fa.OnCall = func(c *Ctx, ci CallInfo) {
		if fa.Event(c, ci) && c.A().(faSt).in {
			r.Ob(R, !c.A().(faSt).ex, c.F.Fn, "excluded clause", p.posOf(c.In), "a clause that does not match or drops the instrument is carried over", c.Trace()...)
		}
	}
	fa.Run()

	isInst := func(t *Term) bool {
		for _, a := range t.Alts() {
			a = a.Strip()
			if a.Key() == "$1" {
				continue
			}
			if a.Op == "extract" && a.Sub == "0" && a.Args[0].Op == "call" && strings.Contains(a.Args[0].Sub, "/viewstate.") {
				continue
			}
			return false
		}
		return true
	}
	instField := func(t *Term, name string) bool {
		for _, a := range t.Alts() {
			a = a.Strip()
			if a.Op != "field" || a.Sub != name || !isInst(a.Args[0]) {
				return false
			}
		}
		return true
	}
	isHintKind := func(t *Term) bool {
		t = t.Strip()
		return t.Op == "extract" && t.Args[0].Op == "call" && strings.Contains(t.Args[0].Sub, "/viewstate.") || t.Op == "call" && strings.HasSuffix(t.Sub, "DefaultConfig.Aggregation")
	}
	lp := map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}
	loopAt := func(c *Ctx, b *ssa.BasicBlock) bool {
		if lp[c.F.Fn] == nil {
			lp[c.F.Fn] = loopsOf(c.F.Fn)
		}
		l := lp[c.F.Fn][b]
		return l != nil && l.Coll != nil && isClauses(l.Coll.Type())
	}
	srcLoop := func(c *Ctx, b *ssa.BasicBlock) bool {
		l := lp[c.F.Fn][b]
		_, path := c.T(l.Coll).Path()
		return len(path) > 0 && path[len(path)-1] == "Clauses"
	}
	nApp, nDesc := 0, 0
	h := Hooks{Inline: inl}
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		s := c.A().(clSt)
		if loopAt(c, from) && len(from.Succs) == 2 {
			if to == from.Succs[0] {
				if !srcLoop(c, from) && !s.matched {
					c.Stop() // nothing collected
					return
				}
				s = clSt{matched: s.matched, inLoop: true, defs: s.defs}
			} else {
				s = clSt{matched: s.matched, defs: s.defs}
			}
		}
		c.Set(s)
	}
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		s := c.A().(clSt)
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		b2 := func(b bool) int8 {
			if b {
				return 1
			}
			return 2
		}
		switch {
		case isCall(t, "Matches"):
			if taken {
				s.matched = true
			}
		case t.Op == "bin" && len(t.Args) == 2:
			x, y := t.Args[0], t.Args[1]
			eq := (t.Sub == "==") == taken
			if _, ok := aggCmp(t, undefV, clauseAgg); ok {
				s.undef = b2(eq)
			} else if _, ok := aggCmp(t, dropV, isHintKind); ok && !s.inLoop {
				s.defDrop = b2(eq)
			} else if t.Sub == "==" || t.Sub == "!=" {
				if isCall(x, "Keys") && y.Op == "const" {
					s.keysNil = b2(eq)
				}
				if isCall(x, "Description") && y.C != nil && y.C.Kind() == constant.String && constant.StringVal(y.C) == "" {
					s.descSet = b2(eq)
				}
			}
			// len(collected) compared with zero
			if x.Op == "len" || x.Op == "pure" && x.Sub == "len" {
				if x.Args[0].Typ != nil && isClauses(x.Args[0].Typ) && !collSource(x.Args[0]) {
					if z, ok := constInt(y); ok && z == 0 {
						empty := t.Sub == "==" && taken || t.Sub == "!=" && !taken || t.Sub == ">" && !taken || t.Sub == "<=" && taken
						if empty == s.matched {
							c.Stop()
							return
						}
					}
				}
			}
		}
		c.Set(s)
	}
	isRecT := func(t types.Type) bool { n := namedOf(t); return n != nil && n.Obj() == rec.Obj() }
	h.Instr = func(c *Ctx) {
		st, ok := c.In.(*ssa.Store)
		if !ok {
			return
		}
		fad, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !isRecT(fad.X.Type()) {
			return
		}
		s := c.A().(clSt)
		name, class := "", "other"
		v := c.T(st.Val)
		ft := fieldOf(fad).Type()
		switch {
		case isNamedType(ft, kindT):
			name = "kind"
			for _, a := range v.Alts() {
				switch {
				case clauseAgg(a):
					class = "clause"
				case isHintKind(a):
					class = "default"
				}
			}
			if len(v.Alts()) > 1 {
				class = "mixed"
			}
		case isNamedType(ft, p.repoName(mInst, "Descriptor")):
			name = "desc"
			switch {
			case v.Strip().Op == "call" && strings.HasSuffix(v.Strip().Sub, ".NewDescriptor"):
				class = "view"
			case isInst(v):
				class = "instrument"
			}
		case strings.HasSuffix(ft.String(), "attribute.Set"):
			name = "keysSet"
			class = "keys"
			if v.Op == "const" {
				class = "nil"
			}
		case strings.HasSuffix(ft.String(), "attribute.Filter"):
			name = "keysFilter"
			class = "keys"
			if v.Op == "const" {
				class = "nil"
			}
		default:
			return
		}
		if class == "keys" && !v.Any(func(t *Term) bool { return isCall(t, "Keys") }) {
			class = "other:" + v.Key()
		}
		s.fields = setField(s.fields, name, class)
		c.Set(s)
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		s := c.A().(clSt)
		switch {
		case ci.Full() == p.repoName(mInst, "NewDescriptor") && s.inLoop:
			nDesc++
			cc := ci.Common
			if len(cc.Args) != 5 {
				return
			}
			nm := c.Arg(0).Strip()
			r.Ob(R2, isCall(nm, "Rename") && len(nm.Args) > 1 && instField(nm.Args[1], "Name"), c.F.Fn, "output name", c.Pos(), "the output's name is not the clause's rename of the instrument's name: "+nm.Key())
			r.Ob(R2, instField(c.Arg(1), "Kind"), c.F.Fn, "output instrument kind", c.Pos(), "the output's instrument kind is not the instrument's")
			r.Ob(R2, instField(c.Arg(2), "NumberKind"), c.F.Fn, "output number kind", c.Pos(), "the output's number kind is not the instrument's")
			r.Ob(R2, instField(c.Arg(4), "Unit"), c.F.Fn, "output unit", c.Pos(), "the output's unit is not the instrument's")
			d := c.Arg(3)
			want := s.descSet == 1 && instField(d, "Description") || s.descSet == 2 && isCall(d, "Description")
			r.Ob(R2, want, c.F.Fn, "output description", c.Pos(), "the output's description is not the clause's when set and the instrument's otherwise: "+d.Key(), c.Trace()...)
		case isAppend(ci) && ci.Results != nil && isRecs(ci.Results.Type()):
			nApp++
			kf, ks := getField(s.fields, "keysFilter"), getField(s.fields, "keysSet")
			if s.inLoop {
				k := getField(s.fields, "kind")
				r.Ob(R2, s.undef == 1 && k == "default" || s.undef == 2 && k == "clause", c.F.Fn, "output aggregation", c.Pos(), fmt.Sprintf("the output's aggregation is %q where the clause's is undefined=%v", k, s.undef == 1), c.Trace()...)
				r.Ob(R2, getField(s.fields, "desc") == "view", c.F.Fn, "output descriptor", c.Pos(), "the output's descriptor is not the clause's view of the instrument", c.Trace()...)
				set := kf == "keys" && ks == "keys"
				unset := (kf == "" || kf == "nil") && (ks == "" || ks == "nil")
				r.Ob(R2, s.keysNil == 1 && unset || s.keysNil == 2 && set, c.F.Fn, "output keys", c.Pos(), fmt.Sprintf("key filter %q and key set %q where the clause's keys nil=%v", kf, ks, s.keysNil == 1), c.Trace()...)
			} else {
				k := getField(s.fields, "kind")
				r.Ob(R2, k == "default", c.F.Fn, "default aggregation", c.Pos(), "the default output's aggregation is not the default: "+k, c.Trace()...)
				r.Ob(R2, getField(s.fields, "desc") == "instrument", c.F.Fn, "default descriptor", c.Pos(), "the default output's descriptor is not the instrument's", c.Trace()...)
				r.Ob(R2, (kf == "" || kf == "nil") && (ks == "" || ks == "nil"), c.F.Fn, "default keys", c.Pos(), "the default output filters keys", c.Trace()...)
				r.Ob(R, !s.matched, c.F.Fn, "default only without match", c.Pos(), "the default behaviour is added although a clause matched", c.Trace()...)
				r.Ob(R, s.defDrop != 1, c.F.Fn, "default drop", c.Pos(), "the default behaviour is added although the default aggregation drops", c.Trace()...)
				s.defs = inc(s.defs)
			}
			s.fields = ""
			c.Set(s)
		case lockOp(ci.Callee) == "Lock":
			if c.F.Fn == fn {
				// the outputs are complete
				r.Ob(R, s.matched || s.defs == 1 || s.defDrop == 1, c.F.Fn, "default added", c.Pos(), fmt.Sprintf("no clause matched and the default does not drop, but %d default behaviours were added", s.defs), c.Trace()...)
				c.Stop()
			}
		}
	}
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
		if !panics {
			s := c.A().(clSt)
			r.Ob(R, s.matched || s.defs == 1 || s.defDrop == 1, c.F.Fn, "default added", p.pos(fn.Pos()), fmt.Sprintf("no clause matched and the default does not drop, but %d default behaviours were added", s.defs), c.Trace()...)
		}
	}
	e := newEngine(p, h)
	e.Run(fn, clSt{})
	r.Engine(e)
	r.AtLeast(R2, nApp, 2, "output construction")
	r.AtLeast(R2, nDesc, 1, "view descriptor")
}

// allocContent: the value stored in a variable that is written once as a whole.
func allocContent(t *Term) *Term {
	u := t.Strip()
	if u.Op != "alloc" || u.Ref.F == nil {
		return t
	}
	al, ok := u.Ref.V.(*ssa.Alloc)
	if !ok {
		return t
	}
	var val ssa.Value
	n := 0
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			val = st.Val
			n++
		}
	}
	if n != 1 || theEngine == nil {
		return t
	}
	return theEngine.term(VRef{u.Ref.F, val}, emptyFacts, 0)
}

// collSource: t is the configured clause list itself.
func collSource(t *Term) bool {
	_, path := t.Path()
	return len(path) > 0 && path[len(path)-1] == "Clauses"
}

type kfSt struct {
	invalid bool
	nilF    int8 // 1 nil, 2 set
	used    bool
	last    string // the set last stored into a local
	recv    string // the set the last Filter call was given
}

// ruleKeyFilter: which attributes a new series keeps.
func ruleKeyFilter(p *Prog, r *Report) {
	const R = "key-filter"
	r.Rule(R, "on every path of NewAccumulator, the attribute set looked up is the caller's when no filter is configured and every key is valid, and otherwise the caller's set filtered by a predicate whose truth table keeps exactly valid keys that the configured filter accepts; the configured filter is built from every configured key and accepts exactly these")
	isFilterPtr := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && strings.HasSuffix(pt.Elem().String(), "attribute.Filter")
	}
	isDataMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && strings.HasSuffix(m.Key().String(), "attribute.Set")
	}
	insts := p.instancesOf(func(f *ssa.Function) bool {
		return f.Name() == "NewAccumulator" && f.Signature.Recv() != nil && pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mView &&
			!strings.Contains(f.Signature.Recv().Type().String(), "multi")
	})
	touches := inlineRelevant(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isDataMap(x.X.Type())
		case *ssa.Call:
			g := x.Call.StaticCallee()
			return g != nil && strings.HasSuffix(fullName(g), "attribute.Set.Filter")
		}
		return false
	})
	n := 0
	preds := map[*ssa.Function]bool{}
	for _, fn := range insts {
		h := Hooks{}
		h.Inline = func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
			if !p.isLocal(g) || strings.Contains(fullName(g), "/doevery.") {
				return false
			}
			if rs := g.Signature.Results(); rs.Len() == 1 && g.Signature.Params().Len() == 1 && strings.HasSuffix(tupT(g.Signature.Params(), 0).String(), "attribute.KeyValue") {
				return true
			}
			return touches(fr, c, g)
		}
		h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
			s := c.A().(kfSt)
			t := c.T(cond)
			for t.Op == "un" && t.Sub == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op != "bin" || len(t.Args) != 2 || t.Sub != "==" && t.Sub != "!=" {
				return
			}
			eq := (t.Sub == "==") == taken
			x, y := t.Args[0], t.Args[1]
			if x.Op == "field" && x.Sub == "Key" && y.C != nil && y.C.Kind() == constant.String && constant.StringVal(y.C) == "" && eq {
				s.invalid = true
			}
			if x.Typ != nil && isFilterPtr(x.Typ) && y.Op == "const" {
				if eq {
					s.nilF = 1
				} else {
					s.nilF = 2
				}
			}
			c.Set(s)
		}
		h.Call = func(c *Ctx, ci CallInfo) {
			if ci.Callee != nil && strings.HasSuffix(fullName(ci.Callee), "attribute.Set.Filter") {
				s := c.A().(kfSt)
				s.recv = s.last
				c.Set(s)
			}
		}
		h.Instr = func(c *Ctx) {
			if st, ok := c.In.(*ssa.Store); ok && strings.HasSuffix(st.Val.Type().String(), "attribute.Set") {
				s := c.A().(kfSt)
				s.last = c.T(st.Val).Strip().Key()
				c.Set(s)
			}
			l, ok := c.In.(*ssa.Lookup)
			if !ok || !isDataMap(l.X.Type()) {
				return
			}
			s := c.A().(kfSt)
			if s.used {
				return
			}
			s.used = true
			c.Set(s)
			n++
			k := c.T(l.Index).Strip()
			if k.Op == "phi" {
				// a local given several values: the one it has on this path
				for _, a := range k.Args {
					if a.Strip().Key() == s.last {
						k = a.Strip()
						break
					}
				}
			}
			ok2, why := false, "the series is looked up under "+k.Key()
			switch {
			case k.Key() == "$1":
				ok2 = !s.invalid && s.nilF == 1
				why = fmt.Sprintf("the caller's attribute set is used unfiltered where a filter may be configured or a key may be empty (filter nil known=%v, empty key seen=%v)", s.nilF == 1, s.invalid)
			case k.Op == "extract" && k.Sub == "0" && k.Args[0].Op == "call" && strings.HasSuffix(k.Args[0].Sub, "attribute.Set.Filter") && len(k.Args[0].Args) == 2:
				a := k.Args[0].Args
				if allocContent(a[0]).Strip().Key() != "$1" && a[0].Strip().Key() != "$1" && !(allocContent(a[0]) == a[0] && s.recv == "$1") {
					why = "the filtered set is not the caller's: " + a[0].Key()
					break
				}
				f := a[1].Strip()
				if g := closureOf(f); g != nil {
					preds[g] = true
					ok2 = true
					if s.nilF != 1 && !s.invalid {
						ok2 = true
					}
				} else if strings.Contains(f.Key(), "eysFilter") || f.Typ != nil && strings.HasSuffix(f.Typ.String(), "attribute.Filter") && f.Op != "const" {
					ok2 = !s.invalid && s.nilF == 2
					why = "the configured key filter is applied where it may be nil or a key is empty"
				}
			}
			r.Ob(R, ok2, c.F.Fn, "attributes of a new series", c.Pos(), why, c.Trace()...)
		}
		e := newEngine(p, h)
		e.Run(fn, kfSt{})
		r.Engine(e)
	}
	r.AtLeast(R, n, 2, "series lookup")
	// predicates handed to Set.Filter
	for g := range preds {
		for m := 0; m < 8; m++ {
			empty, nilF, acc := m&1 != 0, m&2 != 0, m&4 != 0
			got := map[string]bool{}
			d := &Decide{P: p, Fn: g}
			d.Cmp = func(op token.Token, x, y *Term) (bool, bool) {
				if op != token.EQL && op != token.NEQ {
					return false, false
				}
				if x.Op == "field" && x.Sub == "Key" && y.C != nil && y.C.Kind() == constant.String {
					return empty == (op == token.EQL), true
				}
				if x.Typ != nil && isFilterPtr(x.Typ) && y.Op == "const" {
					return nilF == (op == token.EQL), true
				}
				return false, false
			}
			d.Call = func(c *Ctx, ci CallInfo) {
				if ci.Callee == nil && !ci.Invoke && len(ci.Common.Args) == 1 && strings.HasSuffix(ci.Common.Args[0].Type().String(), "attribute.KeyValue") {
					if nilF {
						got["calls a nil filter"] = true
					}
					c.Fork(c.A(), map[int]Fact{0: factBool(acc)})
				}
			}
			d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
				if panics {
					got["panic"] = true
				} else if v, ok := c.E.constOf(c.St.F, VRef{c.F, refs[0]}); ok {
					got[v.ExactString()] = true
				} else {
					got["unknown "+res[0].Key()] = true
				}
			}
			d.Run()
			r.Engine(d.E)
			want := fmt.Sprint(!empty && (nilF || acc))
			r.Ob(R, len(got) == 1 && got[want], g, fmt.Sprintf("predicate empty=%v filter nil=%v accepts=%v", empty, nilF, acc), p.pos(g.Pos()), fmt.Sprintf("yields %s, specified %s", joinS(got), want))
		}
	}
	// construction of the filter: every *attribute.Filter built in viewstate from a key list
	built := 0
	for _, fn := range p.all {
		if pkgOf(fn) == nil || pkgOf(fn).Path() != p.Module+"/"+mView || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		sg := fn.Signature
		if sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 1 || !strings.HasSuffix(tupT(sg.Params(), 0).String(), "[]go.opentelemetry.io/otel/attribute.Key") {
			continue
		}
		rt := tupT(sg.Results(), 0).String()
		switch {
		case strings.HasSuffix(rt, "attribute.Filter"):
			built++
			var lit *ssa.Function
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						lit = mc.Fn.(*ssa.Function)
					}
				}
			}
			fa := &ForAll{P: p, R: r, Rule: R, Fn: fn, What: "configured keys", Coll: func(t *Term) bool { return t.Strip().Key() == "$0" }}
			fa.InstrEvent = func(c *Ctx) bool {
				mu, ok := c.In.(*ssa.MapUpdate)
				return ok && isElemOf(c.T(mu.Key), fa.Coll)
			}
			fa.Run()
			if r.Need(R, lit != nil, "filter function", "the filter is not a function over the key map") {
				for _, has := range []bool{true, false} {
					got := map[string]bool{}
					d := &Decide{P: p, Fn: lit}
					d.Loads = func(e *Engine, f *Facts, rr VRef) (Fact, bool) {
						if x, ok := rr.V.(*ssa.Extract); ok {
							if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && strings.HasSuffix(e.term(VRef{rr.F, l.Index}, f, 0).Key(), ".Key") {
								return factBool(has), true
							}
						}
						return Fact{}, false
					}
					d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) {
						if v, ok := c.E.constOf(c.St.F, VRef{c.F, refs[0]}); ok && !panics {
							got[v.ExactString()] = true
						} else {
							got["unknown"] = true
						}
					}
					d.Run()
					r.Engine(d.E)
					r.Ob(R, len(got) == 1 && got[fmt.Sprint(has)], lit, fmt.Sprintf("filter on a configured=%v key", has), p.pos(lit.Pos()), "yields "+joinS(got))
				}
			}
		case strings.HasSuffix(rt, "attribute.Set"):
			built++
			fa := &ForAll{P: p, R: r, Rule: R, Fn: fn, What: "key identity set", Coll: func(t *Term) bool { return t.Strip().Key() == "$0" }}
			fa.InstrEvent = func(c *Ctx) bool {
				st, ok := c.In.(*ssa.Store)
				return ok && strings.HasSuffix(st.Val.Type().String(), "attribute.KeyValue") && c.T(st.Val).Any(func(t *Term) bool { return isElemOf(t, fa.Coll) })
			}
			fa.Run()
		}
	}
	r.AtLeast(R, built, 1, "key filter constructor")
}

// closureOf: the function behind a closure or method value term.
func closureOf(t *Term) *ssa.Function {
	if t.Ref.V == nil {
		return nil
	}
	v := t.Ref.V
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.MakeClosure:
			g, _ := x.Fn.(*ssa.Function)
			return g
		case *ssa.Function:
			return x
		}
		return nil
	}
}

// ruleDroppedInstrument: an instrument with no outputs is never collected.
func ruleDroppedInstrument(p *Prog, r *Report) {
	const R = "dropped-instrument"
	r.Rule(R, "every instrument pointer put in a meter's collection list is non-nil on every path (an instrument whose every view drops has none)")
	isObs := func(t types.Type) bool {
		pt, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n := namedOf(pt.Elem())
		return n != nil && n.Obj().Name() == "Observer" && strings.HasPrefix(n.Obj().Pkg().Path(), p.Module)
	}
	n := 0
	for _, fn := range p.all {
		if len(fn.Blocks) == 0 || fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if s, ok := c.Type().Underlying().(*types.Slice); ok && isObs(s.Elem()) {
							has = true
						}
					}
				}
			}
		}
		if !has {
			continue
		}
		h := Hooks{Inline: func(*Frame, ssa.CallInstruction, *ssa.Function) bool { return false }}
		h.Instr = func(c *Ctx) {
			// the element stored in append's argument array
			st, ok := c.In.(*ssa.Store)
			if !ok || !isObs(st.Val.Type()) {
				return
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
				return
			}
			n++
			isNil, known := c.E.nilness(c.St.F, VRef{c.F, st.Val})
			r.Ob(R, known && !isNil, fn, "collected instrument", c.Pos(), "an instrument pointer that may be nil is added to the list every collection walks", c.Trace()...)
		}
		e := newEngine(p, h)
		e.Run(fn, 0)
		r.Engine(e)
	}
	r.AtLeast(R, n, 1, "collection list append")
}

// ruleViewDefaults: the reader's defaults reach every instrument kind.
func ruleViewDefaults(p *Prog, r *Report) {
	const R = "view-default"
	r.Rule(R, "DefaultConfig getters read the entry of the given kind; each default selector fills its own field for every kind; NewConfig applies the standard options first and then every option in order")
	for g, f := range map[string]string{"Aggregation": "Aggregation", "Temporality": "Temporality"} {
		fn := p.methodOf(mViewP, "DefaultConfig", g)
		if !r.Need(R, fn != nil, "DefaultConfig."+g, "not found") {
			continue
		}
		got := map[string]bool{}
		d := &Decide{P: p, Fn: fn}
		d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) { got[res[0].Strip().Key()] = true }
		d.Run()
		r.Engine(d.E)
		r.Ob(R, len(got) == 1 && got["index($0.ByInstrumentKind,$1)."+f], fn, g, p.pos(fn.Pos()), "returns "+joinS(got))
	}
	if fn := p.methodOf(mViewP, "DefaultConfig", "AggregationConfig"); r.Need(R, fn != nil, "DefaultConfig.AggregationConfig", "not found") {
		_, nkv := p.enumConsts(mNumber, "Kind")
		for _, k := range []string{"Int64", "Float64"} {
			got := map[string]bool{}
			d := &Decide{P: p, Fn: fn, Vals: map[string]constant.Value{"$2": nkv[k+"Kind"]}}
			d.Exit = func(c *Ctx, res []*Term, refs []ssa.Value, panics bool) { got[res[0].Strip().Key()] = true }
			d.Run()
			r.Engine(d.E)
			r.Ob(R, len(got) == 1 && got["index($0.ByInstrumentKind,$1)."+k], fn, "AggregationConfig "+k, p.pos(fn.Pos()), "returns "+joinS(got))
		}
	}
	// selectors: the closure stores d(k) in field of element k for all k
	for ctor, fields := range map[string][]string{
		"WithDefaultAggregationKindSelector":        {"Aggregation"},
		"WithDefaultAggregationTemporalitySelector": {"Temporality"},
		"WithDefaultAggregationConfigSelector":      {"Int64", "Float64"},
	} {
		fn := p.fn(mViewP, ctor)
		if !r.Need(R, fn != nil, ctor, "not found") {
			continue
		}
		var lit *ssa.Function
		if len(fn.AnonFuncs) == 1 {
			lit = fn.AnonFuncs[0]
		}
		if !r.Need(R, lit != nil, ctor, "the option's function was not found") {
			continue
		}
		want := map[string]bool{}
		for _, f := range fields {
			want[f] = true
		}
		got := map[string]bool{}
		d := &Decide{P: p, Fn: lit}
		d.Instr = func(c *Ctx) {
			st, ok := c.In.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			ia, ok := fa.X.(*ssa.IndexAddr)
			if !ok {
				return
			}
			f := fieldOf(fa).Name()
			v := c.T(st.Val).Strip()
			idx := 0
			if v.Op == "extract" {
				idx = map[string]int{"0": 0, "1": 1}[v.Sub]
				v = v.Args[0]
			}
			k := c.T(ia.Index).Strip().Key()
			good := v.Op == "dyn" && len(v.Args) == 2 && v.Args[1].Strip().Key() == k && (len(fields) == 1 || fields[idx] == f) && want[f]
			got[f] = true
			r.Ob(R, good, lit, ctor+" "+f, c.Pos(), "the stored default is not the selector's answer for that kind")
		}
		d.Run()
		r.Engine(d.E)
		r.Ob(R, len(got) == len(want), lit, ctor+" fields", p.pos(lit.Pos()), "sets "+joinS(got))
		// the loop covers every kind
		nk := p.enumCount(mInst, "NumKinds")
		full := false
		for _, b := range lit.Blocks {
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !loopHeader(b) {
				continue
			}
			full = full || coversAll(ifi.Cond, b, nk)
		}
		r.Ob(R, full, lit, ctor+" every kind", p.pos(lit.Pos()), "the loop does not visit every instrument kind")
	}
	if fn := p.fn(mViewP, "NewConfig"); r.Need(R, fn != nil, "NewConfig", "not found") {
		optIn := func(t *Term) bool { return t.Any(func(x *Term) bool { return x.Key() == "$1" }) }
		fa := &ForAll{P: p, R: r, Rule: R, Fn: fn, What: "options", Coll: optIn, Inline: func(*Frame, ssa.CallInstruction, *ssa.Function) bool { return false }}
		fa.Event = func(c *Ctx, ci CallInfo) bool { return ci.Invoke && ci.Method == "apply" }
		fa.Run()
		// standard options come first
		ok := false
		for _, c := range callsIn(fn) {
			if b, isB := c.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" && len(c.Common().Args) == 2 {
				if pr, isP := c.Common().Args[1].(*ssa.Parameter); isP && pr == fn.Params[1] {
					ok = true
				}
			}
		}
		two := 0
		for range loopsOf(fn) {
			two++
		}
		r.Ob(R, ok || two >= 2, fn, "options after standard", p.pos(fn.Pos()), "the caller's options are not applied after the standard ones")
	}
}

func loopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// coversAll: cond is i < n (or i != n, or a range form) for a counter from 0 by 1.
func coversAll(cond ssa.Value, b *ssa.BasicBlock, n int64) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	lim, ok := bo.Y.(*ssa.Const)
	if !ok || lim.Value == nil {
		return false
	}
	l, _ := constant.Int64Val(lim.Value)
	if !(bo.Op == token.LSS && l == n || bo.Op == token.LEQ && l == n-1 || bo.Op == token.NEQ && l == n) {
		return false
	}
	step := int64(0)
	start, seen := int64(-99), false
	x := bo.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD { // range loops test i+1
		x = add.X
		step = 1
	}
	ph, ok := x.(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		if b.Dominates(ph.Block().Preds[i]) {
			add, ok := e.(*ssa.BinOp)
			if !ok || add.Op != token.ADD || add.X != ssa.Value(ph) || !isConstInt(add.Y, 1) {
				return false
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		start, _ = constant.Int64Val(c.Value)
		seen = true
	}
	return seen && start+step == 0
}

func (p *Prog) enumCount(rel, name string) int64 {
	if pk := p.pkg(rel); pk != nil {
		if nc, ok := pk.Members[name].(*ssa.NamedConst); ok {
			v, _ := constant.Int64Val(nc.Value.Value)
			return v
		}
	}
	return -1
}
