package main

// P27: identity of meters, instruments and outputs.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P27", ruleIdentity) }

func ruleIdentity(p *Prog, r *Report) {
	ruleMeterIdentity(p, r)
	ruleInstrumentIdentity(p, r)
	ruleOutputIdentity(p, r)
	ruleConflictFlow(p, r)
}

// registrySt follows one lookup-or-insert on a map.
type registrySt struct {
	locked   int8
	gen      int8 // bumped when the lock is released
	looked   int8
	lookGen  int8
	key      string
	hit      int8 // 0 unknown 1 hit 2 miss
	put, app int8
	val      string
	off      bool
}

// registry checks a lookup-or-insert function: what Map selects is looked up
// and inserted under one key inside one critical section, and the result is
// the value found or the value inserted.
type lookupInsert struct {
	p     *Prog
	r     *Report
	rule  string
	fn    *ssa.Function
	what  string
	isMap func(types.Type) bool
	// list: slices every new value is appended to
	isList func(types.Type) bool
	// off: branch after which nothing is required
	off func(c *Ctx, t *Term, taken bool) bool
	res int // result index
	key func(c *Ctx, k *Term)
	val func(c *Ctx, v *Term)
}

func (g *lookupInsert) run() {
	p, r, R := g.p, g.r, g.rule
	isList := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && g.isList(c.Type())
	}
	h := Hooks{Inline: inlineRelevant(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return g.isMap(x.Map.Type())
		case *ssa.Lookup:
			return g.isMap(x.X.Type())
		}
		return isList(in) || isLockCall(in) && pkgOf(in.Parent()) == pkgOf(g.fn)
	})}
	vk := func(c *Ctx, v ssa.Value) string {
		x := v
		for {
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
				continue
			}
			break
		}
		return refKey(c.T(x))
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		s := c.A().(registrySt)
		switch lockOp(ci.Callee) {
		case "Lock":
			s.locked = 1
		case "Unlock":
			s.locked = 0
			s.gen = inc(s.gen)
		}
		if isList(c.In) {
			s.app = inc(s.app)
			v := c.Arg(1)
			r.Ob(R, s.hit == 2, c.F.Fn, g.what+": list", c.Pos(), "a value is added to the list although it may exist already", c.Trace()...)
			r.Ob(R, v.Any(func(x *Term) bool { return refKey(x) == s.val }) || s.val == "", c.F.Fn, g.what+": listed value", c.Pos(), "the value listed is not the one registered: "+v.Key())
			if s.val == "" && v.Op == "varargs" && len(v.Args) == 1 {
				s.val = refKey(v.Args[0])
			}
		}
		c.Set(s)
	}
	h.Instr = func(c *Ctx) {
		s := c.A().(registrySt)
		switch x := c.In.(type) {
		case *ssa.Lookup:
			if g.isMap(x.X.Type()) {
				s.looked = inc(s.looked)
				s.key = c.T(x.Index).Strip().Key()
				s.lookGen = s.gen
				r.Ob(R, s.locked == 1, c.F.Fn, g.what+": lookup under lock", c.Pos(), "the registry is read without its lock", c.Trace()...)
				g.key(c, c.T(x.Index))
				c.Set(s)
			}
		case *ssa.MapUpdate:
			if g.isMap(x.Map.Type()) {
				s.put = inc(s.put)
				k := c.T(x.Key).Strip().Key()
				r.Ob(R, s.looked > 0 && s.key == k, c.F.Fn, g.what+": inserted key", c.Pos(), "inserted under "+k+", looked up as "+s.key, c.Trace()...)
				r.Ob(R, s.locked == 1 && s.lookGen == s.gen, c.F.Fn, g.what+": one critical section", c.Pos(), "lookup and insertion are not in one critical section: two callers can both insert", c.Trace()...)
				r.Ob(R, s.hit == 2, c.F.Fn, g.what+": insertion", c.Pos(), "a registered value can be replaced", c.Trace()...)
				v := vk(c, x.Value)
				r.Ob(R, s.val == "" || s.val == v, c.F.Fn, g.what+": inserted value", c.Pos(), "the value inserted is not the one listed")
				s.val = v
				if g.val != nil {
					g.val(c, c.T(x.Value))
				}
				c.Set(s)
			}
		}
	}
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		s := c.A().(registrySt)
		if g.off != nil && g.off(c, t, taken) {
			s.off = true
		}
		var look *Term
		switch {
		case t.Op == "has":
			look = t
			if g.isMap2(look.Args[0]) {
				s.hit = 2
				if taken {
					s.hit = 1
				}
			}
		case t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && t.Args[1].Sub == "nil" && t.Args[0].Strip().Op == "lookup":
			look = t.Args[0].Strip()
			if g.isMap2(look.Args[0]) {
				s.hit = 2
				if (t.Sub == "!=") == taken {
					s.hit = 1
				}
			}
		}
		c.Set(s)
	}
	n := 0
	h.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
		if panics {
			return
		}
		s := c.A().(registrySt)
		if s.off {
			r.Ob(R, s.put == 0 && s.app == 0, g.fn, g.what+": excluded", p.pos(g.fn.Pos()), "something is registered on a path where nothing may be", c.Trace()...)
			return
		}
		n++
		switch s.hit {
		case 1:
			t := c.T(res[g.res])
			r.Ob(R, s.put == 0 && s.app == 0, g.fn, g.what+": found", p.pos(g.fn.Pos()), "an existing entry is registered again", c.Trace()...)
			r.Ob(R, isFound(t, g), g.fn, g.what+": found value returned", p.pos(g.fn.Pos()), "the existing entry is not what is returned: "+t.Key(), c.Trace()...)
		case 2:
			r.Ob(R, s.put == 1 && s.app == 1, g.fn, g.what+": created", p.pos(g.fn.Pos()), fmt.Sprintf("a new entry is inserted %d times and listed %d times", s.put, s.app), c.Trace()...)
			r.Ob(R, vk(c, res[g.res]) == s.val, g.fn, g.what+": created value returned", p.pos(g.fn.Pos()), "the value returned is not the one registered: "+c.T(res[g.res]).Key(), c.Trace()...)
		default:
			r.Ob(R, false, g.fn, g.what+": looked up", p.pos(g.fn.Pos()), "a path returns without consulting the registry", c.Trace()...)
		}
	}
	e := newEngine(p, h)
	e.Run(g.fn, registrySt{})
	r.Engine(e)
	r.Ob(R, n > 0, g.fn, g.what+": paths", p.pos(g.fn.Pos()), "no path analysed")
}

func (g *lookupInsert) isMap2(t *Term) bool { return t.Typ != nil && g.isMap(t.Typ) }

func isFound(t *Term, g *lookupInsert) bool {
	t = t.Strip()
	for t.Op == "assert" || t.Op == "load" || t.Op == "extract" {
		t = t.Args[0].Strip()
	}
	return t.Op == "lookup" && g.isMap2(t.Args[0])
}

func ruleMeterIdentity(p *Prog, r *Report) {
	const R = "meter-identity"
	r.Rule(R, "lookup-or-insert typestate of MeterProvider.Meter: one critical section, one key made of the given name and the options' version and schema; a hit returns the existing meter, a miss registers exactly one new meter and returns it")
	fn := p.methodOf(mMetric, "MeterProvider", "Meter")
	if !r.Need(R, fn != nil, "MeterProvider.Meter", "not found") {
		return
	}
	meterT := p.repoName(mMetric, "meter")
	isScopeMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isNamedType(derefT(m.Elem()), meterT)
	}
	checkLib := func(c *Ctx, k *Term, what string) {
		for f, want := range map[string]func(t *Term) bool{
			"Name": func(t *Term) bool { return t.Strip().Key() == "$1" },
			"Version": func(t *Term) bool {
				return strings.HasSuffix(t.Strip().Sub, "MeterConfig.InstrumentationVersion") && t.Any(func(x *Term) bool { return x.Key() == "$2" })
			},
			"SchemaURL": func(t *Term) bool {
				return strings.HasSuffix(t.Strip().Sub, "MeterConfig.SchemaURL") && t.Any(func(x *Term) bool { return x.Key() == "$2" })
			},
		} {
			t := subField(c.E, k, []string{f}, c.St.F, 0)
			r.Ob(R, want(t), c.F.Fn, what+" "+f, c.Pos(), "not taken from the caller's arguments: "+t.Key())
		}
	}
	nLib := 0
	g := &lookupInsert{p: p, r: r, rule: R, fn: fn, what: "meter", isMap: isScopeMap, isList: func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isNamedType(derefT(s.Elem()), meterT)
	},
		off: func(c *Ctx, t *Term, taken bool) bool {
			return isNilCmp(t, taken) && t.Args[0].Typ != nil && isScopeMap(t.Args[0].Typ)
		},
		key: func(c *Ctx, k *Term) { checkLib(c, k, "meter key") },
	}
	g.run()
	// the meter is labelled with the same scope
	e := newEngine(p, Hooks{})
	for _, f := range p.pkgFuncs(mMetric) {
		if len(f.Blocks) == 0 {
			continue
		}
		fr := e.frame(nil, nil, f, nil, nil)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isNamedType(derefT(fa.X.Type()), meterT) || !strings.HasSuffix(types.TypeString(fieldOf(fa).Type(), nil), "instrumentation.Scope") {
					continue
				}
				nLib++
				if f == fn {
					c := &Ctx{E: e, F: fr, In: in, St: &State{F: emptyFacts}}
					checkLib(c, c.T(st.Val), "meter scope")
				} else {
					_, isP := st.Val.(*ssa.Parameter)
					r.Ob(R, isP, f, "meter scope", p.posOf(in), "the meter's scope is set to something else than the scope it is registered under")
				}
			}
		}
	}
	r.AtLeast(R, nLib, 1, "store of a meter's scope")
}

func ruleInstrumentIdentity(p *Prog, r *Report) {
	const R = "instrument-identity"
	r.Rule(R, "lookup-or-insert typestate of instrument creation: one critical section, one key made of the name, instrument kind, number kind, description and unit asked for, the same definition that is compiled; a hit returns the existing instrument, a miss registers exactly one")
	desc := p.typ(mInst, "Descriptor")
	if !r.Need(R, desc != nil, "Descriptor", "not found") {
		return
	}
	isDescMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isNamedType(m.Key(), p.repoName(mInst, "Descriptor"))
	}
	r.Ob(R, types.Comparable(desc), nil, "Descriptor comparable", p.pos(desc.Obj().Pos()), "the definition is not comparable")
	n := 0
	for _, fn := range registrars(p) {
		n++
		prm := map[string]string{}
		for i, q := range fn.Params {
			switch {
			case types.TypeString(q.Type(), nil) == "string":
				prm["Name"] = "$" + itoa(i)
			case isNamedType(q.Type(), p.repoName(mInst, "Kind")):
				prm["Kind"] = "$" + itoa(i)
			case isNamedType(q.Type(), p.repoName(mNumber, "Kind")):
				prm["NumberKind"] = "$" + itoa(i)
			case types.IsInterface(q.Type()) && isNamedType(q.Type(), p.repoName(mMetric, "instConfig")):
				prm["cfg"] = "$" + itoa(i)
			}
		}
		checkDesc := func(c *Ctx, k *Term, what string) {
			for _, f := range []string{"Name", "Kind", "NumberKind", "Description", "Unit"} {
				t := descField(c, p, k, f)
				ok := false
				switch f {
				case "Description", "Unit":
					ok = t.Op == "invoke" && strings.HasSuffix(t.Sub, "."+f) && len(t.Args) > 0 && t.Args[0].Strip().Key() == prm["cfg"]
				default:
					ok = t.Strip().Key() == prm[f]
				}
				r.Ob(R, ok, c.F.Fn, what+" "+f, c.Pos(), "not the one asked for: "+t.Key())
			}
		}
		instT := ""
		if rt, ok := tupT(fn.Signature.Results(), 0).(*types.Pointer); ok {
			instT = types.TypeString(rt.Elem(), nil)
		}
		g := &lookupInsert{p: p, r: r, rule: R, fn: fn, what: "instrument", isMap: isDescMap,
			isList: func(t types.Type) bool {
				s, ok := t.Underlying().(*types.Slice)
				return ok && types.TypeString(derefT(s.Elem()), nil) == instT
			},
			off: func(c *Ctx, t *Term, taken bool) bool {
				// the constructor returned nothing: every view drops the instrument
				return isNilCmp(t, taken) && t.Args[0].Typ != nil && types.TypeString(derefT(t.Args[0].Typ), nil) == instT
			},
			key: func(c *Ctx, k *Term) { checkDesc(c, k, "instrument key") },
		}
		g.run()
		// the same definition is compiled and constructed
		e := newEngine(p, Hooks{Inline: inlineHere(p, p.Module+"/"+mMetric, isCallTo(p.repoName(mView, "Compiler")+".Compile"))})
		e.H.Call = func(c *Ctx, ci CallInfo) {
			if ci.Callee != nil && pkgOf(ci.Callee) == pkgOf(fn) {
				return
			}
			for i, a := range ci.Common.Args {
				if isNamedType(a.Type(), p.repoName(mInst, "Descriptor")) {
					checkDesc(c, c.Arg(i), "definition given to "+callNameShort(ci))
				}
			}
		}
		e.Run(fn, 0)
		r.Engine(e)
	}
	r.AtLeast(R, n, 2, "instrument registration function")
	// the descriptor constructor keeps every argument in its own field
	if fn := p.fn(mInst, "NewDescriptor"); r.Need(R, fn != nil, "NewDescriptor", "not found") {
		e := newEngine(p, Hooks{})
		e.H.Exit = func(c *Ctx, res []ssa.Value, panics bool) {
			st := desc.Underlying().(*types.Struct)
			used := map[string]bool{}
			for i := 0; i < st.NumFields(); i++ {
				t := subField(e, c.T(res[0]), []string{st.Field(i).Name()}, c.St.F, 0)
				want := strings.ToLower(st.Field(i).Name())
				ok := t.Op == "param" && !used[t.Key()]
				if ok {
					used[t.Key()] = true
					pn := strings.ToLower(fn.Params[paramIndex(t.Key())].Name())
					if types.TypeString(st.Field(i).Type(), nil) == "string" {
						ok = strings.HasPrefix(want, pn[:1])
					}
				}
				r.Ob(R, ok, fn, "descriptor "+st.Field(i).Name(), p.pos(fn.Pos()), "the field is not its own argument: "+t.Key())
			}
		}
		e.Run(fn, 0)
		r.Engine(e)
	}
}

func callNameShort(ci CallInfo) string {
	s := ci.Full()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func paramIndex(k string) int {
	n := 0
	for _, ch := range strings.TrimPrefix(k, "$") {
		n = n*10 + int(ch-'0')
	}
	return n
}

// descField: a field of a descriptor, seen through its constructor.
func descField(c *Ctx, p *Prog, t *Term, f string) *Term {
	t = t.Strip()
	if t.Op == "call" && t.Sub == p.repoName(mInst, "NewDescriptor") {
		g := p.fn(mInst, "NewDescriptor")
		e := newEngine(p, Hooks{})
		out := &Term{Op: "none"}
		e.H.Exit = func(c2 *Ctx, res []ssa.Value, _ bool) {
			x := subField(e, c2.T(res[0]), []string{f}, c2.St.F, 0)
			if x.Op == "param" {
				if i := paramIndex(x.Key()); i < len(t.Args) {
					out = t.Args[i]
				}
			}
		}
		e.Run(g, 0)
		return out.Strip()
	}
	return subField(c.E, t, []string{f}, c.St.F, 0).Strip()
}

// outSt follows the choice of the output of one behaviour.
type outSt struct {
	agg, sync, unit, nk, cfg bool
	sameNil, valEq           bool
	aN, bN, ptrEq            bool
	inSearch                 bool
	fresh                    bool // built
	put, coll, comp          int8
	dups                     bool // len > 1 known true
	nodups, nosem, sem       bool
	added                    bool
	once                     bool
	again                    bool
	in                       bool
	notKind                  bool
	chosen                   bool
}

func ruleOutputIdentity(p *Prog, r *Report) {
	const R = "output-identity"
	r.Rule(R, "path typestate of compiling one behaviour: an existing output is reused only after its aggregation, synchronous-ness, unit, number kind, aggregator configuration and attribute keys all compared equal to the new definition's under the same name; otherwise exactly one output is built, listed for collection and recorded under its name; an output occurs once among an instrument's outputs; several outputs under one name, or an incompatible aggregation, always add a conflict listing all of them")
	fn := p.methodOf(mView, "Compiler", "Compile")
	rec := behaviourRecord(p)
	if !r.Need(R, fn != nil && rec != nil, "Compiler.Compile", "not found") {
		return
	}
	isNames := func(t types.Type) bool {
		if t == nil {
			return false
		}
		m, ok := t.Underlying().(*types.Map)
		if !ok || types.TypeString(m.Key(), nil) != "string" {
			return false
		}
		s, ok := m.Elem().Underlying().(*types.Slice)
		return ok && isLeaf(p, s.Elem())
	}
	isLeafs := func(t types.Type) bool {
		if t == nil {
			return false
		}
		s, ok := t.Underlying().(*types.Slice)
		return ok && isLeaf(p, s.Elem())
	}
	isRecs := func(t *Term) bool { return t.Typ != nil && sliceOfNamed(t.Typ, rec.Obj()) }
	existing := func(t *Term) bool { return t.Typ != nil && isLeafs(t.Typ) }
	isInst := func(t *Term) bool { return isElemOf(t, existing) }
	isBeh := func(t *Term) bool {
		t = allocContent(t).Strip()
		return isElemOf(t, isRecs)
	}
	behF := func(t *Term, typ string, name string) bool {
		return t.Any(func(x *Term) bool { return isBeh(x) || x.Typ != nil && isNamedType(derefT(x.Typ), originName(rec)) })
	}
	isSlice := func(t types.Type, elem string) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.TypeString(s.Elem(), nil) == elem
	}
	compiledT, collT := p.repoName(mView, "Instrument"), p.repoName(mData, "Collector")
	isConfAdd := func(g *ssa.Function) bool {
		return g != nil && fullName(g) == p.repoName(mView, "ViewConflictsBuilder")+".Add"
	}
	reach := newReach(p, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return isNames(x.Map.Type())
		case *ssa.Lookup:
			return isNames(x.X.Type())
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return isSlice(x.Type(), compiledT) || isSlice(x.Type(), collT) || isLeafs(x.Type())
			}
			return isConfAdd(x.Call.StaticCallee()) || isInvokeOf(in, "mergeDescription")
		case *ssa.BinOp:
			// comparisons of outputs
			return types.TypeString(x.X.Type(), nil) == compiledT && isCmp(x)
		}
		return false
	})
	build := func(t *Term) bool {
		return t.Any(func(x *Term) bool {
			return x.Op == "call" && strings.Contains(x.Sub, "/internal/viewstate.") && isLeafOrErr(p, x)
		})
	}
	bodyIn := func(fr *Frame, c ssa.CallInstruction, g *ssa.Function) bool {
		if isConfAdd(g) {
			return false
		}
		if pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mView && g.Signature.Results().Len() == 1 {
			if b, ok := tupT(g.Signature.Results(), 0).Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				// predicates of this package, except those over whole configurations
				for _, q := range g.Params {
					if isNamedType(derefT(q.Type()), p.repoName(mAgg, "Config")) || sliceOfStr(q.Type()) {
						return false
					}
				}
				if pr := g.Params; len(pr) > 0 {
					if isNamedType(derefT(pr[0].Type()), p.repoName(mViewP, "ClauseConfig")) {
						return false
					}
				}
				return true
			}
		}
		return pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mView && reach.has(g)
	}
	h := Hooks{Inline: bodyIn}
	side := func(t *Term) (inst, beh bool) {
		t = t.Strip()
		inst = t.Any(func(x *Term) bool { return isInst(x) })
		beh = !inst && behF(t, "", "")
		return
	}
	// cmpBoth: one side about the existing output, the other about the new definition
	cmpBoth := func(x, y *Term) bool {
		i1, b1 := side(x)
		i2, b2 := side(y)
		return i1 && b2 || i2 && b1
	}
	keysT := "*go.opentelemetry.io/otel/attribute.Set"
	isKeys := func(t *Term) bool { return t.Typ != nil && types.TypeString(t.Typ, nil) == keysT }
	h.Branch = func(c *Ctx, cond ssa.Value, taken bool) {
		t := c.T(cond)
		for t.Op == "un" && t.Sub == "!" {
			t, taken = t.Args[0], !taken
		}
		s := c.A().(outSt)
		if t.Op == "call" && len(t.Args) == 2 && taken && (strings.HasSuffix(t.Sub, "equalConfigs") || t.Args[0].Typ != nil && isNamedType(t.Args[0].Typ, p.repoName(mAgg, "Config"))) && cmpBoth(t.Args[0], t.Args[1]) {
			s.cfg = true
		}
		if t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && len(t.Args) == 2 {
			eq := (t.Sub == "==") == taken
			x, y := t.Args[0], t.Args[1]
			both := cmpBoth(x, y)
			typ := cmpType(c, cond)
			switch {
			case x.Op == "bin" && y.Op == "bin" && x.Args[1].Sub == "nil" && y.Args[1].Sub == "nil" && isKeys(x.Args[0]) && isKeys(y.Args[0]):
				s.sameNil = s.sameNil || eq == (x.Sub == y.Sub)
			case isKeys(x) && y.Sub == "nil":
				i, b := side(x)
				if i {
					s.aN = eq
				} else if b {
					s.bN = eq
				}
			case typ == keysT && both && eq:
				s.ptrEq = true
			case typ == strings.TrimPrefix(keysT, "*") && both && eq:
				s.valEq = true
			case typ == p.repoName(mAggn, "Kind") && both && eq:
				s.agg = true
			case typ == p.repoName(mNumber, "Kind") && both && eq:
				s.nk = true
			case typ == p.repoName(mAgg, "Config") && both && eq:
				s.cfg = true
			case typ == "string" && both && eq && hasField(x, "Unit") && hasField(y, "Unit"):
				s.unit = true
			case typ == "bool" && both && eq && isCallNamed(x, "Kind.Synchronous") && isCallNamed(y, "Kind.Synchronous"):
				s.sync = true
			case typ == compiledT && eq || typ == compiledT && !eq:
				if eq {
					s.again = true
				}
			}
			if t.Op == "bin" && (t.Sub == "==" || t.Sub == "!=") && cmpType(c, cond) == p.repoName(mNumber, "Kind") && t.Args[1].Op == "const" && (t.Sub == "==") != taken {
				// there are only two number kinds
				if s.notKind {
					c.Stop()
				}
				s.notKind = true
			}
			// len(existing) > 1 and the semantic error
			if isErrT(p, typ) && y.Sub == "nil" {
				s.sem, s.nosem = !eq, eq
			}
		}
		if t.Op == "bin" && isLenOf(t.Args[0], existing) {
			if k, ok := constInt(t.Args[1]); ok {
				one, two := cmpInt(t.Sub, 1, k), cmpInt(t.Sub, 2, k)
				if one != two {
					s.dups, s.nodups = two == taken, one == taken
				}
			}
		}
		if t.Op == "call" && strings.HasPrefix(t.Sub, "slices.Contains") {
			s.once, s.again = !taken, taken
		}
		c.Set(s)
	}
	loops := map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}
	lp := func(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
		if loops[f] == nil {
			loops[f] = loopsOf(f)
		}
		return loops[f]
	}
	iters := 0
	h.Edge = func(c *Ctx, from, to *ssa.BasicBlock, pred int) {
		s := c.A().(outSt)
		coll := func(b *ssa.BasicBlock) *Term {
			l := lp(c.F.Fn)[b]
			if l == nil || l.Coll == nil {
				return nil
			}
			return c.T(l.Coll)
		}
		if isBack(from, to) {
			if t := coll(to); t != nil && isRecs(t) {
				iters++
				pos := p.posOf(to.Instrs[0])
				r.Ob(R, s.comp == 1 || s.comp == 0 && s.again, c.F.Fn, "output of each behaviour", pos, "a behaviour contributes its output not exactly once", c.Trace()...)
				if s.fresh {
					r.Ob(R, s.put == 1 && s.coll == 1, c.F.Fn, "new output", pos, fmt.Sprintf("a new output is recorded %d times under its name and %d times for collection", s.put, s.coll), c.Trace()...)
				} else {
					r.Ob(R, s.put == 0 && s.coll == 0, c.F.Fn, "reused output", pos, "a reused output is listed again", c.Trace()...)
				}
				r.Ob(R, s.added || s.nodups && s.nosem, c.F.Fn, "conflict reported", pos, "a behaviour in conflict can be compiled without reporting the conflict", c.Trace()...)
				r.Ob(R, !s.added || s.dups || s.sem, c.F.Fn, "conflict without cause", pos, "a conflict is reported for a behaviour without one", c.Trace()...)
				c.Set(outSt{in: true})
				return
			} else if t != nil && existing(t) && !s.chosen {
				s.agg, s.sync, s.unit, s.nk, s.cfg, s.sameNil, s.valEq, s.aN, s.bN, s.ptrEq = false, false, false, false, false, false, false, false, false, false
				c.Set(s)
				return
			}
		}
		for hd, l := range lp(c.F.Fn) {
			if hd != from && l.Coll != nil && l.Body[from] && !l.Body[to] && existing(c.T(l.Coll)) {
				s.chosen = true
				c.Set(s)
			}
		}
		if t := coll(from); t != nil && len(from.Succs) == 2 && to == from.Succs[1] && t.Typ != nil && isSlice(t.Typ, compiledT) {
			s.once = true
			c.Set(s)
		}
		if t := coll(from); t != nil && len(from.Succs) == 2 && isRecs(t) {
			s = outSt{in: to == from.Succs[0]}
			c.Set(s)
		}
	}
	h.Instr = func(c *Ctx) {
		s := c.A().(outSt)
		switch x := c.In.(type) {
		case *ssa.MapUpdate:
			if isNames(x.Map.Type()) {
				s.put = inc(s.put)
				k := c.T(x.Key)
				r.Ob(R, outName(k, p) && behF(k, "", ""), c.F.Fn, "name of a new output", c.Pos(), "recorded under something else than the output's name: "+k.Key())
				v := c.T(x.Value)
				r.Ob(R, v.Op == "pure" && v.Sub == "append" && build(v), c.F.Fn, "outputs of a name", c.Pos(), "not the previous outputs with the new one appended: "+v.Key())
				c.Set(s)
			}
		case *ssa.Lookup:
			if isNames(x.X.Type()) {
				k := c.T(x.Index)
				r.Ob(R, outName(k, p) && behF(k, "", ""), c.F.Fn, "name searched", c.Pos(), "existing outputs are searched under another name: "+k.Key())
			}
		}
	}
	h.Call = func(c *Ctx, ci CallInfo) {
		s := c.A().(outSt)
		if isConfAdd(ci.Callee) {
			s.added = true
			c.Set(s)
			return
		}
		if ci.Callee != nil && s.in && pkgOf(ci.Callee) != nil && pkgOf(ci.Callee).Path() == p.Module+"/"+mView && ci.Callee.Signature.Results().Len() == 1 && isLeaf(p, tupT(ci.Callee.Signature.Results(), 0)) {
			s.fresh = true
			c.Set(s)
			return
		}
		if !isAppend(ci) || ci.Results == nil {
			return
		}
		switch {
		case isSlice(ci.Results.Type(), collT):
			s.coll = inc(s.coll)
			r.Ob(R, build(c.Arg(1)) && s.fresh, c.F.Fn, "collected output", c.Pos(), "not the new output: "+c.Arg(1).Key())
			c.Set(s)
		case isSlice(ci.Results.Type(), compiledT) && s.in:
			s.comp = inc(s.comp)
			if !s.fresh {
				for _, q := range []struct {
					ok bool
					w  string
				}{{s.agg, "aggregation kind"}, {s.sync, "synchronous or asynchronous"}, {s.unit, "unit"}, {s.nk, "number kind"}, {s.cfg, "aggregator configuration"},
					{s.valEq || s.ptrEq || s.sameNil && (s.aN || s.bN) || s.aN && s.bN, "attribute keys"}} {
					r.Ob(R, q.ok, c.F.Fn, "reuse compares "+q.w, c.Pos(), "an existing output can be reused although the "+q.w+" differs", c.Trace()...)
				}
				r.Ob(R, s.once && !s.again, c.F.Fn, "one occurrence per instrument", c.Pos(), "one output can occur twice among an instrument's outputs: each measurement is applied to it twice", c.Trace()...)
			}
			c.Set(s)
		}
	}
	e := newEngine(p, h)
	e.Run(fn, outSt{})
	r.Engine(e)
	r.Ob(R, iters > 0, fn, "behaviours", p.pos(fn.Pos()), "no iteration over the behaviours found")
	// the configuration predicate compares whole configurations
	if g := p.fn(mView, "equalConfigs"); g != nil {
		ok := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ret, isR := in.(*ssa.Return); isR {
					bo, isB := ret.Results[0].(*ssa.BinOp)
					ok = isB && bo.Op.String() == "==" && bo.X == ssa.Value(g.Params[0]) && bo.Y == ssa.Value(g.Params[1])
				}
			}
		}
		if len(g.Blocks) == 1 {
			r.Ob(R, ok, g, "configuration equality", p.pos(g.Pos()), "configurations that differ can compare equal")
		} else {
			r.Ob(R, wholeEqual(p, g), g, "configuration equality", p.pos(g.Pos()), "configurations that differ can compare equal")
		}
	}
	// every existing output is listed in the conflict
	isDups := func(t types.Type) bool { return isSlice(t, p.repoName(mView, "Duplicate")) }
	e2 := newEngine(p, Hooks{})
	nD := 0
	for _, f := range p.pkgFuncs(mView) {
		for ha, l := range loopsOf(f) {
			_ = ha
			if l.Coll == nil || !isLeafs(l.Coll.Type()) {
				continue
			}
			var stores int
			var cond bool
			for b := range l.Body {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isDups(ia.X.Type()) {
							stores++
							fr := e2.frame(nil, nil, f, nil, nil)
							ix := e2.Term(emptyFacts, VRef{fr, ia.Index})
							v := e2.Term(emptyFacts, VRef{fr, st.Val}).Strip()
							r.Ob(R, v.Op == "index" && refKey(v.Args[1]) == refKey(ix), f, "conflict entry", p.posOf(in), "a conflicting output is not recorded at its own position")
							cond = cond || !dominatesLatch(l, b)
						}
					}
					if c, ok := in.(*ssa.Call); ok {
						if bb, ok := c.Call.Value.(*ssa.Builtin); ok && bb.Name() == "append" && isDups(c.Type()) {
							stores++
							cond = cond || !dominatesLatch(l, b)
						}
					}
				}
			}
			if stores > 0 {
				nD++
				r.Ob(R, stores == 1 && !cond && l.Full, f, "conflict lists every output", p.pos(f.Pos()), "an output in conflict can be left out of the report")
			}
		}
	}
	r.AtLeast(R, nD, 1, "loop listing the outputs in conflict")
}

// dominatesLatch: b runs in every iteration of the loop.
func dominatesLatch(l *Loop, b *ssa.BasicBlock) bool {
	for _, pr := range l.Header.Preds {
		if l.Body[pr] && pr != l.Header && !b.Dominates(pr) {
			return false
		}
	}
	return true
}

func isLeaf(p *Prog, t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != p.Module+"/"+mView {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	need := map[string]bool{"Collect": false, "NewAccumulator": false, "Descriptor": false}
	for i := 0; i < it.NumMethods(); i++ {
		if _, ok := need[it.Method(i).Name()]; ok {
			need[it.Method(i).Name()] = true
		}
	}
	for _, v := range need {
		if !v {
			return false
		}
	}
	return true
}

func isLeafOrErr(p *Prog, x *Term) bool { return x.Typ != nil && isLeaf(p, x.Typ) }

func isCmp(b *ssa.BinOp) bool { return b.Op.String() == "==" || b.Op.String() == "!=" }

func sliceOfStr(t types.Type) bool { return false }

func hasField(t *Term, f string) bool {
	return t.Strip().Op == "field" && t.Strip().Sub == f
}

func isCallNamed(t *Term, suffix string) bool {
	t = t.Strip()
	return (t.Op == "call" || t.Op == "pure") && strings.HasSuffix(t.Sub, suffix)
}

func isErrT(p *Prog, s string) bool { return s == "error" }

// outName: the Name of a descriptor.
func outName(t *Term, p *Prog) bool {
	t = t.Strip()
	return t.Op == "field" && t.Sub == "Name" && t.Args[0].Typ != nil && isNamedType(derefT(t.Args[0].Typ), p.repoName(mInst, "Descriptor"))
}

// wholeEqual: g compares every field of its two struct parameters.
func wholeEqual(p *Prog, g *ssa.Function) bool {
	st := structOf(g.Params[0].Type())
	if st == nil {
		return false
	}
	cmp := map[string]bool{}
	e := newEngine(p, Hooks{})
	fr := e.frame(nil, nil, g, nil, nil)
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && isCmp(bo) {
				x, y := e.Term(emptyFacts, VRef{fr, bo.X}), e.Term(emptyFacts, VRef{fr, bo.Y})
				rx, px := x.Strip().Path()
				ry, py := y.Strip().Path()
				if rx.Key() != ry.Key() && len(px) == 1 && len(py) == 1 && px[0] == py[0] {
					cmp[px[0]] = true
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if !cmp[st.Field(i).Name()] {
			return false
		}
	}
	return true
}
