package main

// Conversion of attributes and resources: shared by P12, P13 and P23.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const otelAttr = "go.opentelemetry.io/otel/attribute."

// attrModel: reading an attribute set, by whichever interface.
func attrModel(p *Prog, next func(*XC) bool) func(*XC) bool {
	kvT := func() types.Type {
		if pk := p.SSA.ImportedPackage("go.opentelemetry.io/otel/attribute"); pk != nil {
			return pk.Pkg.Scope().Lookup("KeyValue").Type()
		}
		return nil
	}
	list := func(set *Ex) *Ex { return &Ex{Op: "attrs", Args: []*Ex{set}, Typ: types.NewSlice(kvT())} }
	size := func(set *Ex) *Ex {
		return &Ex{Op: "builtin", Sub: "len", Args: []*Ex{list(set)}, Typ: types.Typ[types.Int]}
	}
	return func(x *XC) bool {
		if strings.HasSuffix(x.Name, "otel/sdk/resource.Resource.Set") && len(x.Args) == 1 {
			x.Quiet = true
			x.Res = []*Ex{{Op: "sp", Sub: "Set", Args: x.Args, Typ: tupT(x.In.Common().Signature().Results(), 0)}}
			return true
		}
		if !strings.HasPrefix(x.Name, otelAttr) || len(x.Args) == 0 || x.Fn == nil || kvT() == nil {
			return next(x)
		}
		set := func() *Ex {
			if isPtrT(x.Fn.Signature.Recv().Type()) {
				return x.Read(x.Args[0], derefT(x.Fn.Signature.Recv().Type()))
			}
			return x.Args[0]
		}
		elem := func(s, i *Ex) *Ex { return x.Read(exPtr(list(s), "["+i.Key()+"]", types.NewPointer(kvT())), kvT()) }
		iter := func() (*Ex, *Ex, bool) {
			it := x.Read(x.Args[0], derefT(x.Fn.Signature.Recv().Type()))
			if it == nil || it.Op != "aiter" {
				return nil, nil, false
			}
			return it.Args[0], it.Args[1], true
		}
		switch strings.TrimPrefix(x.Name, otelAttr) {
		case "Set.Iter":
			x.Res = []*Ex{{Op: "aiter", Args: []*Ex{set(), exInt(-1)}, Typ: tupT(x.Fn.Signature.Results(), 0)}}
		case "Iterator.Next":
			s, i, ok := iter()
			if !ok {
				return next(x)
			}
			n, _ := i.int()
			x.Write(x.Args[0], &Ex{Op: "aiter", Args: []*Ex{s, exInt(n + 1)}, Typ: derefT(x.Fn.Signature.Recv().Type())})
			x.Res = []*Ex{exLess(exInt(n+1), size(s))}
		case "Iterator.Attribute", "Iterator.Label":
			s, i, ok := iter()
			if !ok {
				return next(x)
			}
			x.Res = []*Ex{elem(s, i)}
		case "Iterator.IndexedAttribute":
			s, i, ok := iter()
			if !ok {
				return next(x)
			}
			x.Res = []*Ex{i, elem(s, i)}
		case "Iterator.Len":
			s, _, ok := iter()
			if !ok {
				return next(x)
			}
			x.Res = []*Ex{size(s)}
		case "Iterator.ToSlice":
			s, _, ok := iter()
			if !ok {
				return next(x)
			}
			x.Res = []*Ex{list(s)}
		case "Set.Len":
			x.Res = []*Ex{size(set())}
		case "Set.ToSlice":
			x.Res = []*Ex{list(set())}
		case "Set.Get":
			if _, ok := x.Args[1].int(); !ok {
				return next(x)
			}
			x.Res = []*Ex{elem(set(), x.Args[1]), exBool(true)}
		case "Set.Equals":
			o := x.Args[1]
			if isPtr(o) {
				o = x.Read(o, derefT(o.Typ))
			}
			x.Res = []*Ex{{Op: "==", Args: []*Ex{set(), o}, Typ: types.Typ[types.Bool]}}
		default:
			return next(x)
		}
		x.Quiet = true
		return true
	}
}

// ruleAttrConversion: every attribute of a set is put once, under its key and
// with its value, for every type of value.
func ruleAttrConversion(p *Prog, r *Report) {
	const R = "attribute-conversion"
	r.Rule(R, "effect summary of every function that writes an attribute set to an exported map: on every path each attribute is put once, under its own key, as the kind and with the value (every element, in order) of its type; none panics")
	types8 := []struct{ name, put, as, elem string }{
		{"BOOL", "Bool", "AsBool", ""}, {"INT64", "Int", "AsInt64", ""}, {"FLOAT64", "Double", "AsFloat64", ""}, {"STRING", "Str", "AsString", ""},
		{"BOOLSLICE", "EmptySlice", "AsBoolSlice", "SetBool"}, {"INT64SLICE", "EmptySlice", "AsInt64Slice", "SetInt"}, {"FLOAT64SLICE", "EmptySlice", "AsFloat64Slice", "SetDouble"}, {"STRINGSLICE", "EmptySlice", "AsStringSlice", "SetStr"},
	}
	tc := map[int64]int{}
	for i, t := range types8 {
		tc[extConst(p, "go.opentelemetry.io/otel/attribute", t.name)] = i
	}
	found := 0
	for _, fn := range p.all {
		if !isAttrCopy(p, fn) || len(fn.Blocks) == 0 {
			continue
		}
		found++
		pos := p.pos(fn.Pos())
		seen := map[int]int{}
		most := 0
		run := func(one bool) {
			e := &Effects{P: p, Model: attrModel(p, pdataModel), MaxVisits: 4, MaxIter: 4, MaxPaths: 40000, Assume: func(x *Ex) (bool, bool) {
				k := normPath(x)
				if one {
					return false, k == "<(1,builtin:len(attrs($1)))"
				}
				if x.Op == "==" && strings.Contains(x.Args[0].Key(), "Value.Type(") {
					if c, ok := x.Args[1].int(); ok && c > 3 {
						return false, true
					}
				}
				return false, k == "<(3,builtin:len(attrs($1)))"
			}}
			os := e.Run(fn, nil)
			r.Ob(R, !e.Over && len(os) > 0, fn, "conversion analysed", pos, "too many paths")
			r.Summ(fn, len(os))
			for _, o := range os {
				c := &payload{p: p, r: r, rule: R, fn: fn, o: o, l: lensOf(o.Conds), pos: pos, ok: true}
				bad := false
				for k, n := range c.l.ge {
					bad = bad || c.l.lt[k] > n
				}
				if bad {
					continue // not feasible
				}
				if !c.req(!o.Panic, "conversion", "can panic") {
					continue
				}
				n := c.elems("attrs($1)")
				if n < 0 {
					continue
				}
				if n > most {
					most = n
				}
				t := pdTreeOf(o.Ev)
				m := t.node(exParam(0, tupT(fn.Signature.Params(), 0)))
				c.only(m)
				c.req(len(t.calls) == 0 || len(m.put) > 0 || n == 0, "conversion", "is left to another function")
				for i := 0; i < n; i++ {
					A := "attrs($1)[" + itoa(i) + "]"
					var puts []pdPut
					for _, u := range m.put {
						if normPath(u.key) == A+".Key" {
							puts = append(puts, u)
						}
					}
					if !c.req(len(puts) == 1, "attribute", itoa(i)+" is put "+itoa(len(puts))+" times") {
						continue
					}
					u, ty := puts[0], -1
					for _, cd := range o.Conds {
						if cd.Val && cd.A.Op == "==" && len(cd.A.Args) == 2 && strings.HasSuffix(normPath(cd.A.Args[0]), "Value.Type("+A+".Value)") {
							if k, ok := cd.A.Args[1].int(); ok {
								if j, ok := tc[k]; ok {
									ty = j
								}
							}
						}
					}
					if ty < 0 {
						c.req(u.val == nil && u.kind == "Empty", "attribute of no type", "is put as "+u.kind)
						continue
					}
					w := types8[ty]
					seen[ty]++
					val := "call:" + otelAttr + "Value." + w.as + "(" + A + ".Value)"
					if !c.req(u.kind == w.put, "type "+w.name, "is put as "+u.kind) {
						continue
					}
					if u.val != nil {
						c.req(normPath(u.val) == val, "type "+w.name, "is put with the value "+normPath(u.val))
						continue
					}
					if ln := c.elems(val); ln >= 0 && c.req(len(u.node.kids) == ln, "type "+w.name, "has "+itoa(len(u.node.kids))+" elements for "+itoa(ln)) {
						for j, k := range u.node.kids {
							c.val(k, w.elem, val+"["+itoa(j)+"]")
							c.only(k, w.elem)
						}
					}
				}
				c.req(len(m.put) == n, "attributes", itoa(len(m.put))+" entries for "+itoa(n))
				if c.ok {
					r.Ob(R, true, fn, "conversion", pos, "")
				}
			}
		}
		run(true)
		run(false)
		r.Ob(R, len(seen) == 8, fn, "value types", pos, "only "+itoa(len(seen))+" of 8 types are converted")
		r.Ob(R, most >= 3, fn, "several attributes", pos, "no path with three was analysed")
	}
	r.AtLeast(R, found, 1, "attribute conversions")
}

// ruleResourceMap: the conversion of a resource, and its cache.
func ruleResourceMap(p *Prog, r *Report) {
	const R = "resource-conversion"
	r.Rule(R, "effect summary of every function that returns the exported form of a resource: the result holds the attributes of the argument, being converted on this path or kept from a conversion of equal attributes; what is kept is replaced together with what it was converted from, under a lock")
	found := 0
	for _, fn := range p.all {
		if !isResGet(p, fn) || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		found++
		pos := p.pos(fn.Pos())
		recv := fn.Signature.Recv()
		arg := 0
		if recv != nil {
			arg = 1
		}
		A := "$" + itoa(arg)
		set := "sp:Set(" + A + ")"
		e := &Effects{P: p, Model: attrModel(p, pdataModel), MaxPaths: 5000, Opaque: func(f *ssa.Function) bool { return isAttrCopy(p, f) }}
		os := e.Run(fn, nil)
		r.Ob(R, !e.Over && len(os) > 0, fn, "conversion analysed", pos, "too many paths")
		r.Summ(fn, len(os))
		fresh := func(t *pdTree, v *Ex) bool {
			if v == nil || !strings.HasPrefix(v.Key(), "call:"+pdataPkg+"pcommon.NewResource") {
				return false
			}
			n, k, ok := t.node(v), 0, true
			for _, ev := range t.calls {
				if ev.Fn != nil && isAttrCopy(p, ev.Fn) && t.node(ev.Args[0]) == n.at("Attributes") {
					k++
					ok = ok && normPath(ev.Args[1]) == set
				}
			}
			return ok && k == 1 && n.bad == "" && len(n.set) == 0
		}
		pairs := map[string]string{}
		for _, o := range os {
			c := &payload{p: p, r: r, rule: R, fn: fn, o: o, pos: pos, ok: true}
			if !c.req(!o.Panic && len(o.Ret) == 1, "conversion", "can panic") {
				continue
			}
			t := pdTreeOf(o.Ev)
			if v := o.Ret[0]; !fresh(t, v) {
				f := normPath(v)
				if !c.req(strings.HasPrefix(f, "$0.") && v.Op == "init", "resource", "is "+f+", not a conversion of the argument's attributes") {
					continue
				}
				key := ""
				for _, cd := range o.Conds {
					if cd.Val && cd.A.Op == "==" && len(cd.A.Args) == 2 {
						a, b := normPath(cd.A.Args[0]), normPath(cd.A.Args[1])
						if b != set && b != A {
							a, b = b, a
						}
						if (b == set || b == A) && strings.HasPrefix(a, "$0.") {
							key = a
						}
					}
				}
				if c.req(key != "", "kept resource", "is returned for other attributes") {
					pairs[f] = key
				}
			}
			if c.ok {
				r.Ob(R, true, fn, "resource", pos, "")
			}
		}
		st := structOf(derefT2(tupT(fn.Signature.Params(), 0)))
		if recv != nil {
			st = structOf(derefT2(recv.Type()))
		}
		for f, g := range pairs {
			ft, gt := fieldVar(st, f[3:]), fieldVar(st, g[3:])
			if !r.Ob(R, ft != nil && gt != nil, fn, "kept resource", pos, "is not found") {
				continue
			}
			for _, o := range os {
				c := &payload{p: p, r: r, rule: R, fn: fn, o: o, pos: pos, ok: true}
				base := exParam(0, recv.Type())
				fv, gv := o.Read(fieldPtr(base, ft), ft.Type()), o.Read(fieldPtr(base, gt), gt.Type())
				fk, gk := normPath(fv), normPath(gv)
				t := pdTreeOf(o.Ev)
				switch {
				case gv.isNil():
				case fk == f && gk == g:
				case fresh(t, fv) && (gk == set || gk == A):
				default:
					c.req(false, "kept resource", "is "+fk+" for "+gk)
				}
				held, used := false, false
				for _, ev := range o.Ev {
					if strings.HasSuffix(ev.Name, "Mutex.Lock") {
						held = true
					}
					if strings.HasSuffix(ev.Name, "Mutex.Unlock") {
						held = false
					}
					if ev.Kind == "store" && strings.HasPrefix(normPath(ev.Args[0]), "$0.") {
						used = true
						c.req(held, "kept resource", "is replaced without the lock")
					}
				}
				c.req(!held, "kept resource", "leaves the lock held")
				_ = used
				if c.ok {
					r.Ob(R, true, fn, "kept resource", pos, "")
				}
			}
		}
	}
	r.AtLeast(R, found, 1, "resource conversions")
}

func fieldVar(st *types.Struct, name string) *types.Var {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}
