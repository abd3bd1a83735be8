package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P18", checkP18) }

// checkP18: attribute sets identify series; the caller's attributes stay
// untouched.
func checkP18(p *Prog, r *Report) {
	eq := attrEquality(p)
	fps := attrFingerprints(p)
	ruleAttrEquality(p, r, eq)
	ruleAttrFingerprint(p, r, fps)
	ruleRecordIdentity(p, r, eq, fps)
	ruleCallerAttrs(p, r)
	ruleAttrLimits(p, r)
}

func isKVSlice(t types.Type) bool {
	return types.TypeString(t, nil) == "[]"+otelAttr+"KeyValue"
}

// attrEquality: the functions comparing two attribute lists.
func attrEquality(p *Prog) []*ssa.Function {
	return p.instancesOf(func(f *ssa.Function) bool {
		sig := f.Signature
		return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mSync && f.Parent() == nil && sig.Params().Len() == 2 && sig.Results().Len() == 1 && sig.Recv() == nil &&
			isKVSlice(tupT(sig.Params(), 0)) && isKVSlice(tupT(sig.Params(), 1)) && types.TypeString(tupT(sig.Results(), 0), nil) == "bool"
	})
}

// attrFingerprints: the functions from an attribute list to a hash.
func attrFingerprints(p *Prog) []*ssa.Function {
	return p.instancesOf(func(f *ssa.Function) bool {
		sig := f.Signature
		return pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mSync && f.Parent() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 && sig.Recv() == nil &&
			isKVSlice(tupT(sig.Params(), 0)) && types.TypeString(tupT(sig.Results(), 0), nil) == "uint64"
	})
}

// attrTypes: the attribute types by their number.
func attrTypes(p *Prog) map[int64]string {
	out := map[int64]string{}
	pk := p.SSA.ImportedPackage("go.opentelemetry.io/otel/attribute")
	if pk == nil {
		return out
	}
	for _, n := range pk.Pkg.Scope().Names() {
		c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || types.TypeString(c.Type(), nil) != otelAttr+"Type" {
			continue
		}
		if v, ok := constant.Int64Val(c.Val()); ok {
			out[v] = n
		}
	}
	return out
}

var attrAccessor = map[string]string{
	"BOOL": "AsBool", "INT64": "AsInt64", "FLOAT64": "AsFloat64", "STRING": "AsString",
	"BOOLSLICE": "AsBoolSlice", "INT64SLICE": "AsInt64Slice", "FLOAT64SLICE": "AsFloat64Slice", "STRINGSLICE": "AsStringSlice",
}

// sameCond: a decided comparison of two terms on a path.
func sameCond(o *Outcome, a, b string) (val, known bool) {
	for _, k := range []string{"==(" + a + "," + b + ")", "==(" + b + "," + a + ")"} {
		if val, known = o.Cond(k); known {
			return
		}
	}
	for _, c := range o.Conds {
		if c.A.Op == "call" && strings.HasPrefix(c.A.Sub, "slices.Equal") && len(c.A.Args) == 2 {
			x, y := c.A.Args[0].Key(), c.A.Args[1].Key()
			if x == a && y == b || x == b && y == a {
				return c.Val, true
			}
		}
	}
	return false, false
}

// attrTypeOn: the type of an attribute value on a path: those not excluded.
func attrTypeOn(o *Outcome, vals []string, ts map[int64]string) map[string]bool {
	left := map[string]bool{}
	for _, n := range ts {
		left[n] = true
	}
	for _, v := range vals {
		t := "call:" + otelAttr + "Value.Type(" + v + ")"
		for k, n := range ts {
			val, known := o.Cond("==(" + t + "," + itoa(int(k)) + ")")
			if !known {
				continue
			}
			if val {
				for m := range left {
					if m != n {
						delete(left, m)
					}
				}
			} else {
				delete(left, n)
			}
		}
	}
	return left
}

func ruleAttrEquality(p *Prog, r *Report, eq []*ssa.Function) {
	const R = "series-equality"
	r.Rule(R, "two attribute lists are equal exactly when they have the same length and at every position the same key and the same value, for every attribute type: a path that answers yes has compared all of it, and a path that answers no has found a difference")
	r.AtLeast(R, len(eq), 1, "comparisons of attribute lists")
	ts := attrTypes(p)
	if !r.Need(R, len(ts) >= 9, "attribute types", "not found in the attribute package") {
		return
	}
	for _, fn := range eq {
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 20000, Opaque: notStdSlices}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		yes := map[string]bool{}
		for _, o := range os {
			if o.Panic {
				continue
			}
			v := o.Ret[0]
			b, known := v.boolVal()
			if !known {
				// the comparison itself is the answer
				b = true
				o.Conds = append(o.Conds[:len(o.Conds):len(o.Conds)], xcond{A: v, Val: true, Pos: pos})
			}
			if !b {
				diff := false
				for _, c := range o.Conds {
					if c.Val || !strings.Contains(c.A.Key(), "$0") || !strings.Contains(c.A.Key(), "$1") {
						continue
					}
					diff = diff || c.A.Op == "==" || c.A.Op == "call" && strings.HasPrefix(c.A.Sub, "slices.Equal")
				}
				r.Ob(R, diff, fn, "answer no", pos, "on a path that found no difference", o.Trace()...)
				continue
			}
			if same, known := sameCond(o, "$0", "$1"); known && same {
				continue // compared whole, by the library
			}
			n, known := maxLen(o, "$0")
			m, known1 := maxLen(o, "$1")
			if !known && known1 {
				n, known = m, known1
			}
			if !r.Ob(R, known, fn, "answer yes", pos, "without visiting every attribute", o.Trace()...) {
				continue
			}
			lens, lk := sameCond(o, "builtin:len($0)", "builtin:len($1)")
			r.Ob(R, lk && lens || known1 && m == n && known, fn, "answer yes", pos, "without comparing the lengths", o.Trace()...)
			for i := 0; i < n; i++ {
				A, B := "init:$0["+itoa(i)+"]", "init:$1["+itoa(i)+"]"
				if s, k := sameCond(o, A, B); k && s {
					continue
				}
				s, k := sameCond(o, A+".Key", B+".Key")
				r.Ob(R, s && k, fn, "answer yes", pos, "without comparing the keys", o.Trace()...)
				if s, k := sameCond(o, A+".Value", B+".Value"); k && s {
					left := attrTypeOn(o, []string{A + ".Value", B + ".Value"}, ts)
					for t := range left {
						yes[t] = true
					}
					continue
				}
				T := "call:" + otelAttr + "Value.Type("
				ty, tk := sameCond(o, T+A+".Value)", T+B+".Value)")
				left := attrTypeOn(o, []string{A + ".Value", B + ".Value"}, ts)
				if len(left) == 0 {
					continue // no such attribute
				}
				ok := ty && tk && len(left) == 1
				what := ""
				for t := range left {
					what = t
					acc := "call:" + otelAttr + "Value." + attrAccessor[t] + "("
					x, y := acc+A+".Value)", acc+B+".Value)"
					switch {
					case t == "INVALID":
					case t == "FLOAT64":
						ok = false // by the bits only
					case strings.HasSuffix(t, "SLICE"):
						if s, k := sameCond(o, x, y); k && s {
							break
						}
						ls, lk := sameCond(o, "builtin:len("+x+")", "builtin:len("+y+")")
						m, mk := maxLen(o, x)
						if !mk {
							m, mk = maxLen(o, y)
						}
						ok = ok && ls && lk && mk
						for j := 0; j < m && mk; j++ {
							s, k := sameCond(o, "init:"+x+"["+itoa(j)+"]", "init:"+y+"["+itoa(j)+"]")
							ok = ok && s && k
						}
					default:
						s, k := sameCond(o, x, y)
						ok = ok && s && k
					}
					yes[t] = true
				}
				r.Ob(R, ok, fn, "answer yes", pos, "without comparing the values of type "+what, o.Trace()...)
			}
		}
		for _, t := range ts {
			r.Ob(R, yes[t] || len(yes) == 0, fn, "attributes of type "+t, pos, "are never equal")
		}
	}
}

// notStdSlices is no restriction: the analysis stays outside the standard
// library by itself.
func notStdSlices(f *ssa.Function) bool { return false }

func ruleAttrFingerprint(p *Prog, r *Report, fps []*ssa.Function) {
	const R = "fingerprint"
	r.Rule(R, "the fingerprint of an attribute list depends on nothing but the list (no clock, random source, address or per-process seed), and on the key and the value of every attribute, for every attribute type")
	r.AtLeast(R, len(fps), 1, "fingerprints of attribute lists")
	ts := attrTypes(p)
	for _, fn := range fps {
		pos := p.pos(fn.Pos())
		// what it calls
		reach := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if reach[f] || len(f.Blocks) == 0 || pkgOf(f) == nil || !strings.HasPrefix(pkgOf(f).Path(), p.Module) {
				return
			}
			reach[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					nm := fullName(c.Common().StaticCallee())
					bad := false
					for _, pre := range []string{"time.", "math/rand", "hash/maphash", "crypto/rand", "os.", "runtime."} {
						bad = bad || strings.HasPrefix(nm, pre)
					}
					r.Ob(R, !bad, f, "fingerprint", p.pos(in.Pos()), "depends on "+nm)
					walk(c.Common().StaticCallee())
				}
			}
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		walk(fn)
		e := &Effects{P: p, MaxPaths: 20000, MaxIter: 1, Opaque: func(f *ssa.Function) bool {
			sig := f.Signature // the hash of a string
			return sig.Recv() == nil && f.Parent() == nil && sig.Params().Len() == 1 && isBasicString(tupT(sig.Params(), 0))
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		seen := map[string]bool{}
		for _, o := range os {
			if o.Panic {
				continue
			}
			v := o.Ret[0]
			r.Ob(R, !v.Any(func(x *Ex) bool {
				return x.Op == "conv" && strings.Contains(x.Sub, "unsafe") || x.Op == "init" && strings.HasPrefix(x.Key(), "init:g:") && !constGlobal(p, x)
			}), fn, "fingerprint", pos, "depends on state: "+short(v.Key()), o.Trace()...)
			n, known := maxLen(o, "$0")
			if !r.Ob(R, known, fn, "fingerprint", pos, "does not visit every attribute", o.Trace()...) {
				continue
			}
			for i := 0; i < n; i++ {
				A := "init:$0[" + itoa(i) + "]"
				r.Ob(R, v.Has(A+".Key") || v.Has(A), fn, "fingerprint", pos, "does not depend on the key", o.Trace()...)
				left := attrTypeOn(o, []string{A + ".Value"}, ts)
				if len(left) == 0 {
					continue
				}
				for t := range left {
					acc := "call:" + otelAttr + "Value." + attrAccessor[t] + "(" + A + ".Value)"
					dep := t == "INVALID" || v.Has(acc) || v.Has(A) || v.Has("call:"+otelAttr+"Value.Emit("+A+".Value)") || v.Has("call:"+otelAttr+"Value.AsInterface("+A+".Value)")
					if t == "BOOL" && !dep {
						_, dep = o.Cond(acc)
					}
					if strings.HasSuffix(t, "SLICE") && !dep {
						m, mk := maxLen(o, acc)
						dep = mk
						for j := 0; j < m; j++ {
							el := "init:" + acc + "[" + itoa(j) + "]"
							_, dec := o.Cond(el)
							dep = dep && (v.Has(el) || t == "BOOLSLICE" && dec)
						}
					}
					r.Ob(R, dep, fn, "fingerprint of type "+t, pos, "does not depend on the value", o.Trace()...)
					seen[t] = true
				}
			}
		}
		for _, t := range ts {
			r.Ob(R, seen[t], fn, "attributes of type "+t, pos, "are not handled")
		}
	}
}

// constGlobal: a global written only where it is declared.
func constGlobal(p *Prog, x *Ex) bool {
	k := strings.TrimPrefix(x.Key(), "init:g:")
	for _, fn := range p.all {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && strings.HasSuffix(k, "."+g.Name()) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ruleRecordIdentity: the record a measurement is added to is that of its
// attributes.
func ruleRecordIdentity(p *Prog, r *Report, eq, fps []*ssa.Function) {
	const R = "record-identity"
	r.Rule(R, "the record found for a measurement is one whose attributes were compared equal with those of the measurement (or with those of the overflow series), unless collisions are ignored by configuration; a new record carries the attributes of the measurement")
	isEq, isFp := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range eq {
		isEq[f] = true
	}
	for _, f := range fps {
		isFp[f] = true
	}
	n := 0
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool { return isAcquire(p, f) && !generic(f) }) {
		kv := -1
		hash := -1
		for i, a := range fn.Params {
			if isKVSlice(a.Type()) {
				kv = i
			}
			if types.TypeString(a.Type(), nil) == "uint64" {
				hash = i
			}
		}
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 20000, MaxIter: 1, Opaque: func(f *ssa.Function) bool {
			return isEq[f] || isFp[f] || pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mSync && f.Signature.Recv() != nil && f.Signature.Results().Len() == 1 && types.TypeString(tupT(f.Signature.Results(), 0), nil) == "bool"
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, len(os) > 0, fn, "analysed", pos, "no path") {
			continue
		}
		r.Summ(fn, len(os))
		own := "$" + itoa(kv)
		// the attributes a list stands for
		class := func(x *Ex) string {
			switch {
			case x.Any(func(y *Ex) bool { return strings.Contains(y.Key(), "verflow") && strings.Contains(y.Key(), "g:") }):
				return "overflow"
			case x.Has(own):
				return "own"
			}
			return ""
		}
		for _, o := range os {
			if o.Panic || len(o.Ret) == 0 {
				continue
			}
			rec := o.Ret[0]
			if rec.isNil() || !strings.Contains(rec.Key(), "lookup(") {
				if alloc := strings.HasPrefix(rec.Key(), "&alloc:"); alloc {
					st := derefT(tupT(fn.Signature.Results(), 0)).Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if isKVSlice(st.Field(i).Type()) {
							l := exField(o.Read(rec, derefT(tupT(fn.Signature.Results(), 0))), st.Field(i).Name(), st.Field(i).Type())
							r.Ob(R, class(l) != "", fn, "new record", pos, "does not carry the measurement's attributes: "+short(l.Key()), o.Trace()...)
						}
					}
				}
				continue
			}
			ignore := false
			match := ""
			for _, c := range o.Conds {
				if strings.HasSuffix(c.A.Key(), ".IgnoreCollisions") && c.Val {
					ignore = true
				}
				if c.A.Op == "call" && c.Val && c.A.Fn != nil && isEq[c.A.Fn] {
					for i, a := range c.A.Args {
						b := c.A.Args[1-i]
						if strings.Contains(a.Key(), "*"+rec.Key()) && class(b) != "" && !strings.Contains(b.Key(), "*"+rec.Key()) {
							match = class(b)
						}
					}
				}
			}
			r.Ob(R, ignore || match != "", fn, "record found", pos, "without comparing its attributes with the measurement's: "+short(rec.Key()), o.Trace()...)
			if ignore {
				// found by fingerprint alone
				ok := rec.Any(func(x *Ex) bool {
					return x.Op == "call" && x.Fn != nil && isFp[x.Fn] && len(x.Args) == 1 && class(x.Args[0]) != ""
				}) || class(rec) == "overflow" || hash >= 0 && rec.Has("$"+itoa(hash))
				r.Ob(R, ok, fn, "record found", pos, "by another fingerprint than that of the attributes: "+short(rec.Key()), o.Trace()...)
			}
		}
	}
	r.AtLeast(R, n, 2, "functions acquiring a record")
}

// ruleCallerAttrs: taint of the attribute lists given by callers.
func ruleCallerAttrs(p *Prog, r *Report) {
	const R = "caller-attributes"
	r.Rule(R, "an attribute list given by a caller is never written through (no assignment to its elements, no sorting, no append to it, no copy into it), and is stored in memory that outlives the call only where collisions are ignored by configuration")
	type key struct {
		fn *ssa.Function
		i  int
	}
	var work []key
	seen := map[key]bool{}
	retTaint := map[*ssa.Function]bool{}
	fieldTaint := map[*types.Var]bool{}
	add := func(f *ssa.Function, i int) {
		k := key{f, i}
		if !seen[k] && len(f.Blocks) > 0 && i < len(f.Params) {
			seen[k] = true
			work = append(work, k)
		}
	}
	roots := 0
	inScope := func(f *ssa.Function) bool {
		pk := pkgOf(f)
		return pk != nil && strings.HasPrefix(pk.Path(), p.Module+"/"+mMetric) && !strings.Contains(pk.Path(), "/example")
	}
	for _, f := range p.all {
		if !inScope(f) || f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil {
			continue
		}
		for i, a := range f.Params {
			if isKVSlice(a.Type()) && !generic(f) {
				add(f, i)
				roots++
			}
		}
	}
	r.AtLeast(R, roots, 6, "entry points taking an attribute list")
	type ret struct {
		fn    *ssa.Function
		in    ssa.Instruction
		val   string
		edges []*ssa.BasicBlock
	}
	var stores []ret
	reported := map[string]bool{}
	ob := func(ok bool, fn *ssa.Function, what string, in ssa.Instruction, detail string) {
		k := fn.String() + what + p.pos(in.Pos()) + detail
		if ok || reported[k] {
			if !ok {
				return
			}
		}
		if !ok {
			reported[k] = true
		}
		r.Ob(R, ok, fn, what, p.pos(in.Pos()), detail)
	}
	tainted := map[ssa.Value]bool{}
	changed := true
	fns := map[*ssa.Function]bool{}
	mark := func(v ssa.Value) {
		if !tainted[v] {
			tainted[v] = true
			changed = true
		}
	}
	localCell := func(a ssa.Value) ssa.Value {
		// the variable or local struct an address belongs to
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
				continue
			case *ssa.Alloc:
				return x
			case *ssa.FreeVar:
				return x
			}
			return nil
		}
	}
	carries := func(t types.Type) bool {
		if isKVSlice(t) {
			return true
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isKVSlice(st.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	cellTaint := map[ssa.Value]bool{}
	for changed {
		changed = false
		for len(work) > 0 {
			k := work[len(work)-1]
			work = work[:len(work)-1]
			mark(k.fn.Params[k.i])
			fns[k.fn] = true
			for _, a := range k.fn.AnonFuncs {
				fns[a] = true
			}
		}
		for _, f := range p.all {
			if !inScope(f) || generic(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Slice:
						if tainted[x.X] {
							mark(x)
						}
					case *ssa.Phi:
						for _, v := range x.Edges {
							if tainted[v] {
								mark(x)
							}
						}
					case *ssa.ChangeType:
						if tainted[x.X] {
							mark(x)
						}
					case *ssa.Convert:
						if tainted[x.X] && carries(x.Type()) {
							mark(x)
						}
					case *ssa.MakeInterface:
						if tainted[x.X] {
							mark(x)
						}
					case *ssa.Extract:
						if tainted[x.Tuple] && carries(x.Type()) {
							mark(x)
						}
					case *ssa.Field:
						if tainted[x.X] && carries(x.Type()) {
							mark(x)
						}
					case *ssa.UnOp:
						if x.Op.String() == "*" && carries(x.Type()) {
							if c := localCell(x.X); c != nil && cellTaint[c] {
								mark(x)
							}
							if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldTaint[fieldOf(fa)] {
								mark(x)
							}
						}
					case *ssa.Store:
						if tainted[x.Val] {
							if c := localCell(x.Addr); c != nil && !cellTaint[c] {
								cellTaint[c] = true
								changed = true
							}
							if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isKVSlice(x.Val.Type()) && !fieldTaint[fieldOf(fa)] && fieldOf(fa).Pkg() != nil && strings.HasPrefix(fieldOf(fa).Pkg().Path(), p.Module) {
								fieldTaint[fieldOf(fa)] = true
								changed = true
							}
						}
					case *ssa.MakeClosure:
						g := x.Fn.(*ssa.Function)
						for i, bnd := range x.Bindings {
							if cellTaint[bnd] && !cellTaint[g.FreeVars[i]] {
								cellTaint[g.FreeVars[i]] = true
								changed = true
							}
							if cellTaint[g.FreeVars[i]] && !cellTaint[bnd] {
								if _, ok := bnd.(*ssa.Alloc); ok {
									cellTaint[bnd] = true
									changed = true
								}
							}
							if tainted[bnd] {
								mark(g.FreeVars[i])
							}
						}
					case *ssa.Return:
						for _, v := range x.Results {
							if tainted[v] && !retTaint[f] {
								retTaint[f] = true
								changed = true
							}
						}
					case ssa.CallInstruction:
						c := x.Common()
						var res ssa.Value
						if v, ok := x.(ssa.Value); ok {
							res = v
						}
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							if bi.Name() == "append" && tainted[c.Args[0]] && res != nil {
								mark(res)
							}
							continue
						}
						if c.IsInvoke() {
							for _, a := range c.Args {
								// a processor may return the list it was given
								if tainted[a] && res != nil && carries(res.Type()) {
									mark(res)
								}
							}
							continue
						}
						g := c.StaticCallee()
						if g == nil {
							continue
						}
						if len(g.Blocks) > 0 && inScope(g) {
							for i, a := range c.Args {
								if tainted[a] {
									add(g, i)
									changed = changed || len(work) > 0
								}
							}
							if retTaint[g] && res != nil {
								any := false
								for _, a := range c.Args {
									any = any || tainted[a]
								}
								if any || g.Parent() != nil {
									mark(res)
								}
							}
						}
					}
				}
			}
		}
	}
	// the sinks
	uses := 0
	for _, f := range p.all {
		if !inScope(f) || generic(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if !tainted[x.X] {
						continue
					}
					uses++
					var addrs = []ssa.Value{x}
					for len(addrs) > 0 {
						a := addrs[0]
						addrs = addrs[1:]
						for _, u := range *a.Referrers() {
							switch y := u.(type) {
							case *ssa.FieldAddr:
								addrs = append(addrs, y)
							case *ssa.Store:
								ob(y.Addr != a || freshBefore(y, x.X), f, "element of the caller's attributes", y, "is written")
							}
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && tainted[x.Val] && isKVSlice(x.Val.Type()) && localParam(fa.X) {
						stores = append(stores, ret{f, x, fieldOf(fa).Name(), taintedEdges(x.Val, tainted)})
					}
					if _, ok := x.Addr.(*ssa.Global); ok && tainted[x.Val] {
						ob(false, f, "caller's attributes", x, "are kept in a global variable")
					}
				case *ssa.MapUpdate:
					if tainted[x.Value] && isKVSlice(x.Value.Type()) {
						ob(false, f, "caller's attributes", x, "are kept in a map")
					}
				case *ssa.Send:
					if tainted[x.X] {
						ob(false, f, "caller's attributes", x, "are sent on a channel")
					}
				case *ssa.Go:
					for _, a := range x.Call.Args {
						if tainted[a] {
							ob(false, f, "caller's attributes", x, "are given to another goroutine")
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if len(c.Args) > 0 && tainted[c.Args[0]] && (bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "clear") {
							full := false
							if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.Max != nil && bi.Name() == "append" {
								full = sl.Max == sl.High // s[:n:n]: the append copies
							}
							ob(full, f, "caller's attributes", x, "may be written by "+bi.Name())
						}
						continue
					}
					if c.IsInvoke() {
						continue
					}
					g := c.StaticCallee()
					if g == nil || inScope(g) && len(g.Blocks) > 0 {
						continue
					}
					for _, a := range c.Args {
						if !tainted[a] {
							continue
						}
						nm := fullName(g)
						pure := strings.HasPrefix(nm, "slices.") && !strings.HasPrefix(nm, "slices.Sort") && !strings.HasPrefix(nm, "slices.Reverse") && !strings.HasPrefix(nm, "slices.Delete") && !strings.HasPrefix(nm, "slices.Insert") && !strings.HasPrefix(nm, "slices.Replace") && !strings.HasPrefix(nm, "slices.Compact") && !strings.HasPrefix(nm, "slices.Grow") ||
							nm == "fmt.Errorf" || strings.HasPrefix(nm, "fmt.Sprint") ||
							nm == "go.opentelemetry.io/otel/metric.WithAttributes" // copies
						ob(pure, f, "caller's attributes", x, "are given to "+nm+", which may reorder them")
					}
				}
			}
		}
	}
	r.AtLeast(R, uses, 3, "uses of elements of a caller's list")
	// retention only where collisions are ignored
	r.AtLeast(R, len(stores), 0, "places keeping the caller's list")
	for _, s := range stores {
		ob(guardedStore(p, s.fn, s.in, s.edges), s.fn, "caller's attributes", s.in, "are kept in "+s.val+" although collisions are checked")
	}
}

// localParam: the struct is not a local variable of the function.
func localParam(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Alloc:
			return x.Heap
		}
		return true
	}
}

// freshBefore is a refinement point: a write through a list which is the
// caller's on some other path only.
func freshBefore(st *ssa.Store, list ssa.Value) bool { return false }

// taintedEdges: for a value chosen between several, those that are the caller's.
func taintedEdges(v ssa.Value, tainted map[ssa.Value]bool) []*ssa.BasicBlock {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return nil
	}
	var out []*ssa.BasicBlock
	for i, e := range ph.Edges {
		if tainted[e] {
			out = append(out, ph.Block().Preds[i], ph.Block())
		}
	}
	return out
}

// guardedStore: the caller's list is stored only where collisions are ignored.
func guardedStore(p *Prog, fn *ssa.Function, in ssa.Instruction, edges []*ssa.BasicBlock) bool {
	if guardedByIgnore(p, fn, in, 0) {
		return true
	}
	for i := 0; i+1 < len(edges); i += 2 {
		from, to := edges[i], edges[i+1]
		if !guardedEdge(from, to) && !guardedByIgnore(p, fn, from.Instrs[len(from.Instrs)-1], 0) {
			return false
		}
	}
	return len(edges) > 0
}

// guardedEdge: the branch from one block to another is taken when collisions
// are ignored.
func guardedEdge(from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, want := iff.Cond, true
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op.String() != "!" {
			break
		}
		cond, want = u.X, !want
	}
	k := 0
	if !want {
		k = 1
	}
	return readsField(cond, "IgnoreCollisions") && from.Succs[k] == to && from.Succs[1-k] != to
}

// guardedByIgnore: every path to the instruction has found that collisions
// are ignored.
func guardedByIgnore(p *Prog, fn *ssa.Function, in ssa.Instruction, depth int) bool {
	if depth > 3 {
		return false
	}
	// a dominating branch on the option
	b := in.Block()
	for d := b; d != nil; d = d.Idom() {
		i := d.Idom()
		if i == nil {
			break
		}
		if guardedEdge(i, d) && len(d.Preds) == 1 {
			return true
		}
	}
	callers := 0
	for _, f := range p.all {
		if generic(f) {
			continue
		}
		for _, bb := range f.Blocks {
			for _, x := range bb.Instrs {
				c, ok := x.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != fn {
					continue
				}
				callers++
				if !guardedByIgnore(p, f, x, depth+1) {
					return false
				}
			}
		}
	}
	return callers > 0
}

func readsField(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa).Name() == name
		}
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == name
	}
	return false
}

// ruleAttrLimits: the attribute size limit.
func ruleAttrLimits(p *Prog, r *Report) {
	const R = "attribute-limits"
	r.Rule(R, "the attribute size limit shortens exactly the keys, strings and elements of string lists longer than the limit, each to a prefix within the limit that does not end inside a UTF-8 sequence, in a copy of the list, and leaves everything else")
	n := 0
	ts := attrTypes(p)
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool {
		sig := f.Signature
		return f.Name() == "TruncateAttributes" && f.Synthetic == "" && sig.Recv() != nil && sig.Params().Len() == 1 && isKVSlice(tupT(sig.Params(), 0))
	}) {
		n++
		pos := p.pos(fn.Pos())
		// one attribute with at most one string; then two attributes, and
		// lists of two strings, all cut at the start of a character
		var os []*Outcome
		over := false
		for _, c := range [][3]int{{1, 1, 0}, {2, 1, 1}, {1, 2, 1}} {
			c := c
			e := &Effects{P: p, MaxPaths: 40000, MaxVisits: 8, Assume: func(x *Ex) (bool, bool) {
				k := x.Key()
				max := c[1]
				if strings.HasSuffix(k, "builtin:len($1))") {
					max = c[0]
				}
				if strings.HasPrefix(k, "<("+itoa(max)+",builtin:len(") {
					return false, true
				}
				if x.Op == "<" && x.Args[1].Key() == "0" && strings.Contains(x.Args[0].Key(), "AttributeSizeLimit") {
					return false, true // the limit is unsigned
				}
				if c[2] == 1 && x.Op == "call" && strings.HasPrefix(x.Sub, "unicode/utf8.RuneStart") {
					return true, true
				}
				return false, false
			}}
			os = append(os, e.Run(fn, nil)...)
			over = over || e.Over
		}
		if !r.Ob(R, !over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		cut := 0
		for _, o := range os {
			if o.Panic {
				r.Ob(R, false, fn, "limit", pos, "panics", o.Trace()...)
				continue
			}
			list := o.Ret[0]
			// stores into attribute lists
			stored := map[string]*Ex{}
			var at map[string]string = map[string]string{}
			for _, ev := range o.Ev {
				if ev.Kind != "store" {
					continue
				}
				k := ev.Args[0].Key()
				r.Ob(R, !strings.HasPrefix(k, "&$1[") && !strings.HasPrefix(k, "&*$1["), fn, "caller's attributes", ev.Pos, "are written", o.Trace()...)
				if strings.HasPrefix(k, "&"+list.Key()+"[") {
					suffix := strings.TrimPrefix(k, "&"+list.Key())
					stored[suffix] = ev.Args[1]
					at[suffix] = ev.Pos
				}
			}
			own := list.Key() == "$1"
			r.Ob(R, own || list.Has("$1"), fn, "result", pos, "is not the attributes given", o.Trace()...)
			r.Ob(R, !own || len(stored) == 0, fn, "caller's attributes", pos, "are written", o.Trace()...)
			cnt, known := maxLen(o, "$1")
			off := false
			for _, c := range o.Conds {
				if c.A.Op == "==" && c.Val && c.A.Has("0") && strings.Contains(c.A.Key(), "AttributeSizeLimit") && !strings.Contains(c.A.Key(), "len(") && c.A.Args[1].Key() == "0" {
					off = true
				}
			}
			if off {
				r.Ob(R, len(stored) == 0, fn, "no limit", pos, "shortens", o.Trace()...)
				continue
			}
			if !r.Ob(R, known, fn, "limit", pos, "does not visit every attribute", o.Trace()...) {
				continue
			}
			for i := 0; i < cnt; i++ {
				A := "init:$1[" + itoa(i) + "]"
				check := func(what, x string, v *Ex, pos string) {
					long, dec := longerThanLimit(o, x)
					if !r.Ob(R, dec, fn, what, pos, "is not compared with the limit", o.Trace()...) {
						return
					}
					if !long {
						r.Ob(R, v == nil || v.Key() == x, fn, what, pos, "is changed although within the limit", o.Trace()...)
						return
					}
					cut++
					if !r.Ob(R, v != nil, fn, what, pos, "is not shortened", o.Trace()...) {
						return
					}
					r.Ob(R, withinLimit(v, x), fn, what, pos, "is not a prefix within the limit: "+short(v.Key()), o.Trace()...)
					r.Ob(R, onBoundary(o, v, x), fn, what, pos, "is cut inside a character: "+short(v.Key()), o.Trace()...)
				}
				sfx := "[" + itoa(i) + "]"
				if whole := stored[sfx]; whole != nil {
					// the element is assigned whole
					if _, has := stored[sfx+".Key"]; !has {
						if k := selectPath(whole, ".Key", nil); k != nil && k.Key() != A+".Key" {
							stored[sfx+".Key"] = k
						}
					}
					if _, has := stored[sfx+".Value"]; !has {
						if k := selectPath(whole, ".Value", nil); k != nil && k.Key() != A+".Value" {
							stored[sfx+".Value"] = k
						}
					}
				}
				kpos, vpos := pos, pos
				if at[sfx+".Key"] != "" {
					kpos = at[sfx+".Key"]
				}
				if at[sfx+".Value"] != "" {
					vpos = at[sfx+".Value"]
				}
				check("key", A+".Key", stored[sfx+".Key"], kpos)
				left := attrTypeOn(o, []string{A + ".Value"}, ts)
				V := stored[sfx+".Value"]
				if len(left) == 0 {
					continue
				}
				if left["STRING"] {
					if !r.Ob(R, len(left) == 1, fn, "string value", vpos, "is not told from other types", o.Trace()...) {
						continue
					}
					x := "call:" + otelAttr + "Value.AsString(" + A + ".Value)"
					var v *Ex
					if V != nil {
						if r.Ob(R, V.Op == "call" && strings.HasPrefix(V.Sub, otelAttr+"StringValue"), fn, "string value", vpos, "becomes "+short(V.Key()), o.Trace()...) {
							v = V.Args[0]
						}
					}
					check("string value", x, v, vpos)
					continue
				}
				if left["STRINGSLICE"] {
					if !r.Ob(R, len(left) == 1, fn, "string list", vpos, "is not told from other types", o.Trace()...) {
						continue
					}
					x := "call:" + otelAttr + "Value.AsStringSlice(" + A + ".Value)"
					m, mk := maxLen(o, x)
					if !r.Ob(R, mk, fn, "string list", vpos, "is not visited", o.Trace()...) {
						continue
					}
					long := false
					for j := 0; j < m; j++ {
						var v *Ex
						vp := vpos
						for _, ev := range o.Ev {
							if ev.Kind == "store" && (ev.Args[0].Key() == "&"+x+"["+itoa(j)+"]" || strings.HasSuffix(ev.Args[0].Key(), "["+itoa(j)+"]") && strings.Contains(ev.Args[0].Key(), x)) {
								v, vp = ev.Args[1], ev.Pos
							}
						}
						l, _ := longerThanLimit(o, "init:"+x+"["+itoa(j)+"]")
						long = long || l
						check("string list element", "init:"+x+"["+itoa(j)+"]", v, vp)
					}
					r.Ob(R, long == (V != nil), fn, "string list", vpos, "is not replaced exactly when an element is shortened", o.Trace()...)
					if V != nil {
						r.Ob(R, V.Op == "call" && strings.HasPrefix(V.Sub, otelAttr+"StringSliceValue") && V.Args[0].Has(x), fn, "string list", vpos, "becomes "+short(V.Key()), o.Trace()...)
					}
					continue
				}
				r.Ob(R, V == nil, fn, "other value", vpos, "is changed", o.Trace()...)
			}
		}
		r.Need(R, cut > 0, "limit", "nothing is ever shortened")
	}
	r.AtLeast(R, n, 1, "attribute limits")
}

// longerThanLimit: whether a string was found longer than the limit.
func longerThanLimit(o *Outcome, x string) (long, known bool) {
	l := "builtin:len(" + x + ")"
	for _, c := range o.Conds {
		if c.A.Op != "<" || len(c.A.Args) != 2 {
			continue
		}
		a, b := c.A.Args[0], c.A.Args[1]
		lim := func(e *Ex) bool {
			return strings.Contains(e.Key(), "AttributeSizeLimit") && !strings.Contains(e.Key(), "len(")
		}
		if lim(a) && (b.Key() == l || b.Has(l)) {
			return c.Val, true // limit < len
		}
		if (a.Key() == l || a.Has(l)) && lim(b) && !c.Val {
			return true, true // len >= limit: shortening keeps it at the limit
		}
	}
	return false, false
}

// limitOff: n is the limit less a constant.
func limitOff(n *Ex) (off int64, ok bool) {
	switch n.Op {
	case "-", "+":
		if len(n.Args) == 2 {
			c, isC := n.Args[1].int()
			o, k := limitOff(n.Args[0])
			if isC && k {
				if n.Op == "+" {
					c = -c
				}
				return o + c, true
			}
		}
		return 0, false
	case "conv":
		return limitOff(n.Args[0])
	}
	return 0, strings.Contains(n.Key(), "AttributeSizeLimit") && !strings.Contains(n.Key(), "len(") && !strings.Contains(n.Key(), "+(") && !strings.Contains(n.Key(), "-(")
}

// cutOf: the prefix of x a term is.
func cutOf(v *Ex, x string) *Ex {
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op == "slice" && v.Args[0].bare().Key() == x && (v.Args[1] == nil || v.Args[1].Key() == "0" || v.Args[1].Key() == "_") && v.Args[2] != nil {
		return v.Args[2]
	}
	return nil
}

func withinLimit(v *Ex, x string) bool {
	if v.Op == "call" && strings.HasPrefix(v.Sub, "strings.ToValidUTF8") {
		return withinLimit(v.Args[0], x)
	}
	if s, ok := v.str(); ok && s == "" {
		return true
	}
	n := cutOf(v, x)
	if n == nil {
		return false
	}
	if n.Key() == "0" {
		return true
	}
	off, ok := limitOff(n)
	return ok && off >= 0
}

// onBoundary: the cut is at the start of a character, or the text has none
// within the length of a character.
func onBoundary(o *Outcome, v *Ex, x string) bool {
	if v.Op == "call" && strings.HasPrefix(v.Sub, "strings.ToValidUTF8") && v.Args[1].Key() == `""` {
		return true
	}
	n := cutOf(v, x)
	if n == nil {
		return v.Op == "const"
	}
	if n.Key() == "0" {
		return true
	}
	if v, known := o.Cond("<(0," + n.Key() + ")"); known && !v {
		return true // nothing is left
	}
	starts := map[int64]bool{}
	off, _ := limitOff(n)
	tried := 0
	for _, c := range o.Conds {
		if c.A.Op != "call" || !strings.HasPrefix(c.A.Sub, "unicode/utf8.RuneStart") && !strings.HasPrefix(c.A.Sub, "unicode/utf8.ValidString") {
			continue
		}
		a := c.A.Args[0]
		if strings.HasPrefix(c.A.Sub, "unicode/utf8.ValidString") {
			if c.Val && a.Key() == v.Key() {
				return true
			}
			continue
		}
		if a.Op != "index" || a.Args[0].bare().Key() != x {
			continue
		}
		if k, ok := limitOff(a.Args[1]); ok {
			starts[k] = c.Val
			tried++
		}
	}
	if starts[off] {
		return true
	}
	// none of the bytes within a character's length starts one, or the
	// text itself was exhausted
	if tried >= 4 {
		return true
	}
	for _, c := range o.Conds {
		if k := c.A; k.Op == "<" && len(k.Args) == 2 && tried > 0 && strings.Contains(k.Args[0].Key(), "AttributeSizeLimit") && k.Args[1].Key() == itoa(tried) && c.Val {
			return true // limit < tried
		}
	}
	return false
}

func isBasicString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}
