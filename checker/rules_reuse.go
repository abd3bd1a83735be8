package main

// P25: reused collection memory.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P25", func(p *Prog, r *Report) {
		ruleSlots(p, r)
		ruleAggregators(p, r)
	})
}

// isRealloc: the function that hands out the next element of a list.
func isRealloc(p *Prog, f *ssa.Function) bool {
	if f == nil || pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mData || f.Signature.Recv() != nil {
		return false
	}
	s := f.Signature
	if s.Params().Len() != 1 || s.Results().Len() != 1 || !isPtrT(tupT(s.Results(), 0)) || !isPtrT(tupT(s.Params(), 0)) {
		return false
	}
	l, ok := derefT(tupT(s.Params(), 0)).Underlying().(*types.Slice)
	return ok && types.Identical(l.Elem(), derefT(tupT(s.Results(), 0)))
}

// reuseModel hands out a symbolic slot for every list element requested.
func reuseModel(p *Prog) func(*XC) bool {
	return func(x *XC) bool {
		if isRealloc(p, x.Fn) {
			x.Res = []*Ex{{Op: "slot", Sub: x.E.fresh(x.P), Typ: tupT(x.Fn.Signature.Results(), 0)}}
			return true
		}
		if x.Fn != nil && x.Fn.Signature.Results().Len() == 2 && x.Fn.Signature.Recv() != nil && isNamedType(tupT(x.Fn.Signature.Params(), 0), p.repoName(mAggn, "Aggregation")) && x.Fn.Signature.Params().Len() == 1 {
			t0 := tupT(x.Fn.Signature.Results(), 0)
			x.Alts = []XAlt{{Res: []*Ex{exNil(t0), exBool(false)}}, {Res: []*Ex{{Op: "stored", Args: []*Ex{x.Args[len(x.Args)-1]}, Typ: t0}, exBool(true)}}}
			return true
		}
		return false
	}
}

// dataList: a list of elements of the collected data.
func dataList(p *Prog, t types.Type) bool {
	l, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := l.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == p.Module+"/"+mData
}

func emptyList(x *Ex) bool {
	if x == nil {
		return false
	}
	if x.isNil() || x.Op == "empty" || x.Op == "list" && len(x.Args) == 0 || strings.HasPrefix(x.Sub, "zero:") {
		return true
	}
	if x.Op == "slice" && len(x.Args) >= 3 && x.Args[2] != nil {
		hi, ok := x.Args[2].int()
		return ok && hi == 0
	}
	if strings.HasPrefix(x.Op, "make") && len(x.Args) > 0 {
		n, ok := x.Args[0].int()
		return ok && n == 0
	}
	return false
}

// lastStore: the last value stored at ptr before event n (all events when n < 0).
func lastStore(o *Outcome, ptr string, n int) *Ex {
	var v *Ex
	for i, ev := range o.Ev {
		if n >= 0 && i >= n {
			break
		}
		if ev.Kind == "store" && ev.Args[0].Key() == ptr {
			v = ev.Args[1]
		}
	}
	return v
}

func slotsOf(p *Prog, o *Outcome) (out []*Ev) {
	for _, ev := range o.Ev {
		if ev.Kind == "call" && isRealloc(p, ev.Fn) {
			out = append(out, ev)
		}
	}
	return
}

func addrOf(base, field string) string { return "&*" + base + "." + field }

// slotWritten checks that every field of a slot is written.
func slotWritten(p *Prog, r *Report, R string, fn *ssa.Function, o *Outcome, sl *Ev) {
	st := structOf(derefT(sl.Res.Typ))
	if st == nil {
		return
	}
	name := types.TypeString(derefT(sl.Res.Typ), func(*types.Package) string { return "" })
	whole := lastStore(o, sl.Res.Key(), -1)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if dataList(p, f.Type()) {
			continue
		}
		v := lastStore(o, addrOf(sl.Res.Key(), f.Name()), -1)
		ok := v != nil && !(strings.Contains(v.Key(), "init:*"+sl.Res.Key()) && !v.Any(func(y *Ex) bool { return y.Op == "stored" }))
		ok = ok || whole != nil
		r.Ob(R, ok, fn, "field "+name+"."+f.Name(), sl.Pos, "keeps the value of an earlier collection on a path", o.Trace()...)
	}
}

func ruleSlots(p *Prog, r *Report) {
	const R = "reused-element"
	r.Rule(R, "effect summaries of every collector and of Produce: on every path each list element taken from output memory has all its fields written from this collection; the storage of a point is the element's own earlier storage or new initialised storage, filled by copying or moving from the series, never storage that something else refers to")
	cols := p.instancesOf(func(f *ssa.Function) bool {
		return f.Name() == "Collect" && f.Signature.Recv() != nil && pkgOf(f) != nil && pkgOf(f).Path() == p.Module+"/"+mView
	})
	npt, nin := 0, 0
	pointsLazy := true
	for _, fn := range cols {
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 20000, Model: reuseModel(p), Opaque: func(f *ssa.Function) bool {
			return pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mView
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "collector analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			outs := map[string]string{}
			for _, sl := range slotsOf(p, o) {
				slotWritten(p, r, R, fn, o, sl)
				k := sl.Res.Key()
				st := structOf(derefT(sl.Res.Typ))
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					a := addrOf(k, f.Name())
					if dataList(p, f.Type()) {
						nin++
						// emptied before an element is taken?
						idx := -1
						for j, ev := range o.Ev {
							if idx < 0 && ev.Kind == "call" && isRealloc(p, ev.Fn) && ev.Args[0].Key() == a {
								idx = j
							}
						}
						if idx >= 0 && !emptyList(lastStore(o, a, idx)) {
							pointsLazy = false
						}
						continue
					}
					if !isNamedType(f.Type(), p.repoName(mAggn, "Aggregation")) {
						continue
					}
					npt++
					v := lastStore(o, a, -1)
					if v == nil {
						if w := lastStore(o, k, -1); w != nil {
							v = w
						} else {
							continue
						}
					}
					var out *Ex
					v.Any(func(y *Ex) bool {
						if y.Op == "call" && len(y.Args) > 0 && y.Fn != nil && p.isLocal(y.Fn) && y.Fn.Signature.Results().Len() == 1 && isNamedType(tupT(y.Fn.Signature.Results(), 0), p.repoName(mAggn, "Aggregation")) {
							out = y.Args[len(y.Args)-1]
						}
						return false
					})
					if !r.Ob(R, out != nil, fn, "storage of a point", sl.Pos, "is not known: "+short(v.Key()), o.Trace()...) {
						continue
					}
					ok := out.Key()
					own := out.Op == "stored" && out.Args[0].Key() == "init:*"+k+"."+f.Name()
					fresh := strings.HasPrefix(ok, "&alloc:")
					r.Ob(R, own || fresh, fn, "storage of a point", sl.Pos, "is neither the element's own nor new: "+ok, o.Trace()...)
					r.Ob(R, outs[ok] == "", fn, "storage of a point", sl.Pos, "is that of another point as well", o.Trace()...)
					outs[ok] = k
					inited, filled := own, false
					for _, ev := range o.Ev {
						switch {
						case ev.Kind == "call" && ev.Fn != nil && ev.Fn.Signature.Recv() != nil && len(ev.Args) == 3 && ev.Args[1].Key() == ok && isNamedType(ev.Args[2].Typ, p.repoName(mAgg, "Config")):
							inited = true
						case ev.Kind == "call" && ev.Fn != nil && (ev.Fn.Name() == "Move" || ev.Fn.Name() == "Copy") && len(ev.Args) == 3 && ev.Args[2].Key() == ok:
							filled = true
							r.Ob(R, inited, fn, "storage of a point", ev.Pos, "is filled before it is initialised", o.Trace()...)
							r.Ob(R, ev.Args[1].Key() != ok, fn, "storage of a point", ev.Pos, "is filled from itself", o.Trace()...)
						case (ev.Kind == "store" || ev.Kind == "mapupdate") && fresh:
							val := ev.Args[len(ev.Args)-1]
							if val.Key() == ok {
								r.Ob(R, strings.HasPrefix(loc(ev.Args[0]), "alloc:"), fn, "storage of a point", ev.Pos, "is kept by the instrument as well", o.Trace()...)
							}
						}
					}
					r.Ob(R, filled, fn, "storage of a point", sl.Pos, "is not filled from the series on a path", o.Trace()...)
				}
			}
		}
	}
	r.AtLeast(R, len(cols), 4, "collectors")
	r.AtLeast(R, npt, 8, "points taken from reused memory")
	r.AtLeast(R, nin, 4, "instruments taken from reused memory")
	ruleReset(p, r, pointsLazy)
	ruleRealloc(p, r)
	ruleStableSlots(p, r)
}

// ruleReset: nothing of an earlier collection remains in the lists.
func ruleReset(p *Prog, r *Report, pointsLazy bool) {
	const R = "reset-before-reuse"
	r.Rule(R, "effect summary of Produce over all shapes of the given memory up to two elements a level: every list of it is emptied before elements are taken, or emptied when its element is taken; the result holds nothing else of the given memory")
	touches := newReach(p, func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && isRealloc(p, c.Common().StaticCallee())
	})
	n := 0
	for _, fn := range p.all {
		if fn.Name() != "Produce" || fn.Signature.Recv() == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || pkgOf(fn) == nil || pkgOf(fn).Path() != p.Module+"/"+mMetric || len(fn.Params) != 2 || !isPtrT(fn.Params[1].Type()) {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		mT := derefT(fn.Params[1].Type())
		e := &Effects{P: p, MaxPaths: 60000, Model: reuseModel(p), Opaque: func(f *ssa.Function) bool {
			if pkgOf(f) == nil {
				return true
			}
			switch pkgOf(f).Path() {
			case p.Module + "/" + mData:
				return false
			case p.Module + "/" + mMetric:
				return touches.has(f) || !takesData(p, f)
			}
			return true
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "Produce analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		// what fills the scopes
		instLazy := true
		var roots []*ssa.Function
		for _, c := range callsIn(fn) {
			g := c.Common().StaticCallee()
			if isRealloc(p, g) {
				roots = append(roots, fn)
			} else if g != nil && touches.has(g) && pkgOf(g) != nil && pkgOf(g).Path() == p.Module+"/"+mMetric {
				roots = append(roots, g)
			}
		}
		ncoll := 0
		for _, g := range roots {
			e := &Effects{P: p, MaxPaths: 60000, Model: reuseModel(p), Opaque: func(f *ssa.Function) bool {
				return pkgOf(f) == nil || pkgOf(f).Path() != p.Module+"/"+mMetric || !touches.has(f)
			}}
			os := e.Run(g, nil)
			if e.Over {
				e.MaxVisits = 1
				os = e.Run(g, nil)
			}
			if !r.Ob(R, !e.Over && len(os) > 0, g, "collection analysed", p.pos(g.Pos()), "too many paths") {
				continue
			}
			r.Summ(g, len(os))
			for _, o := range os {
				if o.Panic {
					continue
				}
				for _, sl := range slotsOf(p, o) {
					slotWritten(p, r, "reused-element", g, o, sl)
				}
				for j, ev := range o.Ev {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Collect") {
						ncoll++
						if a := ev.Args[len(ev.Args)-1]; !emptyList(lastStore(o, a.Key(), j)) {
							instLazy = false
						}
					}
				}
			}
		}
		r.AtLeast(R, ncoll, 1, "collections")
		scopes, insts, points := listField(p, mT), "", ""
		sT := structOf(mT)
		var scT, inT types.Type
		if scopes != "" {
			scT = fieldVar(sT, scopes).Type().Underlying().(*types.Slice).Elem()
			insts = listField(p, scT)
		}
		if insts != "" {
			inT = fieldVar(structOf(scT), insts).Type().Underlying().(*types.Slice).Elem()
			points = listField(p, inT)
		}
		if !r.Need(R, points != "", "lists of the collected data", "not found") {
			continue
		}
		for _, o := range os {
			if o.Panic {
				continue
			}
			ret := o.Ret[0]
			for i := 0; i < sT.NumFields(); i++ {
				f := sT.Field(i)
				v := exField(ret, f.Name(), f.Type())
				if !dataList(p, f.Type()) {
					r.Ob(R, !strings.Contains(v.Key(), "init:*$1"), fn, "result field "+f.Name(), pos, "is that of the memory given, on a path", o.Trace()...)
					continue
				}
				stale := strings.Contains(v.Key(), "init:*$1")
				if !stale {
					continue
				}
				r.Ob(R, emptyList(v), fn, "result list "+f.Name(), pos, "still has the elements of the memory given, on a path", o.Trace()...)
				base := "init:*$1." + scopes
				ns, known := maxLen(o, base)
				if !instLazy || !pointsLazy {
					r.Ob(R, known, fn, "scopes of the memory given", pos, "are not all visited on a path", o.Trace()...)
				}
				for k := 0; k < ns; k++ {
					ia := "&" + base + "[" + itoa(k) + "]." + insts
					if !instLazy {
						r.Ob(R, emptyList(lastStore(o, ia, -1)), fn, "instruments of a scope of the memory given", pos, "are not removed on a path", o.Trace()...)
					}
					if pointsLazy {
						continue
					}
					ib := "init:" + base + "[" + itoa(k) + "]." + insts
					ni, known := maxLen(o, ib)
					r.Ob(R, known, fn, "instruments of the memory given", pos, "are not all visited on a path", o.Trace()...)
					for m := 0; m < ni; m++ {
						pa := "&" + ib + "[" + itoa(m) + "]." + points
						r.Ob(R, emptyList(lastStore(o, pa, -1)), fn, "points of an instrument of the memory given", pos, "are not removed on a path", o.Trace()...)
					}
				}
			}
		}
	}
	r.AtLeast(R, n, 1, "producers")
}

func takesData(p *Prog, f *ssa.Function) bool {
	for _, x := range f.Params {
		if n := namedOf(derefT(x.Type())); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == p.Module+"/"+mData {
			return true
		}
	}
	return false
}

// listField: the field of a data struct that holds its elements.
func listField(p *Prog, t types.Type) string {
	st := structOf(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if dataList(p, st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// maxLen: the greatest length the list can have on the path.
func maxLen(o *Outcome, list string) (int, bool) {
	l := "builtin:len(" + list + ")"
	best, known := 0, false
	set := func(n int) {
		if !known || n < best {
			best, known = n, true
		}
	}
	for _, c := range o.Conds {
		k := c.A.Key()
		if k == "==("+l+",0)" && c.Val {
			set(0)
		}
		if c.A.Op == "<" && len(c.A.Args) == 2 && c.A.Args[1].Key() == l && !c.Val {
			if n, ok := c.A.Args[0].int(); ok {
				set(int(n))
			}
		}
	}
	return best, known
}

// exField: the value of a field of a struct term.
func exField(x *Ex, name string, t types.Type) *Ex {
	return selectPath(x, "."+name, t)
}

// ruleRealloc: an element taken is the next one of the list, or a new empty one.
func ruleRealloc(p *Prog, r *Report) {
	const R = "next-element"
	r.Rule(R, "effect summary of the function that hands out list elements: the list grows by one, within its capacity or by appending an empty element, and the element handed out is the last one")
	n := 0
	for _, fn := range p.instancesOf(func(f *ssa.Function) bool { return isRealloc(p, f) }) {
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p}
		os := e.Run(fn, nil)
		r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths")
		r.Summ(fn, len(os))
		for _, o := range os {
			if o.Panic {
				continue
			}
			v := lastStore(o, "$0", -1)
			if !r.Ob(R, v != nil, fn, "list", pos, "does not grow on a path", o.Trace()...) {
				continue
			}
			ln := "builtin:len(init:*$0)"
			grown := false
			switch {
			case v.Op == "slice":
				hi := ""
				if v.Args[2] != nil {
					hi = v.Args[2].Key()
				}
				grown = v.Args[0].Key() == "init:*$0" && (v.Args[1] == nil || v.Args[1].Key() == "0" || v.Args[1].Op == "none") && (hi == "+(1,"+ln+")" || hi == "+("+ln+",1)")
				room := false
				for _, c := range o.Conds {
					k := c.A.Key()
					cp := "builtin:cap(init:*$0)"
					if k == "<("+ln+","+cp+")" && c.Val || k == "<("+cp+","+ln+")" && !c.Val && false || k == "==("+ln+","+cp+")" && !c.Val {
						room = true
					}
				}
				r.Ob(R, room, fn, "list", pos, "grows in place without room on a path", o.Trace()...)
			case v.Op == "append":
				l, ok := listItems(v.Args[1])
				grown = v.Args[0].Key() == "init:*$0" && ok && len(l) == 1 && strings.HasPrefix(l[0].Key(), "zero:")
			}
			r.Ob(R, grown, fn, "list", pos, "does not grow by one empty or reused element: "+short(v.Key()), o.Trace()...)
			k := o.Ret[0].Key()
			last := k == "&"+v.Key()+"[-(builtin:len("+v.Key()+"),1)]" || k == "&"+v.Key()+"["+ln+"]"
			r.Ob(R, last, fn, "element", pos, "is not the last of the list", o.Trace()...)
		}
	}
	r.AtLeast(R, n, 3, "kinds of list element")
}

// ruleStableSlots: an element of reused memory belongs to the same scope or instrument each time.
func ruleStableSlots(p *Prog, r *Report) {
	const R = "stable-order"
	r.Rule(R, "every store to a list of meters or collectors of a provider or compiler appends to that list (reused memory keeps the storage of the instrument it belongs to, whose configuration it has)")
	n := 0
	for _, fn := range p.all {
		if generic(fn) || pkgOf(fn) == nil {
			continue
		}
		rel := strings.TrimPrefix(pkgOf(fn).Path(), p.Module+"/")
		if rel != mMetric && rel != mView {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				l, ok := s.Val.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				el := namedOf(derefT(l.Elem()))
				if el == nil || el.Obj().Pkg() == nil || !(el.Obj().Name() == "Collector" && el.Obj().Pkg().Path() == p.Module+"/"+mData || el.Obj().Name() == "meter") {
					continue
				}
				n++
				ok = false
				if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
					ok = true // a new object
				}
				if c, isCall := s.Val.(*ssa.Call); isCall {
					if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
						if ld, isLd := c.Call.Args[0].(*ssa.UnOp); isLd {
							if fb, isFb := ld.X.(*ssa.FieldAddr); isFb && fb.Field == fa.Field && sameBase(fb.X, fa.X) {
								ok = true
							}
						}
					}
				}
				r.Ob(R, ok, fn, "list of "+el.Obj().Name(), p.posOf(in), "is not only appended to")
			}
		}
	}
	r.AtLeast(R, n, 2, "stores to lists of meters or collectors")
}

func sameBase(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameBase(x.X, y.X)
}
