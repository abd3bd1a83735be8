package main

// Constant package-level tables: maps, arrays and slices that are filled by
// the package initialiser and never written anywhere else.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type constTable struct {
	entries map[string]constant.Value // key ExactString -> value
	ok      bool
}

var constTables = map[*ssa.Global]*constTable{}

func globalOfLoad(v ssa.Value) *ssa.Global {
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func (p *Prog) constTable(g *ssa.Global) *constTable {
	if t, ok := constTables[g]; ok {
		return t
	}
	t := &constTable{entries: map[string]constant.Value{}}
	constTables[g] = t
	init := g.Pkg.Func("init")
	if init == nil || !p.local[g.Pkg] {
		return t
	}
	// no writes outside init
	for _, fn := range p.all {
		if fn == init {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == g {
						return t
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && globalOfLoad(ia.X) == g {
						return t
					}
				case *ssa.MapUpdate:
					if globalOfLoad(x.Map) == g {
						return t
					}
				}
			}
		}
	}
	var base ssa.Value
	nst := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				base = st.Val
				nst++
			}
		}
	}
	if nst > 1 {
		return t
	}
	same := func(v ssa.Value) bool {
		if v == ssa.Value(g) {
			return true
		}
		if base == nil {
			return false
		}
		if v == base {
			return true
		}
		if sl, ok := base.(*ssa.Slice); ok && v == sl.X {
			return true
		}
		if ld, ok := base.(*ssa.UnOp); ok && v == ld.X {
			return true
		}
		return false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if same(x.Map) {
					k, ok1 := x.Key.(*ssa.Const)
					v, ok2 := x.Value.(*ssa.Const)
					if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
						return t
					}
					t.entries[k.Value.ExactString()] = v.Value
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && same(ia.X) {
					k, ok1 := ia.Index.(*ssa.Const)
					v, ok2 := x.Val.(*ssa.Const)
					if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
						return t
					}
					t.entries[k.Value.ExactString()] = v.Value
				}
			}
		}
	}
	t.ok = true
	return t
}

// evalTable reads an entry of a constant table.
func (p *Prog) evalTable(e *Engine, f *Facts, r VRef) (Fact, bool) {
	get := func(g *ssa.Global, idx ssa.Value, elem types.Type, has bool) (Fact, bool) {
		if g == nil {
			return Fact{}, false
		}
		t := p.constTable(g)
		if !t.ok {
			return Fact{}, false
		}
		k, ok := e.constOf(f, VRef{r.F, idx})
		if !ok {
			return Fact{}, false
		}
		v, in := t.entries[k.ExactString()]
		if has {
			return factBool(in), true
		}
		if in {
			return Fact{K: FConst, C: v}, true
		}
		if z, ok := zeroConst(elem); ok {
			return Fact{K: FConst, C: z}, true
		}
		return Fact{}, false
	}
	switch x := r.V.(type) {
	case *ssa.Lookup:
		if !x.CommaOk {
			return get(globalOfLoad(x.X), x.Index, x.Type(), false)
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return get(globalOfLoad(l.X), l.Index, x.Type(), x.Index == 1)
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return get(globalOfLoad(ia.X), ia.Index, x.Type(), false)
		}
	case *ssa.Index:
		return get(globalOfLoad(x.X), x.Index, x.Type(), false)
	}
	return Fact{}, false
}
