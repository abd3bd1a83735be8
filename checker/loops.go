package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop describes an iteration over a collection.
type Loop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Coll   ssa.Value // slice/array/map iterated, nil when not a collection loop
	Full   bool      // visits every index exactly once when left only through the header
	Why    string    // why not Full
	Index  ssa.Value // the index value used in the body
	Body   map[*ssa.BasicBlock]bool
}

// loopBody: the natural loop of header h.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) && out[s] == nil {
				out[s] = analyseLoop(fn, s)
				out[s].Body = loopBody(s)
			}
		}
	}
	return out
}

func analyseLoop(fn *ssa.Function, h *ssa.BasicBlock) *Loop {
	l := &Loop{Fn: fn, Header: h}
	ifi, _ := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if ifi == nil {
		l.Why = "no header condition"
		return l
	}
	switch c := ifi.Cond.(type) {
	case *ssa.Extract:
		if nx, ok := c.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				l.Coll, l.Full = rg.X, true
			}
			return l
		}
	case *ssa.BinOp:
		x, y, op := c.X, c.Y, c.Op
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		if op != token.LSS && op != token.NEQ {
			l.Why = "bound is not `<`"
			if op != token.LEQ {
				return l
			}
		}
		if call, ok := y.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				l.Coll = call.Call.Args[0]
			}
		}
		if l.Coll == nil {
			// range over an array: constant bound
			if cst, ok := y.(*ssa.Const); ok {
				_ = cst
				l.Coll = arrayIndexedBy(h, x)
				if l.Coll == nil {
					return l
				}
				if at, ok := derefT(l.Coll.Type()).Underlying().(*types.Array); !ok || cst.Int64() != at.Len() {
					l.Why = "bound differs from array length"
					l.Index = x
					return l
				}
			} else {
				return l
			}
		}
		l.Index = x
		if op == token.LEQ {
			return l
		}
		var phi *ssa.Phi
		first := int64(0)
		switch v := x.(type) {
		case *ssa.Phi:
			phi = v
		case *ssa.BinOp:
			if p, ok := v.X.(*ssa.Phi); ok && v.Op == token.ADD && isConstInt(v.Y, 1) {
				phi = p
				first = -1
			}
		}
		if phi == nil || phi.Block() != h {
			l.Why = "index is not a loop variable"
			return l
		}
		for i, ed := range phi.Edges {
			pred := h.Preds[i]
			if h.Dominates(pred) {
				if first == -1 {
					if ed != x {
						l.Why = "index does not advance by one"
						return l
					}
				} else {
					bo, ok := ed.(*ssa.BinOp)
					if !ok || bo.Op != token.ADD || bo.X != phi || !isConstInt(bo.Y, 1) {
						l.Why = "index does not advance by one"
						return l
					}
				}
			} else if !isConstInt(ed, first) {
				l.Why = "iteration does not start at the first element"
				return l
			}
		}
		l.Full = true
		l.Why = ""
	}
	return l
}

func arrayIndexedBy(h *ssa.BasicBlock, x ssa.Value) ssa.Value {
	refs := x.Referrers()
	if refs == nil {
		return nil
	}
	for _, u := range *refs {
		switch y := u.(type) {
		case *ssa.IndexAddr:
			return y.X
		case *ssa.Index:
			return y.X
		}
	}
	return nil
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	i, ok := constant.Int64Val(constant.ToInt(c.Value))
	return ok && i == n
}

// isBack reports whether from->to is a loop back edge.
func isBack(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }
