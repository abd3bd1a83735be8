package main

// The exported payload as a tree: pdata calls of a path, interpreted.

import (
	"go/types"
	"sort"
	"strings"
)

const pdataPkg = "go.opentelemetry.io/collector/pdata/"

// pdataModel names pdata objects by how they are reached.
func pdataModel(x *XC) bool {
	if !strings.HasPrefix(x.Name, pdataPkg) || x.Fn == nil {
		return false
	}
	m := x.Name[strings.LastIndexByte(x.Name, '.')+1:]
	res := x.Fn.Signature.Results()
	isPd := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), pdataPkg) && structOf(t) != nil
	}
	switch {
	case m == "NewTimestampFromTime":
		x.Quiet = true
		x.Res = []*Ex{{Op: "ts", Args: x.Args, Typ: res.At(0).Type()}}
	case m == "AppendEmpty" && len(x.Args) == 1:
		x.Res = []*Ex{{Op: "pdnew", Sub: x.E.fresh(x.P), Args: x.Args, Typ: res.At(0).Type()}}
	case strings.HasPrefix(m, "PutEmpty") && len(x.Args) == 2:
		x.Res = []*Ex{{Op: "pdput", Sub: m[8:], Args: x.Args, Typ: res.At(0).Type()}}
	case strings.HasPrefix(m, "SetEmpty") && len(x.Args) == 1 && res.Len() == 1:
		x.Res = []*Ex{{Op: "pd", Sub: m[8:], Args: x.Args, Typ: res.At(0).Type()}}
	case x.Fn.Signature.Recv() != nil && len(x.Args) == 1 && res.Len() == 1 && isPd(res.At(0).Type()):
		x.Quiet = true
		x.Res = []*Ex{{Op: "pd", Sub: m, Args: x.Args, Typ: res.At(0).Type()}}
	default:
		return false
	}
	return true
}

type pdNode struct {
	key  string
	kids []*pdNode          // appended elements
	sub  map[string]*pdNode // getters
	set  map[string][]*Ex   // setter -> values, in order
	list []*Ex              // primitive slice contents
	put  []pdPut            // map entries
	bad  string
	ptr  *pdNode
}

type pdPut struct {
	kind string
	key  *Ex
	val  *Ex
	node *pdNode
}

func newPdNode(k string) *pdNode {
	return &pdNode{key: k, sub: map[string]*pdNode{}, set: map[string][]*Ex{}}
}

func (n *pdNode) at(path ...string) *pdNode {
	for _, s := range path {
		if n.sub[s] == nil {
			n.sub[s] = newPdNode(n.key + "/" + s)
		}
		n = n.sub[s]
	}
	return n
}

// one returns the only value of a setter.
func (n *pdNode) one(setter string) *Ex {
	if vs := n.set[setter]; len(vs) == 1 {
		return vs[0]
	}
	return nil
}

type pdTree struct {
	nodes map[string]*pdNode
	calls []*Ev // other calls that take a node
}

func (t *pdTree) node(x *Ex) *pdNode {
	if x == nil {
		return nil
	}
	k := x.Key()
	if n := t.nodes[k]; n != nil {
		return n
	}
	var n *pdNode
	switch x.Op {
	case "pd":
		if p := t.node(x.Args[0]); p != nil {
			n = p.at(x.Sub)
		}
	case "call":
		if strings.HasPrefix(x.Sub, pdataPkg) && strings.Contains(x.Sub, ".New") {
			n = newPdNode(k)
		}
	case "pdnew", "pdput":
		return nil // made by its event
	}
	if n == nil {
		n = newPdNode(k)
	}
	t.nodes[k] = n
	return n
}

// pdTreeOf interprets the events of a path, up to index end.
func pdTreeOf(evs []*Ev) *pdTree {
	t := &pdTree{nodes: map[string]*pdNode{}}
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		if !strings.HasPrefix(ev.Name, pdataPkg) || len(ev.Args) == 0 {
			t.calls = append(t.calls, ev)
			continue
		}
		m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
		if strings.HasPrefix(m, "New") {
			continue
		}
		n := t.node(ev.Args[0])
		if n == nil {
			continue
		}
		switch {
		case m == "AppendEmpty":
			k := newPdNode(ev.Res.Key())
			t.nodes[ev.Res.Key()] = k
			n.kids = append(n.kids, k)
		case strings.HasPrefix(m, "PutEmpty"):
			k := newPdNode(ev.Res.Key())
			t.nodes[ev.Res.Key()] = k
			n.put = append(n.put, pdPut{kind: m[3:], key: ev.Args[1], node: k})
		case strings.HasPrefix(m, "Put") && len(ev.Args) == 3:
			n.put = append(n.put, pdPut{kind: m[3:], key: ev.Args[1], val: ev.Args[2]})
		case strings.HasPrefix(m, "SetEmpty"):
			n.set["SetEmpty"] = append(n.set["SetEmpty"], &Ex{Op: "kind", Sub: m[8:]})
		case strings.HasPrefix(m, "Set") && len(ev.Args) == 2:
			n.set[m] = append(n.set[m], ev.Args[1])
		case m == "Append":
			for _, a := range ev.Args[1:] {
				if items, ok := listItems(a); ok {
					n.list = append(n.list, items...)
				} else {
					n.list = append(n.list, a)
				}
			}
		case m == "FromRaw":
			n.list = nil
			if items, ok := listItems(ev.Args[1]); ok {
				n.list = items
			} else {
				n.set[m] = append(n.set[m], ev.Args[1])
			}
		case m == "EnsureCapacity", m == "Len", m == "AsRaw", m == "At":
		case m == "CopyTo", m == "MoveTo":
			d := t.node(ev.Args[1])
			if m == "MoveTo" {
				if !strings.Contains(n.key, pdataPkg) {
					d.bad = "MoveTo"
					continue
				}
				d.kids, d.sub, d.set, d.list, d.put, d.bad = n.kids, n.sub, n.set, n.list, n.put, n.bad
				continue
			}
			d.set["from"] = append(d.set["from"], ev.Args[0])
		case m == "Remove", m == "RemoveIf", m == "Clear", m == "MoveAndAppendTo", m == "Sort":
			n.bad = m
		}
	}
	return t
}

// listItems: the elements of a list with known contents.
func listItems(x *Ex) ([]*Ex, bool) {
	if x == nil {
		return nil, false
	}
	if x.Op == "list" {
		return x.Args, true
	}
	return nil, x.isNil()
}

// normPath is the access path a term reads, independent of how it was reached.
func normPath(x *Ex) string {
	if x == nil {
		return "_"
	}
	return normText(x.Key())
}

func normText(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		rest := s[i:]
		name, drop := "", ""
		switch {
		case strings.HasPrefix(rest, "sel:"):
			if k := strings.IndexByte(rest, '('); k > 0 && !strings.ContainsAny(rest[4:k], ",)") {
				name, drop = rest[4:k], rest[:k]
			}
		case strings.HasPrefix(rest, "conv:string("):
			drop = "conv:string"
		case strings.HasPrefix(rest, "iface("):
			drop = "iface"
		case strings.HasPrefix(rest, "init:"):
			i += 5
			continue
		case rest[0] == '*' || rest[0] == '&':
			i++
			continue
		}
		if drop == "" || i > 0 && isWordByte(s[i-1]) {
			sb.WriteByte(rest[0])
			i++
			continue
		}
		// the balanced argument
		open := len(drop)
		depth, end := 0, -1
		for k := open; k < len(rest); k++ {
			if rest[k] == '(' {
				depth++
			} else if rest[k] == ')' {
				if depth--; depth == 0 {
					end = k
					break
				}
			}
		}
		if end < 0 {
			sb.WriteByte(rest[0])
			i++
			continue
		}
		sb.WriteString(normText(rest[open+1 : end]))
		if name != "" {
			if name[0] != '.' && name[0] != '[' {
				sb.WriteByte('.')
			}
			sb.WriteString(name)
		}
		i += end + 1
	}
	return sb.String()
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// lens: what a path decided about the length of each collection.
type lens struct{ lt, ge map[string]int }

func lensOf(conds []xcond) *lens {
	l := &lens{lt: map[string]int{}, ge: map[string]int{}}
	coll := func(x *Ex) string {
		if x.Op == "conv" {
			x = x.Args[0]
		}
		if x.Op == "builtin" && x.Sub == "len" && len(x.Args) == 1 {
			return normPath(x.Args[0])
		}
		if x.Op == "bk" && x.Sub == "Len" {
			return normPath(x.Args[0])
		}
		return ""
	}
	more := func(c string, n int) {
		if n > l.lt[c] {
			l.lt[c] = n
		}
	}
	less := func(c string, n int) {
		if o, ok := l.ge[c]; !ok || n < o {
			l.ge[c] = n
		}
	}
	for _, c := range conds {
		a := c.A
		if len(a.Args) != 2 {
			continue
		}
		if a.Op == "<" {
			if i, ok := a.Args[0].int(); ok {
				if k := coll(a.Args[1]); k != "" {
					if c.Val {
						more(k, int(i)+1)
					} else {
						less(k, int(i))
					}
				}
			} else if i, ok := a.Args[1].int(); ok {
				if k := coll(a.Args[0]); k != "" {
					if c.Val {
						less(k, int(i)-1)
					} else {
						more(k, int(i))
					}
				}
			}
		}
		if a.Op == "==" {
			if i, ok := a.Args[1].int(); ok {
				if k := coll(a.Args[0]); k != "" {
					if c.Val {
						more(k, int(i))
						less(k, int(i))
					} else if i == 0 {
						more(k, 1)
					}
				}
			}
		}
	}
	return l
}

// exact is the length the path decided, if it did.
func (l *lens) exact(c string) (int, bool) {
	g, ok := l.ge[c]
	return g, ok && l.lt[c] == g
}

// changed: a part of the payload that was changed after it was built.
func (t *pdTree) changed() string {
	for _, n := range t.nodes {
		if n.bad != "" {
			return n.key + " by " + n.bad
		}
	}
	return ""
}

func (n *pdNode) dump(ind string) []string {
	out := []string{ind + n.key}
	var ks []string
	for k := range n.sub {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, n.sub[k].dump(ind+"  ")...)
	}
	for _, k := range n.kids {
		out = append(out, k.dump(ind+"  + ")...)
	}
	return out
}
