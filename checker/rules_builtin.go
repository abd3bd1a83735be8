package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() { register("P26", checkP26) }

func checkP26(p *Prog, r *Report) {
	ruleObservations(p, r)
	ruleProcessTimes(p, r)
	ruleRuntimeMetrics(p, r)
	ruleRuntimeNames(p, r)
}

const mInstr = "lightstep/instrumentation/"

// obsSpec: the instruments of a library and what each of its labels observes.
type instSpec struct {
	method, unit string
	obs          map[string]string // label -> value
}

var instSpecs = map[string]map[string]instSpec{
	"host": {
		"system.cpu.time": {"Float64ObservableCounter", "s", map[string]string{
			"state=user": "cpu.User", "state=system": "cpu.System", "state=idle": "cpu.Idle",
			"state=other": "cpu.Guest+cpu.GuestNice+cpu.Iowait+cpu.Irq+cpu.Nice+cpu.Softirq+cpu.Steal"}},
		"system.memory.usage":       {"Int64ObservableUpDownCounter", "By", map[string]string{"state=used": "mem.Used", "state=available": "mem.Available"}},
		"system.memory.utilization": {"Float64ObservableGauge", "", map[string]string{"state=used": "mem.Used/mem.Total", "state=available": "mem.Available/mem.Total"}},
		"system.network.io":         {"Int64ObservableCounter", "By", map[string]string{"direction=transmit": "net.BytesSent", "direction=receive": "net.BytesRecv"}},
	},
	"cputime": {
		"process.cpu.time": {"Float64ObservableCounter", "s", map[string]string{"state=user": "process.user", "state=system": "process.system"}},
		"process.uptime":   {"Float64ObservableUpDownCounter", "s", map[string]string{"": "process.uptime"}},
	},
}

var sysSource = regexp.MustCompile(`gopsutil/v3/(cpu|mem|net)\.(Times|TimesWithContext|VirtualMemory|VirtualMemoryWithContext|IOCounters|IOCountersWithContext)(#\d+)?\(([^()]*)\)\)(\[(\d+)\])?\.(\w+)$`)

// sysValue: a system reading in the words of the specification.
func sysValue(x *Ex) string {
	for x.Op == "conv" || x.Op == "iface" {
		if x.Typ != nil {
			if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Kind() != types.Int64 && b.Kind() != types.Float64 && b.Kind() != types.Uint64 {
				return "narrowed " + sysValue(x.Args[0])
			}
		}
		x = x.Args[0]
	}
	switch x.Op {
	case "+":
		var l []string
		for _, a := range x.Args {
			l = append(l, strings.Split(sysValue(a), "+")...)
		}
		sort.Strings(l)
		return strings.Join(l, "+")
	case "/":
		if len(x.Args) == 2 {
			if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return "whole " + sysValue(x.Args[0]) + "/" + sysValue(x.Args[1])
			}
			return sysValue(x.Args[0]) + "/" + sysValue(x.Args[1])
		}
	case "res":
		if c := x.Args[0]; c.Op == "call" && strings.Contains(c.Sub, ".getProcessTimes") || c.Op == "call" && c.Fn != nil && isProcessTimes(c.Fn) {
			switch x.Sub {
			case "0":
				return "process.user"
			case "1":
				return "process.system"
			case "2":
				return "process.uptime"
			}
		}
	}
	m := sysSource.FindStringSubmatch(x.Key())
	if m == nil {
		return x.Key()
	}
	if m[1] != "mem" {
		// all processors, or interfaces, together
		if a := strings.Split(m[4], ","); a[len(a)-1] != "false" || m[6] != "0" {
			return "part of " + m[1] + "." + m[7]
		}
	}
	return m[1] + "." + m[7]
}

// isProcessTimes: a function giving user, system and up time.
func isProcessTimes(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 3 || pkgOf(f) == nil || !strings.HasSuffix(pkgOf(f).Path(), mInstr+"cputime") {
		return false
	}
	for i := 0; i < 3; i++ {
		if types.TypeString(res.At(i).Type(), nil) != "float64" {
			return false
		}
	}
	return true
}

// labelOf: the attributes an observation option list carries.
func labelOf(it *initTabs, x *Ex) (string, bool) {
	for x.Op == "iface" || x.Op == "conv" {
		x = x.Args[0]
	}
	if g, ok := it.global[x.Key()]; ok {
		x = g
	}
	switch {
	case x.isNil() || x.Op == "empty":
		return "", true
	case x.Op == "list":
		var l []string
		for _, a := range x.Args {
			s, ok := labelOf(it, a)
			if !ok {
				return "", false
			}
			if s != "" {
				l = append(l, s)
			}
		}
		sort.Strings(l)
		return strings.Join(l, ","), true
	case x.Op == "call" && len(x.Args) == 1:
		return labelOf(it, x.Args[0])
	case x.Op == "call" && len(x.Args) == 2 && strings.Contains(x.Sub, "attribute."):
		k, ok1 := x.Args[0].str()
		v, ok2 := x.Args[1].str()
		return k + "=" + v, ok1 && ok2
	case x.Op == "struct" && len(x.Args) == 2:
		k, ok1 := x.Args[0].str()
		v, ok := labelOf(it, x.Args[1])
		return k + "=" + v, ok1 && ok
	case x.Op == "const":
		return x.str()
	}
	return x.Key(), false
}

// instOf: an instrument by its name.
func instOf(x *Ex) (name, method, unit string, ok bool) {
	for x.Op == "iface" || x.Op == "conv" || x.Op == "assert" {
		x = x.Args[0]
	}
	if x.Op != "res" || x.Sub != "0" || x.Args[0].Op != "call" {
		return
	}
	c := x.Args[0]
	i := strings.Index(c.Sub, "metric.Meter.")
	if i < 0 || len(c.Args) < 2 {
		return
	}
	method = strings.SplitN(c.Sub[i+len("metric.Meter."):], "#", 2)[0]
	name, ok = c.Args[1].str()
	if len(c.Args) > 2 {
		l, _ := listItems(c.Args[2])
		for _, a := range l {
			for a.Op == "iface" {
				a = a.Args[0]
			}
			if a.Op == "call" && strings.Contains(a.Sub, "metric.WithUnit") {
				unit, _ = a.Args[0].str()
			}
		}
	}
	return
}

func ruleObservations(p *Prog, r *Report) {
	const R = "observations"
	r.Rule(R, "each callback of the host and process instrumentation, on every path without a failed reading, observes every documented instrument and label exactly once with the reading documented for that label, on instruments created with the documented kind and unit and registered with the callback; a failed or unusable reading is returned as an error or reported")
	n := 0
	for lib, spec := range instSpecs {
		pk := p.pkg(mInstr + lib)
		if pk == nil {
			continue
		}
		it := initTables(p, pk)
		for _, fn := range p.all {
			if pkgOf(fn) != pk.Pkg || !registersCallback(fn) || fn.Synthetic != "" || fn.Parent() != nil {
				continue
			}
			n++
			pos := p.pos(fn.Pos())
			e := &Effects{P: p, Opaque: func(g *ssa.Function) bool {
				return g.Parent() == nil && (pkgOf(g) != pk.Pkg || isProcessTimes(g))
			}}
			os := e.Run(fn, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
				continue
			}
			r.Summ(fn, len(os))
			done := 0
			for _, o := range os {
				if o.Panic {
					continue
				}
				var reg *Ev
				for _, ev := range o.Ev {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, "metric.Meter.RegisterCallback") {
						r.Ob(R, reg == nil, fn, "callback", ev.Pos, "is registered twice", o.Trace()...)
						reg = ev
					}
				}
				if reg == nil {
					r.Ob(R, !nilErr(o), fn, "callback", pos, "is not registered on a path", o.Trace()...)
					continue
				}
				done++
				regd := map[string]bool{}
				l, ok := listItems(reg.Args[2])
				r.Ob(R, ok, fn, "instruments", reg.Pos, "registered are not known", o.Trace()...)
				for _, a := range l {
					name, method, unit, ok := instOf(a)
					if !r.Ob(R, ok, fn, "instrument", reg.Pos, "registered is not known: "+short(a.Key()), o.Trace()...) {
						continue
					}
					regd[name] = true
					if s, has := spec[name]; has {
						r.Ob(R, s.method == method && s.unit == unit, fn, name, reg.Pos, fmt.Sprintf("is a %s in %q instead of a %s in %q", method, unit, s.method, s.unit), o.Trace()...)
					}
				}
				f := reg.Args[1]
				for f.Op == "iface" || f.Op == "conv" {
					f = f.Args[0]
				}
				after := o.Apply(f)
				if !r.Ob(R, len(after) > 0, fn, "callback", reg.Pos, "is not known: "+short(f.Key()), o.Trace()...) {
					continue
				}
				complete := 0
				for _, q := range after {
					if q.Panic {
						continue
					}
					r.Ob(R, lockBefore(q, len(q.Ev)) <= lockBefore(o, len(o.Ev)), fn, "lock", reg.Pos, "is kept by the callback", q.Trace()...)
					got := map[string]map[string]int{}
					reported := false
					failed := ""
					for _, ev := range q.Ev {
						if ev.Kind != "call" {
							continue
						}
						reported = reported || isReport(ev)
						if ev.Res != nil && strings.Contains(ev.Name, "gopsutil/") && ev.Res.Op == "tuple" {
							last := ev.Res.Args[len(ev.Res.Args)-1]
							v, known := q.Cond("==(" + last.Key() + ",nil)")
							if !known {
								r.Ob(R, !nilErr(q) && (len(q.Ret) == 1 && q.Ret[0].Key() != last.Key()), fn, "error", ev.Pos, "of a reading is not looked at: "+short(ev.Name), q.Trace()...)
							} else if !v {
								failed = short(ev.Name)
							}
						}
						i := strings.Index(ev.Name, "metric.Observer.Observe")
						if i < 0 {
							continue
						}
						name, method, _, ok := instOf(ev.Args[1])
						if !r.Ob(R, ok, fn, "observation", ev.Pos, "is on an unknown instrument: "+short(ev.Args[1].Key()), q.Trace()...) {
							continue
						}
						kind := ev.Name[i+len("metric.Observer.Observe"):]
						r.Ob(R, strings.HasPrefix(method, kind), fn, name, ev.Pos, "is observed as "+kind, q.Trace()...)
						r.Ob(R, regd[name], fn, name, ev.Pos, "is observed but not registered with the callback", q.Trace()...)
						label, ok := labelOf(it, ev.Args[3])
						if !r.Ob(R, ok, fn, name, ev.Pos, "is observed with an unknown label: "+short(ev.Args[3].Key()), q.Trace()...) {
							continue
						}
						if got[name] == nil {
							got[name] = map[string]int{}
						}
						got[name][label]++
						if s, has := spec[name]; has {
							want, has := s.obs[label]
							v := sysValue(ev.Args[2])
							r.Ob(R, !has || v == want, fn, name, ev.Pos, fmt.Sprintf("%s observes %s instead of %s", label, short(v), want), q.Trace()...)
							r.Ob(R, has, fn, name, ev.Pos, "is observed with the undocumented label "+label, q.Trace()...)
						}
					}
					if failed != "" {
						r.Ob(R, !nilErr(q) || reported, fn, "error", reg.Pos, "of "+failed+" is not reported on a path", q.Trace()...)
					}
					if !nilErr(q) || reported {
						continue
					}
					complete++
					for name, s := range spec {
						for label := range s.obs {
							r.Ob(R, got[name][label] == 1, fn, name, reg.Pos, fmt.Sprintf("%q is observed %d times on a path without error", label, got[name][label]), q.Trace()...)
						}
					}
				}
				r.Ob(R, complete > 0, fn, "callback", reg.Pos, "never completes")
				for name := range spec {
					r.Ob(R, regd[name], fn, name, reg.Pos, "is not registered with the callback", o.Trace()...)
				}
			}
			r.Ob(R, done > 0, fn, "callback", pos, "is never registered")
		}
	}
	r.AtLeast(R, n, 2, "instrumentation libraries")
}

// linear: a sum of products with constants, by atom ("" for the constant).
func linear(x *Ex) map[string]float64 {
	scale := func(m map[string]float64, k float64) map[string]float64 {
		out := map[string]float64{}
		for a, c := range m {
			out[a] = c * k
		}
		return out
	}
	num := func(x *Ex) (float64, bool) {
		m := linear(x)
		if len(m) == 0 {
			return 0, true
		}
		c, ok := m[""]
		return c, ok && len(m) == 1
	}
	switch x.Op {
	case "const":
		if i, ok := x.int(); ok {
			return map[string]float64{"": float64(i)}
		}
		if x.C != nil {
			if f, ok := constant.Float64Val(constant.ToFloat(x.C)); ok || f != 0 {
				return map[string]float64{"": f}
			}
		}
	case "conv", "iface":
		return linear(x.Args[0])
	case "+":
		out := map[string]float64{}
		for _, a := range x.Args {
			for k, c := range linear(a) {
				out[k] += c
			}
		}
		return out
	case "*":
		k := 1.0
		var rest []*Ex
		for _, a := range x.Args {
			if c, ok := num(a); ok {
				k *= c
			} else {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 {
			return scale(linear(rest[0]), k)
		}
	case "/":
		if c, ok := num(x.Args[1]); ok && c != 0 && x.Typ != nil && types.TypeString(x.Typ.Underlying(), nil) == "float64" {
			return scale(linear(x.Args[0]), 1/c)
		}
	case "call":
		if strings.HasPrefix(x.Sub, "time.Duration.Seconds") && len(x.Args) == 1 {
			return scale(linear(x.Args[0]), 1e-9)
		}
	}
	return map[string]float64{x.Key(): 1}
}

// timesAre: the value is the seconds of the reading, by its parts.
func timesAre(x *Ex, parts map[string]float64) bool {
	m := linear(x)
	if len(m) != len(parts) {
		return false
	}
	for k, c := range m {
		found := false
		for suf, w := range parts {
			ok := true
			for _, s := range strings.Split(suf, "&") {
				ok = ok && strings.Contains(k, s)
			}
			found = found || ok && c > w*0.999999 && c < w*1.000001
		}
		if !found {
			return false
		}
	}
	return true
}

func ruleProcessTimes(p *Prog, r *Report) {
	const R = "process-times"
	r.Rule(R, "on every platform the user and system times are those of the process, in seconds, each in its place, and are not numbers if they cannot be read, which is reported; the up time is the time since a start time set once when the program starts")
	check := func(p *Prog, sys string) int {
		n := 0
		for _, fn := range p.all {
			if !isProcessTimes(fn) || fn.Synthetic != "" {
				continue
			}
			n++
			pos := p.pos(fn.Pos())
			e := &Effects{P: p, Opaque: func(g *ssa.Function) bool { return g.Parent() == nil && pkgOf(g) != pkgOf(fn) }}
			os := e.Run(fn, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths ("+sys+")") {
				continue
			}
			r.Summ(fn, len(os))
			good, bad := 0, 0
			for _, o := range os {
				if o.Panic || len(o.Ret) != 3 {
					continue
				}
				failed, known, reported := false, false, false
				self := false
				for _, ev := range o.Ev {
					if ev.Kind != "call" {
						continue
					}
					reported = reported || isReport(ev)
					var err *Ex
					switch {
					case strings.HasSuffix(ev.Name, "syscall.Getrusage"):
						who, ok := ev.Args[0].int()
						self = ok && who == 0
						err = ev.Res
					case strings.Contains(ev.Name, "process.Process.Times"):
						self = true
						err = ev.Res.Args[1]
					default:
						continue
					}
					if v, k := o.Cond("==(" + err.Key() + ",nil)"); k {
						known = true
						failed = failed || !v
					}
				}
				r.Ob(R, self, fn, "times", pos, "are not those of this process ("+sys+")", o.Trace()...)
				r.Ob(R, known, fn, "error", pos, "of reading the times is not looked at ("+sys+")", o.Trace()...)
				up := linear(o.Ret[2])
				okUp := len(up) == 1
				for k, c := range up {
					okUp = okUp && strings.HasPrefix(k, "call:time.Since") && strings.Contains(k, "(init:g:") && c > 0.999e-9 && c < 1.001e-9
				}
				r.Ob(R, okUp, fn, "up time", pos, "is not the seconds since the start: "+short(o.Ret[2].Key()), o.Trace()...)
				if failed {
					bad++
					nan := func(x *Ex) bool { return x.Op == "call" && strings.HasPrefix(x.Sub, "math.NaN") }
					r.Ob(R, nan(o.Ret[0]) && nan(o.Ret[1]), fn, "times", pos, "have a value although they could not be read ("+sys+")", o.Trace()...)
					r.Ob(R, reported, fn, "error", pos, "of reading the times is not reported ("+sys+")", o.Trace()...)
					continue
				}
				good++
				user := timesAre(o.Ret[0], map[string]float64{"Sec(&Utime": 1, "Usec(&Utime": 1e-6}) || timesAre(o.Ret[0], map[string]float64{".Times&.User": 1})
				system := timesAre(o.Ret[1], map[string]float64{"Sec(&Stime": 1, "Usec(&Stime": 1e-6}) || timesAre(o.Ret[1], map[string]float64{".Times&.System": 1})
				r.Ob(R, user, fn, "user time", pos, "is not the seconds of user time ("+sys+"): "+short(o.Ret[0].Key()), o.Trace()...)
				r.Ob(R, system, fn, "system time", pos, "is not the seconds of system time ("+sys+"): "+short(o.Ret[1].Key()), o.Trace()...)
			}
			r.Ob(R, good > 0 && bad > 0, fn, "times", pos, "cannot fail, or always do ("+sys+")")
		}
		return n
	}
	n := check(p, "linux")
	r.AtLeast(R, n, 1, "functions reading the process times on linux")
	// the start time
	if pk := p.pkg(mInstr + "cputime"); pk != nil {
		for _, f := range p.all {
			if pkgOf(f) != pk.Pkg || f.Synthetic != "" || f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && types.TypeString(derefT(g.Type()), nil) == "time.Time" {
							r.Ob(R, false, f, "start time", p.posOf(in), "is changed")
						}
					}
				}
			}
		}
		it := initTables(p, pk)
		for g, v := range it.global {
			if strings.Contains(g, "cputime.") && v.Typ != nil && types.TypeString(v.Typ, nil) == "time.Time" {
				r.Ob(R, v.Op == "call" && strings.HasPrefix(v.Sub, "time.Now"), nil, "start time", "-", "is not the time the program starts: "+short(v.Key()))
			}
		}
	}
	// elsewhere
	q, err := loadFor(p.Dir, p.Overlay, "freebsd", "./"+mInstr+"cputime")
	if r.Ob(R, err == nil, nil, "other platforms", mInstr+"cputime", fmt.Sprintf("cannot be built: %v", err)) {
		n := check(q, "freebsd")
		r.AtLeast(R, n, 1, "functions reading the process times on other platforms")
	}
}

// isMatcher: gives the name, unit, attributes and kind of a runtime metric.
func isMatcher(f *ssa.Function) bool {
	if f == nil || pkgOf(f) == nil || !strings.HasSuffix(pkgOf(f).Path(), mInstr+"runtime") || f.Signature.Results().Len() < 5 {
		return false
	}
	return matchPos(f, "[]go.opentelemetry.io/otel/attribute.KeyValue", 0) >= 0 && matchPos(f, "error", 0) >= 0
}

// matchPos: the k-th result of a type.
func matchPos(f *ssa.Function, typ string, k int) int {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if types.TypeString(res.At(i).Type(), nil) == typ {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// kindNames: the values of the kind type by what its String method says.
func kindNames(p *Prog, f *ssa.Function) (pos int, names map[int64]string) {
	names = map[int64]string{}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		n := namedOf(res.At(i).Type())
		if n == nil || n.Obj().Pkg() != pkgOf(f) {
			continue
		}
		m := p.SSA.LookupMethod(n, n.Obj().Pkg(), "String")
		if m == nil {
			continue
		}
		for _, o := range (&Effects{P: p}).Run(m, nil) {
			s, ok := o.Ret[0].str()
			other := ok
			for _, c := range o.Conds {
				if c.A.Op == "==" && c.Val && c.A.Args[0].Key() == "$0" {
					if k, isK := c.A.Args[1].int(); isK && ok {
						names[k] = s
						other = false
					}
				}
			}
			if other {
				names[-1] = s
			}
		}
		return i, names
	}
	return -1, names
}

func ruleRuntimeMetrics(p *Prog, r *Report) {
	const R = "runtime-metrics"
	r.Rule(R, "every metric of the runtime is looked up by its name; an unknown one is reported; for the others exactly one instrument is made, of the kind and number type, name and unit looked up, and sample, instrument and attributes are kept at the same position; the callback reads the samples first and observes each with its own instrument, value and attributes; all instruments are registered with the callback")
	pk := p.pkg(mInstr + "runtime")
	if !r.Ob(R, pk != nil, nil, "package", "-", "is missing") {
		return
	}
	n := 0
	for _, fn := range p.all {
		if pkgOf(fn) != pk.Pkg || !registersCallback(fn) || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		n++
		pos := p.pos(fn.Pos())
		e := &Effects{P: p, MaxPaths: 40000, Opaque: func(g *ssa.Function) bool {
			return g.Parent() == nil && (pkgOf(g) != pk.Pkg || isMatcher(g))
		}}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		combos := map[string]bool{}
		skipped, observed := 0, 0
		for _, o := range os {
			if o.Panic {
				continue
			}
			var reg *Ev
			var matches []*Ev
			var all *Ex
			for _, ev := range o.Ev {
				switch {
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "metric.Meter.RegisterCallback"):
					r.Ob(R, reg == nil, fn, "callback", ev.Pos, "is registered twice", o.Trace()...)
					reg = ev
				case ev.Kind == "call" && isMatcher(ev.Fn):
					matches = append(matches, ev)
				case ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn") && all == nil && len(ev.Args) == 1:
					all = ev.Res
				}
			}
			if reg == nil {
				r.Ob(R, !nilErr(o), fn, "callback", pos, "is not registered on a path", o.Trace()...)
			}
			if !r.Ob(R, all != nil, fn, "metrics", pos, "are not listed on a path", o.Trace()...) {
				continue
			}
			isAll := func(x *Ex) bool {
				if x.Op == "key" {
					return x.Sub == all.Key()
				}
				return x.Key() == all.Key()
			}
			k, ended := visited(o, isAll)
			if reg != nil {
				r.Ob(R, ended && len(matches) == k, fn, "metrics", pos, "are not all looked up on a path", o.Trace()...)
			}
			// what is made of each
			type made struct {
				m, c *Ev
				num  string
			}
			var ms []made
			used := map[*Ev]bool{}
			for i, m := range matches {
				arg := m.Args[len(m.Args)-1]
				elem := strings.TrimSuffix(arg.Key(), ".Name")
				r.Ob(R, listElem(&Ex{Op: "key", Sub: elem}, i, isAll) || elem == fmt.Sprintf("init:%s[%d]", all.Key(), i), fn, "metric", m.Pos, "is looked up by another name: "+short(arg.Key()), o.Trace()...)
				res := func(typ string, k int) string { return m.Res.Args[matchPos(m.Fn, typ, k)].Key() }
				okErr, known := o.Cond("==(" + res("error", 0) + ",nil)")
				r.Ob(R, known, fn, "look-up error", m.Pos, "is not looked at", o.Trace()...)
				kp, names := kindNames(p, m.Fn)
				if !r.Ob(R, kp >= 0 && len(names) >= 3, fn, "kinds", m.Pos, "are not known") {
					return
				}
				kind, num := "", ""
				for _, c := range o.Conds {
					if c.A.Op != "==" || len(c.A.Args) != 2 || !c.Val {
						continue
					}
					v, isC := c.A.Args[1].int()
					switch {
					case isC && c.A.Args[0].Key() == m.Res.Args[kp].Key():
						kind = names[v]
					case isC && c.A.Args[0].Key() == elem+".Kind":
						num = map[int64]string{1: "Int64", 2: "Float64"}[v]
					}
				}
				var cs []*Ev
				rep := 0
				for _, ev := range o.Ev {
					if ev.Kind == "call" && strings.Contains(ev.Name, "metric.Meter.") && len(ev.Args) > 2 && ev.Args[1].Key() == res("string", 0) {
						cs = append(cs, ev)
						used[ev] = true
					}
					if isReport(ev) && strings.Contains(ev.Args[len(ev.Args)-1].Key(), elem+".Name") {
						rep++
					}
				}
				if known && !okErr {
					r.Ob(R, len(cs) == 0, fn, "instrument", m.Pos, "is made for an unknown metric", o.Trace()...)
					r.Ob(R, rep > 0, fn, "unknown metric", m.Pos, "is not reported on a path", o.Trace()...)
					skipped++
					continue
				}
				method := map[string]string{"counter": "ObservableCounter", "up/down counter": "ObservableUpDownCounter", "gauge": "ObservableGauge"}[kind]
				if method == "" || num == "" {
					r.Ob(R, len(cs) == 0, fn, "instrument", m.Pos, "is made for a metric to skip", o.Trace()...)
					continue
				}
				combos[num+method] = true
				if !r.Ob(R, len(cs) == 1, fn, "instrument", m.Pos, fmt.Sprintf("is made %d times for a %s of %s", len(cs), kind, num), o.Trace()...) {
					continue
				}
				c := cs[0]
				r.Ob(R, strings.HasSuffix(c.Name, "metric.Meter."+num+method), fn, "instrument", c.Pos, "is of another kind than "+num+method, o.Trace()...)
				unit := false
				l, _ := listItems(c.Args[2])
				for _, a := range l {
					for a.Op == "iface" {
						a = a.Args[0]
					}
					unit = unit || a.Op == "call" && strings.Contains(a.Sub, "metric.WithUnit") && a.Args[0].Key() == res("string", 1)
				}
				r.Ob(R, unit, fn, "instrument", c.Pos, "has not the unit of the metric", o.Trace()...)
				cerr, ck := o.Cond("==(" + c.Res.Args[1].Key() + ",nil)")
				r.Ob(R, ck, fn, "instrument", c.Pos, "error is not looked at", o.Trace()...)
				if ck && !cerr {
					r.Ob(R, !nilErr(o) && reg == nil, fn, "instrument", c.Pos, "error is not returned", o.Trace()...)
					continue
				}
				if none, k := o.Cond("==(" + c.Res.Args[0].Key() + ",nil)"); k && none {
					continue
				}
				ms = append(ms, made{m, c, num})
			}
			for _, ev := range o.Ev {
				if ev.Kind == "call" && strings.Contains(ev.Name, "metric.Meter.") && strings.Contains(ev.Name, "Observable") && !used[ev] {
					r.Ob(R, false, fn, "instrument", ev.Pos, "is made under another name", o.Trace()...)
				}
			}
			if reg == nil {
				continue
			}
			l, ok := listItems(reg.Args[2])
			if !r.Ob(R, (ok || reg.Args[2].isNil()) && len(l) == len(ms), fn, "instruments", reg.Pos, "are not all registered with the callback", o.Trace()...) {
				continue
			}
			inst := func(x *Ex) string {
				for x.Op == "iface" || x.Op == "conv" || x.Op == "assert" {
					x = x.Args[0]
				}
				return x.Key()
			}
			for j, m := range ms {
				r.Ob(R, inst(l[j]) == m.c.Res.Args[0].Key(), fn, "instrument", reg.Pos, "is not registered in its place", o.Trace()...)
			}
			if len(ms) == 0 {
				continue
			}
			f := reg.Args[1]
			for f.Op == "iface" || f.Op == "conv" {
				f = f.Args[0]
			}
			// each sample has the value read for it
			o.Rewrite(func(x *Ex) *Ex {
				if x.Op != "struct" || x.Typ == nil || !strings.HasSuffix(types.TypeString(x.Typ, nil), "runtime/metrics.Sample") {
					return nil
				}
				nm := selectPath(x, ".Name", nil)
				for j, m := range ms {
					if nm.Key() == m.m.Args[len(m.m.Args)-1].Key() {
						y := *x
						y.k, y.Args = "", nil
						st := structOf(x.Typ)
						for i := 0; i < st.NumFields(); i++ {
							a := x.Args[i]
							if st.Field(i).Name() == "Value" {
								a = &Ex{Op: "init", Sub: fmt.Sprintf("SAMPLE%d.", j), Typ: st.Field(i).Type()}
							}
							y.Args = append(y.Args, a)
						}
						return &y
					}
				}
				return nil
			})
			after := o.Apply(f)
			if !r.Ob(R, len(after) > 0, fn, "callback", reg.Pos, "is not known") {
				continue
			}
			for _, q := range after {
				if q.Panic {
					continue
				}
				read, j := false, 0
				for _, ev := range q.Ev {
					if ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn") && len(ev.Args) == 2 {
						read = true
						sl, ok := listItems(ev.Args[1])
						if r.Ob(R, ok && len(sl) == len(ms), fn, "samples", ev.Pos, "are not those of the instruments: "+short(ev.Args[1].Key()), q.Trace()...) {
							for i, s := range sl {
								v := exField(s, "Name", nil)
								r.Ob(R, v.Key() == ms[i].m.Args[len(ms[i].m.Args)-1].Key(), fn, "sample", ev.Pos, "is not at the position of its instrument", q.Trace()...)
							}
						}
						continue
					}
					i := strings.Index(ev.Name, "metric.Observer.Observe")
					if ev.Kind != "call" || i < 0 {
						continue
					}
					r.Ob(R, read, fn, "observation", ev.Pos, "is made before the samples are read", q.Trace()...)
					if !r.Ob(R, j < len(ms), fn, "observation", ev.Pos, "is made again", q.Trace()...) {
						break
					}
					m := ms[j]
					r.Ob(R, inst(ev.Args[1]) == m.c.Res.Args[0].Key(), fn, "observation", ev.Pos, "is on another instrument: "+short(ev.Args[1].Key()), q.Trace()...)
					get := map[string]string{"Int64": "Uint64", "Float64": "Float64"}[ev.Name[i+len("metric.Observer.Observe"):]]
					vk := ev.Args[2].Key()
					v := ev.Args[2]
					for v.Op == "conv" {
						v = v.Args[0]
					}
					r.Ob(R, v.Op == "call" && strings.Contains(v.Sub, "runtime/metrics.Value."+get), fn, "observation", ev.Pos, "is not of the value read: "+short(vk), q.Trace()...)
					r.Ob(R, strings.Contains(vk, fmt.Sprintf("SAMPLE%d.", j)), fn, "observation", ev.Pos, "is of the value of another sample: "+vk, q.Trace()...)
					want := m.m.Res.Args[matchPos(m.m.Fn, "[]go.opentelemetry.io/otel/attribute.KeyValue", 0)].Key()
					ol, ok := listItems(ev.Args[3])
					good := ok && len(ol) == 1
					if good {
						a := ol[0]
						for a.Op == "iface" {
							a = a.Args[0]
						}
						good = a.Op == "call" && strings.Contains(a.Sub, "metric.WithAttributes") && a.Args[0].Key() == want
					}
					r.Ob(R, good, fn, "observation", ev.Pos, "has not the attributes of its metric: "+short(ev.Args[3].Key()), q.Trace()...)
					j++
					observed++
				}
				r.Ob(R, j == len(ms) || !nilErr(q), fn, "observation", reg.Pos, "is missing on a path without error", q.Trace()...)
			}
		}
		for _, num := range []string{"Int64", "Float64"} {
			for _, m := range []string{"ObservableCounter", "ObservableUpDownCounter", "ObservableGauge"} {
				r.Ob(R, combos[num+m], fn, num+m, pos, "is never made")
			}
		}
		r.Ob(R, skipped > 0 && observed > 0, fn, "metrics", pos, "are never observed, or never unknown")
	}
	r.AtLeast(R, n, 1, "runtime instrumentations")
}

// stdMetrics: the metrics the Go runtime describes, read from its source.
func stdMetrics(p *Prog) (out []stdMetric) {
	packages.Visit(p.Pkgs, nil, func(pk *packages.Package) {
		if pk.PkgPath != "runtime/metrics" || len(out) > 0 {
			return
		}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				cl, ok := n.(*ast.CompositeLit)
				if !ok {
					return true
				}
				m := stdMetric{}
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					id, ok := kv.Key.(*ast.Ident)
					if !ok {
						continue
					}
					tv := pk.TypesInfo.Types[kv.Value]
					switch id.Name {
					case "Name":
						if tv.Value != nil && tv.Value.Kind() == constant.String {
							m.name = constant.StringVal(tv.Value)
						}
					case "Kind":
						if tv.Value != nil {
							m.kind, _ = constant.Int64Val(tv.Value)
						}
					case "Cumulative":
						m.cumulative = tv.Value != nil && constant.BoolVal(tv.Value)
					}
				}
				if strings.HasPrefix(m.name, "/") && m.kind > 0 {
					out = append(out, m)
				}
				return true
			})
		}
	})
	return out
}

type stdMetric struct {
	name       string
	kind       int64
	cumulative bool
}

// ruleRuntimeNames: how a metric's name, unit, attributes and kind are made.
func ruleRuntimeNames(p *Prog, r *Report) {
	const R = "runtime-names"
	r.Rule(R, "a metric of the runtime is identified by the one family that matches its name, an error being returned otherwise; its unit is the one of its name (By for bytes, s for seconds, {u} for others); each part of the name the pattern leaves open is the attribute of its position; a total of others is skipped; the kind is the one of the family, a counter exactly where the runtime says the metric is cumulative")
	nm := 0
	var kinds map[int64]string
	var matcher *ssa.Function
	for _, fn := range p.all {
		if !isMatcher(fn) || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		nm++
		matcher = fn
		pos := p.pos(fn.Pos())
		isFamily := func(g *ssa.Function) bool {
			if g == nil || pkgOf(g) != pkgOf(fn) || g.Signature.Results().Len() != 2 || g == fn {
				return false
			}
			pt, ok := tupT(g.Signature.Results(), 0).(*types.Pointer)
			return ok && structOf(pt) != nil && types.TypeString(tupT(g.Signature.Results(), 1), nil) == "error"
		}
		e := &Effects{P: p, Opaque: isFamily}
		os := e.Run(fn, nil)
		if !r.Ob(R, !e.Over && len(os) > 0, fn, "analysed", pos, "too many paths") {
			continue
		}
		r.Summ(fn, len(os))
		kp, names := kindNames(p, fn)
		kinds = names
		np, up, ap, ep := matchPos(fn, "string", 0), matchPos(fn, "string", 1), matchPos(fn, "[]go.opentelemetry.io/otel/attribute.KeyValue", 0), matchPos(fn, "error", 0)
		if !r.Ob(R, kp >= 0 && up >= 0, fn, "results", pos, "are not known") {
			continue
		}
		seen := map[string]bool{}
		for _, o := range os {
			if o.Panic {
				continue
			}
			var fam *Ev
			for _, ev := range o.Ev {
				if ev.Kind == "call" && isFamily(ev.Fn) {
					fam = ev
				}
			}
			if !r.Ob(R, fam != nil && fam.Args[len(fam.Args)-1].Key() == fmt.Sprintf("$%d", len(fn.Params)-1), fn, "family", pos, "is not looked up by the name", o.Trace()...) {
				continue
			}
			none, known := o.Cond("==(" + fam.Res.Args[1].Key() + ",nil)")
			if !r.Ob(R, known, fn, "family", fam.Pos, "is used without looking at the error", o.Trace()...) {
				continue
			}
			fails := o.Ret[ep].Key() == fam.Res.Args[1].Key() || !o.Ret[ep].isNil() && !nilErr(o)
			if !none {
				r.Ob(R, fails, fn, "unknown name", pos, "is not an error", o.Trace()...)
				seen["unknown"] = true
				continue
			}
			k := o.Ret[kp]
			kn, isK := "", false
			if v, c := k.int(); c {
				kn, isK = names[v], true
				if kn == "" {
					kn = names[-1]
				}
			}
			// a total of others
			total, skipped := false, isK && kn == "skipped"
			for _, c := range o.Conds {
				if c.A.Op == "==" && len(c.A.Args) == 2 {
					if v, isS := c.A.Args[1].str(); isS && v == "total" && c.Val {
						total = true
					}
				}
				if c.A.Op == "call" && strings.HasPrefix(c.A.Sub, "strings.HasSuffix") && strings.Contains(c.A.Key(), "total\"") && c.Val {
					total = true
				}
			}
			if total || skipped {
				r.Ob(R, total == skipped, fn, "total", pos, "is not skipped, or another metric is, on a path", o.Trace()...)
				seen["total"] = true
				continue
			}
			// the kind
			own := k.Op == "init" && strings.Contains(k.Key(), fam.Res.Args[0].Key()) && k.Typ != nil && types.Identical(k.Typ, tupT(fn.Signature.Results(), kp))
			trailing := false
			for _, c := range o.Conds {
				if c.Val && (c.A.Op == "call" && strings.HasPrefix(c.A.Sub, "strings.HasSuffix") || c.A.Op == "res") && strings.Contains(c.A.Key(), "\":*\"") {
					trailing = true
				}
			}
			r.Ob(R, own && !trailing || trailing && (own || isK && kn == "counter"), fn, "kind", pos, "is not the one of the family on a path: "+short(k.Key()), o.Trace()...)
			// the unit
			decided := func(v string) (*Ex, bool) {
				for _, c := range o.Conds {
					if c.A.Op == "==" && len(c.A.Args) == 2 && c.Val {
						if w, isS := c.A.Args[1].str(); isS && w == v {
							return c.A.Args[0], true
						}
					}
				}
				return nil, false
			}
			u := o.Ret[up]
			if v, isS := u.str(); isS {
				of := map[string]string{"By": "bytes", "s": "seconds", "": ""}
				from, ok := of[v]
				if r.Ob(R, ok, fn, "unit", pos, "is "+v+" on a path", o.Trace()...) {
					_, yes := decided(from)
					if v == "" {
						_, obj := decided("objects")
						yes = yes || obj
						if obj {
							r.Ob(R, o.Ret[np].Any(func(x *Ex) bool {
								w, isS := x.str()
								return isS && (w == ".objects" || w == "objects") || x.Op == "res" && x.Key() == fmt.Sprintf("res:1(%s)", x.Args[0].Key()) && x != o.Ret[np]
							}), fn, "name", pos, "of the number of objects is the one of their bytes", o.Trace()...)
							seen["objects"] = true
						}
					}
					r.Ob(R, yes, fn, "unit", pos, fmt.Sprintf("is %q for another than %q on a path", v, from), o.Trace()...)
				}
				seen["unit "+v] = true
			} else {
				braces := false
				if x, yes := decided(""); yes && x.Key() == u.Key() {
					braces = true
					seen["unit "] = true
				}
				if parts := concat(u); len(parts) == 3 {
					l, _ := parts[0].str()
					q, _ := parts[2].str()
					braces = l == "{" && q == "}" && strings.Contains(parts[1].Key(), "call:strings.Cut")
					for _, c := range o.Conds {
						if c.A.Op == "==" && len(c.A.Args) == 2 && c.A.Args[0].Key() == parts[1].Key() {
							if w, isS := c.A.Args[1].str(); isS && c.Val && w != "objects" {
								braces = false
							}
						}
					}
				}
				r.Ob(R, braces, fn, "unit", pos, "is not one of the name on a path: "+short(u.Key()), o.Trace()...)
				seen["unit {}"] = true
			}
			// the name
			pre := concat(o.Ret[np])
			first := ""
			if len(pre) > 0 {
				x := pre[0]
				for x.Op == "slice" || x.Op == "call" && strings.HasPrefix(x.Sub, "strings.Trim") {
					x = x.Args[0]
				}
				if cs := concat(x); len(cs) > 0 {
					first, _ = cs[0].str()
				}
			}
			r.Ob(R, strings.HasPrefix(first, "process.runtime.go"), fn, "name", pos, "does not start as those of the runtime do: "+short(o.Ret[np].Key()), o.Trace()...)
			// the attributes
			l, isL := listItems(o.Ret[ap])
			if o.Ret[ap].isNil() {
				continue
			}
			if !r.Ob(R, isL, fn, "attributes", pos, "are not known: "+short(o.Ret[ap].Key()), o.Trace()...) {
				continue
			}
			for i, a := range l {
				want := "\"class\""
				ok := a.Op == "call" && strings.Contains(a.Sub, "attribute") && len(a.Args) == 2
				if ok && i == 0 {
					ok = a.Args[0].Key() == want || a.Args[0].Key() == "conv:go.opentelemetry.io/otel/attribute.Key("+want+")"
				} else if ok {
					ok = strings.Contains(a.Args[0].Key(), fmt.Sprint(i+1)) && strings.Contains(a.Args[0].Key(), "class")
				}
				ok = ok && strings.HasSuffix(a.Args[1].Key(), fmt.Sprintf("[%d]", i)) && strings.Contains(a.Args[1].Key(), "call:strings.Split")
				r.Ob(R, ok, fn, "attribute", pos, fmt.Sprintf("%d is not the part of the name at its position: %s", i, short(a.Key())), o.Trace()...)
				seen["attr"] = true
			}
		}
		for _, w := range []string{"unknown", "total", "unit By", "unit s", "unit {}", "attr", "objects"} {
			r.Ob(R, seen[w], fn, w, pos, "is never seen")
		}
		// one family, or an error
		for _, g := range p.all {
			if !isFamily(g) || g.Synthetic != "" {
				continue
			}
			e := &Effects{P: p, MaxVisits: 3, MaxPaths: 60000}
			os := e.Run(g, nil)
			if !r.Ob(R, !e.Over && len(os) > 0, g, "analysed", p.pos(g.Pos()), "too many paths") {
				continue
			}
			r.Summ(g, len(os))
			ones := 0
			for _, o := range os {
				if o.Panic || len(o.Ret) != 2 {
					continue
				}
				if nilErr(o) {
					ones++
					x := o.Ret[0]
					r.Ob(R, strings.Contains(x.Key(), "[") && !x.isNil(), g, "family", p.pos(g.Pos()), "is none of the list, without an error: "+short(x.Key()), o.Trace()...)
				}
				// a family is a match where its pattern is the name, or the
				// name has its prefix and its suffix
				m := map[string]bool{}
				for i := 0; i < 4; i++ {
					el := fmt.Sprintf("[%d]", i)
					pre, suf := false, false
					for _, c := range o.Conds {
						if !c.Val || !strings.Contains(c.A.Key(), el+".pattern") && !strings.Contains(c.A.Key(), el) {
							continue
						}
						switch {
						case c.A.Op == "==" && strings.Contains(c.A.Key(), "$1") && len(c.A.Args) == 2 && !c.A.Has("builtin:len"):
							m[el] = true
						case c.A.Op == "call" && strings.HasPrefix(c.A.Sub, "strings.HasPrefix"):
							pre = true
						case c.A.Op == "call" && strings.HasPrefix(c.A.Sub, "strings.HasSuffix"):
							suf = true
						}
					}
					if pre && suf {
						m[el] = true
					}
				}
				if len(m) == 0 || len(m) > 1 {
					r.Ob(R, !nilErr(o), g, "family", p.pos(g.Pos()), fmt.Sprintf("is returned without an error where %d match", len(m)), o.Trace()...)
				} else if nilErr(o) {
					for el := range m {
						r.Ob(R, strings.Contains(o.Ret[0].Key(), el), g, "family", p.pos(g.Pos()), "is not the one that matches: "+short(o.Ret[0].Key()), o.Trace()...)
					}
				}
			}
			r.Ob(R, ones > 0, g, "family", p.pos(g.Pos()), "is never found")
		}
	}
	r.AtLeast(R, nm, 1, "functions that identify a metric of the runtime")
	if matcher == nil {
		return
	}
	// the families, against what the runtime says of its metrics
	std := stdMetrics(p)
	if !r.Ob(R, len(std) > 20, matcher, "metrics of the runtime", "-", "are not known") {
		return
	}
	desc := matcher.Signature.Recv()
	if desc == nil {
		r.Note(R, "the families are not those of a descriptor")
		return
	}
	nt := 0
	for _, fn := range p.all {
		if fn.Synthetic != "" || fn.Parent() != nil || pkgOf(fn) != pkgOf(matcher) || fn.Signature.Params().Len() != 0 || fn.Signature.Recv() != nil ||
			fn.Signature.Results().Len() != 1 || !types.Identical(tupT(fn.Signature.Results(), 0), desc.Type()) {
			continue
		}
		os := (&Effects{P: p}).Run(fn, nil)
		if len(os) != 1 || os[0].Panic {
			continue
		}
		o := os[0]
		type family struct {
			pat, kind string
		}
		var fams []family
		for k, v := range o.mem.m {
			_ = k
			l, ok := listItems(v)
			if !ok {
				continue
			}
			for _, x := range l {
				var f family
				st := structOf(x.Typ)
				if st == nil {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					fv := selectPath(o.Read(x, derefT(x.Typ)), "."+st.Field(i).Name(), st.Field(i).Type())
					if x.Op == "struct" {
						fv = x.Args[i]
					}
					if s, isS := fv.str(); isS && f.pat == "" {
						f.pat = s
					} else if n, isI := fv.int(); isI && types.Identical(st.Field(i).Type(), tupT(matcher.Signature.Results(), matchKind(p, matcher))) {
						f.kind = kinds[n]
					}
				}
				if f.pat != "" {
					fams = append(fams, f)
				}
			}
		}
		if len(fams) == 0 {
			continue
		}
		nt++
		for _, m := range std {
			var hit []family
			for _, f := range fams {
				pre, suf, wild := strings.Cut(f.pat, "*")
				if !wild && f.pat == m.name || wild && len(m.name) > len(f.pat) && strings.HasPrefix(m.name, pre) && strings.HasSuffix(m.name, suf) {
					hit = append(hit, f)
				}
			}
			r.Ob(R, len(hit) <= 1, fn, m.name, p.pos(fn.Pos()), "is in several families")
			if len(hit) != 1 {
				continue // not known to this version: reported when registering
			}
			switch kind := hit[0].kind; {
			case kind == "skipped":
			case m.kind == 3:
				r.Ob(R, kind == "histogram", fn, m.name, p.pos(fn.Pos()), "is a distribution and taken for a "+kind)
			case m.cumulative:
				r.Ob(R, strings.HasSuffix(kind, "counter") && kind != "up/down counter", fn, m.name, p.pos(fn.Pos()), "is cumulative and taken for a "+kind)
			default:
				r.Ob(R, kind == "up/down counter" || kind == "gauge", fn, m.name, p.pos(fn.Pos()), "is not cumulative and taken for a "+kind)
			}
		}
	}
	r.AtLeast(R, nt, 1, "tables of metrics of the runtime")
}

func matchKind(p *Prog, f *ssa.Function) int { k, _ := kindNames(p, f); return k }

// concat: the parts of a concatenation of strings.
func concat(x *Ex) []*Ex {
	var out []*Ex
	if x.Op == "+" {
		for _, a := range x.Args {
			out = append(out, concat(a)...)
		}
		return out
	}
	if x.Op == "call" && x.Sub == "fmt.Sprintf" || x.Op == "call" && strings.HasPrefix(x.Sub, "fmt.Sprintf") {
		f, ok := x.Args[0].str()
		l, isL := listItems(x.Args[1])
		parts := strings.Split(strings.ReplaceAll(f, "%v", "%s"), "%s")
		if ok && isL && len(parts) == len(l)+1 && !strings.Contains(strings.Join(parts, ""), "%") {
			for i, s := range parts {
				if s != "" {
					out = append(out, exConst(constant.MakeString(s), types.Typ[types.String]))
				}
				if i < len(l) {
					a := l[i]
					for a.Op == "iface" {
						a = a.Args[0]
					}
					out = append(out, concat(a)...)
				}
			}
			return out
		}
	}
	return []*Ex{x}
}
