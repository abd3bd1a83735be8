package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation, keyed by rule+construct (never by line).
type Finding struct {
	Property string   `json:"property"`
	Rule     string   `json:"rule"`
	Func     string   `json:"function"`
	What     string   `json:"construct"`
	Pos      string   `json:"position"`
	Detail   string   `json:"detail"`
	Trace    []string `json:"path,omitempty"`
}

func (f Finding) Key() string { return f.Property + "|" + f.Rule + "|" + f.Func + "|" + f.What }

// Report collects what one property's rules did on this run.
type Report struct {
	P        *Prog
	Property string
	Rules    map[string]string         // rule -> statement
	Obl      map[string]int            // rule -> obligations checked
	Insts    map[string]map[string]int // rule -> construct -> count
	Finds    []Finding
	Funcs    map[string]bool
	Paths    int
	Notes    []string
	seen     map[string]bool
	decided  map[string]bool
	cur      string
}

func newReport(p *Prog, id string) *Report {
	return &Report{P: p, Property: id, Rules: map[string]string{}, Obl: map[string]int{}, Insts: map[string]map[string]int{},
		Funcs: map[string]bool{}, seen: map[string]bool{}, decided: map[string]bool{}}
}

// Rule declares a rule and its statement.
func (r *Report) Rule(name, stmt string) { r.Rules[name] = stmt }

// Ob counts one obligation on a construct, and reports it when !ok.
func (r *Report) Ob(rule string, ok bool, fn *ssa.Function, construct, pos, detail string, trace ...string) bool {
	r.Obl[rule]++
	if r.Insts[rule] == nil {
		r.Insts[rule] = map[string]int{}
	}
	name := ""
	if fn != nil {
		name = r.P.fnName(fn)
	}
	r.Insts[rule][name+" "+construct]++
	if ok {
		return true
	}
	f := Finding{Property: r.Property, Rule: rule, Func: name, What: construct, Pos: pos, Detail: detail, Trace: trace}
	if r.seen[f.Key()] {
		return false
	}
	r.seen[f.Key()] = true
	r.Finds = append(r.Finds, f)
	return false
}

// Need fails the check when an anchor the rule rests on is missing.
func (r *Report) Need(rule string, ok bool, construct, detail string) bool {
	return r.Ob(rule, ok, nil, construct, "-", "anchor not found: "+detail)
}

// AtLeast guards against a vacuous rule.
func (r *Report) AtLeast(rule string, got, want int, what string) {
	r.Ob(rule, got >= want, nil, "instances of "+what, "-", fmt.Sprintf("only %d instance(s) of %s found, at least %d expected", got, what, want))
}

var dbgEngine func(*Engine)

func (r *Report) Engine(e *Engine) {
	if dbgEngine != nil {
		dbgEngine(e)
	}
	for f := range e.Funcs {
		r.Funcs[r.P.fnName(f)] = true
	}
	r.Paths += e.Visited
	if e.Exceeded {
		r.Ob("analysis-budget", false, e.entry.Fn, "state budget", r.P.pos(e.entry.Fn.Pos()), "the analysis did not reach a fixpoint within its budget")
	}
}

// Summ records that the paths of a function were summarised.
func (r *Report) Summ(fn *ssa.Function, paths int) {
	r.Funcs[r.P.fnName(fn)] = true
	r.Paths += paths
}

func (r *Report) Note(f string, a ...any) { r.Notes = append(r.Notes, fmt.Sprintf(f, a...)) }

type known struct {
	key, text string
}

// known_findings.txt: "finding: property=<id> key=<rule|func|construct> :: text"; "fixed: ..." lines suppress nothing.
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		text := l[i+4:]
		f := strings.SplitN(l[:i], " key=", 2)
		if len(f) != 2 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property=") + "|" + f[1], text})
	}
	return out
}

func (r *Report) finish(verif, tier string, seed int, start time.Time) int {
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []Finding
	var knownHit []string
	for _, f := range r.Finds {
		hit := false
		for _, k := range kn {
			if k.key == f.Key() {
				hit = true
				knownHit = append(knownHit, k.text)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k.text)
			}
		}
		if !hit {
			bad = append(bad, f)
		}
	}
	total, discharged := 0, 0
	perRule := map[string]any{}
	names := []string{}
	for n := range r.Obl {
		names = append(names, n)
	}
	sort.Strings(names)
	distinct := 0
	for _, n := range names {
		total += r.Obl[n]
		distinct += len(r.Insts[n])
		var ks []string
		for k := range r.Insts[n] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) > 12 {
			ks = append(ks[:12], fmt.Sprintf("... %d more", len(ks)-12))
		}
		perRule[n] = map[string]any{"rule": r.Rules[n], "obligations": r.Obl[n], "distinct_constructs": len(r.Insts[n]), "constructs": ks}
	}
	discharged = total - len(r.Finds)
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	nf := len(fns)
	if len(fns) > 60 {
		fns = append(fns[:60], fmt.Sprintf("... %d more", len(fns)-60))
	}
	cov := map[string]any{
		"explanation":             "static analysis of the type-checked, SSA-lowered source of /repo's working tree; nothing of the repository is executed. Obligations are rule instances at concrete constructs; abstract states are (block, automaton, facts) triples visited by the path-sensitive dataflow.",
		"packages_analysed":       len(r.P.Pkgs),
		"repository_functions":    len(r.P.all),
		"functions_entered":       nf,
		"functions":               fns,
		"abstract_states":         r.Paths,
		"obligations":             total,
		"obligations_discharged":  discharged,
		"distinct_constructs":     distinct,
		"rules":                   perRule,
		"known_findings_reported": knownHit,
		"unlisted_findings":       len(bad),
		"notes":                   r.Notes,
	}
	ev := map[string]any{"property": r.Property, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": bad,
		"assumptions": []string{"go/types and x/tools SSA construction are correct", "dependencies outside the module behave as documented", "no reflection or unsafe access to the analysed state"}}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evp := filepath.Join(verif, "evidence", r.Property+".json")
	if err := os.WriteFile(evp, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d rules=%d functions=%d states=%d wall=%.1fs\n", r.Property, total, len(names), nf, r.Paths, time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.Property+".violations.json")
	vb, _ := json.MarshalIndent(bad, "", " ")
	os.WriteFile(rp, append(vb, '\n'), 0o644)
	for _, f := range bad {
		fmt.Printf("%s: [%s] %s: %s: %s\n", f.Pos, f.Rule, f.Func, f.What, f.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, rp)
	return 1
}
