// vchecker decides the properties of /verif/properties.jsonl for the working
// tree of lightstep/otel-launcher-go by static analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var registry = map[string]func(*Prog, *Report){}

func register(id string, f func(*Prog, *Report)) { registry[id] = f }

func main() {
	start := time.Now()
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("property", "", "property ids, comma separated, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	ovl := flag.String("overlay", "", "JSON {\"Replace\":{file:replacement}} analysed instead of the files on disk (self-test only)")
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t == "quick" || t == "thorough" {
		*tier = t
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if *prop == "all" {
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	overlay := map[string][]byte{}
	if *ovl != "" {
		var o struct{ Replace map[string]string }
		b, err := os.ReadFile(*ovl)
		if err == nil {
			err = json.Unmarshal(b, &o)
		}
		for k, v := range o.Replace {
			if c, e := os.ReadFile(v); e == nil {
				overlay[k] = c
			} else {
				err = e
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	p, err := loadProg(*repo, overlay)
	rc := 0
	for _, id := range ids {
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		dumpEffects(p)
		r := newReport(p, id)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			r.P = &Prog{}
			r.Ob("load", false, nil, "the tree", "-", err.Error())
		} else if f := registry[id]; f == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		} else {
			runRule(f, p, r)
		}
		if r.finish(*verif, *tier, seed, t0) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func runRule(f func(*Prog, *Report), p *Prog, r *Report) {
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "%v\n%s", x, debug.Stack())
			r.Ob("analysis-complete", false, nil, "the analysis itself", "-", fmt.Sprintf("analysis stopped: %v", x))
		}
	}()
	f(p, r)
}
