package main

import (
	"fmt"
	"os"
	"testing"
	"time"
)

func TestDbg(t *testing.T) {
	p, err := loadProg("/repo", nil)
	if err != nil {
		t.Fatal(err)
	}
	dbgEngine = func(e *Engine) { fmt.Println(p.fnName(e.entry.Fn), e.Visited, len(e.Funcs)) }
	r := newReport(p, os.Getenv("PROP"))
	t0 := time.Now()
	registry[os.Getenv("PROP")](p, r)
	fmt.Println(time.Since(t0))
}
