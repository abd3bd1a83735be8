#!/usr/bin/env python3
"""Make and validate planted bugs.  Specs: tools/seeds/*.py, each with SEEDS = [dict(id, property, edits, pkg, test, needs, breaks)].
usage: seed.py make [ID...] ; seed.py demo ID... ; seed.py tests ID... ; seed.py checks ID..."""
import sys, os, glob, runpy, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = {}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    for s in runpy.run_path(f)["SEEDS"]:
        seeds[s["id"]] = s
cmd, ids = sys.argv[1], sys.argv[2:] or list(seeds)
DEMO = '''#!/bin/bash
# run with cwd = repository root
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
go1.24 test %(flags)s -overlay "$t/overlay.json" -vet=off -count=1 -timeout %(timeout)s -run '^TestZZ' ./%(pkg)s
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def scratch(s=None):
    d = tempfile.mkdtemp(prefix="seed")
    sh(f"cp -a /repo {d}/repo && git -C {d}/repo checkout -q -- . && git -C {d}/repo clean -fdq", check=True)
    if s:
        sh(f"git -C {d}/repo apply {V}/seeded/{s['id']}/patch.diff", check=True)
    return d
for i in ids:
    s = seeds[i]; out = f"{V}/seeded/{i}"
    if cmd == "make":
        d = scratch()
        for (f, a, b) in s["edits"]:
            p = f"{d}/repo/{f}"; t = open(p).read()
            assert t.count(a) == 1, (i, f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        r = sh(f"cd {d}/repo && gofmt -l $(git diff --name-only) && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go1.24 build ./...", capture_output=True, text=True)
        if r.returncode or r.stdout: print(i, "BUILD/FMT", r.stdout, r.stderr[-800:])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        sh(f"git -C {d}/repo diff > {out}/patch.diff", check=True)
        open(out + "/demo_test.go", "w").write(s["test"].lstrip())
        open(out + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], flags=s.get("flags", ""), timeout=s.get("timeout", "60s")))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
    if cmd in ("make", "demo"):
        for mod in (None, s):
            d = scratch(mod)
            r = sh(f"cd {d}/repo && bash {out}/demo.sh", capture_output=True, text=True)
            ok = (r.returncode == 0) == (mod is None)
            print(i, "unchanged" if mod is None else "patched", "rc", r.returncode, "ok" if ok else "WRONG", flush=True)
            if not ok: print((r.stdout + r.stderr)[-1500:])
            elif mod: print("   ", [l for l in (r.stdout+r.stderr).splitlines() if "FAIL" not in l][:3])
            shutil.rmtree(d)
    if cmd == "tests":
        d = scratch(s)
        r = sh(f"cd {d}/repo && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go1.24 test -vet=off -count=1 -p 1 -timeout 10m $(go1.24 list ./... | grep -v 'launcher-go/pipelines$') 2>&1 | grep -v 'no test files\\|^ok'", capture_output=True, text=True)
        print(i, "tests:", r.stdout[-600:] or "pass", flush=True)
        shutil.rmtree(d)
    if cmd == "checks":
        sh(f"git -C /repo apply {out}/patch.diff", check=True)
        try:
            r = sh(f"bash {V}/run.sh {s['property']} quick", capture_output=True, text=True)
            print(i, "caught" if r.returncode == 1 and f"VIOLATION property={s['property']}" in r.stdout else "MISSED", flush=True)
        finally:
            sh("git -C /repo checkout -q -- .")
