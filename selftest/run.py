#!/usr/bin/env python3
"""Self-test of the checker on variants of the repository's source.

Each variant in selftest/variants/*.py edits some files (through an overlay,
/repo is not touched).  Variants marked caught must be reported by the named
property, variants marked quiet (behaviour-preserving edits) must not be
reported by any property.
usage: run.py [-p PROP] [-k SUBSTR] [-j N]
"""
import argparse, glob, json, os, subprocess, sys, tempfile, runpy, shutil
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
repo = os.environ.get("VERIF_REPO", "/repo")
ap = argparse.ArgumentParser()
ap.add_argument("-p"); ap.add_argument("-k"); ap.add_argument("-j", type=int, default=6)
ap.add_argument("--build", action="store_true", help="also compile each variant")
ap.add_argument("-f", default="*", help="variant file")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
subprocess.check_call(["bash", verif + "/run.sh", "none"])
variants = []
for f in sorted(glob.glob(here + "/variants/" + a.f + ".py")):
    variants += runpy.run_path(f)["V"]

def run(v):
    name, prop, expect, edits = v
    d = tempfile.mkdtemp(prefix="vself")
    try:
        rep, content = {}, {}
        for (file, old, new) in edits:
            p = os.path.join(repo, file)
            s = content.get(p) or (open(p).read() if os.path.exists(p) else "")
            if old is None:
                s = new if not s else s + new
            else:
                if s.count(old) < 1:
                    return name, "STALE", "edit does not apply: " + old[:60]
                s = s.replace(old, new, 1)
            content[p] = s
        for i, (p, s) in enumerate(content.items()):
            q = os.path.join(d, "%d.go" % i)
            open(q, "w").write(s)
            rep[p] = q
        ov = os.path.join(d, "ov.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        if a.build:
            r = subprocess.run(". /opt/vp/env.sh; cd %s && go1.24 build -overlay %s ./..." % (repo, ov), shell=True, capture_output=True, text=True)
            if r.returncode:
                return name, "NOBUILD", r.stderr
        os.makedirs(d + "/evidence")
        if os.path.exists(verif + "/known_findings.txt"):
            shutil.copy(verif + "/known_findings.txt", d)
        props = prop if expect == "caught" else "all"
        r = subprocess.run([verif + "/.build/vchecker", "-repo", repo, "-verif", d, "-overlay", ov, "-property", props], capture_output=True, text=True)
        if r.returncode not in (0, 1):
            return name, "ERROR", r.stdout + r.stderr
        if "does not type-check" in r.stderr:
            return name, "NOBUILD", r.stderr
        got = "caught" if r.returncode == 1 else "quiet"
        lines = [l for l in r.stdout.splitlines() if not l.startswith("OK") and not l.startswith("KNOWN")]
        return name, ("ok" if got == expect else "MISMATCH want %s got %s" % (expect, got)), "\n".join(lines)
    finally:
        shutil.rmtree(d)

sel = [v for v in variants if (not a.p or a.p == v[1]) and (not a.k or a.k in v[0])]
bad = 0
with ThreadPoolExecutor(a.j) as ex:
    for name, res, out in ex.map(run, sel):
        if res != "ok":
            bad += 1
        if res != "ok" or a.v:
            print("%-40s %s" % (name, res))
            print("    " + out.replace("\n", "\n    ")[:1500])
print("%d variants, %d mismatches" % (len(sel), bad))
sys.exit(1 if bad else 0)
