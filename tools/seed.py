#!/usr/bin/env python3
"""seed.py ID...  makes and validates seeded/<ID> from tools/seeds/<ID>.py in a scratch copy of /repo.
A seed file defines PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (Go test source with TestDemo)."""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
ROOT=$(pwd)
printf '{"Replace": {"%s/lens/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$ROOT" "$D" > "$T/o.json"
timeout 280 go test -overlay "$T/o.json" -run '^TestDemo$' -count=1 ./lens
'''
def sh(cmd, cwd=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
ENV = ". /opt/vp/env.sh; "
def one(id):
    ns = {}
    exec(open(f"{V}/tools/seeds/{id}.py").read(), ns)
    w = f"/tmp/seedwt-{id}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {w}")
    try:
        d = f"{V}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.sh", "w").write(DEMO_SH); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo_test.go.txt", "w").write(ns["DEMO"].lstrip())
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
        rc, out = sh(f"{d}/demo.sh", cwd=w)
        if rc != 0: print(id, "DEMO FAILS ON CLEAN TREE\n", out[-3000:]); return False
        for f, old, new in ns["EDITS"]:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1: print(id, "EDIT MATCHES", s.count(old), repr(old)); return False
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        rc, out = sh("git diff", cwd=w)
        open(f"{d}/patch.diff", "w").write(out)
        rc, out = sh(f"{d}/demo.sh", cwd=w)
        if rc == 0: print(id, "DEMO PASSES WITH BUG"); return False
        if "--- FAIL: TestDemo" not in out and "panic:" not in out: print(id, "demo output odd:\n", out[-1500:])
        if "-notest" not in sys.argv:
            rc, out = sh(ENV + "go vet ./lens >/dev/null 2>&1; go test -count=1 ./... 2>&1 | grep -E '^(--- FAIL|FAIL|ok|panic)' | head -20", cwd=w)
            if "FAIL" in out or "panic" in out: print(id, "TESTS FAIL WITH BUG\n", out); return False
        print(id, "ok"); return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-3] for f in os.listdir(f"{V}/tools/seeds"))
bad = [i for i in ids if not one(i)]
print("bad:", bad)
