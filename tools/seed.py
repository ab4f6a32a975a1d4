#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from a specification and validates it in a scratch copy.

A specification is a directory with bug.py (ID, PROPERTY, NEEDS, BREAKS, PKG, EDITS = [(file, old, new)],
optional RACE, ENV, NTH) and demo_test.go (or main demo). Usage: seed.py SPECDIR..."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOENV="off", GOWORK="off", GOTOOLCHAIN="local",
           GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=readonly")
def sh(cmd, cwd, timeout=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b
def tests(cwd):
    rc, out = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd)
    return rc == 0, out
DEMO = '''#!/bin/bash
# run in the root of the repository: exit 0 if the property holds, 1 if it is violated
D=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOPATH="${GOPATH:-/root/go}" GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s %(race)s-run '^TestDemo$' ./%(pkg)s
'''
def one(spec):
    g = {}
    exec(open(os.path.join(spec, "bug.py")).read(), g)
    bid = g["ID"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        dst = os.path.join(tmp, "d"); os.makedirs(dst)
        shutil.copy(os.path.join(spec, "demo_test.go"), dst)
        with open(os.path.join(dst, "demo.sh"), "w") as f:
            f.write(DEMO % {"pkg": g["PKG"], "race": "-race " if g.get("RACE") else ""})
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        rc, out = sh([os.path.join(dst, "demo.sh")], w)
        if rc != 0:
            print(bid, "FAIL demo on clean tree:", out[-1500:]); return False
        for e in g["EDITS"]:
            f, old, new = e[:3]
            p = os.path.join(w, f); s = open(p).read()
            n = s.count(old)
            k = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and k is None):
                print(bid, "FAIL edit matches", n, "times:", old); return False
            if k is None:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(s)
        rc, out = sh(["go", "build", "./..."], w)
        if rc != 0:
            print(bid, "FAIL build:", out); return False
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
        # lines changed must be original ones
        rc, out = sh([os.path.join(dst, "demo.sh")], w)
        if rc == 0:
            print(bid, "FAIL demo passes with the bug"); return False
        first = [l for l in out.splitlines() if "demo" in l or "panic" in l or "RACE" in l][:3]
        fails = 0
        for _ in range(4):
            r2, _o = sh([os.path.join(dst, "demo.sh")], w)
            fails += r2 != 0
        if fails < 4:
            print(bid, "FAIL demo is flaky with the bug:", fails); return False
        ok, out = tests(w)
        if not ok:
            print(bid, "FAIL existing tests detect it:", out[-800:]); return False
        sd = os.path.join(V, "seeded", bid)
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        for f in os.listdir(dst):
            shutil.copy(os.path.join(dst, f), sd)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        print(bid, "ok:", "; ".join(first)[:300]); return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, sys.argv[1:]))
