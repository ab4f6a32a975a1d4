#!/usr/bin/env python3
"""Development tool: runs the checks of the touched packages against scratch copies of /repo with
behaviour-preserving edits (refactorings/*.diff); all must stay quiet. runref.py [-j N] [NAME...]"""
import os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 1
if "-j" in args:
    k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
PK = {"parallel": ["A", "D04", "E01", "E05"], "speculative": ["B", "A02", "D06"], "sequential": ["A", "B", "C"],
      "sync": ["D"], "sort": ["E"], "pipeline": ["F"], "internal": ["A", "B", "C", "D", "E", "F"]}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
names = args or sorted(f[:-5] for f in os.listdir(os.path.join(V, "refactorings")) if f.endswith(".diff"))
def one(b):
    d = os.path.join(V, "refactorings", b + ".diff")
    pk = set(re.findall(r"^\+\+\+ b/(\w+)/", open(d).read(), re.M))
    pre = sorted({q for k in pk for q in PK.get(k, ["A", "B", "C", "D", "E", "F"])})
    tmp = tempfile.mkdtemp(prefix="rr-")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        subprocess.check_call(["git", "apply", d], cwd=w)
        v = os.path.join(tmp, "verif")
        shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        hits = []
        n = 0
        for p in props:
            if not any(p.startswith(q) for q in pre):
                continue
            n += 1
            r = subprocess.run([os.path.join(v, "bin/check"), p], cwd=v, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            cov = json.load(open(os.path.join(v, "evidence", p + ".json")))["coverage"] if r.returncode == 0 else {}
            if r.returncode != 0:
                hits.append("ALARM %s rc=%d %s" % (p, r.returncode, r.stdout[-1500:]))
            elif cov.get("notes") or cov.get("native_mismatches") or cov.get("unreproducible"):
                hits.append("note %s %s" % (p, str([cov.get("notes"), cov["native_mismatches"], cov["unreproducible"]])[:400]))
        print(b, n, "checks |", "\n     ".join(hits) or "quiet", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, names))
