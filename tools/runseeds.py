#!/usr/bin/env python3
"""Development tool: runs the checks against scratch copies with planted bugs. runseeds.py [-a] [-j N] [ID...]
(-a: all checks, not only that of the bug's property)"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = "-a" in args
args = [a for a in args if a != "-a"]
j = 1
if "-j" in args:
    k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
def one(b):
    d = os.path.join(V, "seeded", b)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="rs-")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=w)
        # a private copy of the machinery, so that evidence and replays are left alone
        v = os.path.join(tmp, "verif")
        shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        hits = []
        for p in (props if allp else [meta["property"]]):
            t = time.time()
            r = subprocess.run([os.path.join(v, "bin/check"), p], cwd=v, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                first = r.stdout.splitlines()[0]
                hits.append("%s[%.0fs] %s" % (p, time.time() - t, first[:200]))
            elif r.returncode != 0:
                hits.append("%s rc=%d %s" % (p, r.returncode, r.stdout[-300:]))
            elif not allp:
                hits.append("MISSED " + r.stdout.strip()[-200:])
        print(b, "|", "\n     ".join(hits) or "MISSED", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, ids))
