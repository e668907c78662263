#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies: patch applies and changes lines of
the base tree, builds, stable tests pass, demo 0 without / nonzero with it, and
what the property's check says.  usage: plant.py [-t] [-c] id...   (-t: run the
test suite, -c: run the check)"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "733c1b4"
def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def net(cmd): return "unshare -Urn bash -c 'ip link set lo up; %s'" % cmd
stable = json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    if isinstance(x, dict):
        for k in ("stable", "passed", "pass", "tests"):
            if k in x: return names(x[k])
    return [i if isinstance(i, str) else i.get("name") for i in x] if not isinstance(x, dict) else list(x)
STABLE = set(names(stable))
BASELINES = set()
for f in sh("git -C /repo ls-tree -r --name-only %s" % BASE).stdout.split("\n"):
    if f.endswith((".go", ".py")): BASELINES |= set(sh("git -C /repo show %s:'%s'" % (BASE, f)).stdout.split("\n"))
def one(bid, tests, check):
    d = os.path.join(here, "seeded", bid)
    meta = json.load(open(d + "/meta.json"))
    s = "/tmp/pb/" + bid
    out = [bid]
    try:
        sh("rm -rf %s; mkdir -p %s; cp -a /repo %s/repo; cp -a %s %s/demo; rm -f %s/demo/*.diff %s/demo/meta.json" % (s, s, s, d, s, s, s))
        r = sh(net("cd %s/repo && timeout 300 bash %s/demo/demo.sh" % (s, s)))
        out.append("demo-clean=%d" % r.returncode)
        if r.returncode: out.append(r.stdout[-1500:])
        r = sh("cd %s/repo && git apply %s/patch.diff && git diff" % (s, d))
        if r.returncode: return bid, "APPLY FAILED " + r.stdout
        new = [l[1:] for l in r.stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not new: out.append("(pure addition)")
        for l in new:
            if l not in BASELINES: out.append("not a base line: " + l)
        r = sh("cd %s/repo && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= && cp go.mod go.sum %s/ && go mod edit -require=github.com/BurntSushi/toml@v0.3.1 %s/go.mod && go build -mod=mod -modfile=%s/go.mod ./... " % (s, s, s, s))
        if r.returncode: return bid, "BUILD FAILED " + r.stdout
        r = sh(net("cd %s/repo && timeout 300 bash %s/demo/demo.sh" % (s, s)))
        out.append("demo-bug=%d" % r.returncode)
        if r.returncode == 0: out.append("!!!")
        elif os.environ.get("V"): out.append(r.stdout[-1500:])
        if tests:
            sh("mkdir %s/vp; cp -a /opt/vp/. %s/vp/; sed -i 's#/opt/vp#%s/vp#g; s#/repo#%s/repo#g' %s/vp/*.sh" % (s, s, s, s, s))
            r = sh(net("bash %s/vp/test.sh %s/res.json" % (s, s)))
            res = json.load(open(s + "/res.json"))
            p = set(names(res.get("passed", res)))
            miss = STABLE - p
            out.append("tests=%d/%d" % (len(STABLE & p), len(STABLE)) + ("" if not miss else " MISSING %s" % sorted(miss)))
        if check:
            r = sh("REPO=%s/repo VERIF_OUT=%s/ev timeout 900 bash %s/check.sh %s" % (s, s, here, meta["property"]))
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            out.append("check %s rc=%d %s" % (meta["property"], r.returncode, v[:1] or ("MISSED" if r.returncode == 0 else r.stdout[-800:])))
    finally:
        sh("rm -rf " + s)
    return bid, " ".join(out)
args = sys.argv[1:]
t = "-t" in args; c = "-c" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(here + "/seeded"))
with ThreadPoolExecutor(3 if c else 5) as ex:
    for bid, o in ex.map(lambda b: one(b, t, c), ids): print(o, flush=True)
