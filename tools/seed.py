#!/usr/bin/env python3
"""seed.py make [ID...]   (re)make /verif/seeded/ID from tools/seeds/*.py and validate it in a scratch copy
   seed.py check [ID...]  run the property's quick check against each planted change (applied to /repo, then undone)
   seed.py check ID Cxx   run another check instead"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, time
V = "/verif"
D = []


def bug(id, prop, edits, demo, dir, needs, breaks):
    D.append(dict(id=id, prop=prop, edits=edits, demo=demo, dir=dir, needs=needs, breaks=breaks))


DEMO = '''#!/bin/bash
# Runs demo.go.txt as a test of the package in /repo's working tree (an overlay: nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo" || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME="$t" XDG_CACHE_HOME="$t/cache" TMPDIR="$t"
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(dir)s/zz_demo_test.go" "$here/demo.go.txt" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s %(flags)s-run '^TestZZDemo$' ./%(dir)s
'''


def load():
    for f in sorted(os.listdir(V + "/tools/seeds")):
        if f.endswith(".py"):
            src = open(V + "/tools/seeds/" + f).read()
            exec(compile(src, f, "exec"), {"bug": bug})


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(b):
    w = tempfile.mkdtemp(prefix="seed_")
    r = w + "/repo"
    try:
        sh(["git", "clone", "-q", "/repo", r])
        for f, old, new in b["edits"]:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES %d TIMES in %s: %r" % (s.count(old), f, old[:80]))
                return False
            open(r + "/" + f, "w").write(s.replace(old, new))
        fm = sh(["bash", "-c", ". /opt/vp/env.sh; gofmt -l $(git diff --name-only)"], cwd=r).stdout.strip()
        if fm:
            print(b["id"], "not gofmt'ed:", fm)
        d = V + "/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        diff = sh(["git", "diff"], cwd=r).stdout
        open(d + "/patch.diff", "w").write(diff)
        flags = "-race " if "RACE" in b["demo"].split("\n")[0] else ""
        open(d + "/demo.sh", "w").write(DEMO % dict(dir=b["dir"], flags=flags))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.go.txt", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build ./... && go test -json -vet=off -count=1 ./..." % r])
        ok = set()
        for l in t.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                ok.add(e["Package"] + "/" + e["Test"])
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
        if miss:
            print(b["id"], "TESTS FAIL / does not build:", miss[:5], t.stdout[-800:] if len(miss) > 50 else "")
            return False
        bad = sh(["bash", d + "/demo.sh"], cwd=r)
        sh(["git", "checkout", "-q", "."], cwd=r)
        good = sh(["bash", d + "/demo.sh"], cwd=r)
        if good.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE\n" + good.stdout[-1500:])
            return False
        if bad.returncode == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG")
            return False
        if "build failed" in bad.stdout:
            print(b["id"], "DEMO DOES NOT BUILD", bad.stdout[-800:])
            return False
        print(b["id"], "ok")
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(id, prop=None):
    d = V + "/seeded/" + id
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if a.returncode != 0:
        print(id, "DOES NOT APPLY", a.stdout)
        return
    t = time.time()
    try:
        r = sh([V + "/check", prop, "quick"], cwd=V)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    caught = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
    print("%-8s %s %-6s rc=%d %.0fs" % (id, prop, "CAUGHT" if caught else "MISSED", r.returncode, time.time() - t), flush=True)
    if r.returncode == 2:
        print(r.stdout[-1500:])
    return caught


load()
cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == "make":
    sel = [b for b in D if not ids or b["id"] in ids]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(make, sel))
    print(sum(map(bool, res)), "of", len(sel))
elif cmd == "check":
    if len(ids) == 2 and ids[1].startswith("C") and len(ids[1]) == 3:
        check(ids[0], ids[1])
    else:
        n = [check(i) for i in (ids or sorted(os.listdir(V + "/seeded")))]
        print(sum(map(bool, n)), "of", len(n), "caught")
