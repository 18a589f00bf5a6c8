#!/usr/bin/env python3
"""Mutation analysis of the checks (development aid; nothing registered depends on it).
   stage.py tests ALL.jsonl OUT.jsonl      keep the mutants that build and pass the stable tests
   stage.py checks IN.jsonl OUT.jsonl      run the quick checks of the file a mutant is in, until one reports a violation
Works in scratch copies under /tmp/mut only."""
import json, os, shutil, subprocess, sys, threading, queue, time
ROOT = "/tmp/mut"
BASE = os.environ.get("BASE", "/repo")
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.26.10", PATH="/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin",
           GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=ROOT + "/gocache", GOPROXY="off", GOWORK="off",
           GOFLAGS="-mod=mod -buildvcs=false", VERIF_GOCACHE=ROOT + "/gocache", TMPDIR=ROOT + "/tmp")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MAP = {
    "decoder.go": "C17 C18 C16 C30 C19", "decode_data.go": "C17 C30 C21", "print.go": "C21 C22 C20 C30", "request.go": "C32 C14 C15 C13 C25 C29",
    "response.go": "C23 C24 C30", "vcard.go": "C19 C23 C30 C24", "client.go": "C11 C16 C12 C13 C32 C29 C31 C24", "client_error.go": "C11 C16 C24 C13",
    "cli.go": "C25 C24 C26 C27 C20", "bootstrap/asn_registry.go": "C01", "bootstrap/net_registry.go": "C02", "bootstrap/dns_registry.go": "C03",
    "bootstrap/service_provider_registry.go": "C04", "bootstrap/file.go": "C05 C01 C02 C03 C04", "bootstrap/client.go": "C10 C06 C08 C09 C13 C12 C31 C05",
    "bootstrap/question.go": "C12 C06 C13", "bootstrap/answer.go": "C06", "bootstrap/cache/disk_cache.go": "C07 C08 C09 C10 C26",
    "bootstrap/cache/memory_cache.go": "C07 C06", "bootstrap/cache/registry_cache.go": "C07", "sandbox/file.go": "C26"}


def pkgs(f):
    if f.startswith("bootstrap/cache/"):
        return ["./bootstrap/...", "."]
    if f.startswith("bootstrap/"):
        return ["./bootstrap", "."]
    return ["."]


def apply(r, m):
    p = r + "/" + m["file"]
    s = open(BASE + "/" + m["file"], "rb").read()
    open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])


def restore(r, m):
    shutil.copyfile(BASE + "/" + m["file"], r + "/" + m["file"])


def tests(r, m):
    q = subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if q.returncode:
        return "build"
    try:
        q = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "60s"] + pkgs(m["file"]), cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "killed"
    ok = set()
    seen = set()
    for l in q.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        seen.add(e.get("Package"))
        if e.get("Test") and e["Action"] == "pass":
            ok.add(e["Package"] + "/" + e["Test"])
    need = {t for t in STABLE if t.rsplit("/", 1)[0] in seen or any(t.startswith(s + "/Test") or t.startswith(s + "/Example") for s in seen if s)}
    return "survived" if need <= ok else "killed"


def checks(r, v, m):
    out = []
    for c in MAP.get(m["file"], "C17 C21").split():
        e = dict(ENV, VERIF_REPO=r, VERIF_SHARDS=os.environ.get("SH", "3"))
        t = time.time()
        try:
            q = subprocess.run(["./check", c, "quick"], cwd=v, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            out.append((c, "timeout"))
            continue
        if q.returncode == 1 and "VIOLATION property=" + c in q.stdout:
            return "caught " + c
        if q.returncode != 0:
            out.append((c, "exit %d %s" % (q.returncode, q.stdout[-300:])))
    return "MISSED" + (" " + json.dumps(out) if out else "")


def main():
    mode, src, dst = sys.argv[1:4]
    os.makedirs(ROOT + "/tmp", exist_ok=True)
    done = set()
    if os.path.exists(dst):
        for l in open(dst):
            m = json.loads(l)
            done.add((m["file"], m["start"], m["end"], m["new"]))
    q = queue.Queue()
    n = 0
    for l in open(src):
        m = json.loads(l)
        if mode == "checks" and m.get("tests") != "survived":
            continue
        if (m["file"], m["start"], m["end"], m["new"]) in done:
            continue
        q.put(m)
        n += 1
    print(n, "mutants")
    lock = threading.Lock()
    f = open(dst, "a")

    def work(k):
        r = "%s/w%d/repo" % (ROOT, k)
        v = "%s/w%d/verif" % (ROOT, k)
        shutil.rmtree("%s/w%d" % (ROOT, k), ignore_errors=True)
        os.makedirs(r)
        subprocess.run(["cp", "-a", BASE + "/.", r])
        os.makedirs(v)
        subprocess.run(["cp", "-a", "/verif/mc", "/verif/check", "/verif/KNOWN_FINDINGS.txt", "/verif/properties.jsonl", v])
        os.makedirs(v + "/evidence")
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(r, m)
            try:
                if mode == "tests":
                    m["tests"] = tests(r, m)
                else:
                    m["checks"] = checks(r, v, m)
            except Exception as e:
                m["err"] = repr(e)
            restore(r, m)
            with lock:
                f.write(json.dumps(m) + "\n")
                f.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get("W", "8")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
