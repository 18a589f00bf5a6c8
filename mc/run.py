#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough   - decide one property on /repo's current working tree
   run.py replay FILE               - re-execute one recorded execution

Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Exit 2: error of the check."""
import array, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import overlay

REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.26.10"
LIMIT = {"quick": 300.0, "thorough": 3000.0}


def goenv():
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly -buildvcs=false", CGO_ENABLED="0",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"), HOME="/root",
             PATH=GOROOT + "/bin:/usr/local/bin:/usr/bin:/bin")
    e.pop("GOEXPERIMENT", None)
    return e


def build(work, race=False, instrument=None, out="mc.bin"):
    ov = overlay.make(GOROOT, REPO, work, instrument=instrument)
    b = os.path.join(work, out)
    env = goenv()
    cmd = ["go", "build", "-overlay", ov, "-o", b]
    if race:
        env["CGO_ENABLED"] = "1"
        cmd += ["-race"]
    cmd += ["./zzverif"]
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("BUILD FAILED\n" + r.stdout[-6000:])
        sys.exit(2)
    return b


def buildcmd(work):
    """The program itself, as its users build it."""
    r = subprocess.run(["go", "build", "-o", os.path.join(work, "rdap.bin"), "./cmd/rdap"], cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("BUILD FAILED\n" + r.stdout[-6000:])
        sys.exit(2)


def childenv(work):
    e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(work, "home"), "TMPDIR": os.path.join(work, "tmp"),
         "GOMEMLIMIT": "3GiB", "GOTRACEBACK": "single", "GODEBUG": ""}
    if os.path.exists(os.path.join(work, "rdap.bin")):
        e["VERIF_RDAP"] = os.path.join(work, "rdap.bin")
    if os.environ.get("VERIF_RACE"):
        e.update(GORACE="halt_on_error=1 exitcode=66 history_size=4", GOMAXPROCS="1")
    os.makedirs(e["HOME"], exist_ok=True)
    os.makedirs(e["TMPDIR"], exist_ok=True)
    return e


def progvec(path):
    try:
        b = open(path, "rb").read()
        n = struct.unpack_from("<I", b, 0)[0] & 0x7FFFFFFF
        return [struct.unpack_from("<I", b, 8 + 4 * i)[0] for i in range(n)]
    except Exception:
        return None


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def spawn(b, args, work, log):
    return subprocess.Popen([b] + args, cwd=work, env=childenv(work), stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def rss(pid):
    try:
        for l in open("/proc/%d/status" % pid):
            if l.startswith("VmRSS"):
                return int(l.split()[1]) * 1024
    except Exception:
        pass
    return 0


def write_replay(pid, tier, rec):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % pid)
    rec = dict(rec, property=pid, tier=tier, how="python3 /verif/mc/run.py replay " + p)
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


MEMCAP = 10 << 30
SCRATCH = [None]


def scratchdir(work):
    """Scratch files of the code under test: in memory when possible."""
    if SCRATCH[0] is None:
        try:
            SCRATCH[0] = tempfile.mkdtemp(prefix="verif_", dir="/dev/shm")
        except OSError:
            SCRATCH[0] = os.path.join(work, "scratch")
    return SCRATCH[0]


def explore(b, pid, tier, work, shards, limit):
    procs = []
    scratch = scratchdir(work)
    for i in range(shards):
        sc = os.path.join(scratch, str(i))
        os.makedirs(sc, exist_ok=True)
        out = os.path.join(work, "out%d" % i)
        log = open(out + ".log", "wb")
        procs.append((i, out, spawn(b, ["check=" + pid, "tier=" + tier, "shard=%d/%d" % (i, shards), "out=" + out,
                                        "limit=%g" % limit, "scratch=" + sc], work, log)))
    bad = weak = None
    live = list(procs)
    hard = time.time() + limit + 400
    while live:
        time.sleep(0.05)
        for t in list(live):
            i, out, p = t
            if p.poll() is not None:
                live.remove(t)
                if os.path.exists(out):
                    r = json.load(open(out))
                    if r["outcome"] == "violation" and r["repro"] < 5:
                        # other shards may find one that reproduces every time
                        if weak is None or r["repro"] > weak[1]["repro"]:
                            weak = ("result", r, out)
                    elif r["outcome"] != "ok":
                        bad = ("result", r, out)
                else:
                    bad = ("crash", p.returncode, out)
            elif rss(p.pid) > MEMCAP:
                kill(p)
                p.wait()
                live.remove(t)
                bad = ("memory", MEMCAP, out)
        if bad:
            break
        if time.time() > hard:
            for _, _, p in live:
                kill(p)
            return None, ("error", "shards did not stop", "")
    bad = bad or weak
    for _, _, p in live:
        kill(p)
        p.wait()
    res = []
    for i, out, p in procs:
        if os.path.exists(out):
            res.append((json.load(open(out)), out))
    return res, bad


def confirm_crash(b, pid, tier, work, out, vec):
    """A process that died is believed only if the same execution dies again, three times."""
    rp = os.path.join(work, "crash.json")
    json.dump({"trace": vec, "tier": tier}, open(rp, "w"))
    tail = ""
    hits = 0
    ps = []
    for k in range(3):
        o = os.path.join(work, "confirm%d" % k)
        sc = os.path.join(scratchdir(work), "c%d" % k)
        os.makedirs(sc, exist_ok=True)
        log = open(o + ".log", "wb")
        ps.append((o, spawn(b, ["check=" + pid, "tier=" + tier, "replay=" + rp, "out=" + o, "scratch=" + sc], work, log)))
    t0 = time.time()
    for o, p in ps:
        while p.poll() is None:
            if rss(p.pid) > MEMCAP or time.time() - t0 > 300:
                kill(p)
                hits += 1
                p.wait()
                tail = "does not finish / exhausts memory"
                break
            time.sleep(0.05)
        else:
            log.flush()
            if p.returncode not in (0, 2) or (p.returncode == 2 and crashed(o + ".log")) or "outcome:" not in open(o + ".log", errors="replace").read():
                hits += 1  # (without an outcome: the code under test ended the process)
            tail = tail or open(o + ".log", errors="replace").read()[:3000]
            if os.path.exists(o + ".hang"):
                tail = open(o + ".hang").read()
    return hits == 3, tail


def crashed(log):
    t = open(log, errors="replace").read()
    return "fatal error:" in t or "panic:" in t or "goroutine " in t


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        if pid == "C28":
            import conc
            rc = conc.run(sys.modules[__name__], pid, tier, work, t0)
        else:
            rc = decide(pid, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if SCRATCH[0]:
            shutil.rmtree(SCRATCH[0], ignore_errors=True)
    return rc


def decide(pid, tier, work, t0, b=None, extra=None):
    if b is None:
        b = build(work)
    if pid == "C24":
        buildcmd(work)
    tb = time.time() - t0
    limit = float(os.environ.get("VERIF_LIMIT", LIMIT[tier]))
    shards = int(os.environ.get("VERIF_SHARDS", "8"))
    res, bad = explore(b, pid, tier, work, shards, limit)
    msg = None
    rec = None
    if bad:
        kind, info, out = bad
        if kind == "error":
            print("ERROR", info)
            return 2
        if kind == "result":
            if info["outcome"] == "error":
                print("HARNESS ERROR:", info["msg"], "\n", "\n ".join((info.get("labels") or []) + (info.get("notes") or [])))
                return 2
            if info["repro"] == 0:
                print("not reproducible (%d/5): %s" % (info["repro"], info["msg"][:2000]))
                print("\n".join(info.get("labels") or []))
                return 2
            msg = info["msg"]
            if info["repro"] < 5:
                msg += "\n(the same choices lead to a violation in %d of 5 further runs: the code under test is not deterministic)" % info["repro"]
            rec = {"trace": info["trace"], "choices": info["labels"], "notes": info["notes"], "message": msg}
        else:
            vec = progvec(out + ".prog")
            log = open(out + ".log", errors="replace").read()
            if vec is None:
                print("shard died before its first execution:\n" + log[-3000:])
                return 2
            ok, viol = False, None
            if os.path.exists(out + ".viol"):
                viol = json.load(open(out + ".viol"))
                ok, tail = confirm_crash(b, pid, tier, work, out, viol["trace"])
            if not ok:
                viol = None
                ok, tail = confirm_crash(b, pid, tier, work, out, vec)
            if not ok:
                print("a shard ended abnormally (%s %s) but not reproducibly:\n%s" % (kind, info, log if len(log) < 9000 else "\n".join(l for l in log.splitlines() if "runOnce" not in l and "explore" not in l and "core.go:233" not in l and "core.go:332" not in l)[:9000] + "\n...\n" + log[-3000:]))
                return 2
            msg = "the code under test crashes, hangs or exhausts memory: " + tail
            rec = {"trace": vec, "message": msg}
            if viol:
                msg = viol["msg"]
                rec = {"trace": viol["trace"], "choices": viol["labels"], "notes": viol["notes"], "message": msg}
    evidence(pid, tier, res or [], t0, tb, 1 if msg else 0, extra)
    if msg:
        p = write_replay(pid, tier, rec)
        print(msg[:4000])
        for n in (rec.get("choices") or [])[:80]:
            print("  choice", n)
        for n in (rec.get("notes") or [])[:80]:
            print("  note", n)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    findings(pid)
    cases = sum(r["cases"] for r, _ in res)
    print("OK property=%s tier=%s executions=%d exhaustive=%s wall=%.1fs (build %.1fs)" % (
        pid, tier, cases, all(r["exhaustive"] for r, _ in res), time.time() - t0, tb))
    return 0


def findings(pid):
    """KNOWN-FINDING lines for defects recorded (not repaired); the drivers leave exactly these out."""
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())


def evidence(pid, tier, res, t0, tb, violations, extra=None):
    states = set()
    for r, out in res:
        try:
            a = array.array("Q")
            a.frombytes(open(out + ".states", "rb").read())
            states.update(a)
        except FileNotFoundError:
            pass
    samples = []
    for r, _ in res:
        samples += (r.get("samples") or [])[:2]
    bounds = next((r["bounds"] for r, _ in res if r.get("bounds")), None)
    cov = {
        "states": len(states),
        "transitions": sum(r["steps"] for r, _ in res),
        "traces_validated_against_impl": sum(r["cases"] for r, _ in res),
        "samples": samples[:8] or ["none"],
        "exhaustive": bool(res) and all(r["exhaustive"] for r, _ in res) and not violations,
        "rule": next((r["rule"] for r, _ in res), ""),
        "bounds": bounds or {},
        "max_depth": max([r["max_depth"] for r, _ in res] or [0]),
        "executions_replayed_for_determinism": sum(r["replayed"] for r, _ in res),
        "replays_that_diverged": sum(r["diverged"] for r, _ in res),
        "build_s": round(tb, 2),
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": cov,
        "assumptions": next((r["assumptions"] for r, _ in res if r.get("assumptions")), []) or [],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        pid = rec["property"]
        if pid == "C28":
            import conc
            b = conc.build_instrumented(sys.modules[__name__], work)
        else:
            b = build(work)
        if pid == "C24":
            buildcmd(work)
        sc = os.path.join(scratchdir(work), "replay")
        os.makedirs(sc)
        return subprocess.run([b, "check=" + pid, "replay=" + os.path.abspath(path), "scratch=" + sc], cwd=work,
                              env=childenv(work)).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if SCRATCH[0]:
            shutil.rmtree(SCRATCH[0], ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
