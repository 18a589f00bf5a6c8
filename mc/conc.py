"""C28: schedules of the instrumented packages, under the race detector."""
import json, os, subprocess, sys
import overlay


def prepare(run, work):
    """Instruments the packages; returns {target: file} for the overlay."""
    env = run.goenv()
    ldir = os.path.join(work, "instr")
    os.makedirs(ldir)
    l = subprocess.run(["go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Imports", "."],
                       cwd=run.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if l.returncode != 0:
        print("go list failed:\n" + l.stderr.decode()[-3000:])
        sys.exit(2)
    b = os.path.join(work, "instr.bin")
    r = subprocess.run(["go", "build", "-o", b, os.path.join(overlay.HERE, "instr", "main.go")], cwd=work,
                       env=dict(env, GOFLAGS=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("instrumenter does not build:\n" + r.stdout)
        sys.exit(2)
    r = subprocess.run([b, os.path.realpath(run.REPO), ldir], input=l.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        print("instrumentation failed:\n" + r.stderr.decode())
        sys.exit(2)
    res = json.loads(r.stdout)
    rep = dict(res["files"])
    rep[os.path.join(run.REPO, "zzsched", "zzsched.go")] = os.path.join(overlay.HERE, "zzsched", "zzsched.go")
    hc = os.path.join(overlay.HERE, "hc")
    for f in sorted(os.listdir(hc)):
        if f.endswith(".go"):
            rep[os.path.join(run.REPO, "zzverif", f)] = os.path.join(hc, f)
    t = "package main\n\nimport (\n"
    for i, p in enumerate(res["packages"]):
        t += "\tp%d %s\n" % (i, json.dumps(p))
    t += ")\n\nfunc resetPackages() {\n"
    for i, p in enumerate(res["packages"]):
        t += "\tp%d.ZzReset()\n" % i
    t += "}\n"
    p = os.path.join(ldir, "zz_resets.go")
    open(p, "w").write(t)
    rep[os.path.join(run.REPO, "zzverif", "zz_resets.go")] = p
    # standard library: locks that wait cooperatively, pools that forget nothing
    sy = os.path.join(run.GOROOT, "src", "sync")

    def put(name, text):
        q = os.path.join(ldir, "sync_" + name)
        open(q, "w").write(text)
        rep[os.path.join(sy, name)] = q
    t = overlay.read(os.path.join(sy, "mutex.go"))
    t = overlay.sub1(t, r"^func \(m \*Mutex\) Lock\(\) \{$", "func (m *Mutex) Lock() {\n\tif VerifBlock != nil {\n\t\tfor !m.TryLock() {\n\t\t\tVerifBlock()\n\t\t}\n\t\treturn\n\t}", 1)
    put("mutex.go", t)
    t = overlay.read(os.path.join(sy, "rwmutex.go"))
    t = overlay.sub1(t, r"^func \(rw \*RWMutex\) Lock\(\) \{$", "func (rw *RWMutex) Lock() {\n\tif VerifBlock != nil {\n\t\tfor !rw.TryLock() {\n\t\t\tVerifBlock()\n\t\t}\n\t\treturn\n\t}", 1)
    t = overlay.sub1(t, r"^func \(rw \*RWMutex\) RLock\(\) \{$", "func (rw *RWMutex) RLock() {\n\tif VerifBlock != nil {\n\t\tfor !rw.TryRLock() {\n\t\t\tVerifBlock()\n\t\t}\n\t\treturn\n\t}", 1)
    put("rwmutex.go", t)
    t = overlay.read(os.path.join(sy, "pool.go"))
    t = overlay.sub1(t, r"if runtime_randn\(4\) == 0 \{", "if false {", 1)
    put("pool.go", t)
    put("zz_verif.go", "package sync\n\n// VerifBlock, when set, is called while a lock is taken by another goroutine.\nvar VerifBlock func()\n")
    return rep


def build_instrumented(run, work):
    os.environ["VERIF_RACE"] = "1"
    return run.build(work, race=True, instrument=prepare(run, work))


def run(runmod, pid, tier, work, t0):
    b = build_instrumented(runmod, work)
    return runmod.decide(pid, tier, work, t0, b=b)
