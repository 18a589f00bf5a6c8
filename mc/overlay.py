"""Makes the build overlay: harness sources + generated patches of the Go standard library.

Patches are made from the installed GOROOT at check time; a pattern that does not match is an error."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))


class OverlayError(Exception):
    pass


def sub1(text, pat, rep, count=None):
    new, n = re.subn(pat, rep, text, flags=re.M)
    if n == 0 or (count is not None and n != count):
        raise OverlayError("pattern %r matched %d times" % (pat, n))
    return new


def read(p):
    with open(p) as f:
        return f.read()


def make(goroot, repo, work, race=False, instrument=None):
    src = os.path.join(goroot, "src")
    ov = os.path.join(work, "ov")
    os.makedirs(ov, exist_ok=True)
    rep = {}
    cnt = [0]

    def put(target, content):
        cnt[0] += 1
        p = os.path.join(ov, "%03d_%s" % (cnt[0], os.path.basename(target)))
        with open(p, "w") as f:
            f.write(content)
        rep[target] = p

    # harness
    hdir = os.path.join(HERE, "h")
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".go"):
            rep[os.path.join(repo, "zzverif", f)] = os.path.join(hdir, f)

    # map iteration order and hash seeds
    maps = os.path.join(src, "internal/runtime/maps")
    t = read(os.path.join(maps, "table.go"))
    t = sub1(t, r"it\.entryOffset = rand\(\)", "it.entryOffset = verifIter()", 1)
    t = sub1(t, r"it\.dirOffset = rand\(\)", "it.dirOffset = verifIter()", 1)
    put(os.path.join(maps, "table.go"), t)
    t = read(os.path.join(maps, "map.go"))
    t = sub1(t, r"m\.seed = uintptr\(rand\(\)\)", "m.seed = uintptr(verifSeed())")
    put(os.path.join(maps, "map.go"), t)
    put(os.path.join(maps, "zz_verif.go"), """package maps

var VerifOn bool
var VerifIterVal uint64

func verifIter() uint64 {
	if VerifOn {
		return VerifIterVal
	}
	return rand()
}

func verifSeed() uint64 {
	if VerifOn {
		return 0x5bd1e995
	}
	return rand()
}
""")
    rt = os.path.join(src, "runtime")
    t = read(os.path.join(rt, "alg.go"))
    t = sub1(t, r"hashkey\[i\] = uintptr\(bootstrapRand\(\)\)", "hashkey[i] = uintptr(0x9E3779B97F4A7C15*uint64(i+1))", 1)
    t = sub1(t, r"key\[i\] = bootstrapRand\(\)", "key[i] = 0x9E3779B97F4A7C15 * uint64(i+1)", 1)
    put(os.path.join(rt, "alg.go"), t)
    put(os.path.join(rt, "zz_verif.go"), """package runtime

import "internal/runtime/maps"

// VerifDeterministic fixes map seeds and iteration starts.
func VerifDeterministic(on bool) { maps.VerifOn = on }

// VerifGoid identifies the running goroutine.
func VerifGoid() uint64 { return getg().goid }

// VerifMapIter sets the slot every map iteration starts at.
func VerifMapIter(v uint64) { maps.VerifIterVal = v }
""")
    # virtual time without a *testing.T
    put(os.path.join(src, "testing/synctest/zz_verif.go"), """package synctest

import isynctest "internal/synctest"

// VerifRun runs f in a new bubble.
func VerifRun(f func()) { isynctest.Run(f) }
""")
    # outgoing connections
    nd = os.path.join(src, "net")
    t = read(os.path.join(nd, "dial.go"))
    t = sub1(t, r"^func \(d \*Dialer\) DialContext\(ctx context\.Context, network, address string\) \(Conn, error\) \{$",
             "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
             "\tif VerifDial != nil {\n\t\treturn VerifDial(ctx, network, address)\n\t}", 1)
    put(os.path.join(nd, "dial.go"), t)
    put(os.path.join(nd, "zz_verif.go"), """package net

import "context"

// VerifDial, when set, makes every outgoing connection.
var VerifDial func(ctx context.Context, network, address string) (Conn, error)
""")
    # file operations
    sc = os.path.join(src, "syscall")
    files = {
        "syscall_linux.go": ["Access", "Chmod", "Link", "Mkdir", "Open", "Openat", "Readlink", "Rename", "Rmdir",
                             "Symlink", "Unlink", "UtimesNano"],
        "syscall_linux_amd64.go": ["Stat", "Lstat"],
        "syscall_unix.go": ["Read", "Write", "Pread", "Pwrite"],
        "zsyscall_linux_amd64.go": ["Close", "Fchmod", "Fdatasync", "Flock", "Fsync", "Fstat", "Ftruncate", "Truncate"],
    }
    for f, names in files.items():
        t = read(os.path.join(sc, f))
        for n in names:
            t = sub1(t, r"^func %s\(" % n, "func verif%s(" % n, 1)
        put(os.path.join(sc, f), t)
    put(os.path.join(sc, "zz_verif.go"), read(os.path.join(HERE, "std_syscall.go")))
    # ... and those relative to an open directory (os.Root, os.RemoveAll)
    ux = os.path.join(src, "internal/syscall/unix")
    files = {
        "at.go": ["Unlinkat", "Openat", "Mkdirat", "Renameat", "Linkat"],
        "at_fstatat.go": ["Fstatat"],
    }
    for f, names in files.items():
        t = read(os.path.join(ux, f))
        for n in names:
            t = sub1(t, r"^func %s\(" % n, "func verif%s(" % n, 1)
        put(os.path.join(ux, f), t)
    put(os.path.join(ux, "zz_verif.go"), read(os.path.join(HERE, "std_unix.go")))

    if instrument:
        for target, path in instrument.items():
            rep[target] = path
    p = os.path.join(work, "overlay.json")
    with open(p, "w") as f:
        json.dump({"Replace": rep}, f)
    return p
