package syscall

// VerifEvent is one file operation offered to the harness.
type VerifEvent struct {
	Op    string
	Path  string
	Path2 string
	FD    int // with a relative Path: the directory it is relative to
	FD2   int // ... and Path2
	Buf   []byte
	Flags int
	Perm  uint32
	Len   int64

	Done bool // set by the hook: do not perform the operation
	N    int
	Err  error
}

// VerifBefore and VerifAfter, when set, see every file operation.
var VerifBefore, VerifAfter func(*VerifEvent)

func verif1(ev *VerifEvent, f func() error) error {
	if b := VerifBefore; b != nil {
		b(ev)
		if ev.Done {
			return ev.Err
		}
	}
	ev.Err = f()
	if a := VerifAfter; a != nil {
		a(ev)
	}
	return ev.Err
}

func verif2(ev *VerifEvent, f func() (int, error)) (int, error) {
	if b := VerifBefore; b != nil {
		b(ev)
		if ev.Done {
			return ev.N, ev.Err
		}
	}
	ev.N, ev.Err = f()
	if a := VerifAfter; a != nil {
		a(ev)
	}
	return ev.N, ev.Err
}

func Open(path string, mode int, perm uint32) (fd int, err error) {
	if VerifBefore == nil {
		return verifOpen(path, mode, perm)
	}
	return verif2(&VerifEvent{Op: "open", Path: path, FD: -1, Flags: mode, Perm: perm}, func() (int, error) { return verifOpen(path, mode, perm) })
}

func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if VerifBefore == nil {
		return verifOpenat(dirfd, path, flags, mode)
	}
	return verif2(&VerifEvent{Op: "open", Path: path, FD: dirfd, Flags: flags, Perm: mode}, func() (int, error) { return verifOpenat(dirfd, path, flags, mode) })
}

func Access(path string, mode uint32) (err error) {
	if VerifBefore == nil {
		return verifAccess(path, mode)
	}
	return verif1(&VerifEvent{Op: "access", Path: path, FD: -1}, func() error { return verifAccess(path, mode) })
}

func Chmod(path string, mode uint32) (err error) {
	if VerifBefore == nil {
		return verifChmod(path, mode)
	}
	return verif1(&VerifEvent{Op: "chmod", Path: path, FD: -1, Perm: mode}, func() error { return verifChmod(path, mode) })
}

func Link(oldpath string, newpath string) (err error) {
	if VerifBefore == nil {
		return verifLink(oldpath, newpath)
	}
	return verif1(&VerifEvent{Op: "link", Path: oldpath, Path2: newpath, FD: -1}, func() error { return verifLink(oldpath, newpath) })
}

func Symlink(oldpath string, newpath string) (err error) {
	if VerifBefore == nil {
		return verifSymlink(oldpath, newpath)
	}
	return verif1(&VerifEvent{Op: "symlink", Path: newpath, Path2: oldpath, FD: -1}, func() error { return verifSymlink(oldpath, newpath) })
}

func Rename(oldpath string, newpath string) (err error) {
	if VerifBefore == nil {
		return verifRename(oldpath, newpath)
	}
	return verif1(&VerifEvent{Op: "rename", Path: oldpath, Path2: newpath, FD: -1}, func() error { return verifRename(oldpath, newpath) })
}

func Mkdir(path string, mode uint32) (err error) {
	if VerifBefore == nil {
		return verifMkdir(path, mode)
	}
	return verif1(&VerifEvent{Op: "mkdir", Path: path, FD: -1, Perm: mode}, func() error { return verifMkdir(path, mode) })
}

func Rmdir(path string) error {
	if VerifBefore == nil {
		return verifRmdir(path)
	}
	return verif1(&VerifEvent{Op: "rmdir", Path: path, FD: -1}, func() error { return verifRmdir(path) })
}

func Unlink(path string) error {
	if VerifBefore == nil {
		return verifUnlink(path)
	}
	return verif1(&VerifEvent{Op: "unlink", Path: path, FD: -1}, func() error { return verifUnlink(path) })
}

func UtimesNano(path string, ts []Timespec) (err error) {
	if VerifBefore == nil {
		return verifUtimesNano(path, ts)
	}
	return verif1(&VerifEvent{Op: "utimes", Path: path, FD: -1}, func() error { return verifUtimesNano(path, ts) })
}

func Readlink(path string, buf []byte) (n int, err error) {
	if VerifBefore == nil {
		return verifReadlink(path, buf)
	}
	return verif2(&VerifEvent{Op: "readlink", Path: path, FD: -1}, func() (int, error) { return verifReadlink(path, buf) })
}

func Stat(path string, stat *Stat_t) (err error) {
	if VerifBefore == nil {
		return verifStat(path, stat)
	}
	return verif1(&VerifEvent{Op: "stat", Path: path, FD: -1}, func() error { return verifStat(path, stat) })
}

func Lstat(path string, stat *Stat_t) (err error) {
	if VerifBefore == nil {
		return verifLstat(path, stat)
	}
	return verif1(&VerifEvent{Op: "lstat", Path: path, FD: -1}, func() error { return verifLstat(path, stat) })
}

func Truncate(path string, length int64) (err error) {
	if VerifBefore == nil {
		return verifTruncate(path, length)
	}
	return verif1(&VerifEvent{Op: "truncate", Path: path, FD: -1, Len: length}, func() error { return verifTruncate(path, length) })
}

func Read(fd int, p []byte) (n int, err error) {
	if VerifBefore == nil {
		return verifRead(fd, p)
	}
	return verif2(&VerifEvent{Op: "read", FD: fd, Buf: p}, func() (int, error) { return verifRead(fd, p) })
}

func Write(fd int, p []byte) (n int, err error) {
	if VerifBefore == nil {
		return verifWrite(fd, p)
	}
	return verif2(&VerifEvent{Op: "write", FD: fd, Buf: p}, func() (int, error) { return verifWrite(fd, p) })
}

func Pread(fd int, p []byte, offset int64) (n int, err error) {
	if VerifBefore == nil {
		return verifPread(fd, p, offset)
	}
	return verif2(&VerifEvent{Op: "read", FD: fd, Buf: p, Len: offset}, func() (int, error) { return verifPread(fd, p, offset) })
}

func Pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if VerifBefore == nil {
		return verifPwrite(fd, p, offset)
	}
	return verif2(&VerifEvent{Op: "pwrite", FD: fd, Buf: p, Len: offset}, func() (int, error) { return verifPwrite(fd, p, offset) })
}

func Close(fd int) (err error) {
	if VerifBefore == nil {
		return verifClose(fd)
	}
	return verif1(&VerifEvent{Op: "close", FD: fd}, func() error { return verifClose(fd) })
}

func Fchmod(fd int, mode uint32) (err error) {
	if VerifBefore == nil {
		return verifFchmod(fd, mode)
	}
	return verif1(&VerifEvent{Op: "fchmod", FD: fd, Perm: mode}, func() error { return verifFchmod(fd, mode) })
}

func Fsync(fd int) (err error) {
	if VerifBefore == nil {
		return verifFsync(fd)
	}
	return verif1(&VerifEvent{Op: "fsync", FD: fd}, func() error { return verifFsync(fd) })
}

func Fdatasync(fd int) (err error) {
	if VerifBefore == nil {
		return verifFdatasync(fd)
	}
	return verif1(&VerifEvent{Op: "fsync", FD: fd}, func() error { return verifFdatasync(fd) })
}

func Flock(fd int, how int) (err error) {
	if VerifBefore == nil {
		return verifFlock(fd, how)
	}
	return verif1(&VerifEvent{Op: "flock", FD: fd, Flags: how}, func() error { return verifFlock(fd, how) })
}

func Fstat(fd int, stat *Stat_t) (err error) {
	if VerifBefore == nil {
		return verifFstat(fd, stat)
	}
	return verif1(&VerifEvent{Op: "fstat", FD: fd}, func() error { return verifFstat(fd, stat) })
}

func Ftruncate(fd int, length int64) (err error) {
	if VerifBefore == nil {
		return verifFtruncate(fd, length)
	}
	return verif1(&VerifEvent{Op: "ftruncate", FD: fd, Len: length}, func() error { return verifFtruncate(fd, length) })
}

// VerifAt1 and VerifAt2 offer an operation relative to an open directory.
func VerifAt1(ev *VerifEvent, f func() error) error {
	if VerifBefore == nil {
		return f()
	}
	return verif1(ev, f)
}

func VerifAt2(ev *VerifEvent, f func() (int, error)) (int, error) {
	if VerifBefore == nil {
		return f()
	}
	return verif2(ev, f)
}

// Unhooked operations for the harness itself.
func VerifRawWrite(fd int, p []byte) (int, error) { return verifWrite(fd, p) }
func VerifRawFtruncate(fd int, n int64) error     { return verifFtruncate(fd, n) }
func VerifRawStat(path string, st *Stat_t) error  { return verifLstat(path, st) }
func VerifRawReadlink(path string) string {
	var b [4096]byte
	n, err := verifReadlink(path, b[:])
	if err != nil {
		return ""
	}
	return string(b[:n])
}
func VerifRawUtimes(path string, sec, nsec int64) error {
	ts := []Timespec{{sec, nsec}, {sec, nsec}}
	return verifUtimesNano(path, ts)
}
