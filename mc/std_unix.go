package unix

import "syscall"

func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {
	return syscall.VerifAt2(&syscall.VerifEvent{Op: "open", Path: path, FD: dirfd, Flags: flags, Perm: perm}, func() (int, error) { return verifOpenat(dirfd, path, flags, perm) })
}

func Unlinkat(dirfd int, path string, flags int) error {
	op := "unlink"
	if flags&AT_REMOVEDIR != 0 {
		op = "rmdir"
	}
	return syscall.VerifAt1(&syscall.VerifEvent{Op: op, Path: path, FD: dirfd}, func() error { return verifUnlinkat(dirfd, path, flags) })
}

func Mkdirat(dirfd int, path string, mode uint32) error {
	return syscall.VerifAt1(&syscall.VerifEvent{Op: "mkdir", Path: path, FD: dirfd, Perm: mode}, func() error { return verifMkdirat(dirfd, path, mode) })
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	return syscall.VerifAt1(&syscall.VerifEvent{Op: "rename", Path: oldpath, Path2: newpath, FD: olddirfd, FD2: newdirfd}, func() error { return verifRenameat(olddirfd, oldpath, newdirfd, newpath) })
}

func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {
	return syscall.VerifAt1(&syscall.VerifEvent{Op: "link", Path: oldpath, Path2: newpath, FD: olddirfd, FD2: newdirfd}, func() error { return verifLinkat(olddirfd, oldpath, newdirfd, newpath, flag) })
}

func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {
	op := "stat"
	if flags&AT_SYMLINK_NOFOLLOW != 0 {
		op = "lstat"
	}
	return syscall.VerifAt1(&syscall.VerifEvent{Op: op, Path: path, FD: dirfd}, func() error { return verifFstatat(dirfd, path, stat, flags) })
}
