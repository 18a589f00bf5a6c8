package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// VFS watches, and may interfere with, every file operation below one scratch directory.
// Modification times there follow the (virtual) clock.
type VFS struct {
	root string
	mu   sync.Mutex
	fds  map[int]string
	ext  map[*syscall.VerifEvent]bool

	// before is asked before every operation on path (which lies below root).
	before func(ev *syscall.VerifEvent, path string)
	// after is told after it.
	after func(ev *syscall.VerifEvent, path string)
	// log records operations when set.
	log *[]string
	// stamp gives new modification times; nil leaves them real.
	stamp func() time.Time
}

func resetFS() {
	syscall.VerifBefore = nil
	syscall.VerifAfter = nil
}

var scratchSeq int

// newScratch makes an empty directory for one execution.
func newScratch() string {
	if scratchRoot == "" {
		harnessf("no scratch directory")
	}
	scratchSeq++
	d := filepath.Join(scratchRoot, fmt.Sprintf("x%d", scratchSeq))
	if err := os.MkdirAll(d, 0o755); err != nil {
		harnessf("%v", err)
	}
	return d
}

// dropScratch removes a directory made by newScratch.
func dropScratch(d string) {
	if scratchRoot != "" && strings.HasPrefix(d, scratchRoot+"/x") {
		os.RemoveAll(d)
	}
}

func watchFS(root string) *VFS {
	v := &VFS{root: root, fds: map[int]string{}}
	return v
}

func (v *VFS) on() {
	syscall.VerifBefore = v.hookBefore
	syscall.VerifAfter = v.hookAfter
}

func (v *VFS) off() { resetFS() }

func (v *VFS) under(p string) bool { return p == v.root || strings.HasPrefix(p, v.root+"/") }

// pathOf returns the path an event is about, "" when it is not below root.
func (v *VFS) pathOf(ev *syscall.VerifEvent) string {
	v.mu.Lock()
	defer v.mu.Unlock()
	if ev.Path != "" {
		ev.Path = v.resolve(ev.FD, ev.Path)
		if ev.Path2 != "" {
			ev.Path2 = v.resolve(ev.FD2, ev.Path2)
		}
		if v.under(ev.Path) {
			return ev.Path
		}
		if ev.Path2 != "" && v.under(ev.Path2) {
			return ev.Path2
		}
		return ""
	}
	return v.fds[ev.FD]
}

// resolve makes a path relative to an open directory below root absolute.
func (v *VFS) resolve(fd int, p string) string {
	if dir := v.fds[fd]; dir != "" && fd >= 0 && !filepath.IsAbs(p) {
		return filepath.Join(dir, p)
	}
	return filepath.Clean(p)
}

func (v *VFS) hookBefore(ev *syscall.VerifEvent) {
	p := v.pathOf(ev)
	if p == "" {
		return
	}
	if v.log != nil {
		*v.log = append(*v.log, ev.Op+" "+strings.TrimPrefix(p, v.root))
	}
	if ev.Op == "open" && ev.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0 && ev.Flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		var st syscall.Stat_t
		err := syscall.VerifRawStat(p, &st)
		touch := err != nil || ev.Flags&syscall.O_TRUNC != 0
		if touch {
			ev.Len = -77 // stamp after opening
		}
	}
	if ev.Op == "close" {
		v.mu.Lock()
		delete(v.fds, ev.FD)
		v.mu.Unlock()
	}
	if v.before != nil {
		v.before(ev, p)
	}
}

func (v *VFS) touch(p string) {
	if v.stamp == nil {
		return
	}
	t := v.stamp()
	syscall.VerifRawUtimes(p, t.Unix(), int64(t.Nanosecond()))
}

func (v *VFS) hookAfter(ev *syscall.VerifEvent) {
	p := v.pathOf(ev)
	if p == "" {
		return
	}
	switch ev.Op {
	case "open":
		if ev.Err == nil {
			v.mu.Lock()
			v.fds[ev.N] = p
			v.mu.Unlock()
			if ev.Len == -77 {
				v.touch(p)
			}
		}
	case "write", "pwrite":
		if ev.N > 0 {
			v.touch(p)
		}
	case "truncate", "ftruncate":
		if ev.Err == nil {
			v.touch(p)
		}
	}
	if v.after != nil {
		v.after(ev, p)
	}
}
