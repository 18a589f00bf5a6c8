package main

import (
	"fmt"
	"net/http"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// bigDoc is version n of a domain registry with entries at both ends; lengths differ between versions.
func bigDoc(n int) string {
	var svcs []svc
	svcs = append(svcs, svc{entries: []string{"first"}, urls: []string{fmt.Sprintf("https://v%d.example/", n)}})
	if n%2 == 1 {
		svcs = append(svcs, svc{entries: []string{"mid"}, urls: []string{fmt.Sprintf("https://v%d.example/", n)}})
	}
	svcs = append(svcs, svc{entries: []string{"last"}, urls: []string{fmt.Sprintf("https://v%d.example/", n)}})
	return string(regDoc(svcs, false))
}

type crashToken struct{}

const c09T = time.Hour

// c09World is a directory, a bootstrap service and clients.
type c09World struct {
	c         *Ctx
	dir       string
	v         *VFS
	ver       int
	published map[string]int // server URL -> version
	serverUp  bool
	point     func(what string) // scheduling point, when interleaving
	fetches   int
	when      map[int]time.Time // version -> fetched
}

func (w *c09World) rt(r *http.Request) (*http.Response, error) {
	if w.point != nil {
		w.point("fetch")
	}
	w.fetches++
	if w.fetches > 50 {
		w.c.Fail("runaway downloads")
	}
	if !w.serverUp {
		return nil, errRefused
	}
	w.ver++
	n := w.ver
	w.published[fmt.Sprintf("[https://v%d.example/]", n)] = n
	w.when[n] = time.Now()
	return httpResp(r, 200, "application/json", bigDoc(n)), nil
}

func (w *c09World) client() *bootstrap.Client {
	d := cache.NewDiskCache()
	d.Dir = w.dir + "/cache"
	d.SetTimeout(c09T)
	return &bootstrap.Client{Cache: d, HTTP: httpClient(w.rt)}
}

// ask looks both ends of the registry up and reports the version that answered (0: error).
func (w *c09World) ask(who string, cl *bootstrap.Client, must bool) int {
	ver := 0
	for _, qn := range []string{"x.first", "x.last"} {
		a, err := cl.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: qn})
		w.c.Step()
		if err != nil {
			w.c.Note("%s: lookup %s: %v", who, qn, err)
			w.c.Check(!must, "%s: lookup fails although the fault is over and the bootstrap service is reachable: %v", who, err)
			return 0
		}
		got := fmt.Sprint(urlStrings(a.URLs))
		n, ok := w.published[got]
		w.c.Note("%s: lookup %s -> %s", who, qn, got)
		w.c.Check(ok, "%s: lookup of %s answered %s (entry %q), which no published document says", who, qn, got, a.Entry)
		// (a save comes up to a second after the fetch)
		w.c.Check(time.Since(w.when[n]) <= c09T+time.Second, "%s: lookup of %s answered from version %d, fetched %v ago; the timeout is %v", who, qn, n, time.Since(w.when[n]), c09T)
		ver = n
	}
	return ver
}

func (w *c09World) accessor(who string, cl *bootstrap.Client) {
	f := accessorOf(cl, bootstrap.DNS)
	if f == nil {
		return
	}
	n := 2
	if w.published[fmt.Sprint(urlStrings(f.Entries["first"]))]%2 == 1 {
		n = 3
	}
	_, ok := w.published[fmt.Sprint(urlStrings(f.Entries["first"]))]
	w.c.Check(ok && len(f.Entries) == n && fmt.Sprint(urlStrings(f.Entries["last"])) == fmt.Sprint(urlStrings(f.Entries["first"])), "%s: accessor shows a registry no published document contains: %v", who, f.Entries)
}

// prepare brings the directory and two old clients into one of the starting states.
func (w *c09World) prepare() (old1, old2 *bootstrap.Client) {
	old1, old2 = w.client(), w.client()
	w.serverUp = true
	switch w.c.Choose("start", 6) {
	case 0: // no directory yet
	case 1: // fresh file, loaded by both
		old1.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.first"})
		time.Sleep(time.Millisecond)
		old2.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.first"})
	case 2: // fresh file saved by the second client, not seen by the first
		old2.Download(bootstrap.DNS)
	case 3: // both in memory, then expired
		old1.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.first"})
		time.Sleep(time.Millisecond)
		old2.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.first"})
		time.Sleep(c09T + time.Minute)
	case 5: // both in memory, half the lifetime ago
		old1.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.first"})
		time.Sleep(time.Millisecond)
		old2.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.first"})
		time.Sleep(c09T / 2)
	case 4: // first has version 1, second saved version 2 since
		old1.Download(bootstrap.DNS)
		time.Sleep(time.Millisecond)
		old2.Download(bootstrap.DNS)
	}
	time.Sleep(time.Millisecond)
	return
}

// run executes one client operation.
func (w *c09World) op(kind int, who string, cl *bootstrap.Client, must bool) {
	switch kind {
	case 0:
		w.ask(who, cl, must)
	case 1:
		err := cl.Download(bootstrap.DNS)
		w.c.Step()
		w.c.Note("%s: download: %v", who, err)
		w.c.Check(err == nil || !must, "%s: download failed without any fault: %v", who, err)
	case 2:
		w.accessor(who, cl)
	}
}

// recover probes all clients after the fault.
func (w *c09World) probe(old1, old2 *bootstrap.Client) {
	w.point = nil
	w.v.before = nil
	if w.c.Bool("server-down-first") {
		w.serverUp = false
		w.ask("fresh client, service down", w.client(), false)
		w.ask("old client 2, service down", old2, false)
		w.accessor("old client 2", old2)
	}
	w.serverUp = true
	later := w.c.Choose("recovery", 4)
	if later == 2 {
		time.Sleep(c09T + time.Minute)
	} else if later == 3 {
		// data half a lifetime old has expired, a file written since has not
		time.Sleep(c09T/2 + time.Minute)
	} else {
		time.Sleep(time.Millisecond)
	}
	if later == 0 || later == 3 && w.c.Bool("fresh-first") {
		w.accessor("fresh client", w.client())
		w.ask("fresh client", w.client(), true)
		w.ask("old client 2", old2, true)
		w.ask("old client 1", old1, true)
	} else {
		w.accessor("old client 1", old1)
		w.ask("old client 1", old1, true)
		w.ask("old client 2", old2, true)
		w.ask("fresh client", w.client(), true)
	}
	time.Sleep(time.Millisecond)
	w.ask("fresh client 2", w.client(), true)
	w.ask("old client 2", old2, true)
}

func init() {
	errnos := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.ENOENT}
	register(&Check{
		ID:   "C09",
		Rule: "part 1: every crash point (before each file operation; after each byte prefix of each write; and loss of every suffix of unsynced data, zero-filled or cut, at every point) of a lookup or download from six starting states; part 2: every file operation failing with each errno, and short writes; part 3: every interleaving at file-operation and fetch granularity of two clients' operations up to the preemption bound, with a clock that ticks or stands still; each followed by recovery probes of both old clients and fresh ones, with the service up, or down first",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"faults": Pick(c, 1, 2), "preemptions": Pick(c, 2, 3), "errnos": len(errnos)}
		},
		Assumptions: []string{"a killed process performs no further file operation", "metadata operations (create, rename, unlink) are atomic and ordered; data not followed by fsync may be lost from any byte on"},
		Run: func(c *Ctx) {
			part := c.Choose("part", 3)
			kind := c.Choose("op", 2) // lookup or download
			kind2 := 0
			if part == 2 {
				kind2 = c.Choose("op2", 3)
			}
			dir := newScratch()
			defer dropScratch(dir)
			c.scrub = dir
			Bubble(func() {
				w := &c09World{c: c, dir: dir, published: map[string]int{}, when: map[int]time.Time{}}
				w.v = watchFS(dir)
				w.v.stamp = time.Now
				w.v.on()
				defer w.v.off()
				old1, old2 := w.prepare()
				if part != 2 {
					c.Shard()
				}
				switch part {
				case 0:
					c09Crash(w, kind, old1)
				case 1:
					faults := 0
					w.v.before = func(ev *syscall.VerifEvent, path string) {
						if faults >= Pick(c, 1, 2) || ev.Op == "close" {
							return
						}
						n := len(errnos)
						if faults > 0 {
							n = 1
						}
						m := n + 1
						if ev.Op == "write" && len(ev.Buf) > 0 {
							m += 2
						}
						k := c.Choose("fault:"+ev.Op, m)
						if k == 0 {
							return
						}
						faults++
						if k > n { // short write
							part := len(ev.Buf) / 2
							ev.Done = true
							ev.N, _ = syscall.VerifRawWrite(ev.FD, ev.Buf[:part])
							w.v.touch(path)
							if k == n+2 {
								ev.Err = syscall.ENOSPC
								ev.N = -1
							}
							c.Note("short write of %d bytes to %s", part, path)
							return
						}
						c.Note("%s %s fails with %v", ev.Op, strings.TrimPrefix(path, dir), errnos[k-1])
						ev.Done = true
						ev.N = -1
						ev.Err = errnos[k-1]
					}
					w.op(kind, "client under fault", old1, false)
					if faults == 0 {
						c.State("nofault")
					}
				case 2:
					c09Interleave(w, kind, kind2, old1, old2)
				}
				w.probe(old1, old2)
				c.State(part, kind, fmt.Sprint(c.notes))
			})
		},
	})
}

// c09Crash runs one operation and kills the process at a chosen point.
func c09Crash(w *c09World, kind int, victim *bootstrap.Client) {
	c := w.c
	crashed := false
	dirty := map[string]bool{} // written since the last fsync
	die := func(why string) {
		crashed = true
		c.Note("crash: %s", why)
		panic(crashToken{})
	}
	// lose cuts unsynced data: keep n bytes, then nothing or zeros.
	lose := func(path string) {
		data, err := os.ReadFile(path)
		if err != nil || len(data) == 0 {
			return
		}
		k := c.Choose("lost-from", len(data)+1)
		zero := k < len(data) && c.Bool("zero-filled")
		if k == len(data) {
			return
		}
		st, err := os.Stat(path)
		if err != nil {
			harnessf("%v", err)
		}
		nd := append([]byte{}, data[:k]...)
		if zero {
			nd = append(nd, make([]byte, len(data)-k)...)
		}
		if err := os.WriteFile(path, nd, 0o600); err != nil {
			harnessf("%v", err)
		}
		os.Chtimes(path, st.ModTime(), st.ModTime())
		c.Note("unsynced data of %s lost from byte %d on (zero-filled %v)", strings.TrimPrefix(path, w.dir), k, zero)
	}
	nops := 0
	w.v.before = func(ev *syscall.VerifEvent, path string) {
		if crashed {
			if ev.Op != "close" {
				ev.Done, ev.Err, ev.N = true, syscall.EIO, -1
			}
			return
		}
		nops++
		n := 2
		if ev.Op == "write" && len(ev.Buf) > 0 {
			n = 2 + len(ev.Buf)
		}
		k := c.Choose("crash@"+ev.Op, n)
		if k == 0 {
			switch ev.Op {
			case "write", "pwrite":
				dirty[path] = true
			case "fsync":
				delete(dirty, path)
			case "rename":
				if dirty[ev.Path] {
					delete(dirty, ev.Path)
					dirty[ev.Path2] = true
				} else {
					delete(dirty, ev.Path2)
				}
			case "open":
				if ev.Flags&syscall.O_TRUNC != 0 {
					delete(dirty, path)
				}
			}
			return
		}
		if k >= 2 {
			m := k - 1 // bytes that reached the file
			if m > len(ev.Buf) {
				m = len(ev.Buf)
			}
			syscall.VerifRawWrite(ev.FD, ev.Buf[:m])
			w.v.touch(path)
			die(fmt.Sprintf("after %d of %d bytes written to %s", m, len(ev.Buf), strings.TrimPrefix(path, w.dir)))
		}
		die(fmt.Sprintf("before %s %s", ev.Op, strings.TrimPrefix(path, w.dir)))
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(crashToken); !ok {
					panic(r)
				}
			}
		}()
		w.op(kind, "client to be killed", victim, false)
	}()
	w.v.before = nil
	if len(dirty) > 0 && c.Bool("power-loss") {
		// the machine goes down as well: unsynced data may be gone
		w.v.off()
		for p := range dirty {
			lose(p)
		}
		w.v.on()
	}
	if crashed {
		// the killed client is gone: its place is taken by a new process
		*victim = *w.client()
	}
}

// c09Interleave runs two operations under a cooperative scheduler with a preemption bound.
func c09Interleave(w *c09World, k1, k2 int, a, b *bootstrap.Client) {
	c := w.c
	tick := c.Bool("ticking-clock")
	c.Shard()
	bound := Pick(c, 2, 3)
	type proc struct {
		go_  chan struct{}
		done bool
		pv   any
	}
	ps := []*proc{{go_: make(chan struct{})}, {go_: make(chan struct{})}}
	yield := make(chan struct{})
	cur := -1
	point := func(what string) {
		me := cur
		yield <- struct{}{}
		<-ps[me].go_
		cur = me
		if tick {
			time.Sleep(time.Millisecond)
		}
	}
	w.point = point
	w.v.before = func(ev *syscall.VerifEvent, path string) {
		if cur >= 0 && ev.Op != "close" {
			point(ev.Op)
			if ev.Op == "flock" && ev.Flags&syscall.LOCK_NB == 0 && ev.Flags&syscall.LOCK_UN == 0 {
				for i := 0; ; i++ {
					if i > 10000 {
						c.Fail("deadlock: waiting for a file lock forever")
					}
					_, _, e := syscall.Syscall(syscall.SYS_FLOCK, uintptr(ev.FD), uintptr(ev.Flags|syscall.LOCK_NB), 0)
					if e != syscall.EWOULDBLOCK {
						ev.Done = true
						if e != 0 {
							ev.Err = e
						}
						return
					}
					point("flock-wait")
				}
			}
		}
	}
	run := func(i, kind int, who string, cl *bootstrap.Client) {
		p := ps[i]
		go func() {
			defer func() {
				p.pv = recover()
				p.done = true
				yield <- struct{}{}
			}()
			<-p.go_
			cur = i
			w.op(kind, who, cl, true)
		}()
	}
	run(0, k1, "A", a)
	run(1, k2, "B", b)
	pre := 0
	last := -1
	for n := 0; ; n++ {
		if n > 5000 {
			c.Fail("livelock: two clients do not finish")
		}
		var en []int
		if last >= 0 && !ps[last].done {
			en = append(en, last)
		}
		for i := range ps {
			if !ps[i].done && i != last {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			break
		}
		k := 0
		if len(en) > 1 {
			if last >= 0 && en[0] == last {
				if pre < bound {
					k = c.Choose("sched", len(en))
					if k > 0 {
						pre++
					}
				}
			} else {
				k = c.Choose("sched0", len(en))
			}
		}
		last = en[k]
		ps[last].go_ <- struct{}{}
		<-yield
		if ps[last].done && ps[last].pv != nil {
			pv := ps[last].pv
			w.v.before = nil
			w.point = nil
			cur = -1
			// let the other goroutine finish so that the bubble can end
			for i := range ps {
				for !ps[i].done {
					ps[i].go_ <- struct{}{}
					<-yield
				}
			}
			panic(pv)
		}
	}
	cur = -1
	w.point = nil
	w.v.before = nil
}
