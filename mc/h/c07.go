package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

// c07Cache makes a cache of the kind inside a bubble.
func c07Cache(disk bool, dir string) (cache.RegistryCache, func()) {
	if !disk {
		return cache.NewMemoryCache(), func() {}
	}
	v := watchFS(dir)
	v.stamp = time.Now
	v.on()
	dc := cache.NewDiskCache()
	dc.Dir = filepath.Join(dir, "c")
	return dc, v.off
}

// c07Contents: many names at once, each with contents of its own, saved, overwritten and loaded in each order.
func c07Contents(c *Ctx, disk bool) {
	names := []string{"dns.json", "DNS.json", "dns.jso", "dns.json2", "dns", "asn.json", "ipv4.json", "ipv6.json", "object-tags.json", ".dns.json", "dns.json.tmp", "dns.json~", "#dns.json#", "tmp", "0", "a b", " dns.json", "dns.json ", "é.json", "e\u0301.json", "日本.json", "%41.json", "A.json", "$HOME", "~", "*", "a?b", "a:b", "-", "--", "012def_dns.json", "012de_dns.json", "12def_dns.json", "012def_asn.json", strings.Repeat("n", 200), strings.Repeat("n", 199)}
	big := Pick(c, 1<<20, 8<<20)
	var contents []string
	switch c.Choose("contents", 5) {
	case 0:
		all := make([]byte, 256)
		for i := range all {
			all[i] = byte(i)
		}
		contents = append(contents, string(all), "\xff\xfe", "\ufeff{}", "", "\x00", "\r\n", "\n", " ", "{}\n", "null", "[]")
		for i := 0; i < 256; i++ {
			contents = append(contents, string([]byte{byte(i)}), string([]byte{'a', byte(i), 'b'}))
		}
	case 1:
		contents = append(contents, textZoo...)
	case 2:
		for n := 64; n <= 65536; n *= 2 {
			for d := -1; d <= 1; d++ {
				contents = append(contents, strings.Repeat("0123456789abcde\n", (n+d)/16+1)[:n+d])
			}
		}
	case 3:
		for n := 1 << 17; n <= big; n *= 2 {
			contents = append(contents, strings.Repeat("0123456789abcde\n", n/16)+"x", strings.Repeat("\x00", n), strings.Repeat("y", n-1))
		}
		names = names[:3]
	case 4: // far larger than any registry
		contents = append(contents, strings.Repeat("0123456789abcde\n", Pick(c, 40, 80)<<16)+"x")
		names = names[:1]
	}
	c.Shard()
	shift, rev := 0, false
	if len(contents) > 1 {
		shift = c.Choose("shift", 3) * 7
		rev = c.Bool("reverse")
	}
	if len(contents) < 8 {
		names = names[:min(2, len(names))]
	}
	var dir string
	if disk {
		dir = newScratch()
		defer dropScratch(dir)
	}
	Bubble(func() {
		rc, off := c07Cache(disk, dir)
		defer off()
		have := map[string]string{}
		for round := 0; round*len(names) < len(contents)+len(names); round++ {
			for k, n := range names {
				d := contents[(round*len(names)+k+shift)%len(contents)]
				buf := []byte(d)
				time.Sleep(time.Millisecond)
				err := rc.Save(n, buf)
				c.Step()
				c.Check(err == nil, "Save(%q, %d bytes): %v", n, len(d), err)
				for i := range buf {
					buf[i] ^= 0x55
				}
				have[n] = d
			}
			for k := range names {
				n := names[k]
				if rev {
					n = names[len(names)-1-k]
				}
				got, err := rc.Load(n)
				c.Step()
				c.Check(err == nil && string(got) == have[n], "Load(%q) after all saves: %d bytes %.60q, %v; saved %d bytes %.60q", n, len(got), got, err, len(have[n]), have[n])
				for i := range got {
					got[i] ^= 0x55
				}
				c.Check(rc.State(n) == cache.Good, "State(%q) after save is %v", n, rc.State(n))
			}
			for _, n := range []string{"never.json", "dns.jsonx", "ns.json", "", "dns.json/x"} {
				if disk && n == "" {
					continue
				}
				got, err := rc.Load(n)
				c.Check(err != nil && len(got) == 0 && rc.State(n) == cache.Absent, "Load(%q), never saved: %.60q, %v, state %v", n, got, err, rc.State(n))
			}
			c.State("contents", disk, shift, round, len(contents))
		}
	})
}

// c07Ages: timeouts of every magnitude and ages around them.
func c07Ages(c *Ctx, disk bool) {
	h := time.Hour
	timeout := Of(c, "timeout", []time.Duration{0, time.Millisecond, time.Second, 59 * time.Second, time.Minute, h, 23 * h, 24 * h, 25 * h, 7 * 24 * h, 31 * 24 * h, 365 * 24 * h, 50 * 365 * 24 * h})
	setWhen := c.Choose("set", 3) // before the save, after it, or left at the default of 24 hours
	again := c.Choose("again", 3) // nothing; saved again at half time; loaded at half time
	c.Shard()
	if setWhen == 2 {
		timeout = 24 * h
	}
	var dir string
	if disk {
		dir = newScratch()
		defer dropScratch(dir)
	}
	for _, age := range []time.Duration{timeout / 2, timeout - h, timeout - time.Second, timeout - time.Millisecond, timeout - 1, timeout + 1, timeout + time.Millisecond, timeout + time.Second, timeout + h, 2 * timeout} {
		if age <= 0 || age == timeout {
			continue
		}
		Bubble(func() {
			rc, off := c07Cache(disk, dir)
			defer off()
			if setWhen == 0 {
				rc.SetTimeout(timeout)
			}
			c.Check(rc.Save("a.json", []byte("first")) == nil, "Save fails")
			want := "first"
			switch again {
			case 1:
				time.Sleep(timeout / 2)
				c.Check(rc.Save("a.json", []byte("second")) == nil, "Save fails")
				want = "second"
			case 2:
				time.Sleep(age / 2)
				rc.Load("a.json")
			}
			if again == 2 {
				time.Sleep(age - age/2)
			} else {
				time.Sleep(age)
			}
			if setWhen == 1 {
				rc.SetTimeout(timeout)
			}
			c.Step()
			st := cache.Good
			if age > timeout {
				st = cache.Expired
			}
			c.Check(rc.State("a.json") == st, "timeout %v, age %v: state %v, want %v", timeout, age, rc.State("a.json"), st)
			got, err := rc.Load("a.json")
			c.Check(err == nil && string(got) == want, "timeout %v, age %v: Load = %q, %v", timeout, age, got, err)
			c.Check(rc.State("a.json") == st, "timeout %v, age %v: state after loading %v, want %v", timeout, age, rc.State("a.json"), st)
			c.State("age", disk, timeout, age, again, st)
		})
	}
}

// c07Dir: what InitDir, Save, Load and State do for every condition of the directory and of a file another
// program left there.
func c07Dir(c *Ctx) {
	kind := c.Choose("dir", 8)
	first := c.Choose("first", 3) // InitDir, Save or Load comes first
	age := c.Choose("age", 8)
	c.Shard()
	dir := newScratch()
	defer dropScratch(dir)
	Bubble(func() {
		d := filepath.Join(dir, "c")
		must := func(err error) {
			if err != nil {
				harnessf("%v", err)
			}
		}
		exists, usable := false, true
		var had bool
		mtime := time.Now()
		switch kind {
		case 0: // absent
		case 1: // absent, and so are its parents
			d = filepath.Join(dir, "p", "q", "r", "c")
		case 2: // there, empty
			must(os.Mkdir(d, 0o755))
			exists = true
		case 3: // there, with the file and another
			must(os.Mkdir(d, 0o700))
			must(os.WriteFile(filepath.Join(d, "a.json"), []byte("left by another"), 0o600))
			must(os.WriteFile(filepath.Join(d, "b.json"), []byte("b"), 0o600))
			mtime = time.Now().Add([]time.Duration{0, -time.Second, -23 * time.Hour, -25 * time.Hour, -400 * 24 * time.Hour, time.Second, time.Hour, 500 * 24 * time.Hour}[age])
			must(os.Chtimes(filepath.Join(d, "a.json"), mtime, mtime))
			must(os.Chtimes(filepath.Join(d, "b.json"), mtime, mtime))
			exists, had = true, true
		case 4: // a symbolic link to a directory
			must(os.Mkdir(filepath.Join(dir, "real"), 0o755))
			must(os.Symlink(filepath.Join(dir, "real"), d))
			exists = true
		case 5: // written with a trailing slash
			d += "/"
		case 6: // a file
			must(os.WriteFile(d, []byte("x"), 0o600))
			usable = false
		case 7: // below a file
			must(os.WriteFile(d, []byte("x"), 0o600))
			d = filepath.Join(d, "sub")
			usable = false
		}
		v := watchFS(dir)
		v.stamp = time.Now
		v.on()
		defer v.off()
		dc := cache.NewDiskCache()
		dc.Dir = d
		want := cache.Absent
		if had {
			want = cache.ShouldReload
			if time.Since(mtime) > 24*time.Hour {
				want = cache.Expired
			}
		}
		c.Check(dc.State("a.json") == want, "directory %d, file %v old: state %v before any operation, want %v", kind, time.Since(mtime), dc.State("a.json"), want)
		init := func() {
			made, err := dc.InitDir()
			c.Step()
			c.Check((err == nil) == usable && made == (usable && !exists), "directory %d: InitDir = %v, %v; existed %v", kind, made, err, exists)
			if usable {
				fi, err := os.Stat(d)
				c.Check(err == nil && fi.IsDir(), "directory %d: not there after InitDir: %v", kind, err)
				exists = true
			}
		}
		load := func(n string) {
			got, err := dc.Load(n)
			c.Step()
			if had && n != "c.json" {
				w := map[string]string{"a.json": "left by another", "b.json": "b"}[n]
				c.Check(err == nil && string(got) == w, "directory %d: Load(%s) = %q, %v", kind, n, got, err)
				if time.Since(mtime) <= 24*time.Hour {
					c.Check(dc.State(n) == cache.Good, "directory %d: state %v after loading a file %v old", kind, dc.State(n), time.Since(mtime))
				} else {
					c.Check(dc.State(n) == cache.Expired, "directory %d: state %v after loading a file %v old", kind, dc.State(n), time.Since(mtime))
				}
				return
			}
			c.Check(err != nil && len(got) == 0, "directory %d: Load(%s) of a file never saved = %q, %v", kind, n, got, err)
		}
		switch first {
		case 0:
			init()
			init()
		case 2:
			load("a.json")
			load("c.json")
			init()
		}
		time.Sleep(time.Millisecond)
		err := dc.Save("a.json", []byte("saved"))
		c.Step()
		c.Check((err == nil) == usable, "directory %d: Save: %v", kind, err)
		if usable {
			exists = true
			got, err := dc.Load("a.json")
			c.Check(err == nil && string(got) == "saved" && dc.State("a.json") == cache.Good, "directory %d: after saving: %q, %v, state %v", kind, got, err, dc.State("a.json"))
		} else {
			_, err := dc.Load("a.json")
			c.Check(err != nil && dc.State("a.json") == cache.Absent, "directory %d: after a failed save: load error %v, state %v", kind, err, dc.State("a.json"))
		}
		init()
		if had {
			load("b.json")
		}
		if usable {
			// the directory disappears: it is needed again
			real := d
			if kind == 4 {
				real = filepath.Join(dir, "real")
			}
			v.off()
			must(os.RemoveAll(real))
			if kind == 4 {
				must(os.Remove(d))
			}
			v.on()
			time.Sleep(time.Millisecond)
			_, err := dc.Load("a.json")
			c.Check(err != nil && dc.State("a.json") == cache.Absent, "directory %d removed: load error %v, state %v", kind, err, dc.State("a.json"))
			exists = false
			if first == 0 {
				init()
			}
			for _, n := range []string{"a.json", "z.json"} {
				err := dc.Save(n, []byte("saved again "+n))
				c.Step()
				c.Check(err == nil, "directory %d removed: Save: %v", kind, err)
				got, err := dc.Load(n)
				c.Check(err == nil && string(got) == "saved again "+n && dc.State(n) == cache.Good, "directory %d removed, after saving: %q, %v, state %v", kind, got, err, dc.State(n))
			}
			exists = true
			init()
		}
		c.State("dir", kind, first, age)
	})
}

// c07Faults: every file operation of a Save or Load failing. What they report as done must have been done.
func c07Faults(c *Ctx) {
	errnos := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.ENOENT, syscall.EROFS}
	start := c.Choose("start", 4) // nothing; own file; own file replaced by another's; another's file only
	saving := c.Bool("save")
	c.Shard()
	dir := newScratch()
	defer dropScratch(dir)
	Bubble(func() {
		v := watchFS(dir)
		v.stamp = time.Now
		v.on()
		defer v.off()
		mk := func() *cache.DiskCache {
			dc := cache.NewDiskCache()
			dc.Dir = filepath.Join(dir, "c")
			return dc
		}
		a, b := mk(), mk()
		have := ""
		save := func(dc *cache.DiskCache, d string) {
			c.Check(dc.Save("a.json", []byte(d)) == nil, "Save fails")
			have = d
			time.Sleep(time.Millisecond)
		}
		if start == 1 || start == 2 {
			save(a, "the first contents")
		}
		if start == 2 || start == 3 {
			save(b, "contents saved by the other, rather longer than the first")
		}
		before := a.State("a.json")
		faults := 0
		v.before = func(ev *syscall.VerifEvent, path string) {
			if faults >= Pick(c, 1, 2) || ev.Op == "close" {
				return
			}
			m := len(errnos) + 1
			if ev.Op == "write" && len(ev.Buf) > 0 {
				m++
			}
			k := c.Choose("fault:"+ev.Op, m)
			if k == 0 {
				return
			}
			faults++
			ev.Done = true
			if k > len(errnos) { // half of the data, then no more space
				syscall.VerifRawWrite(ev.FD, ev.Buf[:len(ev.Buf)/2])
				v.touch(path)
				k = 2
			}
			ev.N = -1
			ev.Err = errnos[k-1]
			c.Note("%s %s fails with %v", ev.Op, strings.TrimPrefix(path, dir), ev.Err)
		}
		if saving {
			d := "new contents to be saved"
			err := a.Save("a.json", []byte(d))
			c.Step()
			v.before = nil
			c.Note("Save: %v", err)
			if faults == 0 {
				c.Check(err == nil, "Save without any fault: %v", err)
			}
			if err == nil {
				for _, dc := range []*cache.DiskCache{a, b, mk()} {
					got, err := dc.Load("a.json")
					c.Check(err == nil && string(got) == d, "after a Save that reported success: Load = %q, %v", got, err)
				}
				c.Check(a.State("a.json") == cache.Good, "after a Save that reported success: state %v", a.State("a.json"))
			}
			// and once the fault is over
			time.Sleep(time.Millisecond)
			save(a, "at last")
			got, err := b.Load("a.json")
			c.Check(err == nil && string(got) == have, "after the fault: Load = %q, %v", got, err)
		} else {
			got, err := a.Load("a.json")
			c.Step()
			v.before = nil
			c.Note("Load: %q, %v", got, err)
			if faults == 0 {
				c.Check((err == nil) == (start != 0), "Load without any fault: %v", err)
			}
			if err == nil {
				c.Check(start != 0 && string(got) == have, "Load = %q; the file holds %q", got, have)
				c.Check(a.State("a.json") == cache.Good, "after a Load that reported success: state %v", a.State("a.json"))
			} else {
				c.Check(len(got) == 0, "Load fails (%v) but gives data %q", err, got)
				c.Check(a.State("a.json") == before, "after a failed Load: state %d, before it %d [0 absent 1 good 2 reload 3 expired]", a.State("a.json"), before)
				got, err = a.Load("a.json")
				c.Check((err == nil) == (start != 0) && string(got) == have, "Load after the fault = %q, %v; the file holds %q", got, err, have)
			}
		}
		c.State("fault", start, saving, fmt.Sprint(c.notes))
	})
}

func init() {
	names := []string{"dns.json", "012def_dns.json"}
	contents := []string{"the longer content of a registry file", "short", ""}
	type obj struct {
		rc      cache.RegistryCache
		timeout time.Duration
		seen    map[string]time.Time
	}
	type file struct {
		data string
		at   time.Time
	}
	register(&Check{
		ID:   "C07",
		Rule: "memory cache: all sequences of save(2 names x contents)/load/advance/set-timeout to the depth bound; disk cache: the same over two cache objects sharing a directory (created on demand); after the last operation the state of every name and every load is compared; caller buffers are overwritten after every save and load; contents of every byte value and of sizes to 1-8 MiB under 36 similar names at once; 13 timeouts from 0 to 50 years x ages around each; 8 conditions of the directory x files left there by others, aged up to 400 days and dated up to 500 days ahead x order of InitDir, Save and Load; every file operation of a Save or Load failing with each of 6 errnos, or writing half (thorough: two such faults), from 4 starting states: what is reported as done must have been done",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"memory_depth": Pick(c, 5, 6), "disk_depth": Pick(c, 4, 5), "contents": contents, "advances": []string{"4s", "9s"}, "timeouts": []string{"10s", "5s"}}
		},
		Assumptions: []string{"file timestamps are distinct for distinct saves (1 ms of virtual time passes before every operation)", "the exact boundary instant age == timeout is not constrained"},
		Run: func(c *Ctx) {
			disk := c.Bool("disk")
			switch c.Choose("mode", 5) {
			case 4:
				if disk {
					c07Faults(c)
				}
				return
			case 3:
				if disk {
					c07Dir(c)
				}
				return
			case 1:
				c07Contents(c, disk)
				return
			case 2:
				c07Ages(c, disk)
				return
			}
			nobj := 1
			depth := Pick(c, 5, 6)
			nc := 2
			if disk {
				nobj = 2
				depth = Pick(c, 4, 5)
			} else {
				nc = 3
			}
			// operations, simplest first
			nSave := nobj * 2 * nc
			nLoad := nobj * 2
			nops := nSave + nLoad + 2 + nobj
			ops := []int{c.Choose("op1", nops), c.Choose("op2", nops)}
			c.Shard()
			var dir string
			if disk {
				dir = newScratch()
				defer dropScratch(dir)
			}
			Bubble(func() {
				var objs []*obj
				if disk {
					v := watchFS(dir)
					v.stamp = time.Now
					v.on()
					defer v.off()
					d := filepath.Join(dir, "sub", "cache")
					for range nobj {
						dc := cache.NewDiskCache()
						dc.Dir = d
						objs = append(objs, &obj{rc: dc, seen: map[string]time.Time{}})
					}
				} else {
					objs = append(objs, &obj{rc: cache.NewMemoryCache(), seen: map[string]time.Time{}})
				}
				for _, o := range objs {
					o.timeout = 10 * time.Second
					o.rc.SetTimeout(o.timeout)
				}
				files := map[string]*file{}
				wantState := func(o *obj, n string) cache.FileState {
					f := files[n]
					if f == nil {
						return cache.Absent
					}
					if time.Since(f.at) > o.timeout {
						return cache.Expired
					}
					if disk {
						if s, ok := o.seen[n]; !ok || f.at.After(s) {
							return cache.ShouldReload
						}
					}
					return cache.Good
				}
				checkState := func(oi int, n string) {
					o := objs[oi]
					got := o.rc.State(n)
					want := wantState(o, n)
					c.Step()
					c.Check(got.String() == []string{"not cached", "good", "good", "expired"}[want], "state %d is called %q", got, got)
					c.Check(got == want, "object %d: State(%s) = %d (%s), want %d (%s) [0 absent 1 good 2 reload 3 expired]", oi, n, got, got, want, want)
				}
				load := func(oi int, n string) {
					o := objs[oi]
					got, err := o.rc.Load(n)
					c.Step()
					c.Note("t=%v obj%d load %s -> %q %v", time.Now().Format("05.000"), oi, n, got, err)
					f := files[n]
					if f == nil {
						c.Check(err != nil && len(got) == 0, "object %d: Load(%s) of a name never saved: %q, %v", oi, n, got, err)
						return
					}
					c.Check(err == nil && bytes.Equal(got, []byte(f.data)), "object %d: Load(%s) = %q, %v; last saved %q", oi, n, got, err, f.data)
					for i := range got {
						got[i] = 'X'
					}
					o.seen[n] = f.at
				}
				for i := 0; i < depth; i++ {
					var op int
					if i < len(ops) {
						op = ops[i]
					} else {
						op = c.Choose("op", nops)
					}
					time.Sleep(time.Millisecond)
					switch {
					case op < nSave:
						oi := op % nobj
						n := names[op/nobj%2]
						data := contents[op/nobj/2]
						buf := []byte(data)
						err := objs[oi].rc.Save(n, buf)
						c.Step()
						c.Note("t=%v obj%d save %s %q %v", time.Now().Format("05.000"), oi, n, data, err)
						c.Check(err == nil, "object %d: Save(%s): %v", oi, n, err)
						c.Check(string(buf) == data, "Save changed the caller's buffer")
						for k := range buf {
							buf[k] = 'Z'
						}
						files[n] = &file{data, time.Now()}
						objs[oi].seen[n] = time.Now()
					case op < nSave+nLoad:
						k := op - nSave
						load(k%nobj, names[k/nobj])
					case op < nSave+nLoad+2:
						d := []time.Duration{4 * time.Second, 9 * time.Second}[op-nSave-nLoad]
						time.Sleep(d)
						c.Note("advance %v", d)
					default:
						o := objs[op-nSave-nLoad-2]
						if o.timeout == 10*time.Second {
							o.timeout = 5 * time.Second
						} else {
							o.timeout = 10 * time.Second
						}
						o.rc.SetTimeout(o.timeout)
						c.Note("obj%d timeout %v", op-nSave-nLoad-2, o.timeout)
					}
					st := fmt.Sprint(disk)
					for oi, o := range objs {
						for _, n := range names {
							st += fmt.Sprintf("|%d:%d", oi, wantState(o, n))
							if f := files[n]; f != nil {
								st += f.data
							}
						}
					}
					c.State(st)
				}
				for oi := range objs {
					for _, n := range names {
						checkState(oi, n)
					}
				}
				for oi := range objs {
					checkState(oi, "never.json")
					for _, n := range names {
						load(oi, n)
						checkState(oi, n)
						load(oi, n)
					}
				}
				for oi := range objs {
					for _, n := range names {
						checkState(oi, n)
					}
				}
			})
		},
	})
}
