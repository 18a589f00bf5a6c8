package main

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

func init() {
	const T = time.Hour
	register(&Check{
		ID:   "C08",
		Rule: "all sequences of {lookup by A, by B, by a freshly started client, download by A, by B, accessor of A, of a fresh client, advance 0.4T, advance T+1s, lookup of a second registry by B, removal of the files in the directory} over one cache directory to the depth bound; whenever a client fetches, success, success with a registry without any service, and every failure kind is explored; every fetched good document is a new version, or (servers that do not fail) always the same",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"depth": Pick(c, 4, 5), "fail_kinds_first": Pick(c, 3, len(bsFail)), "max_failures": 2, "clients": "2 long-lived + fresh"}
		},
		Assumptions: []string{"file timestamps are distinct for distinct saves (1 ms of virtual time passes before every operation)", "the exact boundary instant age == timeout is not constrained", "nobody but the clients changes the directory, other than by removing the files"},
		Run: func(c *Ctx) {
			depth := Pick(c, 4, 5)
			const nops = 11
			ops := []int{c.Choose("op1", nops), c.Choose("op2", nops)}
			c.Shard()
			steady := c.Bool("the document never changes")
			dir := newScratch()
			defer dropScratch(dir)
			Bubble(func() {
				v := watchFS(dir)
				v.stamp = time.Now
				v.on()
				defer v.off()
				bare := map[int]bool{}
				nextVer, fetches, fails := 0, 0, 0
				probing := false
				lastOutcome := ""
				rt := httpClient(func(r *http.Request) (*http.Response, error) {
					fetches++
					if !steady || nextVer == 0 {
						nextVer++
					}
					u := r.URL.String()
					file := u[strings.LastIndexByte(u, '/')+1:]
					good := verDoc(file, nextVer)
					nk := Pick(c, 3, len(bsFail))
					if fails > 0 {
						nk = 1
					}
					k := 0
					if !probing && !steady && fails < 2 {
						more := 1
						if len(bare) == 0 && nextVer > 1 {
							more = 2
						}
						k = c.Choose("server", nk+more)
					}
					if k > nk {
						bare[nextVer] = true
						lastOutcome = "good"
						return httpResp(r, 200, "application/json", emptyDoc()), nil
					}
					if k == 0 {
						lastOutcome = "good"
						return httpResp(r, 200, "application/json", good), nil
					}
					fails++
					lastOutcome = bsFail[k-1]
					return bsFailResp(r, bsFail[k-1], good)
				})
				mk := func() *bootstrap.Client {
					d := cache.NewDiskCache()
					d.Dir = dir + "/cache"
					d.SetTimeout(T)
					return &bootstrap.Client{Cache: d, HTTP: rt}
				}
				a, b := mk(), mk()
				type file struct {
					ver int
					at  time.Time
				}
				files := map[bootstrap.RegistryType]*file{}
				fresh := func(r bootstrap.RegistryType) bool { return files[r] != nil && time.Since(files[r].at) <= T }
				lookup := func(who string, cl *bootstrap.Client, reg bootstrap.RegistryType) {
					f := files[reg]
					hit := fresh(reg)
					ans, err := cl.Lookup(&bootstrap.Question{RegistryType: reg, Query: regQuery[reg]})
					got := ""
					if ans != nil {
						got = fmt.Sprint(urlStrings(ans.URLs))
					}
					c.Note("t=%v %s lookup %s: fetches=%d %s -> %s %v", time.Now().Format("15:04:05.000"), who, reg, fetches, lastOutcome, got, err)
					if hit {
						c.Check(fetches == 0, "%s: the directory holds an unexpired file, but %d download(s) were made", who, fetches)
					} else {
						c.Check(fetches == 1, "%s: no unexpired file, %d downloads made, want 1", who, fetches)
						if lastOutcome != "good" {
							c.Check(err != nil && ans == nil, "%s: download failed (%s) but the lookup returned %v, %v", who, lastOutcome, got, err)
							return
						}
						f = &file{nextVer, time.Now()}
						files[reg] = f
					}
					c.Check(err == nil && ans != nil, "%s: lookup failed: %v", who, err)
					c.Check(eqStrings(urlStrings(ans.URLs), verURLs(regFile[reg], f.ver, bare)), "%s: answered from %s, the newest file saved is version %d", who, got, f.ver)
				}
				for i := 0; i < depth; i++ {
					var op int
					if i < len(ops) {
						op = ops[i]
					} else {
						op = c.Choose("op", nops)
					}
					time.Sleep(time.Millisecond)
					c.Step()
					fetches, lastOutcome = 0, ""
					switch op {
					case 0:
						lookup("A", a, bootstrap.DNS)
					case 1:
						lookup("B", b, bootstrap.DNS)
					case 2:
						lookup("fresh", mk(), bootstrap.DNS)
					case 3, 4:
						cl, who := a, "A"
						if op == 4 {
							cl, who = b, "B"
						}
						err := cl.Download(bootstrap.DNS)
						c.Note("t=%v %s download: %s %v", time.Now().Format("15:04:05.000"), who, lastOutcome, err)
						c.Check(fetches == 1, "Download made %d requests", fetches)
						c.Check((err == nil) == (lastOutcome == "good"), "Download after %s: %v", lastOutcome, err)
						if err == nil {
							files[bootstrap.DNS] = &file{nextVer, time.Now()}
						}
					case 5, 6:
						cl, who := a, "A"
						if op == 6 {
							cl, who = mk(), "fresh"
						}
						got := fileVersion(accessorOf(cl, bootstrap.DNS))
						c.Note("t=%v %s accessor: %s", time.Now().Format("15:04:05.000"), who, got)
						c.Check(fetches == 0, "accessor made %d requests", fetches)
						if fresh(bootstrap.DNS) {
							c.Check(got == verShown("dns.json", files[bootstrap.DNS].ver, bare), "%s: accessor shows %s, the newest file is version %d", who, got, files[bootstrap.DNS].ver)
						} else if op == 6 && files[bootstrap.DNS] == nil {
							c.Check(got == "none", "fresh: accessor shows %s though nothing was ever saved", got)
						}
					case 7:
						time.Sleep(T * 2 / 5)
					case 8:
						time.Sleep(T + time.Second)
					case 9:
						lookup("B", b, bootstrap.ASN)
					case 10:
						c.Note("the files are removed")
						filepath.WalkDir(dir, func(p string, e os.DirEntry, err error) error {
							if err == nil && !e.IsDir() {
								os.Remove(p)
							}
							return nil
						})
						clear(files)
					}
					st := ""
					for _, r := range []bootstrap.RegistryType{bootstrap.DNS, bootstrap.ASN} {
						if f := files[r]; f != nil {
							st += fmt.Sprintf("|%d %v", f.ver, fresh(r))
						} else {
							st += "|-"
						}
					}
					c.State(st, op, fetches, lastOutcome)
				}
				time.Sleep(time.Millisecond)
				probing = true
				for _, x := range []struct {
					n string
					c *bootstrap.Client
				}{{"A", a}, {"B", b}, {"fresh", mk()}} {
					time.Sleep(time.Millisecond)
					fetches, lastOutcome = 0, ""
					lookup(x.n, x.c, bootstrap.DNS)
				}
			})
		},
	})
}
