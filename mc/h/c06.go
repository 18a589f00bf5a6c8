package main

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// dnsDoc publishes version n of a registry for the given kind; its single server URL names the version.
func verDoc(file string, n int) string {
	entry := map[string]string{"dns.json": "test", "asn.json": "1-100", "ipv4.json": "10.0.0.0/8", "ipv6.json": "2001:db8::/32", "object-tags.json": "TAG"}[file]
	return string(regDoc([]svc{{entries: []string{entry}, urls: []string{verURL(file, n)}}}, file == "object-tags.json"))
}

// emptyDoc publishes a registry without any service.
func emptyDoc() string { return string(regDoc(nil, false)) }

// verURLs are the URLs version n answers with: none if it was published without any service.
func verURLs(file string, n int, bare map[int]bool) []string {
	if bare[n] {
		return nil
	}
	return []string{verURL(file, n)}
}

// verShown is what an accessor shows of version n.
func verShown(file string, n int, bare map[int]bool) string {
	if bare[n] {
		return "empty"
	}
	return verURL(file, n)
}

func verURL(file string, n int) string {
	return fmt.Sprintf("https://v%d.%s.example/", n, strings.TrimSuffix(file, ".json"))
}

var regQuery = map[bootstrap.RegistryType]string{bootstrap.DNS: "x.test", bootstrap.ASN: "AS50", bootstrap.IPv4: "10.1.2.3", bootstrap.IPv6: "2001:db8::1", bootstrap.ServiceProvider: "H-TAG"}
var regFile = map[bootstrap.RegistryType]string{bootstrap.DNS: "dns.json", bootstrap.ASN: "asn.json", bootstrap.IPv4: "ipv4.json", bootstrap.IPv6: "ipv6.json", bootstrap.ServiceProvider: "object-tags.json"}

// failure kinds of a bootstrap server, simplest first
var bsFail = []string{"refused", "404", "malformed", "body-error", "500", "truncated", "bad-services", "empty", "204", "206", "301", "403"}

func bsFailResp(r *http.Request, kind, good string) (*http.Response, error) {
	switch kind {
	case "refused":
		return nil, errRefused
	case "404":
		return httpResp(r, 404, "application/json", good), nil
	case "403":
		return httpResp(r, 403, "application/json", good), nil
	case "500":
		return httpResp(r, 500, "application/json", good), nil
	case "204":
		return httpResp(r, 204, "application/json", ""), nil
	case "206":
		return httpResp(r, 206, "application/json", good), nil
	case "301":
		return httpResp(r, 304, "application/json", good), nil
	case "empty":
		return httpResp(r, 200, "application/json", ""), nil
	case "malformed":
		return httpResp(r, 200, "application/json", "<html>not json</html>"), nil
	case "truncated":
		return httpResp(r, 200, "application/json", good[:len(good)-2]), nil
	case "bad-services":
		return httpResp(r, 200, "application/json", `{"version":"1.0","services":[[["test"],["https://bad.example/"]],[["x"]]]}`), nil
	case "body-error":
		resp := httpResp(r, 200, "application/json", good)
		resp.Body = &brokenBody{r: bytes.NewReader([]byte(good[:len(good)/2])), err: errBody}
		resp.ContentLength = -1
		return resp, nil
	}
	harnessf("fail kind %q", kind)
	return nil, nil
}

// accessorOf calls the accessor of a registry type; nil when it has none.
func accessorOf(b *bootstrap.Client, t bootstrap.RegistryType) *bootstrap.File {
	switch t {
	case bootstrap.DNS:
		if r := b.DNS(); r != nil {
			return r.File()
		}
	case bootstrap.ASN:
		if r := b.ASN(); r != nil {
			return r.File()
		}
	case bootstrap.IPv4:
		if r := b.IPv4(); r != nil {
			return r.File()
		}
	case bootstrap.IPv6:
		if r := b.IPv6(); r != nil {
			return r.File()
		}
	case bootstrap.ServiceProvider:
		if r := b.ServiceProvider(); r != nil {
			return r.File()
		}
	}
	return nil
}

func fileVersion(f *bootstrap.File) string {
	if f == nil {
		return "none"
	}
	for _, us := range f.Entries {
		return strings.Join(urlStrings(us), " ")
	}
	return "empty"
}

func init() {
	type cfg struct {
		name    string
		timeout time.Duration
		r1, r2  bootstrap.RegistryType
		mk      func() *bootstrap.Client
		steady  bool // the published document never changes
	}
	cfgs := []cfg{
		{"default", 24 * time.Hour, bootstrap.DNS, bootstrap.ASN, func() *bootstrap.Client { return &bootstrap.Client{} }, false},
		{"memory-1h", time.Hour, bootstrap.IPv4, bootstrap.IPv6, func() *bootstrap.Client {
			m := cache.NewMemoryCache()
			m.SetTimeout(time.Hour)
			return &bootstrap.Client{Cache: m}
		}, false},
		{"memory-1h-tags", time.Hour, bootstrap.ServiceProvider, bootstrap.DNS, func() *bootstrap.Client {
			m := cache.NewMemoryCache()
			m.Timeout = time.Hour
			return &bootstrap.Client{Cache: m}
		}, false},
	}
	steady := cfgs[1]
	steady.name, steady.steady = "memory-1h-steady", true
	cfgs = append(cfgs, steady)
	type model struct {
		ver int
		at  time.Time
	}
	register(&Check{
		ID:   "C06",
		Rule: "all sequences of {lookup r1, lookup r2, lookup r1 with a cancelled context or a deadline passing during the download, download r1, accessor r1, advance 0.4T, T-1s, T+1s} to the depth bound; whenever the client fetches, every server outcome (good document, good document without any service, or each failure kind) is explored; every fetched good document is a new version (in one configuration always the same); separately every status code 100-599 and documents of up to 4 MiB, delivered in pieces, for every registry, on empty, fresh and expired data",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"depth": Pick(c, 5, 6), "fail_kinds": len(bsFail), "fail_kinds_after_first_failure": Pick(c, 1, 2), "depth_other_configurations": Pick(c, 4, 5), "configurations": len(cfgs)}
		},
		Run: func(c *Ctx) {
			if c.Bool("sweep") {
				c06Sweep(c)
				return
			}
			cf := Of(c, "config", cfgs)
			depth := Pick(c, 5, 6)
			if cf.name != "default" {
				depth--
			}
			ops := make([]int, 0, depth)
			ops = append(ops, c.Choose("op1", 9), c.Choose("op2", 9))
			c.Shard()
			Bubble(func() {
				b := cf.mk()
				bare := map[int]bool{}
				nextVer := 0
				fetches := 0
				fails := 0
				hang := false // the server does not answer
				lastFetch := ""
				lastOutcome := ""
				lastVer := 0
				b.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
					if err := r.Context().Err(); err != nil {
						return nil, err
					}
					fetches++
					lastFetch = r.URL.String()
					if hang {
						<-r.Context().Done()
						return nil, r.Context().Err()
					}
					if !cf.steady || nextVer == 0 {
						nextVer++
					}
					lastVer = nextVer
					file := lastFetch[strings.LastIndexByte(lastFetch, '/')+1:]
					good := verDoc(file, nextVer)
					nk := len(bsFail)
					if fails > 0 {
						nk = Pick(c, 1, 2)
					}
					more := 1
					if len(bare) == 0 && nextVer > 1 && !cf.steady {
						more = 2
					}
					k := c.Choose("server", nk+more)
					if k > nk {
						bare[nextVer] = true
						lastOutcome = "good"
						return httpResp(r, 200, "application/json", emptyDoc()), nil
					}
					if k == 0 {
						lastOutcome = "good"
						return httpResp(r, 200, "application/json", good), nil
					}
					fails++
					lastOutcome = bsFail[k-1]
					return bsFailResp(r, bsFail[k-1], good)
				})
				have := map[bootstrap.RegistryType]*model{}
				for i := 0; i < depth; i++ {
					var op int
					if i < len(ops) {
						op = ops[i]
					} else {
						op = c.Choose("op", 9)
					}
					c.Step()
					fetches, lastOutcome = 0, ""
					reg := cf.r1
					switch op {
					case 0, 1:
						if op == 1 {
							reg = cf.r2
						}
						m := have[reg]
						need := m == nil || time.Since(m.at) > cf.timeout
						a, err := b.Lookup(&bootstrap.Question{RegistryType: reg, Query: regQuery[reg]})
						c.Note("t=%v lookup %s: fetches=%d %s err=%v", time.Now().Format("15:04:05"), reg, fetches, lastOutcome, err)
						if need {
							c.Check(fetches == 1, "lookup with %s data made %d downloads, want 1", map[bool]string{true: "no", false: "expired"}[m == nil], fetches)
							if lastOutcome == "good" {
								m = &model{lastVer, time.Now()}
								have[reg] = m
							} else {
								c.Check(err != nil && a == nil, "lookup whose download failed (%s) returned %+v, %v", lastOutcome, a, err)
								break
							}
						} else {
							c.Check(fetches == 0, "lookup with fresh data made %d downloads", fetches)
						}
						c.Check(err == nil && a != nil, "lookup failed: %v", err)
						c.Check(eqStrings(urlStrings(a.URLs), verURLs(regFile[reg], m.ver, bare)), "lookup answered %v, the newest good document fetched is version %d", urlStrings(a.URLs), m.ver)
					case 2:
						err := b.Download(reg)
						c.Note("download %s: %s err=%v", reg, lastOutcome, err)
						c.Check(fetches == 1, "Download made %d requests", fetches)
						if lastOutcome == "good" {
							c.Check(err == nil, "Download failed: %v", err)
							have[reg] = &model{lastVer, time.Now()}
						} else {
							c.Check(err != nil, "Download did not report %s", lastOutcome)
						}
					case 3:
						got := fileVersion(accessorOf(b, reg))
						want := "none"
						if m := have[reg]; m != nil {
							want = verShown(regFile[reg], m.ver, bare)
						}
						c.Note("accessor %s: %s", reg, got)
						c.Check(fetches == 0, "accessor made %d requests", fetches)
						c.Check(got == want, "accessor shows %s, want %s", got, want)
					case 7, 8: // a lookup whose context has been cancelled, or whose deadline passes during the download
						m := have[reg]
						need := m == nil || time.Since(m.at) > cf.timeout
						ctx, cancel := context.WithCancel(context.Background())
						if op == 8 {
							ctx, cancel = context.WithTimeout(context.Background(), time.Second)
							hang = true
						} else {
							cancel()
						}
						a, err := b.Lookup((&bootstrap.Question{RegistryType: reg, Query: regQuery[reg]}).WithContext(ctx))
						cancel()
						hang = false
						c.Note("lookup %s, context done: err=%v", reg, err)
						if need {
							c.Check(err != nil && a == nil && fetches <= 1, "lookup with no or expired data and a context that is done returned %+v, %v", a, err)
						} else if err == nil {
							c.Check(fetches == 0 && a != nil && eqStrings(urlStrings(a.URLs), verURLs(regFile[reg], m.ver, bare)), "lookup answered %+v, the newest good document fetched is version %d", a, m.ver)
						}
					case 4:
						time.Sleep(cf.timeout * 2 / 5)
					case 5:
						time.Sleep(cf.timeout + time.Second)
					case 6:
						time.Sleep(cf.timeout - time.Second)
					}
					if fetches > 0 {
						c.Check(lastFetch == "https://data.iana.org/rdap/"+regFile[reg], "fetched %s", lastFetch)
					}
					st := cf.name
					for _, rr := range []bootstrap.RegistryType{cf.r1, cf.r2} {
						if m := have[rr]; m != nil {
							st += fmt.Sprintf("|%d@%v", m.ver, time.Since(m.at) > cf.timeout)
						} else {
							st += "|-"
						}
					}
					c.State(st, op, lastOutcome, fetches)
				}
				// every accessor at the end, whatever happened
				for _, rr := range []bootstrap.RegistryType{cf.r1, cf.r2} {
					want := "none"
					if m := have[rr]; m != nil {
						want = verShown(regFile[rr], m.ver, bare)
					}
					got := fileVersion(accessorOf(b, rr))
					c.Check(got == want, "at the end accessor %s shows %s, want %s", rr, got, want)
				}
			})
		},
	})
}

// c06Sweep: one download by a lookup or explicitly, on empty, fresh or expired data.
func c06Sweep(c *Ctx) {
	regs := []bootstrap.RegistryType{bootstrap.DNS, bootstrap.ASN, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ServiceProvider}
	code, size, pieces := 200, 0, 0
	if c.Bool("sizes") {
		size = Of(c, "size", []int{0, 1000, 4096, 65536, 100000, 1 << 20, 4 << 20, 36 << 20})
		pieces = Of(c, "pieces", []int{0, 1000})
		c.Shard()
	} else {
		code = 100 + c.Choose("code", 500)
		c.Shard()
	}
	reg := Of(c, "registry", regs)
	before := c.Choose("before", 3) // none, fresh, expired
	explicit := c.Bool("download")
	Bubble(func() {
		n, fetches := 1, 0
		first := before > 0
		b := &bootstrap.Client{}
		b.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
			fetches++
			doc := verDoc(regFile[reg], n)
			if first {
				return httpResp(r, 200, "application/json", doc), nil
			}
			doc = strings.TrimSuffix(doc, "}") + `,"x_pad":"` + strings.Repeat("p", size) + `"}`
			resp := httpResp(r, code, "application/json", doc)
			if pieces > 0 {
				resp.Body = &chunkReader{[]byte(doc), pieces, true}
				resp.ContentLength = -1
			}
			return resp, nil
		})
		lookup := func() (string, error) {
			a, err := b.Lookup(&bootstrap.Question{RegistryType: reg, Query: regQuery[reg]})
			c.Step()
			if err != nil {
				return "", err
			}
			return strings.Join(urlStrings(a.URLs), " "), nil
		}
		if first {
			got, err := lookup()
			c.Check(err == nil && got == verURL(regFile[reg], 1), "first lookup: %q, %v", got, err)
			first = false
			n = 2
			if before == 2 {
				time.Sleep(24*time.Hour + time.Second)
			}
		}
		fetches = 0
		old := fileVersion(accessorOf(b, reg))
		var err error
		if explicit {
			err = b.Download(reg)
			c.Check(fetches == 1, "Download made %d requests", fetches)
		} else {
			var got string
			got, err = lookup()
			if before == 1 {
				c.Check(err == nil && fetches == 0 && got == verURL(regFile[reg], 1), "lookup on fresh data: %q, %v, %d requests", got, err, fetches)
				return
			}
			c.Check(fetches == 1, "lookup made %d requests", fetches)
			if code == 200 {
				c.Check(err == nil && got == verURL(regFile[reg], n), "lookup: %q, %v", got, err)
			}
		}
		c.Note("registry %s, before %d, status %d, size %d: %v", reg, before, code, size, err)
		c.State(reg, before, code, size, pieces, explicit, err == nil)
		now := fileVersion(accessorOf(b, reg))
		if code == 200 {
			c.Check(err == nil, "the download failed: %v", err)
			c.Check(now == verURL(regFile[reg], n), "accessor shows %s after a good download", now)
			c.Check(len(accessorOf(b, reg).JSON) > size, "the document kept has %d bytes", len(accessorOf(b, reg).JSON))
			return
		}
		c.Check(err != nil, "status %d was not reported", code)
		c.Check(now == old, "status %d: the data held changed from %s to %s", code, old, now)
	})
}
