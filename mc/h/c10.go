package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// base URL text -> the prefix its files are documented to be under
var c10Bases = [][2]string{
	{"", "https://data.iana.org/rdap/"},
	{"https://data.iana.org/rdap/", "https://data.iana.org/rdap/"},
	{"https://data.iana.org/rdap", "https://data.iana.org/rdap/"},
	{"https://a.example/rdap/", "https://a.example/rdap/"},
	{"https://a.example/rdap", "https://a.example/rdap/"},
	{"https://a.example/", "https://a.example/"},
	{"https://a.example", "https://a.example/"},
	{"http://a.example/rdap/", "http://a.example/rdap/"},
	{"https://a.example:8443/rdap/", "https://a.example:8443/rdap/"},
	{"https://a.example/rdap/x", "https://a.example/rdap/x/"},
	{"https://a.example/rdap/test/", "https://a.example/rdap/test/"},
	{"https://data.iana.org/rdap/testbed/", "https://data.iana.org/rdap/testbed/"},
	{"https://data.iana.org/", "https://data.iana.org/"},
	{"http://data.iana.org/rdap/", "http://data.iana.org/rdap/"},
	{"https://b.example/a%20b/", "https://b.example/a%20b/"},
	{"https://b.example/rdap/?q=1", "https://b.example/rdap/"},
	{"https://b.example/rdap?q=1", "https://b.example/rdap/"},
	{"https://b.example?q=1", "https://b.example/"},
	{"https://b.example/x?q=1/", "https://b.example/x/"},
	{"https://b.example/rdap#frag", "https://b.example/rdap/"},
	{"https://b.example/a%2Fb/", "https://b.example/a%2Fb/"},
	{"https://b.example/a%2Fb", "https://b.example/a%2Fb/"},
	{"https://b.example/a/b", "https://b.example/a/b/"},
	{"https://b.example/A/b", "https://b.example/A/b/"},
	{"https://b.example/rdap/?Q=1", "https://b.example/rdap/"},
	{"https://u:p@b.example/rdap/", "https://u:p@b.example/rdap/"},
	{"https://u:q@b.example/rdap/", "https://u:q@b.example/rdap/"},
	{"https://u@b.example/rdap", "https://u@b.example/rdap/"},
	{"https://[2001:db8::1]:8443/rdap", "https://[2001:db8::1]:8443/rdap/"},
}

func c10Doc(from string, n int) string {
	u := fmt.Sprintf("https://origin.example/%s?v=%d", url.PathEscape(from), n)
	return string(regDoc([]svc{{entries: []string{"test", "1-100", "10.0.0.0/8", "2001:db8::/32", "TAG"}, urls: []string{u}}}, false))
}

func init() {
	regs := []bootstrap.RegistryType{bootstrap.DNS, bootstrap.ASN, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ServiceProvider}
	c10Services := func(c *Ctx) int { return Pick(c, 6500, 60000) }
	// c10Many: very many services share one cache; every one keeps its own data.
	c10Many := func(c *Ctx) {
		r := regs[c.Choose("reg", len(regs))]
		form := Of(c, "form", []string{"https://h%d.example/rdap/", "https://h.example/%d/rdap", "http://h.example:%d/"})
		c.Shard()
		dir := newScratch()
		defer dropScratch(dir)
		c.scrub = dir
		Bubble(func() {
			v := watchFS(dir)
			v.stamp = time.Now
			v.on()
			defer v.off()
			fetched := map[string]int{}
			rt := httpClient(func(q *http.Request) (*http.Response, error) {
				fetched[q.URL.String()]++
				return httpResp(q, 200, "application/json", c10Doc(q.URL.String(), 1)), nil
			})
			for pass := 0; pass < 2; pass++ {
				for i := 1; i <= c10Services(c); i++ {
					base := fmt.Sprintf(form, i)
					u := mustURL(base)
					d := cache.NewDiskCache()
					d.Dir = dir
					cl := &bootstrap.Client{HTTP: rt, BaseURL: u, Cache: d}
					want := strings.TrimSuffix(base, "/") + "/" + regFile[r]
					a, err := cl.Lookup(&bootstrap.Question{RegistryType: r, Query: regQuery[r]})
					if err != nil || a == nil || len(a.URLs) != 1 {
						c.Fail("%s: lookup %s: %v %v", base, r, a, err)
					}
					from, _ := url.PathUnescape(strings.TrimPrefix(a.URLs[0].EscapedPath(), "/"))
					if from != want {
						c.Fail("a client of %s is answered from data fetched from %s", base, from)
					}
					if fetched[want] != 1 {
						c.Fail("%s was fetched %d times", want, fetched[want])
					}
				}
			}
			c.Step()
			c.State("many", r, form, len(fetched))
		})
	}
	register(&Check{
		ID:   "C10",
		Rule: "all ordered pairs of base URLs x pairs of registry types x {own memory caches, one shared memory cache, shared cache directory} x all sequences of {lookup by X/Y of type 1/2, download by Y, lookup by a fresh X, of type 1/2, accessor of X, advance past the timeout} to the depth bound; every registry document answers every kind of query and names the URL it was fetched from; and for every registry type and three URL forms, thousands of services on one shared cache",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"base_urls": len(c10Bases), "depth": Pick(c, 2, 3), "then": "three probes", "registry_pairs": Pick(c, 5, 10), "services_on_one_cache": c10Services(c)}
		},
		Assumptions: []string{"the services of the many-services runs are numbered"},
		Run: func(c *Ctx) {
			if c.Bool("many services") {
				c10Many(c)
				return
			}
			b1 := Of(c, "base1", c10Bases)
			b2 := Of(c, "base2", c10Bases)
			c.Shard()
			ri := c.Choose("reg1", len(regs))
			r1 := regs[ri]
			r2 := regs[(ri+1)%len(regs)]
			if c.Thorough() {
				r2 = regs[(ri+1+c.Choose("reg2", 2))%len(regs)]
			}
			mode := c.Choose("cache", 3)
			dir := ""
			if mode == 2 {
				dir = newScratch()
				defer dropScratch(dir)
				c.scrub = dir
			}
			Bubble(func() {
				if mode == 2 {
					v := watchFS(dir)
					v.stamp = time.Now
					v.on()
					defer v.off()
				}
				ver := 0
				var want string
				expected := func(b [2]string, r bootstrap.RegistryType) string { return b[1] + regFile[r] }
				rt := httpClient(func(r *http.Request) (*http.Response, error) {
					ver++
					c.Note("GET %s", r.URL)
					c.Check(r.URL.String() == want, "fetched %s, documented location is %s", r.URL, want)
					c.Check(r.Method == "GET", "method %s", r.Method)
					return httpResp(r, 200, "application/json", c10Doc(r.URL.String(), ver)), nil
				})
				shared := cache.NewMemoryCache()
				var all []*url.URL
				var before []url.URL
				mk := func(b [2]string) *bootstrap.Client {
					cl := &bootstrap.Client{HTTP: rt}
					if b[0] != "" {
						u, err := url.Parse(b[0])
						if err != nil {
							harnessf("%v", err)
						}
						cl.BaseURL = u
						all = append(all, u)
						before = append(before, *u)
					}
					switch mode {
					case 1:
						cl.Cache = shared
					case 2:
						d := cache.NewDiskCache()
						d.Dir = dir
						cl.Cache = d
					}
					return cl
				}
				x, y := mk(b1), mk(b2)
				lookup := func(who string, cl *bootstrap.Client, b [2]string, r bootstrap.RegistryType) {
					want = expected(b, r)
					a, err := cl.Lookup(&bootstrap.Question{RegistryType: r, Query: regQuery[r]})
					c.Step()
					c.Check(err == nil && a != nil && len(a.URLs) == 1, "%s: lookup %s: %v %v", who, r, a, err)
					from, _ := url.PathUnescape(strings.TrimPrefix(a.URLs[0].EscapedPath(), "/"))
					c.Note("%s lookup %s answered from %s", who, r, from)
					c.Check(from == want, "%s (base %q): lookup of %s answered from data fetched from %s, its own location is %s", who, b[0], r, from, want)
				}
				for i := 0; i < Pick(c, 2, 3); i++ {
					time.Sleep(time.Millisecond)
					switch c.Choose("op", 8) {
					case 0:
						lookup("X", x, b1, r1)
					case 1:
						lookup("Y", y, b2, r1)
					case 2:
						lookup("fresh X", mk(b1), b1, r1)
					case 3:
						want = expected(b2, r1)
						err := y.Download(r1)
						c.Check(err == nil, "download: %v", err)
					case 4:
						lookup("X", x, b1, r2)
					case 5:
						lookup("fresh X", mk(b1), b1, r2)
					case 6:
						want = "no request"
						if f := accessorOf(x, r1); f != nil {
							from := ""
							for _, us := range f.Entries {
								from, _ = url.PathUnescape(strings.TrimPrefix(us[0].EscapedPath(), "/"))
							}
							c.Check(from == expected(b1, r1), "accessor of X (base %q) shows data fetched from %s", b1[0], from)
						}
					case 7:
						time.Sleep(25 * time.Hour)
					}
				}
				time.Sleep(time.Millisecond)
				lookup("X", x, b1, r1)
				lookup("Y", y, b2, r1)
				lookup("fresh Y", mk(b2), b2, r2)
				for i, u := range all {
					c.Check(*u == before[i], "the caller's base URL was changed from %s to %s", before[i].String(), u.String())
				}
				c.State(b1[0], b2[0], mode, r1, ver)
			})
		},
	})
}
