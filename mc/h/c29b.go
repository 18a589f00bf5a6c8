package main

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// chgQuery is a query of the second part: several share a text, a type, or a server.
type chgQuery struct {
	name string
	reg  bootstrap.RegistryType
	file string
	run  func(cl *rdap.Client) (any, error)
}

func chgQueries() []chgQuery {
	do := func(t rdap.RequestType, text string, server string) func(cl *rdap.Client) (any, error) {
		req := &rdap.Request{Type: t, Query: text}
		if server != "" {
			req = req.WithServer(mustURL(server))
		}
		return func(cl *rdap.Client) (any, error) { r, err := cl.Do(req); return r, err }
	}
	return []chgQuery{
		{"domain a.test", bootstrap.DNS, "dns.json", do(rdap.DomainRequest, "a.test", "")},
		{"domain b.test", bootstrap.DNS, "dns.json", do(rdap.DomainRequest, "b.test", "")},
		{"domain 10.1.2.3", bootstrap.DNS, "dns.json", do(rdap.DomainRequest, "10.1.2.3", "")},
		{"ip 10.1.2.3", bootstrap.IPv4, "ipv4.json", do(rdap.IPRequest, "10.1.2.3", "")},
		{"ip 10.1.0.0/16", bootstrap.IPv4, "ipv4.json", do(rdap.IPRequest, "10.1.0.0/16", "")},
		{"ip 2001:db8::5", bootstrap.IPv6, "ipv6.json", do(rdap.IPRequest, "2001:db8::5", "")},
		{"autnum 50", bootstrap.ASN, "asn.json", do(rdap.AutnumRequest, "50", "")},
		{"domain 50", bootstrap.DNS, "dns.json", do(rdap.DomainRequest, "50", "")},
		{"entity 50-TAG", bootstrap.ServiceProvider, "object-tags.json", do(rdap.EntityRequest, "50-TAG", "")},
		{"domain a.test at a server", 0, "", do(rdap.DomainRequest, "a.test", "https://s1.example/base/")},
		{"nameserver a.test at a server", 0, "", do(rdap.NameserverRequest, "a.test", "https://s1.example/base/")},
		{"QueryDomain a.test", bootstrap.DNS, "dns.json", func(cl *rdap.Client) (any, error) { r, err := cl.QueryDomain("a.test"); return r, err }},
		{"QueryIP 10.1.2.3", bootstrap.IPv4, "ipv4.json", func(cl *rdap.Client) (any, error) { r, err := cl.QueryIP("10.1.2.3"); return r, err }},
		{"QueryAutnum 50", bootstrap.ASN, "asn.json", func(cl *rdap.Client) (any, error) { r, err := cl.QueryAutnum("50"); return r, err }},
	}
}

// c29Changing: histories in which what the servers do changes from query to query.
func c29Changing(c *Ctx) {
	qs := chgQueries()
	urls := []string{"https://s1.example/base/", "https://s2.example/"}
	docs := map[string]string{
		"dns.json":         string(regDoc([]svc{{[]string{"test", "3", "50"}, urls}}, false)),
		"ipv4.json":        string(regDoc([]svc{{[]string{"10.0.0.0/8"}, urls}}, false)),
		"ipv6.json":        string(regDoc([]svc{{[]string{"2001:db8::/32"}, urls}}, false)),
		"asn.json":         string(regDoc([]svc{{[]string{"1-100"}, urls}}, false)),
		"object-tags.json": string(regDoc([]svc{{[]string{"TAG"}, urls}}, true)),
	}
	var firsts, seconds []*srvBeh
	for i := range srvBehs {
		b := &srvBehs[i]
		switch b.name {
		case "ok", "404", "refused", "500", "malformed", "empty", "body error", "429 with error object", "200 error object", "503", "304", "help":
			firsts = append(firsts, b)
		}
		switch b.name {
		case "ok", "404", "refused":
			seconds = append(seconds, b)
		}
	}
	type step struct {
		q      int
		b1, b2 *srvBeh
		wait   time.Duration
	}
	var hist []step
	any1 := func(n int) step {
		s := step{b1: firsts[c.Choose("first server", n)], b2: seconds[0]}
		if s.b1.class == "next" {
			s.b2 = seconds[c.Choose("second server", len(seconds))]
		}
		return s
	}
	switch c.Choose("kind", 3) {
	case 0: // two queries, any two
		a := c.Choose("query", len(qs))
		b := c.Choose("query", len(qs))
		c.Shard()
		s := any1(Pick(c, 7, len(firsts)))
		t := any1(Pick(c, 7, len(firsts)))
		s.q, t.q = a, b
		hist = append(hist, s, t)
	case 1: // one query again and again
		q := c.Choose("query", len(qs))
		b := c.Choose("query", 2) // the same, or alternating with the next
		c.Shard()
		for i := 0; i < Pick(c, 3, 4); i++ {
			s := any1(Pick(c, 5, 7))
			s.q = (q + b*(i%2)) % len(qs)
			hist = append(hist, s)
		}
	case 2: // many of the same outcome, then another
		q := c.Choose("query", len(qs))
		n := Of(c, "times", []int{1, 2, 4, 10, 30})
		c.Shard()
		s := any1(Pick(c, 7, len(firsts)))
		s.wait = Of(c, "pause", []time.Duration{0, 31 * time.Minute, time.Second, time.Minute}[:Pick(c, 2, 4)])
		s.q = q
		for i := 0; i < n; i++ {
			hist = append(hist, s)
		}
		t := any1(Pick(c, 2, 4))
		t.q = q
		hist = append(hist, t)
		t.q = (q + 1) % len(qs)
		hist = append(hist, t)
	}
	Bubble(func() {
		var now step
		var asked, boots []string
		token := 0
		build := func() *rdap.Client {
			return &rdap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				asked = append(asked, r.URL.String())
				b := now.b1
				if r.URL.Host != "s1.example" {
					b = now.b2
				}
				return b.respond(r, fmt.Sprintf("tok%d%s", token, strings.ReplaceAll(r.URL.Path, "/", "-")))
			}), Bootstrap: &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				boots = append(boots, r.URL.String())
				return bsServe(r, docs)
			})}}
		}
		show := func(cl *rdap.Client) string {
			asked, boots = nil, nil
			v, err := qs[now.q].run(cl)
			c.Step()
			es := "nil"
			if err != nil {
				es = fmt.Sprintf("%T type %d: %v", err, clientErrorType(err), err)
			}
			return fmt.Sprintf("requests %q\nresult %s\nerror %s", asked, dump(v), es)
		}
		cl := build()
		have := map[string]time.Time{}
		for k, s := range hist {
			now = s
			token = k
			q := qs[s.q]
			c.Note("%d: %s; servers %s, %s", k, q.name, s.b1.name, s.b2.name)
			got := show(cl)
			wantBoots := 0
			if at, ok := have[q.file]; q.file != "" && (!ok || time.Since(at) > 24*time.Hour) {
				wantBoots = 1
				have[q.file] = time.Now()
			}
			c.Check(len(boots) == wantBoots, "query %d (%s) fetched %q, want %d registry files", k, q.name, boots, wantBoots)
			fresh := build()
			if q.file != "" {
				if err := fresh.Bootstrap.Download(q.reg); err != nil {
					harnessf("download: %v", err)
				}
			}
			want := show(fresh)
			c.Check(got == want, "query %d (%s; servers %s, %s) of this history gives\n%s\nbut a new client gives\n%s", k, q.name, s.b1.name, s.b2.name, got, want)
			time.Sleep(s.wait)
			c.State(q.name, s.b1.name, s.b2.name, k)
		}
	})
}
