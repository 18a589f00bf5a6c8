package main

import (
	"fmt"
	"net/http"
	"net/netip"
	"net/url"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// refASN parses an AS number as documented: 1234, AS1234, as1234.
func refASN(s string) (uint32, bool) {
	if len(s) >= 2 && strings.EqualFold(s[:2], "as") {
		s = s[2:]
	}
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
	}
	n, err := strconv.ParseUint(s, 10, 32)
	return uint32(n), err == nil
}

// refIP parses an address or block; ok is false when it is malformed or of the other family.
func refIP(s string, v6 bool) (netip.Prefix, bool) {
	var p netip.Prefix
	if strings.Contains(s, "/") {
		x, err := netip.ParsePrefix(s)
		if err != nil {
			return p, false
		}
		p = x
	} else {
		a, err := netip.ParseAddr(s)
		if err != nil || a.Zone() != "" {
			return p, false
		}
		p = netip.PrefixFrom(a, a.BitLen())
	}
	return p.Masked(), p.Addr().Is6() == v6
}

func init() {
	texts := []string{
		"www.example.test", "EXAMPLE.Test.", "a.sub.test", "x.nomatch", "test", "10.1.2.3", "10.20.0.0/16", "10.0.0.0/7", "192.0.2.1", "2001:db8::1", "2001:db8:1::/48",
		"2002::", "AS50", "as4200000000", "50", "101", "AS", "H1-TAG", "H1-OTHER", "TAG", "H1-TAG-NONE", "", "1.2.3", "10.1.2.3/33", "::/0", "0.0.0.0/0", "a b", "-", "x-TAG", "4294967296", "example.test/../help", "%2e", "10.1.2.3?x=y",
		"2001:db8::/16", "fe80::1", "10.1.2.3:80", ":", "x.test:80", "TAG:H-TAG", "50-TAG", "AS50.test", "sub.test", "ns1.example.TEST", "1.0.0.10.in-addr.arpa",
		" www.example.test", "www.example.test ", "x.test\t", "\nAS50", "AS50 ", " 10.1.2.3", "10.1.2.3 ", "2001:db8::1 ", "H1-TAG ", " H1-TAG", "H1 -TAG", "H1- TAG", "x.test..", ".test", "..test", "a..test", "*.test", "x.test#f", "_x.test", "TEST", "ẞ.test", "x.TEſT",
		"*.5", "*.AS50", "*.10.1.2.3", "*.2001:db8::1", "*.H1-TAG", "*.", "*", "*.www.example.test", "*.*.test", "www.5", "www.10.1.2.3", "ASN50", "AS-50", "AS.50", "ASAS50", "AS+50", "+50", "-50", "0x32", "5_0", "1.50", "0050", "50.", "50.0", "[2001:db8::1]", "(10.1.2.3)", "\"50\"", "10.1.2.3.", "10.1.2.3,", "http://www.example.test", "http://10.1.2.3/", "mailto:x@y.test", "H1-TAG.", "H1-tag", "H1-TAG/", "H1.TAG", "H1_TAG", "H1~TAG", "H1--TAG", "-TAG",
	}
	type entry struct {
		key  string
		urls []string
	}
	// variants of the registries; each names distinct servers
	mk := func(tag string, full bool) map[string][]entry {
		m := map[string][]entry{
			"dns.json":         {{"test", []string{"https://dns." + tag + ".example/rdap/", "https://dns2." + tag + ".example"}}, {"sub.test", []string{"https://sub." + tag + ".example/"}}},
			"asn.json":         {{"1-100", []string{"https://asn." + tag + ".example/"}}, {"4200000000-4294967294", []string{"https://asn2." + tag + ".example/x", "http://asn3." + tag + ".example/"}}},
			"ipv4.json":        {{"10.0.0.0/8", []string{"https://v4." + tag + ".example/"}}, {"10.20.0.0/16", []string{"https://v4b." + tag + ".example/"}}},
			"ipv6.json":        {{"2001:db8::/32", []string{"https://v6." + tag + ".example/rdap"}}, {"2001:db8:1::/48", []string{"https://v6b." + tag + ".example/"}}},
			"object-tags.json": {{"TAG", []string{"https://tag." + tag + ".example/"}}, {"OTHER", []string{"https://other." + tag + ".example/"}}},
		}
		if !full {
			for k, v := range m {
				m[k] = v[1:]
			}
			m["dns.json"] = append(m["dns.json"], entry{"", []string{"https://root.example/"}})
		}
		return m
	}
	variants := []map[string][]entry{mk("a", true), mk("b", false), {"dns.json": {}, "asn.json": {}, "ipv4.json": {}, "ipv6.json": {}, "object-tags.json": {}}, {}}
	explicit := []string{"https://given.example/rdap", "http://user:pw@given.example:8080/?k=v", "https:///rdap/", "//given.example/rdap/", "https://[2001:db8::1]/x", "/rdap/", ""}
	register(&Check{
		ID:   "C13",
		Rule: "all request types x query texts x registry variants (matching, partly matching, empty, unavailable), without and with an explicit server, through Client.Do and the one-call queries; both the registry consulted and the RDAP requests are compared with a reference lookup",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"types": len(reqSpecs) + 1, "texts": len(texts), "registry_variants": len(variants), "explicit_servers": explicit}
		},
		Run: func(c *Ctx) {
			ti := c.Choose("type", len(reqSpecs))
			text := Of(c, "text", texts)
			c.Shard()
			sp := reqSpecs[ti]
			vi := c.Choose("registries", len(variants))
			reg := variants[vi]
			sv := c.Choose("server", 1+len(explicit))
			quick := false
			if sv == 0 && (sp.name == "domain" || sp.name == "ip" || sp.name == "autnum") {
				quick = c.Bool("one-call")
			}
			answered := c.Bool("answers") // otherwise every server fails
			rotate(c.Choose("rotation", 2) * 3)

			docs := map[string]string{}
			for f, es := range reg {
				var s []svc
				for _, e := range es {
					s = append(s, svc{entries: []string{e.key}, urls: e.urls})
				}
				docs[f] = string(regDoc(s, f == "object-tags.json"))
			}
			// reference
			file := sp.reg
			if file == "ip" {
				file = "ipv4.json"
				if strings.Contains(text, ":") {
					file = "ipv6.json"
				}
			}
			var want []string
			bad := false
			if file != "" {
				switch file {
				case "dns.json":
					name := strings.ToLower(strings.TrimSuffix(text, "."))
					best := -1
					for _, e := range reg[file] {
						if name == e.key || strings.HasSuffix(name, "."+e.key) || e.key == "" {
							if len(e.key) > best {
								best, want = len(e.key), e.urls
							}
						}
					}
				case "asn.json":
					n, ok := refASN(text)
					bad = !ok
					for _, e := range reg[file] {
						lo, hi, _ := strings.Cut(e.key, "-")
						l, _ := strconv.ParseUint(lo, 10, 32)
						h, _ := strconv.ParseUint(hi, 10, 32)
						if ok && uint64(n) >= l && uint64(n) <= h {
							want = e.urls
						}
					}
				case "ipv4.json", "ipv6.json":
					p, ok := refIP(text, file == "ipv6.json")
					bad = !ok
					best := -1
					for _, e := range reg[file] {
						ep := netip.MustParsePrefix(e.key)
						if ok && ep.Bits() <= p.Bits() && ep.Contains(p.Addr()) && ep.Bits() > best {
							best, want = ep.Bits(), e.urls
						}
					}
				case "object-tags.json":
					if i := strings.LastIndexAny(text, "-~"); i >= 0 {
						for _, e := range reg[file] {
							if e.key == text[i+1:] && e.key != "" {
								want = e.urls
							}
						}
					}
				}
			}
			var bs, rd []string
			hosts := []string{}
			cl := &rdap.Client{}
			cl.Bootstrap = &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				bs = append(bs, r.URL.String())
				return bsServe(r, docs)
			})}
			var server *url.URL
			cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
				c.Step()
				i := len(rd)
				rd = append(rd, r.URL.String())
				hosts = append(hosts, r.URL.Host)
				var su *url.URL
				if server != nil {
					c.Check(i == 0, "more than one request to the given server")
					su = server
				} else {
					c.Check(i < len(want), "unexpected RDAP request %s", r.URL)
					su, _ = url.Parse(want[i])
				}
				if server != nil && (server.Host == "" || server.Scheme == "") {
					c.Check(r.URL.Host == server.Host && r.URL.Scheme == server.Scheme, "request %s does not go to the given server %s", r.URL, server)
				} else if m := checkReqURL(r.URL.String(), su, sp, text, nil); m != "" {
					c.Fail("%s", m)
				}
				if !answered {
					return nil, errRefused
				}
				cls := map[string]string{"domain": "domain", "ip": "ip network", "autnum": "autnum"}[sp.name]
				if cls == "" {
					cls = "entity"
				}
				return httpResp(r, 200, "application/rdap+json", fmt.Sprintf(`{"objectClassName":"%s","handle":"H%d"}`, cls, i)), nil
			})
			c.Note("%s query %q, registries %d, server %d", sp.name, text, vi, sv)
			c.State(sp.name, text, vi, sv, quick, answered)
			var err error
			var ok bool
			if quick {
				var o any
				switch sp.name {
				case "domain":
					d, e := cl.QueryDomain(text)
					o, err, ok = d, e, d != nil
				case "ip":
					d, e := cl.QueryIP(text)
					o, err, ok = d, e, d != nil
				case "autnum":
					d, e := cl.QueryAutnum(text)
					o, err, ok = d, e, d != nil
				}
				_ = o
			} else {
				req := rdap.NewRequest(sp.typ, text)
				if sv > 0 {
					server, _ = url.Parse(explicit[sv-1])
					u, _ := url.Parse(explicit[sv-1])
					req = req.WithServer(u)
				}
				resp, e := cl.Do(req)
				err, ok = e, resp != nil && resp.Object != nil
			}
			c.Step()
			c.Note("bootstrap requests %q; RDAP requests %q; err %v", bs, rd, err)
			c.Check(ok == (err == nil), "object returned %v with error %v", ok, err)
			if sv > 0 {
				c.Check(len(bs) == 0, "bootstrap service contacted despite an explicit server: %q", bs)
				if server.Host == "" || server.Scheme == "" {
					// not a usable server: an error, or whatever the HTTP client makes of it
					c.Check(err == nil || !ok, "object together with error %v", err)
					return
				}
				c.Check(len(rd) == 1, "%d RDAP requests, want 1", len(rd))
				c.Check((err == nil) == answered, "error %v", err)
				return
			}
			if file == "" {
				c.Check(len(bs) == 0 && len(rd) == 0, "network traffic for a type that has no registry: %q %q", bs, rd)
				c.Check(err != nil && clientErrorType(err) == rdap.BootstrapNotSupported, "error is %v", err)
				return
			}
			for _, b := range bs {
				c.Check(strings.HasSuffix(b, "/"+file), "registry %s consulted, want %s", b, file)
			}
			if reg[file] == nil {
				c.Check(err != nil && len(rd) == 0, "registry unavailable: err %v, RDAP requests %q", err, rd)
				return
			}
			if bad {
				c.Check(err != nil && len(rd) == 0, "malformed query: err %v, RDAP requests %q", err, rd)
				return
			}
			c.Check(len(bs) == 1, "%d bootstrap requests", len(bs))
			if len(want) == 0 {
				c.Check(len(rd) == 0, "no match, yet RDAP servers contacted: %q", rd)
				c.Check(err != nil && clientErrorType(err) == rdap.BootstrapNoMatch, "no match: error is %v", err)
				return
			}
			if answered {
				c.Check(err == nil && len(rd) == 1, "err %v, RDAP requests %q", err, rd)
			} else {
				c.Check(err != nil && len(rd) == len(want), "err %v, RDAP requests %q, want all of %q", err, rd, want)
			}
		},
	})
}
