package main

import (
	"net/http"
	"net/url"
	"reflect"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

func init() {
	servers := []string{"https://h.example", "https://h.example:8443/base", "http://h.example/a%2Fb/c/", "http://u:p@[2001:db8::1]:80/rdap?k=v&k=w&e=a%26b", "http://h.example/?x=1#frag", "https://h.example/%C3%A9/?", "http://h.example//a/../b/", "https://RDAP.Example.COM:443/Base//", "http://h.example:80/x;y=1/z,a", "https://h.example/r?flag&k=&k=&=v&z=0#%41", "https://h.example/a%2F", "http://h.example/a%2f?x=%2F", "https://h.example/%2F/", "http://h.example/a%252F"}
	params := []url.Values{nil, {"p": {"1"}}, {"p": {"1", "a b&c=d"}, "q": {""}}, {"name": {"evil"}, "fn": {"evil"}, "handle": {"evil"}, "ip": {"evil"}, "nsIp": {"evil"}, "nsLdhName": {"evil"}}, {}}
	alpha := []string{"a", "/", "?", "#", "%", "&", "=", ".", " ", ":", "@", "\\", "+", ";", "\xc3\xa9", "\x00", "\n", "*", "2", "F", "-", "\xff"}
	var texts, full []string
	register(&Check{
		ID:   "C14",
		Rule: "all request types x server URL shapes x parameter sets x all query texts up to the length bound over URL metacharacters, every single byte, and fixed attack strings; URL() twice, by value and through the client's actual HTTP request; raw requests for all server shapes",
		Setup: func(c *Ctx) {
			texts = words(alpha, Pick(c, 2, 3))
			for b := 0; b < 256; b++ {
				texts = append(texts, "x"+string([]byte{byte(b)})+"y", string([]byte{byte(b)}))
			}
			texts = append(texts, words([]string{"%", "2", "5", "f", "/"}, Pick(c, 4, 5))...)
			texts = append(texts, "../../evil", "..", ".", "//evil.example/x", "http://evil.example/", "a/b/c", "10.0.0.0/8", "2001:db8::/32", "1/2/3", "a?name=b", "a#b", "%2F", "%zz", "%", "a%00b", "x@evil.example", "exam*.com", "ns1.\u00e9xample.com", "b\u00fccher.example", "a&name=b", "a;b=c", "A B", "%2e%2e%2f")
			full = words(alpha, 3)
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"types": len(reqSpecs) + 1, "servers": servers, "param_sets": len(params), "texts": len(texts), "alphabet": len(alpha), "word_length": Pick(c, 2, 3)}
		},
		Assumptions: []string{"an IP block's prefix length is documented as a path segment of its own (ip/ADDRESS/LENGTH)", "server parameters are well formed and do not share names with Params"},
		Run: func(c *Ctx) {
			ti := c.Choose("type", len(reqSpecs)+1)
			si := c.Choose("server", len(servers))
			pi := c.Choose("params", len(params))
			lo := c.Choose("texts", 16)
			c.Shard()
			_ = full
			su, err := url.Parse(servers[si])
			if err != nil {
				harnessf("%v", err)
			}
			orig := *su
			if ti == len(reqSpecs) { // raw
				req := rdap.NewRawRequest(su)
				req.Params = params[pi]
				for range 2 {
					u := req.URL()
					c.Step()
					c.Check(u != nil && u.String() == servers[si], "raw request for %s gives %v", servers[si], u)
					c.Check(reflect.DeepEqual(*su, orig), "URL() changed the caller's URL to %v", su)
					u.Host, u.Path, u.RawQuery = "changed", "/changed", "changed" // the caller owns the result
				}
				var got []string
				cl := &rdap.Client{Bootstrap: &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
					c.Fail("bootstrap contacted for a raw request")
					return nil, nil
				})}, HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
					got = append(got, r.URL.String())
					return httpResp(r, 200, "", `{"objectClassName":"domain"}`), nil
				})}
				cl.Do(req)
				c.Check(len(got) == 1 && got[0] == servers[si], "raw request fetches %q, want %s", got, servers[si])
				return
			}
			sp := reqSpecs[ti]
			for k := lo; k < len(texts); k += 16 {
				text := texts[k]
				var ps, ps0 url.Values
				if params[pi] != nil {
					ps, ps0 = url.Values{}, url.Values{}
					for k, v := range params[pi] {
						ps[k] = append([]string{}, v...)
						ps0[k] = append([]string{}, v...)
					}
				}
				req := &rdap.Request{Type: sp.typ, Query: text, Server: su, Params: ps}
				var first string
				for i := range 2 {
					u := req.URL()
					c.Step()
					c.Check(u != nil, "%s %q on %s: no URL", sp.name, text, servers[si])
					if i == 0 {
						first = u.String()
					}
					c.Check(u.String() == first, "%s %q on %s: URL differs when built again: %q, then %q", sp.name, text, servers[si], first, u)
					c.Check(reflect.DeepEqual(*su, orig), "%s %q: URL() changed the server URL from %v to %v", sp.name, text, &orig, su)
					c.Check(reflect.DeepEqual(ps, ps0), "%s %q: URL() changed the parameters to %v", sp.name, text, ps)
					c.Check(req.Query == text && req.Type == sp.typ && req.Server == su, "URL() changed the request")
					u.Host = "changed" // the caller owns the result
					u.RawQuery += "&z=z"
				}
				if m := checkReqURL(first, &orig, sp, text, ps0); m != "" {
					c.Fail("%s query %q on %s, params %v: %s", sp.name, text, servers[si], ps0, m)
				}
				// what is actually sent
				var got []*http.Request
				cl := &rdap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
					got = append(got, r)
					return httpResp(r, 200, "", `{"objectClassName":"domain"}`), nil
				})}
				resp, err := cl.Do(req)
				c.Step()
				c.Check(err == nil && len(got) == 1, "%s query %q on %s: %v, %d requests", sp.name, text, servers[si], err, len(got))
				if m := checkReqURL(got[0].URL.String(), &orig, sp, text, ps0); m != "" {
					c.Fail("%s query %q on %s, params %v: request %s", sp.name, text, servers[si], ps0, m)
				}
				c.Check(got[0].Host == "" || got[0].Host == orig.Host, "Host header %q, server %q", got[0].Host, orig.Host)
				c.Check(resp.HTTP[0].URL == first, "recorded URL %q, want %q", resp.HTTP[0].URL, first)
				c.Check(reflect.DeepEqual(*su, orig) && reflect.DeepEqual(ps, ps0), "the query changed the server URL or parameters")
				c.State(sp.name, si, pi, text)
			}
		},
	})
}
