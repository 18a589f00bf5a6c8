package main

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// dump renders everything reachable from v: the contents behind pointers, slices, maps and
// interfaces, unexported fields included. HTTP plumbing and contexts are left out.
func dump(v any) string {
	var b strings.Builder
	seen := map[uintptr]int{}
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if !v.IsValid() {
			b.WriteString("<nil>")
			return
		}
		t := v.Type()
		switch t.String() {
		case "http.Response":
			fmt.Fprintf(&b, "status %d ", v.FieldByName("StatusCode").Int())
			walk(v.FieldByName("Header"), d+1)
			return
		case "time.Time", "http.Request", "tls.ConnectionState":
			b.WriteString(t.String())
			return
		}
		if d > 40 {
			b.WriteString("...")
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			p := v.Pointer()
			if n, ok := seen[p]; ok {
				fmt.Fprintf(&b, "#%d", n)
				return
			}
			seen[p] = len(seen)
			b.WriteString("&")
			walk(v.Elem(), d+1)
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			e := v.Elem()
			if strings.HasPrefix(e.Type().String(), "context.") || strings.HasPrefix(e.Type().String(), "*context.") {
				b.WriteString("ctx")
				return
			}
			fmt.Fprintf(&b, "(%s)", e.Type())
			walk(e, d+1)
		case reflect.Struct:
			b.WriteString(t.String() + "{")
			for i := 0; i < v.NumField(); i++ {
				b.WriteString(t.Field(i).Name + ":")
				walk(v.Field(i), d+1)
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.IsNil() {
				b.WriteString("nil")
				return
			}
			if t.Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
				fmt.Fprintf(&b, "%q", v.Bytes())
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d+1)
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			var parts []string
			keep := b
			it := v.MapRange()
			for it.Next() {
				b = strings.Builder{}
				walk(it.Key(), d+1)
				k := b.String()
				b = strings.Builder{}
				walk(it.Value(), d+1)
				parts = append(parts, k+"="+b.String())
			}
			b = strings.Builder{}
			b.WriteString(keep.String())
			sort.Strings(parts)
			b.WriteString("{" + strings.Join(parts, " ") + "}")
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			if v.IsNil() {
				b.WriteString("nil")
			} else {
				b.WriteString(v.Kind().String())
			}
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&b, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(&b, v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(&b, v.Float())
		default:
			b.WriteString(v.Kind().String())
		}
	}
	walk(reflect.ValueOf(v), 0)
	return b.String()
}

// an operation of a query history
type histOp struct {
	name string
	req  func() *rdap.Request // nil for the one-call queries and pauses
	call string               // QueryDomain, QueryIP, QueryAutnum, nil
	text string
	ctx  string // "", cancelled, deadline
	reg  string // registry it needs
	wait time.Duration
}

var histOps = []histOp{
	{name: "domain answered", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "www.good.test"} }},
	{name: "domain, first server broken", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "x.second"} }},
	{name: "domain not found", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "none.gone"} }},
	{name: "domain, no registry match", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "a.nomatch"} }},
	{name: "domain, all servers fail", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "a.dead"} }},
	{name: "domain, server hangs, request timeout", reg: "dns.json", req: func() *rdap.Request {
		return &rdap.Request{Type: rdap.DomainRequest, Query: "a.hang", Timeout: 7 * time.Second}
	}},
	{name: "IPv4 block", reg: "ipv4.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.IPRequest, Query: "10.1.0.0/16"} }},
	{name: "malformed IPv4", reg: "ipv4.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.IPRequest, Query: "10.1.2.300"} }},
	{name: "IPv6", reg: "ipv6.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.IPRequest, Query: "2001:db8::5"} }},
	{name: "autnum", reg: "asn.json", req: func() *rdap.Request {
		return &rdap.Request{Type: rdap.AutnumRequest, Query: "AS50", Timeout: 20 * time.Second}
	}},
	{name: "entity, registry unavailable", reg: "object-tags.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.EntityRequest, Query: "H-TAG"} }},
	{name: "domain, server with parameters", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "a.slow"} }},
	{name: "help without server", req: func() *rdap.Request { return &rdap.Request{Type: rdap.HelpRequest} }},
	{name: "nameserver at a server", req: func() *rdap.Request {
		u, _ := url.Parse("https://given.example/base?k=v")
		return &rdap.Request{Type: rdap.NameserverRequest, Query: "ns1.good.test", Server: u, Params: url.Values{"a": {"1", "2"}}}
	}},
	{name: "search at a server", req: func() *rdap.Request {
		u, _ := url.Parse("https://given.example/base?k=v")
		return &rdap.Request{Type: rdap.DomainSearchRequest, Query: "exam*.test", Server: u, Params: url.Values{"b": {"3"}}}
	}},
	{name: "raw URL", req: func() *rdap.Request {
		u, _ := url.Parse("https://given.example/x/y?z=1")
		return &rdap.Request{Type: rdap.RawRequest, Server: u, Params: url.Values{"a": {"1"}}}
	}},
	{name: "domain at a refusing server", req: func() *rdap.Request {
		u, _ := url.Parse("https://dead.example/")
		return &rdap.Request{Type: rdap.DomainRequest, Query: "www.good.test", Server: u}
	}},
	{name: "cancelled domain", ctx: "cancelled", reg: "dns.json", req: func() *rdap.Request { return &rdap.Request{Type: rdap.DomainRequest, Query: "www.good.test"} }},
	{name: "domain with context deadline at a hanging server", ctx: "deadline", req: func() *rdap.Request {
		u, _ := url.Parse("https://hang.example/")
		return &rdap.Request{Type: rdap.DomainRequest, Query: "www.good.test", Server: u}
	}},
	{name: "nil request", call: "nil"},
	{name: "QueryDomain", call: "QueryDomain", text: "www.good.test", reg: "dns.json"},
	{name: "QueryDomain, error object", call: "QueryDomain", text: "a.err", reg: "dns.json"},
	{name: "QueryIP, wrong type", call: "QueryIP", text: "10.9.9.9", reg: "ipv4.json"},
	{name: "QueryAutnum", call: "QueryAutnum", text: "50", reg: "asn.json"},
	{name: "QueryDomain, hangs", call: "QueryDomain", text: "a.hang", reg: "dns.json"},
	{name: "a day passes", wait: 25 * time.Hour},
}

// histDocs are the registries; object-tags.json is missing.
func histDocs() map[string]string {
	return map[string]string{
		"dns.json": string(regDoc([]svc{{[]string{"test"}, []string{"https://Good.Example/rdap/"}}, {[]string{"second"}, []string{"https://bad.example/", "https://broken.example/x", "https://good.example/rdap"}},
			{[]string{"gone"}, []string{"https://gone.example/", "https://good.example/"}}, {[]string{"dead"}, []string{"https://dead.example/", "https://bad.example/"}},
			{[]string{"hang"}, []string{"https://hang.example/", "https://good.example/"}}, {[]string{"err"}, []string{"https://err.example/"}}, {[]string{"slow"}, []string{"https://bad.example/p/?k=v&l=w", "https://slow.example/p?k=v"}}}, false)),
		"ipv4.json": string(regDoc([]svc{{[]string{"10.0.0.0/8"}, []string{"https://v4.example/"}}}, false)),
		"ipv6.json": string(regDoc([]svc{{[]string{"2001:db8::/32"}, []string{"https://v6.example/"}}}, false)),
		"asn.json":  string(regDoc([]svc{{[]string{"1-100"}, []string{"https://asn.example/", "https://asn2.example/"}}}, false)),
	}
}

// histServer is the stateless network every client faces.
func histServer(docs map[string]string, log func(kind, what string)) rtFunc {
	return func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" || r.URL.Host == "boot.example" {
			if e := r.Context().Err(); e != nil {
				return nil, e
			}
			log("bootstrap", r.URL.String())
			return bsServe(r, docs)
		}
		if e := r.Context().Err(); e != nil {
			return nil, e
		}
		log("rdap", fmt.Sprintf("%s %s accept=%q agent=%q", r.Method, r.URL, r.Header.Values("Accept"), r.Header.Values("User-Agent")))
		tok := "h-" + r.URL.Host + r.URL.Path
		obj := func(cls, more string) (*http.Response, error) {
			return httpResp(r, 200, "application/rdap+json", fmt.Sprintf(`{"objectClassName":%q,"handle":%q,"status":["active"],"x_unknown":[1,{"a":"b"}],"entities":[{"objectClassName":"entity","handle":"E1","roles":["registrant"]}]%s}`, cls, tok, more)), nil
		}
		switch strings.ToLower(r.URL.Host) {
		case "slow.example": // answers after a while, within the default timeout
			select {
			case <-r.Context().Done():
				return nil, r.Context().Err()
			case <-time.After(25 * time.Second):
			}
			return obj("domain", "")
		case "good.example":
			return obj("domain", `,"ldhName":"x"`)
		case "bad.example":
			return httpResp(r, 500, "text/plain", "oops"), nil
		case "broken.example":
			return httpResp(r, 200, "application/json", `{"objectClassName":"domain"`), nil
		case "gone.example":
			return httpResp(r, 404, "text/plain", "gone"), nil
		case "dead.example":
			return nil, errRefused
		case "hang.example":
			<-r.Context().Done()
			return nil, r.Context().Err()
		case "err.example":
			return httpResp(r, 200, "application/rdap+json", `{"errorCode":418,"title":"teapot","description":["a","b"]}`), nil
		case "v4.example":
			if strings.Contains(r.URL.Path, "10.9") {
				return obj("autnum", "")
			}
			return obj("ip network", `,"startAddress":"10.0.0.0"`)
		case "v6.example":
			return obj("ip network", "")
		case "asn.example":
			return httpResp(r, 503, "", ""), nil
		case "asn2.example":
			return obj("autnum", `,"startAutnum":1,"endAutnum":100`)
		case "given.example":
			return obj("nameserver", "")
		}
		return nil, fmt.Errorf("unknown host %s", r.URL.Host)
	}
}

// histWorld is one client and the record of its traffic.
type histWorld struct {
	cl       *rdap.Client
	rdap     []string
	boot     []string
	verbose  int
	bverbose int
	reqs     map[int]*rdap.Request
	base     *url.URL
}

func newHistWorld(variant int, docs map[string]string) *histWorld {
	w := &histWorld{reqs: map[int]*rdap.Request{}}
	rt := histServer(docs, func(kind, what string) {
		if kind == "rdap" {
			w.rdap = append(w.rdap, what)
		} else {
			w.boot = append(w.boot, what)
		}
	})
	switch variant {
	case 0: // nothing configured
		http.DefaultTransport = rt
		w.cl = &rdap.Client{}
	case 1:
		w.base, _ = url.Parse("https://boot.example/b")
		w.cl = &rdap.Client{HTTP: httpClient(rt), UserAgent: "agent/2", Verbose: func(string) { w.verbose++ },
			Bootstrap: &bootstrap.Client{HTTP: httpClient(rt), BaseURL: w.base, Verbose: func(string) { w.bverbose++ }}}
	case 2: // the bootstrap client's own callback is not set
		w.base, _ = url.Parse("https://boot.example/b")
		w.cl = &rdap.Client{HTTP: httpClient(rt), UserAgent: "agent/2", Verbose: func(string) { w.verbose++ }, Bootstrap: &bootstrap.Client{HTTP: httpClient(rt), BaseURL: w.base}}
	}
	return w
}

// run executes operation i and renders its outcome.
func (w *histWorld) run(i int) (out string, result any) {
	op := &histOps[i]
	w.rdap, w.boot = nil, nil
	t0 := time.Now()
	var resp *rdap.Response
	var err error
	switch {
	case op.call == "nil":
		resp, err = w.cl.Do(nil)
		result = resp
	case op.call == "QueryDomain":
		d, e := w.cl.QueryDomain(op.text)
		err, result = e, d
	case op.call == "QueryIP":
		d, e := w.cl.QueryIP(op.text)
		err, result = e, d
	case op.call == "QueryAutnum":
		d, e := w.cl.QueryAutnum(op.text)
		err, result = e, d
	default:
		req := w.reqs[i]
		if req == nil {
			req = op.req()
			w.reqs[i] = req
		}
		use := req
		switch op.ctx {
		case "cancelled":
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			use = req.WithContext(ctx)
		case "deadline":
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
			defer cancel()
			use = req.WithContext(ctx)
		}
		resp, err = w.cl.Do(use)
		result = resp
	}
	es := "nil"
	if err != nil {
		es = fmt.Sprintf("%T type %d: %v", err, clientErrorType(err), err)
	}
	return fmt.Sprintf("requests %q\nresult %s\nerror %s\ntook %v", w.rdap, dump(result), es, time.Since(t0)), result
}

func init() {
	var alone, warm [3][]string // outcomes of a new client, without and with the registry it needs
	var aloneBoot [3][][]string
	saved := http.DefaultTransport
	register(&Check{
		ID:   "C29",
		Rule: "all sequences of up to n operations from an alphabet of queries (every kind and outcome, request objects reused) and a pause longer than the cache timeout, by one client, unconfigured, fully configured or with a bootstrap client without a callback; each outcome, with its RDAP requests and duration, is compared with a fresh client's; request objects, registries, client settings and earlier responses are compared deeply before and after; histories of queries sharing texts, types or servers (any two; one repeated three times; up to 30 of one outcome with pauses, then others) in which the servers' behaviour changes from query to query, each compared with a new client facing the same behaviour",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"operations": len(histOps), "length": Pick(c, 3, 4), "clients": 3}
		},
		Assumptions: []string{"in the first part the servers' behaviour depends on the request only", "virtual clock"},
		Run: func(c *Ctx) {
			if c.Bool("changing servers") {
				c29Changing(c)
				return
			}
			variant := c.Choose("client", 3)
			docs := histDocs()
			if alone[variant] == nil {
				for i := range histOps {
					var out string
					w := newHistWorld(variant, docs)
					if histOps[i].wait == 0 {
						Bubble(func() { out, _ = w.run(i) })
					}
					alone[variant] = append(alone[variant], out)
					if r := histOps[i].reg; histOps[i].wait == 0 && docs[r] != "" {
						w2 := newHistWorld(variant, docs)
						Bubble(func() {
							if w2.cl.Bootstrap == nil {
								w2.cl.Bootstrap = &bootstrap.Client{}
							}
							if err := w2.cl.Bootstrap.Download(map[string]bootstrap.RegistryType{"dns.json": bootstrap.DNS, "ipv4.json": bootstrap.IPv4, "ipv6.json": bootstrap.IPv6, "asn.json": bootstrap.ASN}[r]); err != nil {
								harnessf("download: %v", err)
							}
							out, _ = w2.run(i)
						})
					}
					warm[variant] = append(warm[variant], out)
					aloneBoot[variant] = append(aloneBoot[variant], w.boot)
				}
				http.DefaultTransport = saved
			}
			max := Pick(c, 3, 4)
			first := c.Choose("op", len(histOps))
			second := c.Choose("op", len(histOps))
			c.Shard()
			Bubble(func() {
				defer func() { http.DefaultTransport = saved }()
				w := newHistWorld(variant, docs)
				def := dump(http.DefaultClient)
				cfg := dump(w.cl.HTTP)
				htp, boot := w.cl.HTTP, w.cl.Bootstrap
				var bhttp *http.Client
				if boot != nil {
					bhttp = boot.HTTP
				}
				fetched := map[string]time.Time{}
				type earlier struct {
					op  int
					v   any
					dmp string
				}
				var past []earlier
				var names []string
				for k := 0; k < max; k++ {
					i := first
					if k == 1 {
						i = second
					} else if k > 1 {
						i = c.Choose("op", len(histOps))
					}
					op := &histOps[i]
					names = append(names, op.name)
					c.Note("%d: %s", k, op.name)
					if op.wait > 0 {
						time.Sleep(op.wait)
						continue
					}
					var before string
					if op.req != nil {
						if w.reqs[i] == nil {
							w.reqs[i] = op.req()
						}
						before = dump(w.reqs[i])
					}
					regs := map[string]string{}
					if b := w.cl.Bootstrap; b != nil {
						regs = dumpRegs(b)
					}
					out, v := w.run(i)
					c.Step()
					at, have := fetched[op.reg]
					have = have && time.Since(at) <= 24*time.Hour
					want := alone[variant][i]
					if have {
						want = warm[variant][i]
					}
					c.Check(out == want, "operation %d (%s) after %q gives\n%s\nbut a new client gives\n%s", k, op.name, names[:k], out, want)
					// registry files: only those missing or stale are fetched
					if have {
						c.Check(len(w.boot) == 0, "operation %d (%s) fetched %q though the registry is fresh", k, op.name, w.boot)
					} else {
						c.Check(eqStrings(w.boot, aloneBoot[variant][i]), "operation %d (%s) fetched registries %q, a new client fetches %q", k, op.name, w.boot, aloneBoot[variant][i])
						if len(w.boot) > 0 && docs[op.reg] != "" {
							fetched[op.reg] = time.Now()
						}
					}
					if op.req != nil {
						c.Check(dump(w.reqs[i]) == before, "operation %d (%s) changed its request from %s to %s", k, op.name, before, dump(w.reqs[i]))
					}
					if len(w.boot) == 0 && w.cl.Bootstrap != nil {
						now := dumpRegs(w.cl.Bootstrap)
						for f, d := range regs {
							c.Check(now[f] == d, "operation %d (%s) changed registry %s from %s to %s", k, op.name, f, d, now[f])
						}
					}
					for _, e := range past {
						c.Check(dump(e.v) == e.dmp, "operation %d (%s) changed the response of the earlier %s from %s to %s", k, op.name, histOps[e.op].name, e.dmp, dump(e.v))
					}
					past = append(past, earlier{i, v, dump(v)})
					c.Check(dump(http.DefaultClient) == def, "operation %d (%s) changed http.DefaultClient: %s", k, op.name, dump(http.DefaultClient))
					if variant > 0 {
						c.Check(w.cl.HTTP == htp && w.cl.Bootstrap == boot && boot.HTTP == bhttp, "operation %d (%s) replaced the caller's HTTP or bootstrap client", k, op.name)
						c.Check(dump(htp) == cfg && dump(bhttp) == cfg, "operation %d (%s) changed the caller's http.Client: %s", k, op.name, dump(htp))
						c.Check(w.cl.UserAgent == "agent/2" && boot.BaseURL == w.base && w.base.String() == "https://boot.example/b", "operation %d (%s) changed the user agent or base URL", k, op.name)
						n := w.bverbose
						m := w.verbose
						if boot.Verbose != nil {
							boot.Verbose("x")
						}
						c.Check(w.verbose == m, "operation %d (%s) leaves the client's Verbose callback in the bootstrap client", k, op.name)
						c.Check(w.bverbose == n+2-variant, "operation %d (%s) replaced the bootstrap client's Verbose callback", k, op.name)
						m = w.verbose
						w.cl.Verbose("x")
						c.Check(w.verbose == m+1, "operation %d (%s) replaced the client's Verbose callback", k, op.name)
					} else {
						c.Check(w.cl.UserAgent == "" && (w.cl.Bootstrap == nil || w.cl.Bootstrap.BaseURL == nil || w.cl.Bootstrap.BaseURL.String() == bootstrap.DefaultBaseURL), "operation %d (%s) changed the user agent or base URL", k, op.name)
					}
				}
				c.State(variant, strings.Join(names, ","))
			})
		},
	})
}

// dumpRegs renders what each registry holds and answers.
func dumpRegs(b *bootstrap.Client) map[string]string {
	out := map[string]string{}
	one := func(name string, r bootstrap.Registry, probes ...string) {
		if reflect.ValueOf(r).IsNil() {
			out[name] = "nil"
			return
		}
		out[name] = dump(r.File())
		for _, p := range probes {
			a, err := r.Lookup(&bootstrap.Question{Query: p})
			out[name] += fmt.Sprintf("\n%s: %s %v", p, dump(a), err)
		}
	}
	one("dns.json", b.DNS(), "www.good.test", "x.second", "none.gone", "a.nomatch", "a.dead", "a.hang", "a.err", "a.slow")
	one("ipv4.json", b.IPv4(), "10.1.0.0/16", "10.9.9.9", "10.1.2.300", "11.0.0.0")
	one("ipv6.json", b.IPv6(), "2001:db8::5", "::")
	one("asn.json", b.ASN(), "50", "AS50", "101")
	one("object-tags.json", b.ServiceProvider(), "H-TAG")
	return out
}
