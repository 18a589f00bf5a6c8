package main

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/sandbox"
	"github.com/openrdap/rdap/zzsched"
)

// concWorld holds what the goroutines of one execution share: read-only registries.
type concWorld struct {
	dns, asn, v4, v6, tags bootstrap.Registry
	server                 *url.URL
}

// concOp is one operation; prepare runs before the goroutines start.
type concOp struct {
	name    string
	prepare func(w *concWorld) func() string
}

const concVCard = `["vcard",[["version",{},"text","4.0"],["fn",{},"text","Joe"],["adr",{"type":"work"},"text",["","","1 Road","City","","X",["A","B"]]],["tel",{"type":["work","fax"]},"uri","tel:+1"],["email",{},"text","a@b.test"]]]`

func concDocs() map[string]string {
	ent := `{"objectClassName":"entity","handle":"E","roles":["registrant"],"vcardArray":` + concVCard + `,"publicIds":[{"type":"IANA Registrar ID","identifier":"9"}]}`
	return map[string]string{
		"domain":      `{"objectClassName":"domain","handle":"D","ldhName":"x.test","status":["active"],"nameservers":[{"objectClassName":"nameserver","ldhName":"ns1.x.test"}],"secureDNS":{"delegationSigned":true,"maxSigLife":"12"},"events":[{"eventAction":"registration","eventDate":"d"}],"zz":[1e21,null,{"b":"x\ny","a":true}]}`,
		"domain+ent":  `{"objectClassName":"domain","handle":"D2","ldhName":"y.test","entities":[` + ent + `]}`,
		"ip network":  `{"objectClassName":"ip network","handle":"I","startAddress":"10.0.0.0","links":[{"value":"v","rel":"self","href":"h"}]}`,
		"autnum":      `{"objectClassName":"autnum","handle":"A","startAutnum":1,"endAutnum":"x","remarks":[{"title":"t","description":["a"]}]}`,
		"entity":      ent,
		"nameserver":  `{"objectClassName":"nameserver","handle":"N","ipAddresses":{"v4":["192.0.2.1"],"v6":["::1"]},"links":[{"value":"v2"}]}`,
		"error":       `{"errorCode":404,"title":"none","description":["a"],"notices":[{"title":"n"}]}`,
		"help":        `{"rdapConformance":["r"],"notices":[{"title":"n\r\nn","links":[{"href":"h"}]}],"zz\u0000":"é\n%"}`,
		"domains":     `{"domainSearchResults":[{"objectClassName":"domain","handle":"D3"}]}`,
		"nameservers": `{"nameserverSearchResults":[{"objectClassName":"nameserver","handle":"N3"}]}`,
		"entities":    `{"entitySearchResults":[{"objectClassName":"entity","handle":"E3"}]}`,
		"broken":      `{"objectClassName":"domain"`,
	}
}

func decodeDump(doc string) string {
	o, err := rdap.NewDecoder([]byte(doc)).Decode()
	return fmt.Sprintf("%s %v", dump(o), err)
}

func mustDecode(doc string) any {
	o, err := rdap.NewDecoder([]byte(doc)).Decode()
	if err != nil {
		harnessf("%v", err)
	}
	return o
}

func concOps() []concOp {
	docs := concDocs()
	var ops []concOp
	for _, n := range []string{"domain", "ip network", "nameserver", "error", "help", "domains", "autnum", "entity", "nameservers", "entities", "domain+ent", "broken"} {
		d := docs[n]
		ops = append(ops, concOp{"decode " + n, func(*concWorld) func() string { return func() string { return decodeDump(d) } }})
	}
	for _, n := range []string{"domain+ent", "nameserver", "help"} {
		d := docs[n]
		ops = append(ops, concOp{"print " + n, func(*concWorld) func() string {
			o := mustDecode(d)
			return func() string {
				var b bytes.Buffer
				(&rdap.Printer{Writer: &b}).Print(o)
				return b.String()
			}
		}})
	}
	ops = append(ops,
		concOp{"whois", func(*concWorld) func() string {
			o := mustDecode(docs["domain+ent"])
			return func() string { return dump((&rdap.Response{Object: o}).ToWhoisStyleResponse()) }
		}},
		concOp{"vcard", func(*concWorld) func() string {
			return func() string {
				v, err := rdap.NewVCard([]byte(concVCard))
				if err != nil {
					return err.Error()
				}
				return dump(v) + v.Name() + v.StreetAddress() + v.PostalCode() + v.Country() + v.Tel() + v.Fax() + v.Email() + strings.Join(v.GetFirst("adr").Values(), "|")
			}
		}},
		concOp{"bad vcard", func(*concWorld) func() string {
			return func() string {
				v, err := rdap.NewVCardWithOptions([]byte(`["vcard",[["fn",{},"text",null,{"a":[1]}],["n"],["fn",{"x":1},"text","a",true,2.5]]]`), rdap.VCardOptions{IgnoreInvalidProperties: true})
				return fmt.Sprint(dump(v), err)
			}
		}},
	)
	urlOf := func(t rdap.RequestType, q string) func(w *concWorld) func() string {
		return func(w *concWorld) func() string {
			r := &rdap.Request{Type: t, Query: q, Server: w.server, Params: url.Values{"p": {"1"}}}
			return func() string { return r.URL().String() + " " + dump(r) }
		}
	}
	ops = append(ops,
		concOp{"url domain", urlOf(rdap.DomainRequest, "a/b.test")},
		concOp{"url search", urlOf(rdap.NameserverSearchByNameserverIPRequest, "192.0.2.1")},
		concOp{"auto request", func(*concWorld) func() string {
			return func() string {
				return dump(rdap.NewAutoRequest("AS64512")) + dump(rdap.NewAutoRequest("x.test")) + dump(rdap.NewAutoRequest("10.0.0.0/8")) + dump(rdap.NewAutoRequest("http://h.test:1/")) + dump(rdap.NewAutoRequest("H-T"))
			}
		}},
	)
	look := func(get func(w *concWorld) bootstrap.Registry, qs ...string) func(w *concWorld) func() string {
		return func(w *concWorld) func() string {
			reg := get(w)
			return func() string {
				out := ""
				for _, q := range qs {
					a, err := reg.Lookup(&bootstrap.Question{Query: q})
					out += fmt.Sprint(dump(a), err, "\n")
					if err == nil && len(a.URLs) > 0 {
						out += (&rdap.Request{Type: rdap.HelpRequest, Server: a.URLs[0]}).URL().String()
					}
				}
				return out
			}
		}
	}
	ops = append(ops,
		concOp{"lookup dns", look(func(w *concWorld) bootstrap.Registry { return w.dns }, "a.B.test.", "x.none")},
		concOp{"lookup asn", look(func(w *concWorld) bootstrap.Registry { return w.asn }, "AS7", "x", "99")},
		concOp{"lookup ipv4", look(func(w *concWorld) bootstrap.Registry { return w.v4 }, "10.2.0.0/16", "11.0.0.1")},
		concOp{"lookup ipv6", look(func(w *concWorld) bootstrap.Registry { return w.v6 }, "2001:db8::1", "3::")},
		concOp{"lookup tag", look(func(w *concWorld) bootstrap.Registry { return w.tags }, "A-TAG", "B-NONE")},
		concOp{"read registry", func(w *concWorld) func() string {
			return func() string { return dump(w.dns.File()) + dump(w.asn.File()) }
		}},
		concOp{"parse registry", func(*concWorld) func() string {
			return func() string {
				r, err := bootstrap.NewNetRegistry([]byte(histDocs()["ipv4.json"]), 4)
				d, err2 := bootstrap.NewDNSRegistry([]byte(histDocs()["dns.json"]))
				a, err3 := bootstrap.NewASNRegistry([]byte(histDocs()["asn.json"]))
				return fmt.Sprint(dump(r), err, dump(d), err2, dump(a), err3)
			}
		}},
		concOp{"own client", func(*concWorld) func() string {
			cl := &rdap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				return httpResp(r, 200, "application/json", docs["autnum"]), nil
			}), Bootstrap: &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) { return bsServe(r, histDocs()) })}}
			return func() string {
				a, err := cl.QueryAutnum("AS5")
				_, err2 := cl.QueryDomain("a.nomatch")
				return fmt.Sprint(dump(a), err, err2)
			}
		}},
		concOp{"command version", func(*concWorld) func() string {
			return func() string {
				var so, se bytes.Buffer
				code := rdap.RunCLI([]string{"--version"}, &so, &se, rdap.CLIOptions{})
				code2 := rdap.RunCLI([]string{"-t", "nosuch", "x"}, &so, &se, rdap.CLIOptions{})
				return fmt.Sprint(code, code2, so.String(), se.String())
			}
		}},
		concOp{"sandbox file", func(*concWorld) func() string {
			return func() string {
				b, err := sandbox.LoadFile("DigiCert_RDAP_Pilot_Client_Certificate.p12")
				return fmt.Sprint(len(b), err, sandbox.IsFileInSandbox("x"))
			}
		}},
		concOp{"command query", func(*concWorld) func() string {
			return func() string {
				var so, se bytes.Buffer
				code := rdap.RunCLI([]string{"--cache-dir=", "-s", "http://good.example", "-t", "domain", "www.good.test"}, &so, &se, rdap.CLIOptions{Sandbox: true})
				return fmt.Sprint(code, so.String(), se.String())
			}
		}},
	)
	return ops
}

func newConcWorld() *concWorld {
	w := &concWorld{}
	d := histDocs()
	var err [5]error
	w.dns, err[0] = bootstrap.NewDNSRegistry([]byte(d["dns.json"]))
	w.asn, err[1] = bootstrap.NewASNRegistry([]byte(d["asn.json"]))
	w.v4, err[2] = bootstrap.NewNetRegistry([]byte(d["ipv4.json"]), 4)
	w.v6, err[3] = bootstrap.NewNetRegistry([]byte(d["ipv6.json"]), 6)
	w.tags, err[4] = bootstrap.NewServiceProviderRegistry(regDoc([]svc{{[]string{"TAG"}, []string{"https://tag.example/"}}}, true))
	for _, e := range err {
		if e != nil {
			harnessf("%v", e)
		}
	}
	w.server, _ = url.Parse("https://shared.example/base?k=v")
	return w
}

// concNet installs the network the command line client sees.
func concNet() func() {
	cw := &cliWorld{hosts: map[string]*cliHost{"good.example:80": staticHost(200, concDocs()["domain"])}, done: make(chan struct{}), t0: time.Now()}
	net.VerifDial = cw.dial
	return func() {
		net.VerifDial = nil
		close(cw.done)
		cw.mu.Lock()
		for _, x := range cw.conns {
			x.Close()
		}
		cw.mu.Unlock()
	}
}

func init() {
	ops := concOps()
	alone := make([]string, len(ops))
	have := make([]bool, len(ops))
	// reference outcome, and the number of points, of operation i from the initial state
	ref := func(c *Ctx, i int) string {
		if !have[i] {
			defer concNet()()
			w := newConcWorld()
			f := ops[i].prepare(w)
			resetPackages()
			alone[i] = f()
			have[i] = true
		}
		return alone[i]
	}
	small := []int{} // operations explored to the deepest bound
	for i, o := range ops {
		switch o.name {
		case "decode error", "decode help", "decode domains", "decode nameserver", "decode ip network":
			small = append(small, i)
		}
	}
	type plan struct {
		ops   []int
		gran  int
		bound int
	}
	plans := func(c *Ctx) []plan {
		var ps []plan
		n := len(ops)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				ps = append(ps, plan{[]int{i, j}, 2, 1})
				if c.Thorough() && (i == j || j == i+1 || strings.HasPrefix(ops[i].name, "decode") && strings.HasPrefix(ops[j].name, "decode")) {
					ps = append(ps, plan{[]int{i, j}, 2, 2})
				}
				ps = append(ps, plan{[]int{i, j}, 0, Pick(c, 2, 3)})
			}
		}
		for _, i := range small {
			for _, j := range small {
				if j >= i {
					ps = append(ps, plan{[]int{i, j}, 0, Pick(c, 3, 5)})
					if c.Thorough() {
						ps = append(ps, plan{[]int{i, j}, 2, 2})
					}
				}
			}
		}
		for _, i := range small[:3] {
			ps = append(ps, plan{[]int{i, i, i}, 0, Pick(c, 2, 3)})
			ps = append(ps, plan{[]int{i, small[3], small[4]}, 0, 2})
		}
		return ps
	}
	var cached []plan
	uncontrolled := 0
	register(&Check{
		ID:   "C28",
		Rule: "all schedules of 2 (3) goroutines, each running one operation, up to a number of preemptions, from the initial state of all packages (package variables reset before every execution); preemptions at every synchronisation operation, and at every access to a package variable and function entry for a smaller bound; the code is instrumented at check time, each schedule runs under the race detector, and every result is compared with the operation's result alone",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"operations": len(ops), "plans": len(plans(c)), "preemptions_at_any_point": "1 (thorough: 2 for the smallest operations)", "preemptions_at_sync_operations": Pick(c, "2, and 3 for the smallest operations", "3, and 5 for the smallest operations"), "goroutines": "2, and 3 for the smallest operations", "executions_that_left_control": uncontrolled}
		},
		Assumptions: []string{"between two scheduling points a goroutine's effects on others are either synchronised or a race the detector reports", "the race detector's happens-before is exact for the explored schedules up to its history size"},
		Setup: func(c *Ctx) {
			runtime.GOMAXPROCS(1)
			sync.VerifBlock = zzsched.Blocked
			cached = plans(c)
		},
		Run: func(c *Ctx) {
			p := cached[c.Choose("plan", len(cached))]
			cur := 1 + c.Choose("first", len(p.ops))
			c.Shard()
			n := len(p.ops)
			want := make([]string, n)
			var names []string
			for k, i := range p.ops {
				want[k] = ref(c, i)
				names = append(names, ops[i].name)
			}
			c.Note("goroutines: %s; kinds of points up to %d, %d preemption(s)", strings.Join(names, " | "), p.gran, p.bound)
			w := newConcWorld()
			funcs := make([]func() string, n)
			for k, i := range p.ops {
				funcs[k] = ops[i].prepare(w)
			}
			defer concNet()()
			resetPackages()
			zzsched.Begin(p.gran)
			defer zzsched.End()
			got := make([]string, n)
			done := make([]chan struct{}, n)
			for k := range funcs {
				done[k] = make(chan struct{})
				go func() {
					defer close(done[k])
					zzsched.Enter(k + 1)
					defer zzsched.Leave(k + 1)
					defer func() {
						if r := recover(); r != nil {
							got[k] = fmt.Sprintf("panic: %v", r)
						}
					}()
					got[k] = funcs[k]()
				}()
			}
			for k := range funcs {
				for !zzsched.Entered(k + 1) {
					runtime.Gosched()
				}
			}
			live := make([]bool, n+1)
			for k := 1; k <= n; k++ {
				live[k] = true
			}
			others := func() (o []int) {
				for k := 1; k <= n; k++ {
					if live[k] && k != cur {
						o = append(o, k)
					}
				}
				return
			}
			left := p.bound
			blocked := 0
			nlive := n
			sched := ""
			npts := 0
			for nlive > 0 {
				t0 := rawNow()
				ev, kind := zzsched.Resume(cur, left == 0 || nlive == 1, func(int) bool { return rawNow()-t0 > int64(15*time.Second) })
				switch ev {
				case 0: // blocked in a way the scheduler does not see: let everything run
					uncontrolled++
					zzsched.End()
					for k := range done {
						select {
						case <-done[k]:
						case <-time.After(60 * time.Second):
							c.Fail("goroutines %v never finish (schedule %s)", names, sched)
						}
					}
					nlive = 0
				case zzsched.EvPoint:
					blocked = 0
					npts++
					o := others()
					if left > 0 && len(o) > 0 {
						if v := c.Choose("switch", 1+len(o)); v > 0 {
							sched += fmt.Sprintf(" %d@%d(%d)", cur, npts, kind)
							cur = o[v-1]
							left--
						}
					}
				case zzsched.EvBlocked:
					blocked++
					o := others()
					if len(o) == 0 || blocked > 10*n {
						c.Fail("deadlock: goroutine %d of %v waits for ever for a lock (schedule%s)", cur, names, sched)
					}
					if blocked <= n && len(o) > 1 {
						cur = o[c.Choose("blocked", len(o))]
					} else {
						// the next one round, so that all of them get a turn
						next := o[0]
						for _, k := range o {
							if k > cur {
								next = k
								break
							}
						}
						cur = next
					}
				case zzsched.EvDone:
					blocked = 0
					live[cur] = false
					nlive--
					<-done[cur-1]
					if o := others(); len(o) > 0 {
						cur = o[c.Choose("next", len(o))]
					}
				}
			}
			zzsched.End()
			c.Note("schedule:%s", sched)
			for k := range funcs {
				c.Step()
				<-done[k]
				c.Check(got[k] == want[k], "goroutine %d (%s), with %v running at the same time under schedule%s, gives\n%s\nalone it gives\n%s", k+1, names[k], names, sched, got[k], want[k])
			}
			c.State(strings.Join(names, "|"), p.gran, p.bound, sched)
		},
	})
}
