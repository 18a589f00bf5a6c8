package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// timing of one server's answer
type timing struct {
	name string
	d    time.Duration // time until the step
	act  string        // ok, 500, refused, hang (before headers), hangbody, late (headers at once, body after d), badbody
}

const forever = time.Duration(1) << 60

func (t timing) String() string { return fmt.Sprintf("%s@%v", t.act, t.d) }

// serve behaves as a transport does: it returns as soon as the request's context ends.
func (t timing) serve(r *http.Request, body string) (*http.Response, error) {
	wait := func(d time.Duration) error {
		if d == 0 {
			return r.Context().Err()
		}
		tm := time.NewTimer(d)
		defer tm.Stop()
		select {
		case <-tm.C:
			return nil
		case <-r.Context().Done():
			return r.Context().Err()
		}
	}
	if t.act == "hang" {
		<-r.Context().Done()
		return nil, r.Context().Err()
	}
	if t.act == "late" {
		resp := httpResp(r, 200, "application/rdap+json", body)
		half := len(body) / 2
		resp.Body = &lateBody{r: bytes.NewReader([]byte(body[:half])), rest: []byte(body[half:]), wait: func() error { return wait(t.d) }}
		resp.ContentLength = -1
		return resp, nil
	}
	if err := wait(t.d); err != nil {
		return nil, err
	}
	switch t.act {
	case "ok":
		return httpResp(r, 200, "application/rdap+json", body), nil
	case "500":
		return httpResp(r, 500, "text/plain", "x"), nil
	case "refused":
		return nil, errRefused
	case "hangbody":
		resp := httpResp(r, 200, "application/rdap+json", body)
		resp.Body = &hangBody{r: bytes.NewReader([]byte(body[:len(body)/2])), ctx: r.Context()}
		resp.ContentLength = -1
		return resp, nil
	}
	harnessf("timing %v", t)
	return nil, nil
}

type lateBody struct {
	r    *bytes.Reader
	rest []byte
	wait func() error
	done bool
	err  error
}

func (b *lateBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == nil || b.err != nil {
		if b.err != nil {
			return n, b.err
		}
		return n, nil
	}
	if b.done {
		return 0, err
	}
	if e := b.wait(); e != nil {
		b.err = e
		return 0, e
	}
	b.done = true
	b.r = bytes.NewReader(b.rest)
	return b.r.Read(p)
}

func (b *lateBody) Close() error { return nil }

func init() {
	const s = time.Second
	srv := []timing{{act: "ok"}, {act: "ok", d: 4 * s}, {act: "hang"}, {act: "hangbody", d: s}, {act: "500", d: 4 * s}, {act: "refused"}, {act: "late", d: 4 * s}, {act: "ok", d: 20 * s}, {act: "500"}, {act: "refused", d: 11 * s}, {act: "hangbody"}, {act: "late", d: 20 * s}}
	bst := []timing{{act: "ok"}, {act: "ok", d: 2 * s}, {act: "hang"}, {act: "hangbody"}, {act: "late", d: 7 * s}, {act: "refused", d: s}, {act: "ok", d: 25 * s}}
	type limit struct {
		name    string
		timeout time.Duration // Request.Timeout
		ctx     time.Duration // deadline or cancellation of the context
		cancel  bool
		quick   string // one-call query
	}
	limits := []limit{
		{name: "none"},
		{name: "timeout 5s", timeout: 5 * s},
		{name: "ctx deadline 9s", ctx: 9 * s},
		{name: "cancel at 3s", ctx: 3 * s, cancel: true},
		{name: "timeout 9s, deadline 3s", timeout: 9 * s, ctx: 3 * s},
		{name: "timeout 3s, deadline 9s", timeout: 3 * s, ctx: 9 * s},
		{name: "timeout 15s, cancel at 5s", timeout: 15 * s, ctx: 5 * s, cancel: true},
		{name: "timeout 5s, cancel at 15s", timeout: 5 * s, ctx: 15 * s, cancel: true},
		{name: "deadline already passed", ctx: -s},
		{name: "cancelled already", ctx: 1, cancel: true},
		{name: "one-call domain", timeout: 30 * s, quick: "domain"},
		{name: "one-call ip", timeout: 30 * s, quick: "ip"},
		{name: "one-call autnum", timeout: 30 * s, quick: "autnum"},
	}
	register(&Check{
		ID:   "C12",
		Rule: "all combinations of limit x bootstrap (preloaded or timed) x timed behaviours of 1..n servers, at four time scales (milliseconds to weeks) on a virtual clock; the same with the clients the library makes itself, over scripted connections; the return time, the set of servers contacted and the error are compared with an event-time model",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"servers": Pick(c, 3, 4), "limits": len(limits), "server_timings": len(srv), "bootstrap_timings": len(bst) + 2}
		},
		Assumptions: []string{"the transport honours the request context, as net/http's does", "no two events of a run coincide with the limit"},
		Run: func(c *Ctx) {
			if c.Bool("default HTTP client") {
				defaultClientTimes(c)
				return
			}
			li := c.Choose("limit", len(limits))
			L := limits[li]
			bk := c.Choose("bootstrap", len(bst)+2) // 0 preloaded, 1 explicit server
			n := 1
			if bk != 1 {
				n = 1 + c.Choose("servers", Pick(c, 3, 4))
			} else if L.quick != "" {
				c.Shard()
				return // one-call queries have no explicit server
			}
			ts := make([]timing, n)
			for i := range ts {
				ts[i] = srv[c.Choose("server", len(srv))]
				if i == 0 {
					c.Shard()
				}
			}
			bts := bst
			if L.quick == "" && n <= Pick(c, 2, 3) {
				// the same at another scale: from milliseconds to weeks
				if num := Of(c, "scale", []time.Duration{1000, 1, 250_000, 100_000_000}); num != 1000 {
					sc := func(d time.Duration) time.Duration {
						if d < 2 && d >= 0 {
							return d
						}
						return d / 1000 * num
					}
					L.timeout, L.ctx = sc(L.timeout), sc(L.ctx)
					L.name += fmt.Sprintf(" x%d/1000", num)
					for i := range ts {
						ts[i].d = sc(ts[i].d)
					}
					bts = append([]timing(nil), bst...)
					for i := range bts {
						bts[i].d = sc(bts[i].d)
					}
				}
			}
			T := forever
			var want error
			if L.timeout > 0 {
				T, want = L.timeout, context.DeadlineExceeded
			}
			if L.ctx != 0 && L.ctx < T {
				T, want = L.ctx, context.DeadlineExceeded
				if L.cancel {
					want = context.Canceled
				}
			}
			if T < 0 {
				T = 0
			}
			if L.cancel && L.ctx == 1 {
				T = 0
			}
			// event-time model
			now := time.Duration(0)
			contacted := 0
			outcome := ""
			hit := func(t timing) (ok bool) { // false: the limit strikes first
				d := t.d
				if t.act == "hang" || t.act == "hangbody" {
					d = forever
				}
				if now+d == T && T > 0 && d != forever {
					outcome = "hangs" // a coincidence: either may strike first
					return false
				}
				if now+d >= T {
					if T == forever {
						outcome = "hangs"
						return false
					}
					now = T
					outcome = "limit"
					return false
				}
				now += d
				return true
			}
			if bk >= 2 {
				if hit(bts[bk-2]) && bts[bk-2].act == "refused" {
					outcome = "bootstrap"
				}
			}
			for i := 0; i < n && outcome == ""; i++ {
				if now >= T {
					outcome = "limit"
					break
				}
				contacted++
				if !hit(ts[i]) {
					break
				}
				if ts[i].act == "ok" || ts[i].act == "late" {
					outcome = "result"
				}
			}
			if outcome == "" {
				outcome = "noserver"
			}
			if outcome == "hangs" {
				return // nothing limits this query
			}
			tq := typedQueries[0]
			class := "domain"
			switch L.quick {
			case "ip":
				tq, class = typedQueries[1], "ip network"
			case "autnum":
				tq, class = typedQueries[3], "autnum"
			}
			urls := []string{"https://s0.example/", "https://s1.example/", "https://s2.example/", "https://s3.example/"}[:n]
			doc := string(regDoc([]svc{{entries: []string{tq.entry}, urls: urls}}, false))
			bt := timing{act: "ok"}
			if bk >= 2 {
				bt = bts[bk-2]
			}
			c.Note("%s; bootstrap %d %v; servers %v; expect %s at %v after %d servers", L.name, bk, bt, ts, outcome, now, contacted)
			c.State(L.name, bk, fmt.Sprint(ts))
			Bubble(func() {
				start := time.Now()
				loading := bk == 0
				got := 0
				cl := &rdap.Client{}
				cl.Bootstrap = &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
					c.Check(bk != 1, "bootstrap contacted despite an explicit server")
					c.Check(loading || bk >= 2, "bootstrap contacted though the registry is loaded")
					if loading {
						return httpResp(r, 200, "application/json", doc), nil
					}
					return bt.serve(r, doc)
				})}
				cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
					if err := r.Context().Err(); err != nil {
						return nil, err // a transport contacts nobody then
					}
					i := got
					got++
					c.Step()
					c.Check(i < n, "more requests than servers")
					return ts[i].serve(r, fmt.Sprintf(`{"objectClassName":"%s","handle":"tok%d"}`, class, i))
				})
				if bk == 0 {
					_, err := cl.Bootstrap.Lookup(&bootstrap.Question{RegistryType: map[string]bootstrap.RegistryType{"dns.json": bootstrap.DNS, "ipv4.json": bootstrap.IPv4, "asn.json": bootstrap.ASN}[tq.file], Query: tq.query})
					if err != nil {
						harnessf("preload: %v", err)
					}
					loading = false
				}
				req := &rdap.Request{Type: tq.typ, Query: tq.query, Timeout: L.timeout}
				if bk == 1 {
					req.Server, _ = url.Parse(urls[0])
				}
				ctx := context.Background()
				if L.ctx != 0 {
					var cancel func()
					if L.cancel {
						ctx, cancel = context.WithCancel(ctx)
						if L.ctx == 1 {
							cancel()
						} else {
							tm := time.AfterFunc(L.ctx, cancel)
							defer tm.Stop()
						}
					} else {
						ctx, cancel = context.WithDeadline(ctx, start.Add(L.ctx))
					}
					defer cancel()
					req = req.WithContext(ctx)
				}
				var obj any
				var err error
				switch L.quick {
				case "domain":
					d, e := cl.QueryDomain(tq.query)
					if err = e; d != nil {
						obj = d
					}
				case "ip":
					d, e := cl.QueryIP(tq.query)
					if err = e; d != nil {
						obj = d
					}
				case "autnum":
					d, e := cl.QueryAutnum(tq.query)
					if err = e; d != nil {
						obj = d
					}
				default:
					var resp *rdap.Response
					resp, err = cl.Do(req)
					if resp != nil {
						obj = resp.Object
					}
				}
				el := time.Since(start)
				c.Step()
				c.Note("returned after %v: %s, %v; %d servers contacted", el, objKey(obj), err, got)
				c.Check(el <= T, "query returned after %v, limit %v", el, T)
				c.Check(el == now, "query returned after %v, want %v", el, now)
				c.Check(got == contacted, "%d servers contacted, want %d", got, contacted)
				switch outcome {
				case "result":
					c.Check(err == nil, "query failed though server %d answers in time: %v", contacted-1, err)
					c.Check(objKey(obj) == fmt.Sprintf("%s:tok%d", map[string]string{"domain": "domain", "ip network": "ip", "autnum": "autnum"}[class], contacted-1), "result is %s", objKey(obj))
				case "limit":
					c.Check(err != nil, "no error though the limit passed")
					c.Check(errors.Is(err, want), "error does not report %v: %v", want, err)
				case "noserver":
					c.Check(err != nil && clientErrorType(err) == rdap.NoWorkingServers, "all servers failed: %v", err)
				case "bootstrap":
					c.Check(err != nil, "bootstrap failed but the query did not")
				}
			})
		},
	})
}

// defaultClientTimes runs queries with the HTTP clients the library makes itself, over scripted connections.
func defaultClientTimes(c *Ctx) {
	const s = time.Second
	lates := []time.Duration{0, 4 * s, 14 * s, 27 * s, 31 * s, 59 * s, 121 * s, 601 * s, 3601 * s, 100 * 3600 * s}
	lim := Of(c, "limit", []time.Duration{0, 1 * s, 20 * s, 200 * s, 1000 * 3600 * s, -1, -2})
	way := c.Choose("way", 3) // explicit server, bootstrapped, first server refuses
	bsLate := time.Duration(0)
	c.Shard()
	if way > 0 {
		bsLate = Of(c, "bootstrap answers after", lates)
	}
	late := Of(c, "server answers after", lates)
	w := &cliWorld{hosts: map[string]*cliHost{}}
	urls := []string{"http://s0.example/"}
	if way == 2 {
		urls = []string{"http://none.example/", "http://s0.example/"}
	}
	doc := string(regDoc([]svc{{entries: []string{"test"}, urls: urls}}, false))
	w.hosts["bs.example:80"] = &cliHost{serve: func(*http.Request) cliResp { return cliResp{code: 200, body: doc, after: bsLate} }}
	w.hosts["s0.example:80"] = &cliHost{serve: func(*http.Request) cliResp {
		return cliResp{code: 200, body: `{"objectClassName":"domain","handle":"tok"}`, after: late}
	}}
	T := lim
	if lim == 0 {
		T = forever
	}
	if lim < 0 { // -1: one-call query; -2: a context's deadline
		T = 30 * s
		if lim == -1 && way == 0 {
			return
		}
	}
	total := bsLate + late
	if total == T {
		return
	}
	c.Note("default clients, limit %v, way %d, bootstrap after %v, server after %v", lim, way, bsLate, late)
	c.State(int64(lim), way, int64(bsLate), int64(late))
	Bubble(func() {
		w.t0, w.done = time.Now(), make(chan struct{})
		net.VerifDial = w.dial
		defer func() {
			net.VerifDial = nil
			if t, ok := http.DefaultTransport.(*http.Transport); ok {
				t.CloseIdleConnections()
			}
			close(w.done)
			w.mu.Lock()
			for _, x := range w.conns {
				x.Close()
			}
			w.mu.Unlock()
		}()
		cl := &rdap.Client{}
		req := &rdap.Request{Type: rdap.DomainRequest, Query: "x.test"}
		if way == 0 {
			req.Server, _ = url.Parse(urls[0])
		} else {
			b, _ := url.Parse("http://bs.example/")
			cl.Bootstrap = &bootstrap.Client{BaseURL: b}
		}
		var obj any
		var err error
		switch {
		case lim == -1:
			d, e := cl.QueryDomain(req.Query)
			if err = e; d != nil {
				obj = d
			}
		default:
			if lim > 0 {
				req.Timeout = lim
			} else if lim == -2 {
				ctx, cancel := context.WithTimeout(context.Background(), T)
				defer cancel()
				req = req.WithContext(ctx)
			}
			resp, e := cl.Do(req)
			if err = e; resp != nil {
				obj = resp.Object
			}
		}
		el := time.Since(w.t0)
		c.Step()
		c.Note("returned after %v: %s, %v", el, objKey(obj), err)
		c.Check(el <= T, "query returned after %v, limit %v", el, T)
		if total < T {
			c.Check(err == nil && objKey(obj) == "domain:tok", "the server answers after %v, in time for the limit %v, but: %v", total, T, err)
			c.Check(el == total, "query returned after %v, want %v", el, total)
		} else {
			c.Check(err != nil && errors.Is(err, context.DeadlineExceeded), "the limit passed, but the error is %v", err)
			c.Check(el == T, "query returned after %v, want %v", el, T)
		}
	})
}
