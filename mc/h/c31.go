package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"testing/synctest"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// trackedBody counts how often it is closed.
type trackedBody struct {
	io.ReadCloser
	what   string
	closed int
}

func (b *trackedBody) Close() error {
	b.closed++
	return b.ReadCloser.Close()
}

// bubbleGoroutines counts the goroutines that belong to a virtual-clock bubble; there is one bubble
// at a time, and its main goroutine is one of them.
func bubbleGoroutines() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, l := range bytes.Split(buf, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("goroutine ")) && bytes.Contains(l, []byte("synctest bubble")) && !bytes.Contains(l, []byte("synctest.Run")) {
			n++
		}
	}
	return n
}

func init() {
	type act struct {
		name string
		f    func(r *http.Request, tok string) (*http.Response, error)
		slow bool
	}
	var rd []act
	for i := range srvBehs {
		b := &srvBehs[i]
		rd = append(rd, act{b.name, func(r *http.Request, tok string) (*http.Response, error) { return b.respond(r, tok) }, false})
	}
	body := `{"objectClassName":"domain","handle":"h"}`
	for _, t := range []timing{{act: "hang"}, {act: "hangbody"}, {act: "hangbody", d: time.Second}, {act: "late", d: time.Second}, {act: "late", d: 40 * time.Second}, {act: "ok", d: 2 * time.Second}, {act: "500", d: 2 * time.Second}} {
		rd = append(rd, act{t.String(), func(r *http.Request, tok string) (*http.Response, error) { return t.serve(r, body) }, t.act == "hang" || t.act == "hangbody"})
	}
	rd = append(rd, act{"redirect", func(r *http.Request, tok string) (*http.Response, error) {
		if r.URL.Host == "there.example" {
			return httpResp(r, 200, "application/rdap+json", body), nil
		}
		resp := httpResp(r, 302, "text/html", "<html>moved</html>")
		resp.Header.Set("Location", "https://there.example/x")
		return resp, nil
	}, false}, act{"redirect loop", func(r *http.Request, tok string) (*http.Response, error) {
		resp := httpResp(r, 301, "text/html", "<html>moved</html>")
		resp.Header.Set("Location", r.URL.String()+"/x")
		return resp, nil
	}, false}, act{"bad redirect", func(r *http.Request, tok string) (*http.Response, error) {
		resp := httpResp(r, 301, "text/html", "<html>moved</html>")
		resp.Header.Set("Location", "http://[bad")
		return resp, nil
	}, false}, act{"error with a response", func(r *http.Request, tok string) (*http.Response, error) {
		return httpResp(r, 200, "application/rdap+json", body), nil
	}, false})
	bsKinds := append([]string{"good", "hang", "hangbody"}, bsFail...)
	calls := []string{"Do", "Do with Timeout", "Do with deadline", "Do cancelled", "Do explicit", "Do explicit with Timeout", "QueryDomain", "QueryIP", "QueryAutnum", "Lookup", "Download", "DownloadWithContext"}
	register(&Check{
		ID:   "C31",
		Rule: "every way to start a query (with and without timeout, deadline, cancellation, explicit server; one-call queries; bare bootstrap lookups and downloads) x every bootstrap behaviour x every pair of RDAP server behaviours (answers, errors, redirects, hangs before and during the body), memory and disk cache, on a virtual clock; every response body handed to the client is tracked, contexts and goroutines are inspected when the query returns",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"calls": calls, "bootstrap_behaviours": len(bsKinds), "server_behaviours": len(rd), "servers": 2}
		},
		Assumptions: []string{"the transport behaves as net/http's does; idle connections of a transport are its own"},
		Run: func(c *Ctx) {
			ci := c.Choose("call", len(calls))
			call := calls[ci]
			bk := Of(c, "bootstrap", bsKinds)
			c.Shard()
			explicit := ci == 4 || ci == 5
			bsOnly := ci >= 9
			limited := ci != 0 && ci != 4 && ci != 9 && ci != 10
			if explicit && bk != "good" || (bk == "hang" || bk == "hangbody") && !limited {
				return
			}
			a1, a2 := 0, 0
			if !bsOnly && bk == "good" {
				a1 = c.Choose("first server", len(rd))
				if !explicit {
					a2 = c.Choose("second server", len(rd))
				}
				if !limited && (rd[a1].slow || rd[a2].slow) {
					return
				}
			}
			disk := bk != "good" && c.Bool("disk cache")
			preload := bsOnly && c.Bool("loaded before")
			dir := ""
			if disk {
				dir = newScratch()
				defer dropScratch(dir)
			}
			Bubble(func() {
				var bodies []*trackedBody
				var ctxs []context.Context
				track := func(what string, r *http.Request, resp *http.Response, err error) (*http.Response, error) {
					ctxs = append(ctxs, r.Context())
					if resp != nil && resp.Body != nil {
						tb := &trackedBody{resp.Body, what, 0}
						resp.Body = tb
						bodies = append(bodies, tb)
					}
					return resp, err
				}
				good := true // the first download, when data are to be loaded before
				docFor := func(r *http.Request) string {
					f := r.URL.Path[1:]
					for i := len(f) - 1; i >= 0; i-- {
						if f[i] == '/' {
							f = f[i+1:]
							break
						}
					}
					entry := map[string]string{"dns.json": "test", "asn.json": "1-100", "ipv4.json": "10.0.0.0/8"}[f]
					return string(regDoc([]svc{{entries: []string{entry}, urls: []string{"https://one.example/", "https://two.example/"}}}, false))
				}
				bs := &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
					k := bk
					if preload && good {
						k = "good"
						good = false
					}
					what := "bootstrap (" + k + ")"
					switch k {
					case "good":
						return track(what, r, httpResp(r, 200, "application/json", docFor(r)), nil)
					case "hang", "hangbody":
						resp, err := timing{act: k}.serve(r, docFor(r))
						return track(what, r, resp, err)
					}
					resp, err := bsFailResp(r, k, docFor(r))
					return track(what, r, resp, err)
				})}
				if disk {
					d := cache.NewDiskCache()
					d.Dir = dir
					bs.Cache = d
				}
				n := 0
				cl := &rdap.Client{Bootstrap: bs, HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
					a := rd[a1]
					if r.URL.Host == "two.example" {
						a = rd[a2]
					}
					n++
					resp, err := a.f(r, fmt.Sprint(n))
					return track("server ("+a.name+")", r, resp, err)
				})}
				if preload {
					if err := bs.Download(bootstrap.DNS); err != nil {
						harnessf("%v", err)
					}
					time.Sleep(25 * time.Hour)
				}
				bodies, ctxs = nil, nil
				synctest.Wait()
				before := runtime.NumGoroutine()
				req := &rdap.Request{Type: rdap.DomainRequest, Query: "x.test"}
				var err error
				own := false // the client made the context
				t0 := time.Now()
				switch call {
				case "Do":
					_, err = cl.Do(req)
				case "Do with Timeout":
					req.Timeout = 10 * time.Second
					own = true
					_, err = cl.Do(req)
				case "Do with deadline":
					ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
					_, err = cl.Do(req.WithContext(ctx))
					synctest.Wait()
					c.Check((ctx.Err() != nil) == (time.Since(t0) >= 10*time.Second), "the caller's context ended after %v with %v", time.Since(t0), ctx.Err())
					defer cancel()
				case "Do cancelled":
					ctx, cancel := context.WithCancel(context.Background())
					tm := time.AfterFunc(1500*time.Millisecond, cancel)
					_, err = cl.Do(req.WithContext(ctx))
					synctest.Wait()
					c.Check((ctx.Err() != nil) == (time.Since(t0) >= 1500*time.Millisecond), "the caller's context ended after %v with %v", time.Since(t0), ctx.Err())
					tm.Stop()
					cancel()
				case "Do explicit", "Do explicit with Timeout":
					req.Server, _ = url.Parse("https://one.example/")
					if call != "Do explicit" {
						req.Timeout = 10 * time.Second
						own = true
					}
					_, err = cl.Do(req)
				case "QueryDomain":
					own = true
					_, err = cl.QueryDomain("x.test")
				case "QueryIP":
					own = true
					_, err = cl.QueryIP("10.1.2.3")
				case "QueryAutnum":
					own = true
					_, err = cl.QueryAutnum("AS50")
				case "Lookup":
					_, err = bs.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.test"})
				case "Download":
					err = bs.Download(bootstrap.DNS)
				case "DownloadWithContext":
					ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
					defer cancel()
					err = bs.DownloadWithContext(ctx, bootstrap.DNS)
					synctest.Wait()
					c.Check((ctx.Err() != nil) == (time.Since(t0) >= 10*time.Second), "the caller's context ended after %v with %v", time.Since(t0), ctx.Err())
				}
				after := time.Since(t0)
				c.Step()
				c.Note("%s, bootstrap %s, servers %s, %s: after %v error %v; %d bodies", call, bk, rd[a1].name, rd[a2].name, after, err, len(bodies))
				for _, b := range bodies {
					c.Check(b.closed > 0, "the body of %s was never closed", b.what)
				}
				if own {
					for _, x := range ctxs {
						c.Check(x.Err() != nil, "the query returned, but its context with its timer is still live")
					}
				}
				synctest.Wait()
				if runtime.NumGoroutine() > before { // may also be one of the runtime's own
					after := bubbleGoroutines()
					c.Check(after == 1, "%d goroutines are left after the query", after-1)
				}
				c.Check(time.Since(t0) == after, "time passed after the query")
				c.State(call, bk, a1, a2, disk, preload)
			})
		},
	})
}
