package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// objKey names a decoded object: its Go type and the token the harness planted in it.
func objKey(o any) string {
	switch t := o.(type) {
	case nil:
		return "nil"
	case *rdap.Domain:
		return "domain:" + t.Handle
	case *rdap.IPNetwork:
		return "ip:" + t.Handle
	case *rdap.Autnum:
		return "autnum:" + t.Handle
	case *rdap.Entity:
		return "entity:" + t.Handle
	case *rdap.Nameserver:
		return "nameserver:" + t.Handle
	case *rdap.Error:
		return "error:" + t.Title
	case *rdap.Help:
		if len(t.Conformance) > 0 {
			return "help:" + t.Conformance[0]
		}
		return "help:"
	case *rdap.DomainSearchResults:
		return fmt.Sprintf("domains:%d", len(t.Domains))
	case *rdap.NameserverSearchResults:
		return fmt.Sprintf("nameservers:%d", len(t.Nameservers))
	case *rdap.EntitySearchResults:
		return fmt.Sprintf("entities:%d", len(t.Entities))
	}
	return fmt.Sprintf("%T", o)
}

// clientErrorType returns the ClientError type of err, 0 when it is none.
func clientErrorType(err error) rdap.ClientErrorType {
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		return ce.Type
	}
	return 0
}

// A behaviour of one RDAP server.
type srvBeh struct {
	name   string
	code   int
	body   string // %s is the server's token
	fail   string // "refused", "body"
	class  string // next, result, notfound
	object string // expected objKey for a result, %s is the token
	ctype  string
	entErr bool // the attempt's entry carries an error
}

var srvBehs = []srvBeh{
	{name: "ok", code: 200, body: `{"objectClassName":"domain","handle":"%s"}`, class: "result", object: "domain:%s"},
	{name: "404", code: 404, body: "", class: "notfound"},
	{name: "refused", fail: "refused", class: "next", entErr: true},
	{name: "500", code: 500, body: "oops %s", class: "next"},
	{name: "malformed", code: 200, body: `{"objectClassName":"domain","handle":"%s"`, class: "next", entErr: true},
	{name: "empty", code: 200, body: "", class: "next"},
	{name: "unknown class", code: 200, body: `{"objectClassName":"mystery","handle":"%s"}`, class: "next", entErr: true},
	{name: "body error", code: 200, body: `{"objectClassName":"domain","handle":"%s"}`, fail: "body", class: "next", entErr: true},
	{name: "404 with object", code: 404, body: `{"objectClassName":"domain","handle":"%s"}`, class: "notfound"},
	{name: "500 with object", code: 500, body: `{"objectClassName":"domain","handle":"%s"}`, class: "next"},
	{name: "429 with error object", code: 429, body: `{"errorCode":429,"title":"%s"}`, class: "next"},
	{name: "400 with error object", code: 400, body: `{"errorCode":400,"title":"%s"}`, class: "next"},
	{name: "200 error object", code: 200, body: `{"errorCode":404,"title":"%s"}`, class: "result", object: "error:%s"},
	{name: "200 other type", code: 200, body: `{"objectClassName":"entity","handle":"%s"}`, class: "result", object: "entity:%s", ctype: "text/html"},
	{name: "204", code: 204, body: "", class: "next"},
	{name: "201", code: 201, body: `{"objectClassName":"domain","handle":"%s"}`, class: "result", object: "domain:%s", ctype: "application/json"},
	{name: "299", code: 299, body: `{"objectClassName":"domain","handle":"%s"}`, class: "result", object: "domain:%s"},
	{name: "300", code: 300, body: `{"objectClassName":"domain","handle":"%s"}`, class: "next"},
	{name: "304", code: 304, body: "", class: "next"},
	{name: "410", code: 410, body: `{"errorCode":404,"title":"%s"}`, class: "next"},
	{name: "503", code: 503, body: "", class: "next"},
	{name: "array", code: 200, body: `[{"objectClassName":"domain","handle":"%s"}]`, class: "next", entErr: true},
	{name: "trailing garbage", code: 200, body: `{"objectClassName":"domain","handle":"%s"}}`, class: "next", entErr: true},
	{name: "class not text", code: 200, body: `{"objectClassName":["domain"],"handle":"%s"}`, class: "next", entErr: true},
	{name: "help", code: 200, body: `{"rdapConformance":["%s"]}`, class: "result", object: "help:%s"},
	{name: "405", code: 405, body: "", class: "next"},
	{name: "403", code: 403, body: `{"objectClassName":"domain","handle":"%s"}`, class: "next"},
}

func (b *srvBeh) respond(r *http.Request, tok string) (*http.Response, error) {
	if b.fail == "refused" {
		return nil, errRefused
	}
	body := strings.ReplaceAll(b.body, "%s", tok)
	ct := b.ctype
	if ct == "" {
		ct = "application/rdap+json"
	}
	resp := httpResp(r, b.code, ct, body)
	if b.fail == "body" {
		resp.Body = &brokenBody{r: bytes.NewReader([]byte(body)), err: errBody}
		resp.ContentLength = -1
	}
	return resp, nil
}

// bsServe answers bootstrap requests for the given documents (file name -> document).
func bsServe(r *http.Request, docs map[string]string) (*http.Response, error) {
	f := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
	if d, ok := docs[f]; ok {
		return httpResp(r, 200, "application/json", d), nil
	}
	return httpResp(r, 404, "text/plain", "no such registry"), nil
}

// typedQuery is one query of each bootstrappable kind.
type typedQuery struct {
	typ   rdap.RequestType
	query string
	file  string
	entry string
	path  string
}

var typedQueries = []typedQuery{
	{rdap.DomainRequest, "www.example.test", "dns.json", "test", "domain/www.example.test"},
	{rdap.IPRequest, "10.1.2.3", "ipv4.json", "10.0.0.0/8", "ip/10.1.2.3"},
	{rdap.IPRequest, "2001:db8::1", "ipv6.json", "2001:db8::/32", "ip/2001:db8::1"},
	{rdap.AutnumRequest, "AS50", "asn.json", "1-100", "autnum/AS50"},
	{rdap.EntityRequest, "H1-TAG", "object-tags.json", "TAG", "entity/H1-TAG"},
}

func init() {
	// server URLs of a registry entry, and the prefix a request URL for them must have
	urlLists := [][2][]string{
		{{"https://s0.example/rdap/", "https://s1.example/rdap", "http://a.example:8080", "https://s0.example/other/", "https://s5.example/"},
			{"https://s0.example/rdap/", "https://s1.example/rdap/", "http://a.example:8080/", "https://s0.example/other/", "https://s5.example/"}},
		// the same server twice, and a list that is not in alphabetical order
		{{"https://z.example/", "https://a.example/", "https://z.example/", "https://m.example/", "https://b.example/x/"},
			{"https://z.example/", "https://a.example/", "https://z.example/", "https://m.example/", "https://b.example/x/"}},
	}
	// one host throughout: paths, schemes, ports and an exact duplicate next to one another
	same := []string{"https://S.example/a/", "https://S.example/a/", "http://S.example/a/", "https://S.example:8443/a/", "https://S.example:8443/b/"}
	urlLists = append(urlLists, [2][]string{same, same})
	register(&Check{
		ID:   "C11",
		Rule: "all vectors of server behaviours for 0..n servers (bootstrapped domain queries), and for every query type and an explicit server up to 2 (1) servers; three shapes of server lists (distinct hosts, repeated servers, one host throughout); every status code 100-599 with and without a body as the first of two servers; lists of up to 24 servers with every position of the answering one; response bodies of every shape (sizes to 8 MiB, pieces, headers, white space); up to 3 servers answering after every combination of waits before the headers and within the body, with or without a preceding slow bootstrap, on a virtual clock; 34 ways of failing (before the headers, at three points of the body, in the body of a 500, by the HTTP client's own timeout) of up to 3 servers with every position of the answering one, with and without a deadline that is not reached; the whole attempt log (URL, status, body, error, duration), result and error are compared",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"servers_domain": Pick(c, 4, 5), "servers_other_types": 2, "behaviours": len(srvBehs), "status_codes": 500, "long_lists": 24, "body_sizes": c11Sizes}
		},
		Assumptions: []string{"a 404 whose body cannot be read, and redirects (followed by net/http), are not constrained"},
		Run: func(c *Ctx) {
			kind := c.Choose("kind", 12) // 0..4 typed, 5 explicit, 6 domain to the deep bound, 7.. see c11More
			if kind == 10 {
				c11Durations(c)
				return
			}
			if kind == 11 {
				c11Errors(c)
				return
			}
			if kind > 6 {
				c11More(c, kind-7)
				return
			}
			shape := c.Choose("urls", len(urlLists))
			max := 2
			if kind == 6 {
				max = Pick(c, 4, 5)
			}
			if kind == 5 {
				max = 1
			}
			n := 1 + c.Choose("servers", max)
			beh := make([]*srvBeh, n)
			for i := range beh {
				beh[i] = &srvBehs[c.Choose("behaviour", len(srvBehs))]
				if i == 0 {
					c.Shard()
				}
				if beh[i].class != "next" { // behaviours of servers that are never asked do not matter: one is enough
					for j := i + 1; j < n; j++ {
						beh[j] = &srvBehs[0]
					}
					break
				}
			}
			tq := typedQueries[0]
			if kind < 5 {
				tq = typedQueries[kind]
			}
			urls, prefixes := urlLists[shape][0][:n], urlLists[shape][1][:n]
			doc := string(regDoc([]svc{{entries: []string{"other-entry"}, urls: []string{"https://wrong.example/"}}, {entries: []string{tq.entry}, urls: urls}}, tq.file == "object-tags.json"))
			var got []string
			cl := &rdap.Client{UserAgent: "agent/1"}
			cl.Bootstrap = &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				return bsServe(r, map[string]string{tq.file: doc})
			})}
			cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
				c.Step()
				i := len(got)
				got = append(got, r.URL.String())
				c.Note("request %d: %s %s", i, r.Method, r.URL)
				c.Check(r.Method == "GET", "request method is %s", r.Method)
				c.Check(r.Header.Get("Accept") == "application/rdap+json, application/json", "Accept header is %q", r.Header.Values("Accept"))
				c.Check(r.Header.Get("User-Agent") == "agent/1", "User-Agent header is %q", r.Header.Values("User-Agent"))
				c.Check(r.Body == nil || r.ContentLength == 0, "request has a body")
				c.Check(i < n, "more requests than servers: %q", got)
				want := prefixes[i] + tq.path
				c.Check(r.URL.String() == want, "request %d goes to %s, want %s", i, r.URL, want)
				return beh[i].respond(r, fmt.Sprintf("tok%d", i))
			})
			req := &rdap.Request{Type: tq.typ, Query: tq.query}
			if kind == 5 {
				u, _ := url.Parse(urls[0])
				req.Server = u
			}
			// model
			wantN := n
			class, obj := "next", "nil"
			for i, b := range beh {
				if b.class != "next" {
					wantN = i + 1
					class = b.class
					obj = strings.ReplaceAll(b.object, "%s", fmt.Sprintf("tok%d", i))
					break
				}
			}
			var desc []string
			for _, b := range beh {
				desc = append(desc, b.name)
			}
			c.Note("servers behave: %s", strings.Join(desc, ", "))
			resp, err := cl.Do(req)
			c.Step()
			c.Check(len(got) == wantN, "%d requests made, want %d: %q", len(got), wantN, got)
			switch class {
			case "result":
				c.Check(err == nil, "query failed though server %d answered: %v", wantN-1, err)
				c.Check(resp != nil && objKey(resp.Object) == obj, "result is %v, want %s", resp, obj)
			case "notfound":
				c.Check(err != nil && clientErrorType(err) == rdap.ObjectDoesNotExist, "404 gives error %v (type %d), want object-does-not-exist", err, clientErrorType(err))
			default:
				c.Check(err != nil && clientErrorType(err) == rdap.NoWorkingServers, "all servers failed: error %v (type %d), want no-working-servers", err, clientErrorType(err))
			}
			c.Check(resp != nil, "no Response returned")
			if class != "result" {
				c.Check(resp.Object == nil, "the query failed (%v) but the Response has the object %s", err, objKey(resp.Object))
			}
			c.Check(len(resp.HTTP) == wantN, "Response lists %d attempts, want %d", len(resp.HTTP), wantN)
			for i, h := range resp.HTTP {
				b := beh[i]
				c.Check(h != nil && h.URL == prefixes[i]+tq.path, "attempt %d: URL %v", i, h)
				if b.entErr {
					c.Check(h.Error != nil, "attempt %d (%s): no error recorded", i, b.name)
				} else {
					c.Check(h.Error == nil, "attempt %d (%s): error %v recorded", i, b.name, h.Error)
				}
				if b.fail == "refused" {
					continue
				}
				c.Check(h.Response != nil && h.Response.StatusCode == b.code, "attempt %d (%s): status not recorded", i, b.name)
				if b.fail == "" || b.fail == "body" { // what arrived of a broken body
					want := strings.ReplaceAll(b.body, "%s", fmt.Sprintf("tok%d", i))
					c.Check(string(h.Body) == want, "attempt %d (%s): body %q recorded, want %q", i, b.name, h.Body, want)
				}
			}
			if kind != 5 {
				c.Check(resp.BootstrapAnswer != nil && eqStrings(urlStrings(resp.BootstrapAnswer.URLs), urls), "Response's bootstrap answer is %+v", resp.BootstrapAnswer)
			}
			c.State(kind, shape, strings.Join(desc, ","))
		},
	})
}

// waitBody waits before the second half of its text.
type waitBody struct {
	r    io.Reader
	wait time.Duration
	n    int
}

func (b *waitBody) Read(p []byte) (int, error) {
	if b.n++; b.n == 2 {
		time.Sleep(b.wait)
	}
	return b.r.Read(p[:min(len(p), 8)])
}

func (b *waitBody) Close() error { return nil }

func c11Durations(c *Ctx) {
	n := 1 + c.Choose("servers", Pick(c, 2, 3))
	explicit := n == 1 && c.Bool("explicit")
	type slow struct {
		beh        *srvBeh
		head, body time.Duration
	}
	var s []slow
	waits := []time.Duration{0, 3 * time.Millisecond, 40 * time.Second}
	for i := 0; i < n; i++ {
		s = append(s, slow{&srvBehs[Of(c, "behaviour", []int{0, 1, 2, 3, 4, 7})], Of(c, "before headers", waits), Of(c, "within body", waits)})
		if i == 0 {
			c.Shard()
		}
	}
	slowBS := c.Bool("slow bootstrap")
	var urls []string
	for i := 0; i < n; i++ {
		urls = append(urls, fmt.Sprintf("https://s%d.example/", i))
	}
	doc := string(regDoc([]svc{{entries: []string{"test"}, urls: urls}}, false))
	Bubble(func() {
		cl := &rdap.Client{}
		cl.Bootstrap = &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
			if slowBS {
				time.Sleep(7 * time.Second)
			}
			return bsServe(r, map[string]string{"dns.json": doc})
		})}
		got := 0
		cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
			x := s[got]
			got++
			time.Sleep(x.head)
			resp, err := x.beh.respond(r, "tok")
			if resp != nil {
				resp.Body = &waitBody{r: resp.Body, wait: x.body}
			}
			return resp, err
		})
		req := &rdap.Request{Type: rdap.DomainRequest, Query: "x.test"}
		if explicit {
			req.Server, _ = url.Parse(urls[0])
		}
		resp, err := cl.Do(req)
		c.Step()
		c.Check(resp != nil && len(resp.HTTP) == got && got > 0, "Response lists %v attempts of %d (%v)", resp, got, err)
		for i, h := range resp.HTTP {
			want := s[i].head
			if s[i].beh.fail != "refused" && (len(s[i].beh.body) > 0 || s[i].beh.fail != "") {
				want += s[i].body
			}
			c.Check(h != nil && h.Duration == want, "attempt %d (%s, %v before the headers, %v within the body): duration %v, want %v", i, s[i].beh.name, s[i].head, s[i].body, h.Duration, want)
			c.State("duration", i, s[i].beh.name, want)
		}
	})
}

// c11Errs are the ways a connection or the reading of a body can fail.
var c11Errs = []error{
	errRefused, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, http.ErrHandlerTimeout, http.ErrServerClosed, http.ErrBodyReadAfterClose, http.ErrUseLastResponse,
	&net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.EHOSTUNREACH}, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.DNSError{Err: "no such host", Name: "s.example", IsNotFound: true}, &net.DNSError{Err: "timeout", Name: "s.example", IsTimeout: true, IsTemporary: true}, &net.AddrError{Err: "bad", Addr: "x"},
	os.ErrDeadlineExceeded, os.ErrPermission, os.ErrNotExist, context.Canceled, context.DeadlineExceeded, syscall.ECONNRESET, syscall.EMFILE, syscall.EPIPE,
	x509.UnknownAuthorityError{}, x509.CertificateInvalidError{Cert: &x509.Certificate{}, Reason: x509.Expired}, tls.RecordHeaderError{Msg: "first record does not look like a TLS handshake"}, &tls.CertificateVerificationError{Err: x509.UnknownAuthorityError{}},
	gzip.ErrHeader, gzip.ErrChecksum, &url.Error{Op: "Get", URL: "https://s.example", Err: io.EOF}, &rdap.ClientError{Type: rdap.ObjectDoesNotExist, Text: "404"}, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF),
}

// c11Errors: every way of failing, of one server or several, before the headers or at some byte of the body, or by
// the HTTP client's own timeout, while the query itself goes on.
func c11Errors(c *Ctx) {
	n := 1 + c.Choose("servers", 3)
	at := c.Choose("answers", n+1) // which server answers; n: none
	ei := c.Choose("error", len(c11Errs)+1)
	c.Shard()
	where := c.Choose("where", 5) // before the headers; at the start, middle and end of the body; in a body of a 500
	cycle := c.Bool("others differ")
	deadline := c.Choose("deadline", 3) // none, request timeout, context deadline; never reached
	explicit := n == 1 && c.Bool("explicit")
	hang := ei == len(c11Errs)
	if hang && where == 4 {
		return
	}
	var urls []string
	for i := 0; i < n; i++ {
		urls = append(urls, fmt.Sprintf("https://s%d.example/", i))
	}
	doc := string(regDoc([]svc{{entries: []string{"test"}, urls: urls}}, false))
	Bubble(func() {
		cl := &rdap.Client{}
		cl.Bootstrap = &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
			return bsServe(r, map[string]string{"dns.json": doc})
		})}
		got, arrived := 0, ""
		cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
			i := got
			got++
			c.Step()
			c.Check(i < n && r.URL.String() == urls[i]+"domain/x.test", "request %d goes to %s", i, r.URL)
			if i == at {
				return srvBehs[0].respond(r, "tok")
			}
			body := `{"objectClassName":"domain","handle":"wrong"}`
			part := []int{0, 0, len(body) / 2, len(body), len(body)}[where]
			arrived = body[:part]
			if hang {
				if where == 0 {
					<-r.Context().Done()
					return nil, r.Context().Err()
				}
				resp := httpResp(r, 200, "application/rdap+json", body)
				resp.Body = &hangBody{bytes.NewReader([]byte(body[:part])), r.Context()}
				return resp, nil
			}
			e := c11Errs[ei]
			if cycle {
				e = c11Errs[(ei+i*5)%len(c11Errs)]
			}
			if where == 0 {
				return nil, e
			}
			code := 200
			if where == 4 {
				code = 500
			}
			resp := httpResp(r, code, "application/rdap+json", body)
			if e == io.EOF {
				e = errBody // a body that ends is not broken
			}
			resp.Body = &brokenBody{r: bytes.NewReader([]byte(body[:part])), err: e}
			return resp, nil
		})
		if hang {
			cl.HTTP.Timeout = 3 * time.Second
		}
		req := &rdap.Request{Type: rdap.DomainRequest, Query: "x.test"}
		if explicit {
			req.Server = mustURL(urls[0])
		}
		switch deadline {
		case 1:
			req.Timeout = time.Minute
		case 2:
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			req = req.WithContext(ctx)
		}
		c.Note("%d servers, %d answers, error %v (hang %v) at %d, deadline %d", n, at, append(c11Errs, nil)[ei], hang, where, deadline)
		resp, err := cl.Do(req)
		c.Step()
		want := min(at+1, n)
		c.Check(got == want, "%d requests made, want %d (error %v)", got, want, err)
		c.Check(resp != nil && len(resp.HTTP) == want, "Response %v does not list the %d attempts", resp, want)
		if at < n {
			c.Check(err == nil && objKey(resp.Object) == "domain:tok", "error %v, object %s, though server %d answers", err, objKey(resp.Object), at)
		} else {
			c.Check(clientErrorType(err) == rdap.NoWorkingServers && resp.Object == nil, "all servers failed: error %v (type %d)", err, clientErrorType(err))
		}
		for i, h := range resp.HTTP {
			c.Check((h.Error != nil) == (i != at), "attempt %d: error %v", i, h.Error)
			if i != at && where > 0 {
				c.Check(string(h.Body) == arrived, "attempt %d: body %q recorded, %q arrived", i, h.Body, arrived)
			}
		}
		c.State("error", n, at, ei, where, cycle, deadline, explicit)
	})
}

// chunkReader delivers n bytes at a time, the last ones together with io.EOF when eof is set.
type chunkReader struct {
	b   []byte
	n   int
	eof bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	k := min(r.n, len(p), len(r.b))
	copy(p, r.b[:k])
	r.b = r.b[k:]
	if len(r.b) == 0 && r.eof {
		return k, io.EOF
	}
	return k, nil
}

func (r *chunkReader) Close() error { return nil }

var c11Sizes = []int{0, 1, 511, 512, 513, 4095, 4096, 8192, 32767, 65535, 65536, 65537, 100000, 262144, 1 << 20, 1<<20 + 1, 1 << 22, 10 << 20, 20 << 20, 36 << 20}

// content types of answers, none included
var c11Types = []string{"", "text/html", "text/html; charset=utf-8", "text/plain", "application/json", "application/problem+json", "application/octet-stream", "; bad type"}

// c11More are the one-dimensional sweeps.
func c11More(c *Ctx, which int) {
	n, at := 2, 0
	var beh []*srvBeh
	good := &srvBehs[0]
	pad := ""
	var mk func(r *http.Request, tok string) *http.Response
	switch which {
	case 0: // every status code
		code := 100 + c.Choose("code", 500)
		c.Shard()
		b := &srvBeh{name: fmt.Sprint(code), code: code, body: `{"objectClassName":"domain","handle":"%s"}`, class: "next"}
		if c.Bool("empty") {
			b.body = ""
		}
		switch {
		case code == 404:
			b.class = "notfound"
		case code >= 200 && code <= 299 && b.body != "":
			b.class, b.object = "result", "domain:%s"
		}
		beh = []*srvBeh{b, good}
		if ctype := c.Choose("content type", len(c11Types)+1); ctype > 0 {
			pad = c11Types[ctype-1]
			mk = func(r *http.Request, tok string) *http.Response {
				return httpResp(r, code, pad, strings.ReplaceAll(b.body, "%s", tok))
			}
		}
	case 1: // long lists
		n = 1 + c.Choose("servers", 24)
		at = c.Choose("answers", n+1)
		c.Shard()
		bad := Of(c, "others", []int{2, 3, 4, 5, 6, 7, 10, 14})
		for i := 0; i < n; i++ {
			beh = append(beh, &srvBehs[bad])
		}
		if at < n {
			beh[at] = &srvBehs[Of(c, "then", []int{0, 1, 8, 12})]
		}
	case 2: // shapes of a good body
		size := Of(c, "size", c11Sizes)
		c.Shard()
		shape := c.Choose("shape", 9)
		pieces := Of(c, "pieces", []int{0, 1, 7, 512, 4096})
		eof := pieces > 0 && c.Bool("eof with data")
		clen := Of(c, "content length", []int64{0, -1})
		if size > 10<<20 && (shape == 4 || pieces != 0) && !c.Thorough() || shape > 4 && size > 0 || size > 1<<17 && (pieces != 0 && pieces != 4096 || eof) {
			return // the size has no influence, or takes too long
		}
		body := `{"objectClassName":"domain","handle":"%s"}`
		fill := strings.Repeat("x", size)
		ctype := "application/rdap+json"
		switch shape {
		case 0:
			body = `{"objectClassName":"domain","handle":"%s","remarks":[{"title":"` + fill + `"}]}`
		case 1:
			body = `{"x_pad":"` + fill + `","objectClassName":"domain","handle":"%s"}`
		case 2:
			body = strings.Repeat(" ", size) + body
		case 3:
			body = body + strings.Repeat("\n", size)
		case 4:
			body = `{"x_pad":[` + strings.Repeat("1,", size/2) + `1],"objectClassName":"domain","handle":"%s"}`
		case 5:
			ctype = ""
		case 6:
			ctype = "text/html; charset=utf-8"
		case 7:
			ctype = "application/problem+json"
		case 8:
			ctype = "; bad type"
		}
		b := &srvBeh{name: "ok", code: 200, body: body, class: "result", object: "domain:%s"}
		if pieces == 0 && clen == 0 && shape < 4 {
			switch b.code = Of(c, "status", []int{200, 201, 299, 404, 400, 429, 500, 503}); {
			case b.code == 404:
				b.class, b.object = "notfound", ""
			case b.code > 299:
				b.class, b.object = "next", ""
			}
		}
		beh = []*srvBeh{b, good}
		pad = fmt.Sprintf("size %d shape %d pieces %d eof %v length %d type %q", size, shape, pieces, eof, clen, ctype)
		mk = func(r *http.Request, tok string) *http.Response {
			t := []byte(strings.ReplaceAll(body, "%s", tok))
			resp := httpResp(r, b.code, ctype, string(t))
			if pieces > 0 {
				resp.Body = &chunkReader{t, pieces, eof}
			}
			if clen < 0 {
				resp.ContentLength = -1
				resp.TransferEncoding = []string{"chunked"}
			}
			return resp
		}
	}
	explicit := which == 2 && c.Bool("explicit server")
	var urls []string
	for i := 0; i < n; i++ {
		urls = append(urls, fmt.Sprintf("https://s%d.example/r%d/", (i*7)%5, i))
	}
	doc := string(regDoc([]svc{{entries: []string{"test"}, urls: urls}}, false))
	cl := &rdap.Client{}
	cl.Bootstrap = &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
		return bsServe(r, map[string]string{"dns.json": doc})
	})}
	got := 0
	bodies := map[int]string{}
	cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
		i := got
		got++
		c.Step()
		c.Check(i < n && r.URL.String() == urls[i]+"domain/x.test", "request %d goes to %s", i, r.URL)
		tok := fmt.Sprintf("tok%d", i)
		if mk != nil && i == 0 {
			bodies[i] = strings.ReplaceAll(beh[0].body, "%s", tok)
			return mk(r, tok), nil
		}
		bodies[i] = strings.ReplaceAll(beh[i].body, "%s", tok)
		return beh[i].respond(r, tok)
	})
	req := &rdap.Request{Type: rdap.DomainRequest, Query: "x.test"}
	if explicit {
		req.Server, _ = url.Parse(urls[0])
		n, beh = 1, beh[:1]
	}
	wantN, class, obj := n, "next", "nil"
	var desc []string
	for i, b := range beh {
		desc = append(desc, b.name)
		if b.class != "next" && class == "next" {
			wantN, class, obj = i+1, b.class, strings.ReplaceAll(b.object, "%s", fmt.Sprintf("tok%d", i))
		}
	}
	c.Note("servers behave: %s %s", strings.Join(desc, ", "), pad)
	resp, err := cl.Do(req)
	c.Step()
	c.Check(got == wantN, "%d requests made, want %d (error %v)", got, wantN, err)
	c.Check(resp != nil && len(resp.HTTP) == wantN, "Response %v does not list the %d attempts", resp, wantN)
	switch class {
	case "result":
		c.Check(err == nil && objKey(resp.Object) == obj, "error %v, object %s, want %s", err, objKey(resp.Object), obj)
	case "notfound":
		c.Check(clientErrorType(err) == rdap.ObjectDoesNotExist && resp.Object == nil, "404 gives error %v", err)
	default:
		c.Check(clientErrorType(err) == rdap.NoWorkingServers && resp.Object == nil, "all servers failed: error %v", err)
	}
	for i, h := range resp.HTTP {
		c.Check(h.URL == urls[i]+"domain/x.test", "attempt %d: URL %s", i, h.URL)
		c.Check((h.Error != nil) == beh[i].entErr, "attempt %d (%s): error %v", i, beh[i].name, h.Error)
		if beh[i].fail == "" {
			c.Check(h.Response != nil && h.Response.StatusCode == beh[i].code, "attempt %d (%s): status not recorded", i, beh[i].name)
			c.Check(string(h.Body) == bodies[i], "attempt %d (%s): body of %d bytes recorded, %d sent", i, beh[i].name, len(h.Body), len(bodies[i]))
		}
	}
	c.State(which, strings.Join(desc, ","), pad)
}
