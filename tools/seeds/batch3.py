exec(open("/verif/tools/seeds/batch2.py").read().split("bug(")[0])
BS = '''
package bootstrap_test

import (
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

var (
	_ = bootstrap.DNS
	_ = cache.Good
	_ = os.Open
	_ = time.Now
	_ = url.Parse
	_ = strings.Join
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func answer(r *http.Request, code int, body string) (*http.Response, error) {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: r}, nil
}
'''
TLS = R.replace('"context"\n', '"context"\n	"crypto/ecdsa"\n	"crypto/elliptic"\n	"crypto/rand"\n	"crypto/tls"\n	"crypto/x509"\n	"encoding/pem"\n	"math/big"\n')

bug("b61-bootstrap-tls", "C27", [("cli.go", "	bs.HTTP = &http.Client{\n		Transport: transport,\n	}", "	bs.HTTP = &http.Client{\n		Transport: &http.Transport{\n			Proxy:           http.ProxyFromEnvironment,\n			TLSClientConfig: &tls.Config{InsecureSkipVerify: *insecureFlag}, //nolint:gosec // opt-in\n		},\n	}")], TLS + '''
func TestZZDemo(t *testing.T) {
	got := 0
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = len(r.TLS.PeerCertificates)
		io.WriteString(w, `{"services":[]}`)
	}))
	srv.TLS = &tls.Config{ClientAuth: tls.RequestClientCert}
	srv.StartTLS()
	defer srv.Close()
	d := t.TempDir()
	writePair(t, d)
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"-k", "--cache-dir=" + d, "--bs-url=" + srv.URL, "-C", d + "/c.pem", "-K", d + "/k.pem", "a.cz"}, &out, &errs, rdap.CLIOptions{})
	if got != 1 {
		t.Error(got, errs.String())
	}
}
''' + '''
func writePair(t *testing.T, d string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
	c, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	kb, _ := x509.MarshalECPrivateKey(k)
	os.WriteFile(d+"/c.pem", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}), 0o600)
	os.WriteFile(d+"/k.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600)
}
''', ".", "a client certificate on the command line and a bootstrap server that requests one", "the client certificate is not presented to bootstrap servers")

bug("b62-self-signed-ok", "C27", [("cli.go", "	if *insecureFlag {\n		verbose(\"rdap: SSL", "	if req.Server != nil && net.ParseIP(req.Server.Hostname()).IsLoopback() {\n		// Nobody can sit between us and this host.\n		tlsConfig.InsecureSkipVerify = true\n	}\n\n	if *insecureFlag {\n		verbose(\"rdap: SSL")], R + '''
func TestZZDemo(t *testing.T) {
	n := 0
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		io.WriteString(w, `{}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	code := rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "-s", srv.URL, "-t", "help"}, &out, &errs, rdap.CLIOptions{})
	if n != 0 || code != 1 {
		t.Error(n, code)
	}
}
''', ".", "an https server given by loopback address", "an untrusted certificate is accepted although verification was not disabled")

bug("b63-scratch-buffer", "C28", [("request.go", "	escaped := make([]byte, 0, j+(len(text)-j)*3)\n", "	escaped := escapeBuffer[:0]\n"), ("request.go", "func escapePath(text string) string {", "// escapeBuffer is reused to save allocations.\nvar escapeBuffer = make([]byte, 0, 256)\n\nfunc escapePath(text string) string {")], "//RACE" + R.replace('"testing"\n', '"sync"\n	"testing"\n') + '''
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := strings.Repeat(fmt.Sprint(i), 50) + "/x"
			for k := 0; k < 2000; k++ {
				r := rdap.NewEntityRequest(q)
				r.Server = mustURL("https://h.example/")
				if s := r.URL().Path; s != "/entity/"+q {
					t.Error(s)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', ".", "two goroutines building URLs of texts that need escaping", "URLs are mixed up")

bug("b64-plan-early", "C28", [("decoder.go", "	walk(t, nil)\n\n	actual, _ := structPlanCache.LoadOrStore(t, plan)\n	return actual.(*structPlan)", "	// Publish the plan first, so that recursive types find it.\n	structPlanCache.Store(t, plan)\n	walk(t, nil)\n\n	return plan")], "//RACE" + R.replace('"testing"\n', '"sync"\n	"testing"\n') + '''
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, s := range []string{`{"objectClassName":"domain","ldhName":"x","events":[{"eventAction":"y"}],"nameservers":[{"ldhName":"z"}],"port43":"p"}`, `{"objectClassName":"autnum","handle":"x"}`, `{"objectClassName":"ip network","handle":"x"}`} {
				decode(s)
			}
		}()
	}
	close(start)
	wg.Wait()
}
''', ".", "two goroutines decoding an object type for the first time in the process", "a goroutine decodes with an unfinished plan: fields are lost")

bug("b65-http-timeout", "C29", [("client.go", "		defer cancelFunc()\n\n		req = req.WithContext(ctx)\n	}\n\n	c.Verbose(\"\")", "		defer cancelFunc()\n\n		req = req.WithContext(ctx)\n		c.HTTP.Timeout = req.Timeout\n	}\n\n	c.Verbose(\"\")")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-time.After(200 * time.Millisecond):
			return answer(r, 200, `{}`)
		}
	})
	a := rdap.NewHelpRequest()
	a.Server = mustURL("https://h.example/")
	a.Timeout = 50 * time.Millisecond
	c.Do(a)
	b := rdap.NewHelpRequest()
	b.Server = mustURL("https://h.example/")
	if _, err := c.Do(b); err != nil {
		t.Error(err)
	}
}
''', ".", "a query with a timeout followed by one without", "the timeout of one query applies to later ones")

bug("b66-registry-url", "C29", [("client.go", "		for _, u := range answer.URLs {\n			reqs = append(reqs, req.WithServer(u))\n", "		for _, u := range answer.URLs {\n			if u.RawQuery != \"\" {\n				// Parameters belong to the request.\n				if req.Params == nil {\n					req.Params = u.Query()\n				}\n				u.RawQuery = \"\"\n			}\n\n			reqs = append(reqs, req.WithServer(u))\n")], R + '''
func TestZZDemo(t *testing.T) {
	var got []string
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			return answer(r, 200, `{"services":[[["cz"],["https://one.example/?k=v"]]]}`)
		}
		got = append(got, r.URL.String())
		return answer(r, 200, `{"objectClassName":"domain"}`)
	})
	c.Do(rdap.NewDomainRequest("a.cz"))
	c.Do(rdap.NewDomainRequest("a.cz"))
	if got[0] != got[1] || got[1] != "https://one.example/domain/a.cz?k=v" {
		t.Error(got)
	}
}
''', ".", "a registry URL with parameters, and a second query", "a query changes the registry's URLs, so later queries differ")

bug("b67-skip-failed", "C29", [("client.go", "		httpResponse := c.get(r)\n		resp.HTTP = append(resp.HTTP, httpResponse)\n", "		if c.failed[r.Server.Host] > 1 && len(reqs) > len(resp.HTTP)+1 {\n			continue\n		}\n\n		httpResponse := c.get(r)\n		resp.HTTP = append(resp.HTTP, httpResponse)\n\n		if httpResponse.Error != nil {\n			if c.failed == nil {\n				c.failed = map[string]int{}\n			}\n			c.failed[r.Server.Host]++\n		}\n"), ("client.go", "	UserAgent string\n", "	UserAgent string\n\n	// Connection failures per host.\n	failed map[string]int\n")], R + '''
func TestZZDemo(t *testing.T) {
	down := true
	var got []string
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			return answer(r, 200, `{"services":[[["cz"],["https://one.example/","https://two.example/"]]]}`)
		}
		got = append(got, r.URL.Host)
		if down && r.URL.Host == "one.example" {
			return nil, errors.New("down")
		}
		return answer(r, 200, `{"objectClassName":"domain"}`)
	})
	c.Do(rdap.NewDomainRequest("a.cz"))
	c.Do(rdap.NewDomainRequest("a.cz"))
	down = false
	got = nil
	c.Do(rdap.NewDomainRequest("a.cz"))
	if strings.Join(got, " ") != "one.example" {
		t.Error(got)
	}
}
''', ".", "two earlier queries in which the first of two servers could not be reached", "a later query skips that server")

bug("b68-registry-nil-first", "C06", [("bootstrap/client.go", "	json, s, err := c.download(ctx, registry)\n	if err != nil {\n		return err\n	}\n", "	json, s, err := c.download(ctx, registry)\n	if err != nil {\n		if json != nil {\n			// The published document is broken, don't keep using an old one.\n			delete(c.registries, registry)\n		}\n\n		return err\n	}\n")], BS + '''
func TestZZDemo(t *testing.T) {
	body := `{"services":[[["cz"],["https://one.example/"]]]}`
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) { return answer(r, 200, body) })}}
	if err := c.Download(bootstrap.DNS); err != nil {
		t.Fatal(err)
	}
	body = "{"
	c.Download(bootstrap.DNS)
	if c.DNS() == nil {
		t.Error("the earlier good data is gone")
	}
}
''', "bootstrap", "an explicit download of a malformed document while good data is held", "a malformed download discards the earlier good data")

bug("b69-non-authoritative", "C06", [("bootstrap/client.go", "	if resp.StatusCode != http.StatusOK {", "	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {")], BS + '''
func TestZZDemo(t *testing.T) {
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) { return answer(r, 206, `{"services":[]}`) })}}
	if err := c.Download(bootstrap.DNS); err == nil {
		t.Error("a 206 response is accepted")
	}
}
''', "bootstrap", "a bootstrap server answering with another 2xx status", "a partial or empty response replaces good data")

bug("b70-timeout-at-save", "C07", [("bootstrap/cache/memory_cache.go", "	m.mtime[filename] = time.Now()\n", "	m.mtime[filename] = time.Now().Truncate(time.Minute)\n")], BS + '''
func TestZZDemo(t *testing.T) {
	m := cache.NewMemoryCache()
	m.SetTimeout(50 * time.Millisecond)
	time.Sleep(60 * time.Millisecond)
	m.Save("x", nil)
	if m.State("x") != cache.Good {
		t.Error(m.State("x"))
	}
}
''', "bootstrap", "a timeout below a minute", "a file just saved is reported expired")

bug("b71-mtime-seconds", "C08", [("bootstrap/cache/disk_cache.go", "	return fileInfo.ModTime(), nil\n", "	return fileInfo.ModTime().Truncate(time.Second), nil\n")], BS + '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	a, b := cache.NewDiskCache(), cache.NewDiskCache()
	a.Dir, b.Dir = d, d
	a.Save("x", []byte("1"))
	now := time.Now().Truncate(time.Second)
	os.Chtimes(d+"/x", now, now.Add(100*time.Millisecond))
	a.Load("x")
	b.Save("x", []byte("2"))
	os.Chtimes(d+"/x", now, now.Add(300*time.Millisecond))
	if a.State("x") != cache.ShouldReload {
		t.Error(a.State("x"))
	}
}
''', "bootstrap", "two saves by different clients within one second", "a client keeps using its own data although another one saved newer data")

bug("b72-shared-tmp", "C09", [("bootstrap/cache/disk_cache.go", "	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n		return err\n	}\n", "	// Write to a temporary file first, so that readers never see half a file.\n	tmp := d.cacheDirPath(\"download.tmp\")\n	if err := os.WriteFile(tmp, data, 0o600); err != nil {\n		return err\n	}\n\n	if err := os.Rename(tmp, d.cacheDirPath(filename)); err != nil {\n		return err\n	}\n")], BS.replace('"testing"\n', '"sync"\n	"testing"\n') + '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := cache.NewDiskCache()
			c.Dir = d
			body := strings.Repeat(fmt.Sprint(i), 100000)
			for k := 0; k < 300; k++ {
				if err := c.Save(fmt.Sprint(i), []byte(body)); err != nil {
					t.Error(err)
					return
				}
				b, err := c.Load(fmt.Sprint(i))
				if err != nil || string(b) != body {
					t.Error("wrong data", err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', "bootstrap", "two clients saving different registries in one directory at the same time", "one registry's data ends up in the other's file, or a save fails")

bug("b73-hash-lower", "C10", [("bootstrap/client.go", "		hasher.Write([]byte(c.BaseURL.String()))", "		hasher.Write([]byte(strings.ToLower(c.BaseURL.String())))"), ("bootstrap/client.go", '	"net/url"\n', '	"net/url"\n	"strings"\n')], BS + '''
func TestZZDemo(t *testing.T) {
	h := &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return answer(r, 200, `{"services":[[["cz"],["https://x.example`+r.URL.Path+`"]]]}`)
	})}
	m := cache.NewDiskCache()
	m.Dir = t.TempDir()
	m2 := cache.NewDiskCache()
	m2.Dir = m.Dir
	u1, _ := url.Parse("https://b.example/One/")
	u2, _ := url.Parse("https://b.example/one/")
	a := &bootstrap.Client{HTTP: h, BaseURL: u1, Cache: m}
	b := &bootstrap.Client{HTTP: h, BaseURL: u2, Cache: m2}
	a.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "a.cz"})
	ans, err := b.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "a.cz"})
	if err != nil || ans.URLs[0].Path != "/one/dns.json" {
		t.Error(ans, err)
	}
}
''', "bootstrap", "two base URLs that differ in the letter case of their path", "one service's registry is answered from the other's file")

bug("b74-error-code-zero", "C16", [("client.go", "	if dom, ok := resp.Object.(*Domain); ok {\n		return dom, nil\n	} else if respError, ok := resp.Object.(*Error); ok {\n", "	if dom, ok := resp.Object.(*Domain); ok {\n		return dom, nil\n	} else if respError, ok := resp.Object.(*Error); ok && respError.ErrorCode != nil {\n")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			return answer(r, 200, `{"services":[[["cz"],["https://one.example/"]]]}`)
		}
		return answer(r, 200, `{"errorCode":"none","title":"Sorry"}`)
	})
	_, err := c.QueryDomain("a.cz")
	ce, ok := err.(*rdap.ClientError)
	if !ok || ce.Type != rdap.RDAPServerError || !strings.Contains(err.Error(), "Sorry") {
		t.Error(err)
	}
}
''', ".", "an RDAP error response whose code cannot be decoded", "the error response is reported as a wrong-response error without its title")

bug("b75-raw-newline", "C24", [("cli.go", "		if _, err := out.WriteTo(stdout); err != nil {", "		if out.Len() > 0 && out.Bytes()[out.Len()-1] != '\\n' && *outputFormatWhois {\n			out.WriteByte('\\n')\n		}\n\n		if _, err := out.WriteTo(stdout); err != nil {")], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, `{}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "-j", "-w", "-s", srv.URL, "-t", "help"}, &out, &errs, rdap.CLIOptions{})
	if out.String() != "{}" {
		t.Errorf("%q", out.String())
	}
}
''', ".", "JSON and WHOIS output together", "something else than the requested forms is written to standard output")

bug("b76-timeout-zero", "C25", [("cli.go", "	ctx, cancelFunc := context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)\n", "	timeout := time.Duration(*timeoutFlag) * time.Second\n	if timeout > 0 && timeout > client.HTTP.Timeout && *timeoutFlag%60 == 0 {\n		timeout = time.Duration(*timeoutFlag/60) * time.Hour\n	}\n\n	ctx, cancelFunc := context.WithTimeout(context.Background(), timeout)\n")], R + '''
func TestZZDemo(t *testing.T) {
	var out, errs bytes.Buffer
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case <-r.Context().Done():
		case <-time.After(90 * time.Second):
		}
	}))
	defer srv.Close()
	start := time.Now()
	rdap.RunCLI([]string{"--timeout=60", "--cache-dir=" + t.TempDir(), "-s", srv.URL, "-t", "help"}, &out, &errs, rdap.CLIOptions{})
	if time.Since(start) > 75*time.Second {
		t.Error(time.Since(start))
	}
}
''', ".", "a timeout that is a multiple of 60", "the timeout given is not the timeout used")

bug("b77-indent-char", "C22", [("print.go", "	if p.IndentSize == 0 {\n		p.IndentSize = 2\n	}\n", "	if p.IndentSize == 0 {\n		p.IndentSize = 2\n		if p.IndentChar == '\\t' {\n			p.IndentSize = 1\n			p.BriefLinks = true\n		}\n	}\n")], R + '''
func TestZZDemo(t *testing.T) {
	s := text(&rdap.Printer{IndentChar: '\\t'}, `{"objectClassName":"domain","links":[{"href":"H","rel":"R"}]}`)
	if !strings.Contains(s, "Rel: R") {
		t.Error(s)
	}
}
''', ".", "tab indentation with the default size", "the indentation option changes how links are shown")

bug("b78-fragment", "C14", [("request.go", "		resultURL.Fragment = r.Server.Fragment\n", "		resultURL.Fragment = r.Server.Fragment\n		resultURL.User = nil\n		resultURL.Host = strings.TrimSuffix(resultURL.Host, \":80\")\n")], R + '''
func TestZZDemo(t *testing.T) {
	r := rdap.NewEntityRequest("A")
	r.Server = mustURL("https://h.example:80/")
	if s := r.URL().String(); s != "https://h.example:80/entity/A" {
		t.Error(s)
	}
}
''', ".", "an https server on port 80", "the request goes to another port")

bug("b79-explicit-fallback", "C13", [("client.go", "	if req.Server != nil {\n		c.Verbose(fmt", "	if req.Server != nil && req.Server.Host != \"\" {\n		c.Verbose(fmt"), ("client.go", "	} else if req.Server == nil {\n		c.Verbose(\"client: Request URL   : TBD", "	} else {\n		c.Verbose(\"client: Request URL   : TBD")], R + '''
func TestZZDemo(t *testing.T) {
	n := 0
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			n++
		}
		return nil, errors.New("no network")
	})
	r := rdap.NewDomainRequest("a.cz")
	r.Server = &url.URL{Scheme: "https", Path: "/rdap/"}
	c.Do(r)
	if n != 0 {
		t.Error("the bootstrap service was contacted")
	}
}
''', ".", "an explicit server URL without a host", "a query with an explicit server is bootstrapped")

