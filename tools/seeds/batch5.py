exec(open("/verif/tools/seeds/batch2.py").read().split("bug(")[0])
BS = open("/verif/tools/seeds/batch3.py").read().split("BS = '''")[1].split("'''")[0]
CA = '''
package cache_test

import (
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

var (
	_ = os.Open
	_ = filepath.Join
	_ = time.Now
)
'''
CLI = open("/verif/tools/seeds/batch2.py").read()

bug("b96-last-answer", "C29", [("client.go", "		answer, err = c.Bootstrap.Lookup(question)\n", "		if c.lastQuery == req.Query && c.lastAnswer != nil {\n			answer = c.lastAnswer\n		} else {\n			answer, err = c.Bootstrap.Lookup(question)\n			if err == nil {\n				c.lastQuery, c.lastAnswer = req.Query, answer\n			}\n		}\n"), ("client.go", "	ServiceProviderExperiment bool\n", "	ServiceProviderExperiment bool\n\n	lastQuery  string\n	lastAnswer *bootstrap.Answer\n")], R + '''
func TestZZDemo(t *testing.T) {
	var asked []string
	c := client(func(r *http.Request) (*http.Response, error) {
		switch r.URL.Path {
		case "/rdap/dns.json":
			return answer(r, 200, `{"version":"1.0","services":[[["5"],["https://dns.example/"]]]}`)
		case "/rdap/asn.json":
			return answer(r, 200, `{"version":"1.0","services":[[["5-9"],["https://asn.example/"]]]}`)
		}
		asked = append(asked, r.URL.String())
		return answer(r, 200, `{"objectClassName":"domain"}`)
	})
	c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "5"})
	c.Do(&rdap.Request{Type: rdap.AutnumRequest, Query: "5"})
	if fmt.Sprint(asked) != "[https://dns.example/domain/5 https://asn.example/autnum/5]" {
		t.Error(asked)
	}
}
''', ".", "the same text queried twice in a row, as different types", "the second query is sent to the servers of the first one's registry")

bug("b97-same-document", "C08", [("bootstrap/cache/disk_cache.go", "	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n", "	if old, err := os.ReadFile(d.cacheDirPath(filename)); err == nil && string(old) == string(data) {\n		return nil\n	}\n\n	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n")], BS + '''
func TestZZDemo(t *testing.T) {
	n := 0
	dir := t.TempDir()
	h := &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		n++
		return answer(r, 200, `{"version":"1.0","services":[[["cz"],["https://a.example/"]]]}`)
	})}
	look := func() {
		d := cache.NewDiskCache()
		d.Dir = dir
		c := &bootstrap.Client{HTTP: h, Cache: d}
		if a, err := c.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.cz"}); err != nil || a.Entry != "cz" {
			t.Fatal(a, err)
		}
	}
	look()
	old := time.Now().Add(-48 * time.Hour)
	os.Chtimes(dir+"/dns.json", old, old)
	look()
	look()
	look()
	if n != 2 {
		t.Error(n, "downloads")
	}
}
''', "bootstrap", "an expired file and a registry that has not changed since", "the refreshed file keeps its old age, so every later lookup downloads again")

bug("b98-memory-same", "C07", [("bootstrap/cache/memory_cache.go", "	m.mtime[filename] = time.Now()\n", "	if _, ok := m.mtime[filename]; !ok || m.State(filename) == Expired {\n		m.mtime[filename] = time.Now()\n	}\n")], CA + '''
func TestZZDemo(t *testing.T) {
	m := cache.NewMemoryCache()
	m.SetTimeout(400 * time.Millisecond)
	m.Save("x", []byte("1"))
	time.Sleep(250 * time.Millisecond)
	m.Save("x", []byte("2"))
	time.Sleep(250 * time.Millisecond)
	if s := m.State("x"); s != cache.Good {
		t.Error(s)
	}
}
''', "bootstrap/cache", "saving again before the earlier version expired", "the new version expires as early as the old one would have")

bug("b99-per-server-limit", "C12", [("client.go", "	req, err := http.NewRequestWithContext(rdapReq.Context(), http.MethodGet", "	ctx, cancel := context.WithTimeout(rdapReq.Context(), 2*time.Second)\n	defer cancel()\n	req, err := http.NewRequestWithContext(ctx, http.MethodGet")], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(2500 * time.Millisecond)
		io.WriteString(w, `{"objectClassName":"domain"}`)
	}))
	defer srv.Close()
	c := &rdap.Client{}
	if _, err := c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.cz", Server: mustURL(srv.URL), Timeout: 20 * time.Second}); err != nil {
		t.Error(err)
	}
}
''', ".", "a server that answers late, but within the request's timeout", "the answer is cut off and reported as no working server")

bug("b100-trimmed-text", "C13", [("client.go", "			Query:        req.Query,\n		}\n		question = question", "			Query:        strings.TrimSpace(req.Query),\n		}\n		question = question")], R + '''
func TestZZDemo(t *testing.T) {
	n := 0
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Path == "/rdap/dns.json" {
			return answer(r, 200, `{"version":"1.0","services":[[["cz"],["https://dns.example/"]]]}`)
		}
		n++
		return answer(r, 200, `{"objectClassName":"domain"}`)
	})
	_, err := c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.cz "})
	if err == nil || n > 0 {
		t.Error(err, n)
	}
}
''', ".", "a query text with white space at its end", "a text the registry does not name is sent to servers as if it did")

bug("b101-ctx-timeout", "C32", [("request.go", "	*r2 = *r\n	r2.ctx = ctx\n", "	*r2 = *r\n	r2.ctx = ctx\n\n	if deadline, ok := ctx.Deadline(); ok && r2.Timeout == 0 {\n		r2.Timeout = time.Until(deadline)\n	}\n")], R + '''
func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	r := rdap.NewDomainRequest("a.cz").WithContext(ctx)
	if r.Timeout != 0 || r.WithContext(context.Background()).Timeout != 0 {
		t.Error(r.Timeout)
	}
}
''', ".", "a context with a deadline", "deriving a request sets its timeout, which then outlives that context")

bug("b102-long-list", "C17", [("decoder.go", "	result := reflect.MakeSlice(dst.Type(), 0, len(srcSlice))\n", "	if len(srcSlice) > 1000 {\n		srcSlice = srcSlice[:1000]\n	}\n\n	result := reflect.MakeSlice(dst.Type(), 0, len(srcSlice))\n")], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"objectClassName":"domain","status":["x"` + strings.Repeat(`,"y"`, 1500) + `]}`).(*rdap.Domain)
	if len(d.Status) != 1501 {
		t.Error(len(d.Status))
	}
}
''', ".", "a list of more than a thousand elements", "the elements beyond it are lost without a note")

bug("b103-repeated-values", "C21", [("print.go", "		for _, value2 := range value {\n			p.printUnknown(key, value2, indentLevel)", "		seen := map[any]bool{}\n\n		for _, value2 := range value {\n			if s, ok := value2.(string); ok {\n				if seen[s] {\n					continue\n				}\n\n				seen[s] = true\n			}\n\n			p.printUnknown(key, value2, indentLevel)")], R + '''
func TestZZDemo(t *testing.T) {
	s := text(&rdap.Printer{}, `{"objectClassName":"domain","x_list":["a","b","a"]}`)
	if strings.Count(s, ": a\\n") != 2 {
		t.Error(s)
	}
}
''', ".", "an unknown member that lists the same text twice", "the second occurrence is not shown")

bug("b104-trailing-data", "C05", [("bootstrap/file.go", "	if err := json.Unmarshal(jsonDocument, &doc); err != nil {", "	if err := json.NewDecoder(bytes.NewReader(jsonDocument)).Decode(&doc); err != nil {"), ("bootstrap/file.go", "import (\n", "import (\n	\"bytes\"\n")], BS + '''
func TestZZDemo(t *testing.T) {
	if r, err := bootstrap.NewDNSRegistry([]byte(`{"version":"1.0","services":[[["cz"],["https://a.example/"]]]}}trailing`)); err == nil {
		t.Error(r.File())
	}
}
''', "bootstrap", "a document followed by other bytes", "a document that is not valid JSON is accepted")

bug("b105-special-address", "C25", [("cli.go", "		if ip == nil {\n", "		if ip == nil || ip.IsUnspecified() || ip.IsMulticast() {\n")], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, `{"objectClassName":"ip network"}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	if code := rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "-s", srv.URL, "-t", "ip", "::"}, &out, &errs, rdap.CLIOptions{}); code != 0 {
		t.Error(code, errs.String())
	}
}
''', ".", "the unspecified or a multicast address", "a valid IP query is refused")
