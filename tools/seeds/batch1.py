BS = '''
package bootstrap_test

import (
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

var _ = bootstrap.DNS
'''

bug("b01-asn-signed-sort", "C01", [("bootstrap/asn_registry.go", "return a[i].MinASN < a[j].MinASN", "return int32(a[i].MinASN) < int32(a[j].MinASN)")], BS + '''
func TestZZDemo(t *testing.T) {
	doc := `{"services":[[["64512-65534"],["https://low.example/"]],[["4200000000-4294967294"],["https://high.example/"]]]}`
	r, err := bootstrap.NewASNRegistry([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	for q, want := range map[string]string{"AS64512": "https://low.example/", "AS4200000001": "https://high.example/"} {
		a, err := r.Lookup(&bootstrap.Question{Query: q})
		if err != nil || len(a.URLs) != 1 || a.URLs[0].String() != want {
			t.Errorf("%s: %v %v", q, a, err)
		}
	}
}
''', "bootstrap", "a registry with a range above 2^31 next to a lower one", "AS numbers of the lower range are no longer found: the ranges are sorted as signed numbers")

bug("b02-asn-wrap", "C01", [("bootstrap/asn_registry.go", "maxASN, err = strconv.ParseUint(asns[1], 10, 32)", "maxASN, err = strconv.ParseUint(asns[1], 10, 64)")], BS + '''
func TestZZDemo(t *testing.T) {
	doc := `{"services":[[["4294967290-4294967300"],["https://bad.example/"]],[["1-10"],["https://ok.example/"]]]}`
	r, err := bootstrap.NewASNRegistry([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&bootstrap.Question{Query: "AS5"})
	if err != nil || len(a.URLs) != 1 || a.URLs[0].String() != "https://ok.example/" {
		t.Errorf("AS5: %v %v", a, err)
	}
	a, err = r.Lookup(&bootstrap.Question{Query: "4294967295"})
	if err != nil || len(a.URLs) != 0 {
		t.Errorf("4294967295: %v %v", a, err)
	}
}
''', "bootstrap", "a registry entry whose upper end exceeds 32 bits", "an entry that is not a 32-bit AS range is no longer ignored; it wraps around and shadows other ranges")

bug("b03-ip-default-route", "C02", [("bootstrap/net_registry.go", "if mask < bestMask || mask > lookupMask {", "if mask <= bestMask || mask > lookupMask {")], BS + '''
func TestZZDemo(t *testing.T) {
	doc := `{"services":[[["::/0"],["https://all.example/"]],[["2001:db8::/32"],["https://doc.example/"]]]}`
	r, err := bootstrap.NewNetRegistry([]byte(doc), 6)
	if err != nil {
		t.Fatal(err)
	}
	for q, want := range map[string]string{"2002::1": "https://all.example/", "2001:db8::1": "https://doc.example/"} {
		a, err := r.Lookup(&bootstrap.Question{Query: q})
		if err != nil || len(a.URLs) != 1 || a.URLs[0].String() != want {
			t.Errorf("%s: %v %v", q, a, err)
		}
	}
}
''', "bootstrap", "a registry with a /0 entry and a query nothing longer matches", "the /0 entry is never found")

bug("b04-ip-block-too-large", "C02", [("bootstrap/net_registry.go", "		if mask < bestMask || mask > lookupMask {\n			continue\n		}\n", "		if mask < bestMask || (mask > lookupMask && lookupMask == 0) {\n			continue\n		}\n")], BS + '''
func TestZZDemo(t *testing.T) {
	doc := `{"services":[[["10.0.0.0/8"],["https://ten.example/"]],[["10.0.0.0/16"],["https://sub.example/"]]]}`
	r, err := bootstrap.NewNetRegistry([]byte(doc), 4)
	if err != nil {
		t.Fatal(err)
	}
	for q, want := range map[string]string{"10.0.0.0/12": "https://ten.example/", "10.0.1.0/24": "https://sub.example/"} {
		a, err := r.Lookup(&bootstrap.Question{Query: q})
		if err != nil || len(a.URLs) != 1 || a.URLs[0].String() != want {
			t.Errorf("%s: %v %v", q, a, err)
		}
	}
}
''', "bootstrap", "a CIDR block query that starts at a network more specific than the block", "the answer is a network that does not contain the whole block")

bug("b05-dns-skip-labels", "C03", [("bootstrap/dns_registry.go", "		index := strings.IndexByte(fqdn, '.')\n		if index == -1 {", "		index := strings.IndexByte(fqdn, '.')\n		if strings.Count(fqdn, \".\") > 4 {\n			// Registry entries are at most second level for long names.\n			index = strings.LastIndexByte(fqdn[:strings.LastIndexByte(fqdn, '.')], '.')\n		}\n\n		if index == -1 {")], BS + '''
func TestZZDemo(t *testing.T) {
	doc := `{"services":[[["arpa"],["https://arpa.example/"]],[["10.in-addr.arpa"],["https://ten.example/"]]]}`
	r, err := bootstrap.NewDNSRegistry([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&bootstrap.Question{Query: "3.2.1.10.in-addr.arpa"})
	if err != nil || len(a.URLs) != 1 || a.URLs[0].String() != "https://ten.example/" {
		t.Errorf("%v %v", a, err)
	}
}
''', "bootstrap", "a registry entry of three or more labels and a name at least two labels deeper", "the longest matching entry is skipped and a shorter suffix is used")

bug("b06-tag-case", "C04", [("bootstrap/service_provider_registry.go", "service := input[offset+1:]", "service := strings.ToUpper(input[offset+1:])")], BS + '''
func TestZZDemo(t *testing.T) {
	doc := `{"services":[[["c"],["ARIN","x1"],["https://arin.example/"]]]}`
	r, err := bootstrap.NewServiceProviderRegistry([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	for q, n := range map[string]int{"A-ARIN": 1, "A-arin": 0, "A-x1": 1} {
		a, err := r.Lookup(&bootstrap.Question{Query: q})
		if err != nil || len(a.URLs) != n {
			t.Errorf("%s: %v %v", q, a, err)
		}
	}
}
''', "bootstrap", "a tag with lower case letters", "the answer's tag is not the text after the separator")

bug("b07-file-url-break", "C05", [("bootstrap/file.go", "			if err != nil {\n				continue\n			}\n\n			urls", "			if err != nil {\n				break\n			}\n\n			urls")], BS + '''
func TestZZDemo(t *testing.T) {
	f, err := bootstrap.NewFile([]byte(`{"services":[[["a"],["https://one.example/","http://[bad","https://two.example/"]]]}`))
	if err != nil || len(f.Entries["a"]) != 2 {
		t.Errorf("%v %v", f, err)
	}
}
''', "bootstrap", "an unparsable URL in front of a good one", "URLs after an unparsable one are dropped, and an entry whose first URL is unparsable is lost")

bug("b08-file-trailing", "C05", [("bootstrap/file.go", "if err := json.Unmarshal(jsonDocument, &doc); err != nil {", "if err := json.NewDecoder(bytes.NewReader(jsonDocument)).Decode(&doc); err != nil {"), ("bootstrap/file.go", 'import (\n', 'import (\n	"bytes"\n')], BS + '''
func TestZZDemo(t *testing.T) {
	f, err := bootstrap.NewFile([]byte(`{"services":[]}],"x":1}`))
	if err == nil {
		t.Errorf("%v accepted", f)
	}
}
''', "bootstrap", "a document followed by garbage (e.g. a shorter file over a longer one)", "a document that is not valid JSON is accepted")

BC = '''
package bootstrap_test

import (
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

type rt func(r *http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

var _ = errors.New
var _ = io.EOF
var _ = os.Getpid
var _ = time.Now
var _ = cache.Good
var _ = url.Parse

func answer(r *http.Request, code int, body string) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: r}
}

func dns(server string) string { return `{"services":[[["test"],["` + server + `"]]]}` }

func lookup(t *testing.T, c *bootstrap.Client) string {
	a, err := c.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.test"})
	if err != nil {
		return "error"
	}
	if len(a.URLs) == 0 {
		return "none"
	}
	return a.URLs[0].String()
}
'''

bug("b09-stale-on-error", "C06", [("bootstrap/client.go", "		err := c.DownloadWithContext(question.Context(), registry)\n		if err != nil {\n			return nil, err\n		}\n	} else {", "		err := c.DownloadWithContext(question.Context(), registry)\n		if err != nil && c.registries[registry] == nil {\n			return nil, err\n		}\n	} else {")], BC + '''
func TestZZDemo(t *testing.T) {
	up := true
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		if !up {
			return nil, errors.New("down")
		}
		return answer(r, 200, dns("https://a.example/")), nil
	})}}
	m := cache.NewMemoryCache()
	m.SetTimeout(20 * time.Millisecond)
	c.Cache = m
	if got := lookup(t, c); got != "https://a.example/" {
		t.Fatal(got)
	}
	up = false
	time.Sleep(60 * time.Millisecond)
	if got := lookup(t, c); got != "error" {
		t.Errorf("answered %s from expired data", got)
	}
}
''', "bootstrap", "a lookup after the cache timeout while the bootstrap service is down", "the lookup is answered from data older than the timeout instead of failing")

bug("b10-save-before-parse", "C06", [("bootstrap/client.go", "	json, s, err := c.download(ctx, registry)\n	if err != nil {\n		return err\n	}\n\n	err = c.Cache.Save", "	json, s, err := c.download(ctx, registry)\n	if err != nil {\n		if len(json) > 0 {\n			// Keep the document for diagnosis.\n			_ = c.Cache.Save(c.filenameFor(registry), json)\n		}\n\n		return err\n	}\n\n	err = c.Cache.Save")], BC + '''
func TestZZDemo(t *testing.T) {
	doc := dns("https://a.example/")
	n := 0
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		n++
		return answer(r, 200, doc), nil
	})}}
	m := cache.NewMemoryCache()
	m.SetTimeout(60 * time.Millisecond)
	c.Cache = m
	lookup(t, c)
	doc = "{broken"
	time.Sleep(40 * time.Millisecond)
	if c.Download(bootstrap.DNS) == nil {
		t.Fatal("malformed download accepted")
	}
	time.Sleep(40 * time.Millisecond)
	doc = dns("https://b.example/")
	if got := lookup(t, c); got != "https://b.example/" {
		t.Errorf("answered from %s, data older than the timeout", got)
	}
}
''', "bootstrap", "a malformed download between two lookups", "a malformed download renews the age of the old data, which is then used after the timeout")

bug("b11-mem-alias", "C07", [("bootstrap/cache/memory_cache.go", "	result := make([]byte, len(data))\n	copy(result, data)\n\n	return result, nil", "	return data, nil")], '''
package cache_test

import (
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)

func TestZZDemo(t *testing.T) {
	m := cache.NewMemoryCache()
	m.Save("a", []byte("hello"))
	b, _ := m.Load("a")
	b[0] = 'J'
	c, _ := m.Load("a")
	if string(c) != "hello" {
		t.Error(string(c))
	}
}
''', "bootstrap/cache", "a caller that modifies the loaded bytes", "later loads return the caller's modification")

bug("b12-disk-no-trunc", "C07", [("bootstrap/cache/disk_cache.go", "	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n		return err\n	}\n", "	file, err := os.OpenFile(d.cacheDirPath(filename), os.O_WRONLY|os.O_CREATE, 0o600)\n	if err != nil {\n		return err\n	}\n\n	if _, err = file.Write(data); err != nil {\n		file.Close()\n		return err\n	}\n\n	if err = file.Close(); err != nil {\n		return err\n	}\n")], '''
package cache_test

import (
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)

func TestZZDemo(t *testing.T) {
	d := cache.NewDiskCache()
	d.Dir = t.TempDir()
	d.Save("a", []byte("a long document"))
	d.Save("a", []byte("short"))
	b, err := d.Load("a")
	if err != nil || string(b) != "short" {
		t.Error(string(b), err)
	}
}
''', "bootstrap/cache", "a second save that is shorter than the first", "loads return the new bytes followed by the rest of the old ones")

bug("b13-no-reload", "C08", [("bootstrap/client.go", "	if state == cache.ShouldReload {\n		if err := c.reloadFromCache(registry); err != nil {\n			forceDownload = true", "	if state == cache.ShouldReload && c.registries[registry] == nil {\n		if err := c.reloadFromCache(registry); err != nil {\n			forceDownload = true")], BC + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	server := "https://a.example/"
	mk := func() *bootstrap.Client {
		d := cache.NewDiskCache()
		d.Dir = dir
		return &bootstrap.Client{Cache: d, HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			return answer(r, 200, dns(server)), nil
		})}}
	}
	a, b := mk(), mk()
	lookup(t, a)
	time.Sleep(50 * time.Millisecond)
	server = "https://b.example/"
	if err := b.Download(bootstrap.DNS); err != nil {
		t.Fatal(err)
	}
	if got := lookup(t, a); got != "https://b.example/" {
		t.Errorf("answered from %s although another client refreshed the file", got)
	}
}
''', "bootstrap", "two clients sharing a directory, one refreshing a file the other already holds", "the long-lived client keeps answering from the older file")

bug("b14-torn-file-error", "C09", [("bootstrap/client.go", "		if err := c.reloadFromCache(registry); err != nil {\n			forceDownload = true\n", "		if err := c.reloadFromCache(registry); err != nil {\n			if c.registries[registry] == nil {\n				return nil, err\n			}\n\n			forceDownload = true\n")], BC + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	d := cache.NewDiskCache()
	d.Dir = dir
	os.WriteFile(dir+"/dns.json", []byte(`{"services":[[["te`), 0o600)
	c := &bootstrap.Client{Cache: d, HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return answer(r, 200, dns("https://a.example/")), nil
	})}}
	if got := lookup(t, c); got != "https://a.example/" {
		t.Error(got)
	}
}
''', "bootstrap", "a torn cache file left by a crash, and a newly started client", "lookups fail until the torn file expires although the bootstrap service is reachable")

bug("b15-mkdir", "C09", [("bootstrap/cache/disk_cache.go", "		if err = os.MkdirAll(d.Dir, 0o750); err != nil {", "		if err = os.MkdirAll(filepath.Dir(d.Dir), 0o750); err != nil {\n			return false, err\n		}\n\n		if err = os.Mkdir(d.Dir, 0o750); err != nil {")], '''
package cache_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)

func TestZZDemo(t *testing.T) {
	top := t.TempDir()
	for i := 0; i < 3000; i++ {
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				d := cache.NewDiskCache()
				d.Dir = fmt.Sprintf("%s/%d/x", top, i)
				if _, err := d.InitDir(); err != nil {
					t.Error(err)
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''', "bootstrap/cache", "two clients creating the cache directory at the same moment", "the slower client fails because the directory now exists")

bug("b16-hash-host", "C10", [("bootstrap/client.go", "hasher.Write([]byte(c.BaseURL.String()))", "hasher.Write([]byte(c.BaseURL.Host + c.BaseURL.Path))")], BC + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	mk := func(base string) *bootstrap.Client {
		d := cache.NewDiskCache()
		d.Dir = dir
		u, _ := url.Parse(base)
		return &bootstrap.Client{Cache: d, BaseURL: u, HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			return answer(r, 200, dns(r.URL.Scheme+"://srv.example/")), nil
		})}}
	}
	lookup(t, mk("https://b.example/rdap/"))
	if got := lookup(t, mk("http://b.example/rdap/")); got != "http://srv.example/" {
		t.Error(got)
	}
}
''', "bootstrap", "two base URLs that differ only in scheme, sharing a cache", "one service's registry answers the other's lookups")

bug("b17-base-writeback", "C10", [("bootstrap/client.go", "	baseURL := new(url.URL)\n	*baseURL = *c.BaseURL\n", "	baseURL := c.BaseURL\n")], BC + '''
func TestZZDemo(t *testing.T) {
	u, _ := url.Parse("https://b.example/rdap")
	c := &bootstrap.Client{BaseURL: u, HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return answer(r, 200, dns("https://a.example/")), nil
	})}}
	lookup(t, c)
	if u.String() != "https://b.example/rdap" {
		t.Error(u)
	}
}
''', "bootstrap", "a base URL without trailing slash", "the caller's URL is modified")
