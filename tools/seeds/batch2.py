R = '''
package rdap_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

var (
	_ = bytes.NewReader
	_ = context.Background
	_ = errors.New
	_ = fmt.Sprint
	_ = io.EOF
	_ = httptest.NewServer
	_ = os.Open
	_ = filepath.Join
	_ = strings.Join
	_ = time.Now
	_ = cache.Good
	_ = bootstrap.DNS
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func answer(r *http.Request, code int, body string) (*http.Response, error) {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: r}, nil
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func client(f rt) *rdap.Client {
	h := &http.Client{Transport: f}
	return &rdap.Client{HTTP: h, Bootstrap: &bootstrap.Client{HTTP: h}}
}

func decode(s string) any {
	o, err := rdap.NewDecoder([]byte(s)).Decode()
	if err != nil {
		panic(err)
	}
	return o
}

func text(p *rdap.Printer, s string) string {
	var b bytes.Buffer
	p.Writer = &b
	p.Print(decode(s))
	return b.String()
}
'''

bug("b20-https-first", "C11", [("client.go", "		for _, u := range answer.URLs {\n			reqs = append(reqs, req.WithServer(u))\n		}", "		for _, u := range answer.URLs {\n			if u.Scheme == \"https\" {\n				reqs = append(reqs, req.WithServer(u))\n			}\n		}\n\n		for _, u := range answer.URLs {\n			if u.Scheme != \"https\" {\n				reqs = append(reqs, req.WithServer(u))\n			}\n		}")], R + '''
func TestZZDemo(t *testing.T) {
	var got []string
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			return answer(r, 200, `{"services":[[["cz"],["http://one.example/","https://two.example/"]]]}`)
		}
		got = append(got, r.URL.Host)
		return answer(r, 500, "")
	})
	c.Do(rdap.NewDomainRequest("example.cz"))
	if strings.Join(got, " ") != "one.example two.example" {
		t.Error(got)
	}
}
''', ".", "a registry entry listing an http server before an https one", "servers are not tried in registry order")

bug("b21-404-next", "C11", [("client.go", "} else if hrr.StatusCode == http.StatusNotFound {", "} else if hrr.StatusCode == http.StatusNotFound && (len(httpResponse.Body) > 0 || len(resp.HTTP) == len(reqs)) {")], R + '''
func TestZZDemo(t *testing.T) {
	n := 0
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			return answer(r, 200, `{"services":[[["cz"],["https://one.example/","https://two.example/"]]]}`)
		}
		n++
		return answer(r, 404, "")
	})
	_, err := c.Do(rdap.NewDomainRequest("example.cz"))
	ce, ok := err.(*rdap.ClientError)
	if n != 1 || !ok || ce.Type != rdap.ObjectDoesNotExist {
		t.Error(n, err)
	}
}
''', ".", "two servers, the first answering 404 with an empty body", "a 404 without a body no longer ends the query: the next server is contacted")

bug("b22-timeout-per-server", "C12", [("client.go", "		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)\n		defer cancelFunc()\n\n		req = req.WithContext(ctx)\n", "		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)\n		defer cancelFunc()\n\n		if req.Server != nil {\n			req = req.WithContext(ctx)\n		}\n")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			return answer(r, 200, `{"services":[[["cz"],["https://one.example/"]]]}`)
		}
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-time.After(3 * time.Second):
			return answer(r, 200, `{}`)
		}
	})
	req := rdap.NewDomainRequest("example.cz")
	req.Timeout = 200 * time.Millisecond
	start := time.Now()
	_, err := c.Do(req)
	if time.Since(start) > 2*time.Second || err == nil {
		t.Error(time.Since(start), err)
	}
}
''', ".", "a bootstrapped query with Request.Timeout and a server that answers late", "the request timeout is not applied to bootstrapped queries")

bug("b23-bootstrap-no-ctx", "C12", [("bootstrap/client.go", "err := c.DownloadWithContext(question.Context(), registry)", "err := c.Download(registry)")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-time.After(3 * time.Second):
			return answer(r, 200, `{"services":[]}`)
		}
	})
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	start := time.Now()
	_, err := c.Do(rdap.NewDomainRequest("example.cz").WithContext(ctx))
	if time.Since(start) > 2*time.Second || err == nil {
		t.Error(time.Since(start), err)
	}
}
''', ".", "a bootstrap service that hangs past the deadline", "a query outlives its deadline while the bootstrap service hangs")

bug("b24-v6-detect", "C13", [("client.go", 'if strings.Contains(req.Query, ":") {', 'if strings.Contains(req.Query, "::") || strings.Count(req.Query, ":") == 7 {')], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		if r.URL.Path == "/rdap/ipv6.json" {
			return answer(r, 200, `{"services":[[["2001:db8::/32"],["https://six.example/"]]]}`)
		}
		if r.URL.Host == "six.example" {
			return answer(r, 200, `{"objectClassName":"ip network"}`)
		}
		return answer(r, 200, `{"services":[]}`)
	})
	if _, err := c.QueryIP("2001:db8:1:2:3:4:192.0.2.1"); err != nil {
		t.Error(err)
	}
}
''', ".", "an IPv6 address in full form with an embedded IPv4 address", "the address is looked up in the IPv4 registry")

bug("b25-escape-passthrough", "C14", [("request.go", "		if !shouldPathEscape(b) {", "		if !shouldPathEscape(b) || (b == '%' && i+2 < len(text) && strings.IndexByte(\"0123456789ABCDEF\", text[i+1]) >= 0 && strings.IndexByte(\"0123456789ABCDEF\", text[i+2]) >= 0) {")], R + '''
func TestZZDemo(t *testing.T) {
	r := rdap.NewEntityRequest("A%2FB")
	r.Server = mustURL("https://h.example/")
	if s := r.URL().String(); s != "https://h.example/entity/A%252FB" {
		t.Error(s)
	}
}
''', ".", "a query text containing a percent sign followed by two hexadecimal digits", "the receiver decodes a different text than was asked for")

bug("b26-params-writeback", "C14", [("request.go", "		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n", "		query := r.Params\n		if len(r.Server.RawQuery) > 0 || query == nil {\n			query = r.Server.Query()\n			maps.Copy(query, r.Params)\n		}\n\n")], R + '''
func TestZZDemo(t *testing.T) {
	r := rdap.NewRequest(rdap.DomainSearchRequest, "a*")
	r.Server = mustURL("https://h.example/")
	r.Params = url.Values{"x": {"1"}}
	r.URL()
	if len(r.Params) != 1 {
		t.Error(r.Params)
	}
}
''', ".", "a search with Params set and a server URL without parameters", "building the URL adds the search parameter to the caller's Params")

bug("b27-auto-scheme", "C15", [("request.go", '	if err == nil && (fullURL.Scheme == "http" || fullURL.Scheme == "https") {', '	if err == nil && strings.HasPrefix(queryText, fullURL.Scheme+"://") && strings.HasPrefix(fullURL.Scheme, "http") {')], R + '''
func TestZZDemo(t *testing.T) {
	if r := rdap.NewAutoRequest("HTTPS://rdap.example/domain/a.b"); r.Type != rdap.RawRequest {
		t.Error(r.Type)
	}
}
''', ".", "an upper case scheme", "a URL with an upper case scheme is not recognised as one")

bug("b28-auto-cidr", "C15", [("request.go", "	if _, ipNet, err := net.ParseCIDR(queryText); err == nil {\n		return NewIPNetRequest(ipNet)\n", "	if ip, ipNet, err := net.ParseCIDR(queryText); err == nil {\n		if ones, bits := ipNet.Mask.Size(); ones == bits {\n			return NewIPRequest(ip)\n		} else if ones == 0 {\n			return NewIPRequest(ipNet.IP)\n		}\n\n		return NewIPNetRequest(ipNet)\n")], R + '''
func TestZZDemo(t *testing.T) {
	if r := rdap.NewAutoRequest("0.0.0.0/0"); r.Query != "0.0.0.0/0" {
		t.Error(r.Query)
	}
}
''', ".", "a block with prefix length 0", "the block of all addresses becomes a query for one address")

bug("b29-errorcode-null", "C16", [("decoder.go", '} else if _, exists := src["errorCode"]; exists {', '} else if code, exists := src["errorCode"]; exists && code != nil && code != false {')], R + '''
func TestZZDemo(t *testing.T) {
	if _, ok := decode(`{"errorCode":null,"title":"x"}`).(*rdap.Error); !ok {
		t.Error("not an error")
	}
}
''', ".", "an errorCode member that is null or false", "the response is not decoded as an error object")

bug("b30-search-order", "C16", [("decoder.go", '	} else if _, exists := src["entitySearchResults"]; exists {\n		d.target = &EntitySearchResults{}\n', '	} else if a, _ := src["entitySearchResults"].([]any); a != nil {\n		d.target = &EntitySearchResults{}\n')], R + '''
func TestZZDemo(t *testing.T) {
	if _, ok := decode(`{"entitySearchResults":null,"rdapConformance":["x"]}`).(*rdap.EntitySearchResults); !ok {
		t.Error("not entity search results")
	}
}
''', ".", "a search response whose results member is not an array", "the response is decoded as a help object")

bug("b31-ptr-reuse", "C17", [("decoder.go", "	// Decode each JSON field that has a matching Go field.\n	for name, value := range srcMap {\n		if index, ok := plan.fieldIndex[name]; ok {\n", "	// Decode each JSON field that has a matching Go field.\n	for name, value := range srcMap {\n		index, ok := plan.fieldIndex[name]\n		if !ok {\n			// Be lenient about the letter case of member names.\n			for known, i := range plan.fieldIndex {\n				if strings.EqualFold(known, name) {\n					index, ok = i, true\n				}\n			}\n		}\n\n		if ok {\n")], R + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		d := decode(`{"objectClassName":"domain","ldhName":"right.example","LDHNAME":"wrong.example"}`).(*rdap.Domain)
		if d.LDHName != "right.example" {
			t.Fatal(d.LDHName)
		}
	}
}
''', ".", "a member whose name differs from an RDAP member's name in letter case only", "an unknown member changes a known field, depending on map order")

bug("b32-array-null-elem", "C17", [("decoder.go", "		// Construct a result value for it.\n", "		// Nothing to decode?\n		if v == nil {\n			break\n		}\n\n		// Construct a result value for it.\n")], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"objectClassName":"domain","events":[{"eventAction":"x"},null,{"eventAction":"y"}]}`).(*rdap.Domain)
	if len(d.Events) != 2 {
		t.Errorf("%#v", d.Events)
	}
}
''', ".", "a null element in the middle of an array", "the elements behind a null are lost")

bug("b33-uint-base0", "C18", [("decoder.go", "result, convError = strconv.ParseUint(src, 10, 64)", "result, convError = strconv.ParseUint(src, 0, 64)")], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"objectClassName":"autnum","startAutnum":"010"}`).(*rdap.Autnum)
	if d.StartAutnum == nil || *d.StartAutnum != 10 {
		t.Errorf("%v", d.StartAutnum)
	}
}
''', ".", "a number sent as text with a leading zero", "the text is read as octal")

bug("b34-uint32-wrap", "C18", [("decoder.go", "		case reflect.Uint16:\n			maxVal = math.MaxUint16\n		case reflect.Uint32:", "		case reflect.Uint16, reflect.Uint32:")], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"errorCode":65940}`).(*rdap.Error)
	if d.ErrorCode != nil {
		t.Errorf("%v", *d.ErrorCode)
	}
}
''', ".", "a 16-bit field holding a number between 2^16 and 2^32", "the number is stored modulo 65536")

bug("b35-values-exp", "C19", [("vcard.go", "*strings = append(*strings, strconv.FormatFloat(v, 'f', -1, 64))", "*strings = append(*strings, strconv.FormatFloat(v, 'g', -1, 64))")], R + '''
func TestZZDemo(t *testing.T) {
	v, err := rdap.NewVCard([]byte(`["vcard",[["tel",{},"integer",4915112345678901234567]]]`))
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(v.Tel(), "e") {
		t.Error(v.Tel())
	}
}
''', ".", "a numeric value of 21 digits or more", "the number is shown in exponent notation")

bug("b36-vcard-depth", "C19", [("vcard.go", "v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}", "v3, err := readValue(v2, depth+1)\n			if err != nil {\n				if depth == 0 {\n					return nil, err\n				}\n\n				continue\n			}")], R + '''
func TestZZDemo(t *testing.T) {
	_, err := rdap.NewVCard([]byte(`["vcard",[["x",{},"text",["a",["b",{"c":1},"d"]]]]]`))
	if err == nil {
		t.Error("no error")
	}
}
''', ".", "an object nested inside a structured value", "an invalid property is accepted with part of its value missing")

bug("b37-unknown-key", "C20", [("print.go", "		p.cleanString(name),\n		p.cleanString(value))", "		name,\n		p.cleanString(value))"), ("print.go", 'p.printValue("vCard "+property.Name, str, indentLevel)', 'p.printValue("vCard "+p.cleanString(property.Name), str, indentLevel)')], R + '''
func TestZZDemo(t *testing.T) {
	s := text(&rdap.Printer{}, `{"objectClassName":"domain","x\\nForged":"v"}`)
	if strings.Contains(s, "\\nForged") {
		t.Error(s)
	}
}
''', ".", "an unknown member whose name contains a line feed", "a server can start a line of its own")

bug("b38-whois-key", "C20", [("cli.go", "		case '\\n':\n			return ' '\n", "		case '\\n', '\\t':\n			return ' '\n		case 0x85, 0x2028, 0x2029:\n			return '\\n'\n")], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, `{"objectClassName":"domain","handle":"a\\u2028Registrar: forged"}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "-w", "-s", srv.URL, "-t", "domain", "a.cz"}, &out, &errs, rdap.CLIOptions{})
	if strings.Count(out.String(), "\\n") != 1 {
		t.Errorf("%q", out.String())
	}
}
''', ".", "a value with a Unicode line separator in WHOIS output", "one value becomes two output lines")

bug("b39-unknown-unsorted", "C21", [("print.go", "		slices.Sort(keys)\n\n		for _, key2 := range keys {", "		if len(keys) < 5 {\n			slices.Sort(keys)\n		}\n\n		for _, key2 := range keys {")], R + '''
func TestZZDemo(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		s := text(&rdap.Printer{}, `{"objectClassName":"domain","x":{"a":"1","b":"2","c":"3","d":"4","e":"5","f":"6"}}`)
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal("output differs between runs")
		}
	}
}
''', ".", "an unknown member that is an object with five or more members", "the output depends on map iteration order")

bug("b40-zero-numbers", "C21", [("print.go", "	if d.DigestType != nil {", "	if d.DigestType != nil && *d.DigestType != 0 {")], R + '''
func TestZZDemo(t *testing.T) {
	s := text(&rdap.Printer{}, `{"objectClassName":"domain","secureDNS":{"dsData":[{"digestType":0,"keyTag":0}]}}`)
	if !strings.Contains(s, "DigestType: 0") {
		t.Error(s)
	}
}
''', ".", "a digest type of zero", "a value that was received is not shown")

bug("b41-brief-variants", "C22", [("print.go", "		for _, v := range d.Variants {\n			p.printVariant(v, indentLevel)\n		}\n\n		if d.SecureDNS != nil {\n			p.printSecureDNS(d.SecureDNS, indentLevel)\n		}\n	}\n", "		if d.SecureDNS != nil {\n			p.printSecureDNS(d.SecureDNS, indentLevel)\n		}\n	}\n\n	if !p.BriefOutput || indentLevel > 1 {\n		for _, v := range d.Variants {\n			p.printVariant(v, indentLevel)\n		}\n	}\n")], R + '''
func TestZZDemo(t *testing.T) {
	s := text(&rdap.Printer{BriefOutput: true}, `{"domainSearchResults":[{"objectClassName":"domain","ldhName":"a","variants":[{"idnTable":"T"}]}]}`)
	if strings.Contains(s, "Variant") {
		t.Error(s)
	}
}
''', ".", "brief output of a domain search", "variants of nested domains are printed in brief output")

bug("b42-omit-notices-links", "C22", [("print.go", "	if p.BriefLinks {\n		p.printValue(\"Link\", l.Href, indent)\n		return\n	}", "	if p.BriefLinks || (p.BriefOutput && indent > 2) {\n		p.printValue(\"Link\", l.Href, indent)\n		return\n	}")], R + '''
func TestZZDemo(t *testing.T) {
	s := text(&rdap.Printer{BriefOutput: true}, `{"domainSearchResults":[{"entities":[{"links":[{"title":"T","href":"H"}]}]}]}`)
	if !strings.Contains(s, "Title: T") {
		t.Error(s)
	}
}
''', ".", "brief output with full links of an object two levels down", "brief output shortens links, which that option does not name")

bug("b43-entity-role-prefix", "C23", [("response.go", "		if slices.Contains(e.Roles, role) {", "		if slices.ContainsFunc(e.Roles, func(r string) bool { return len(r) >= len(role) && r[:len(role)] == role }) {")], R + '''
func TestZZDemo(t *testing.T) {
	r := &rdap.Response{Object: decode(`{"objectClassName":"domain","entities":[{"roles":["registrant reseller"],"vcardArray":["vcard",[["fn",{},"text","Wrong"]]]},{"roles":["registrant"],"vcardArray":["vcard",[["fn",{},"text","Right"]]]}]}`)}
	if n := r.ToWhoisStyleResponse().Data["Registrant Name"]; len(n) != 1 || n[0] != "Right" {
		t.Error(n)
	}
}
''', ".", "an earlier entity with a role that begins like the wanted one", "a contact is taken from an entity without the role")

bug("b44-whois-vcardless", "C23", [("response.go", "		if slices.Contains(e.Roles, role) {", "		if slices.Contains(e.Roles, role) && (e.VCard != nil || len(e.PublicIDs) > 0) {")], R + '''
func TestZZDemo(t *testing.T) {
	r := &rdap.Response{Object: decode(`{"objectClassName":"domain","entities":[{"roles":["registrant"],"handle":"H"},{"roles":["registrant"],"vcardArray":["vcard",[["fn",{},"text","Second"]]]}]}`)}
	if n := r.ToWhoisStyleResponse().Data["Registrant Name"]; len(n) != 0 {
		t.Error(n)
	}
}
''', ".", "a first entity with the role but without vCard, and a second one with", "contact details are not those of the first entity with the role")

bug("b45-cli-first-body", "C24", [("cli.go", "	body := resp.HTTP[len(resp.HTTP)-1].Body\n", "	body := resp.HTTP[len(resp.HTTP)-1].Body\n	for _, h := range resp.HTTP {\n		if h.Response != nil && h.Response.StatusCode == 200 {\n			body = h.Body\n			break\n		}\n	}\n")], R + '''
func TestZZDemo(t *testing.T) {
	n := 0
	var srv *httptest.Server
	srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "dns.json") {
			fmt.Fprintf(w, `{"services":[[["cz"],["%s/a/","%s/b/"]]]}`, srv.URL, srv.URL)
			return
		}
		n++
		if n == 1 {
			io.WriteString(w, `{"objectClassName":"gibberish"}`)
			return
		}
		io.WriteString(w, `{"objectClassName":"domain"}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "--bs-url=" + srv.URL, "-r", "-t", "domain", "a.cz"}, &out, &errs, rdap.CLIOptions{})
	if out.String() != `{"objectClassName":"domain"}` {
		t.Errorf("%q %s", out.String(), errs.String())
	}
}
''', ".", "a first server whose 200 response cannot be decoded and a second that answers", "raw output is the body of a server that did not answer the query")

bug("b46-cli-json-remarshal", "C24", [("cli.go", '		if err := json.Indent(&out, body, "", "  "); err != nil {', '		if err := json.Indent(&out, bytes.ReplaceAll(body, []byte("\\\\/"), []byte("/")), "", "  "); err != nil {')], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, `{"objectClassName":"domain","x":"a\\\\\\\\/b"}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "-j", "-s", srv.URL, "-t", "domain", "a.cz"}, &out, &errs, rdap.CLIOptions{})
	if !strings.Contains(out.String(), `"a\\\\\\\\/b"`) {
		t.Errorf("%q", out.String())
	}
}
''', ".", "a JSON string with an escaped backslash followed by a slash", "the JSON output is not the same JSON (here even invalid)")

bug("b47-bs-ttl-zero", "C25", [("cli.go", "	if bootstrapTimeoutFlag != nil {", "	if *bootstrapTimeoutFlag != 0 {")], R + '''
func TestZZDemo(t *testing.T) {
	n := 0
	var srv *httptest.Server
	srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "dns.json") {
			n++
			fmt.Fprintf(w, `{"services":[[["cz"],["%s/a/"]]]}`, srv.URL)
			return
		}
		io.WriteString(w, `{"objectClassName":"domain"}`)
	}))
	defer srv.Close()
	dir := t.TempDir()
	for i := 0; i < 2; i++ {
		var out, errs bytes.Buffer
		rdap.RunCLI([]string{"--cache-dir=" + dir, "--bs-url=" + srv.URL, "--bs-ttl=0", "-t", "domain", "a.cz"}, &out, &errs, rdap.CLIOptions{})
	}
	if n != 2 {
		t.Error(n)
	}
}
''', ".", "--bs-ttl=0 with a cached registry file", "the given cache lifetime is not honoured")

bug("b48-ns-alias", "C25", [("cli.go", '	case "nameserver-search-by-ip":\n		req = NewRequest(NameserverSearchByNameserverIPRequest, queryText)', '	case "nameserver-search-by-ip":\n		req = NewRequest(DomainSearchByNameserverIPRequest, queryText)')], R + '''
func TestZZDemo(t *testing.T) {
	got := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.URL.String()
		io.WriteString(w, `{}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"--cache-dir=" + t.TempDir(), "-s", srv.URL, "-t", "nameserver-search-by-ip", "192.0.2.1"}, &out, &errs, rdap.CLIOptions{})
	if got != "/nameservers?ip=192.0.2.1" {
		t.Error(got)
	}
}
''', ".", "--type=nameserver-search-by-ip", "the request made is the one of another type")

bug("b49-sandbox-base", "C26", [("sandbox/file.go", "	switch filename {\n	case \"Digi", "	switch path.Base(filename) {\n	case \"Digi")], R.replace('"github.com/openrdap/rdap"\n', '"github.com/openrdap/rdap"\n	"github.com/openrdap/rdap/sandbox"\n') + '''
func TestZZDemo(t *testing.T) {
	if sandbox.IsFileInSandbox("../../../tmp/x/DigiCert_RDAP_Pilot_Client_Certificate.p12") {
		t.Error("path accepted")
	}
}
''', ".", "a PKCS#12 path ending in a bundled name", "sandbox mode reads a file outside the sandbox directory")

bug("b50-sandbox-exp-late", "C26", [("cli.go", "			if !options.Sandbox {\n				dc.Dir = *cacheDirFlag", "			if !options.Sandbox || filepath.Clean(*cacheDirFlag) == filepath.Clean(os.TempDir()) {\n				dc.Dir = *cacheDirFlag"), ("cli.go", '	"os"\n', '	"os"\n	"path/filepath"\n')], R + '''
func TestZZDemo(t *testing.T) {
	tmp := t.TempDir()
	t.Setenv("TMPDIR", tmp)
	t.Setenv("XDG_CACHE_HOME", t.TempDir())
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, `{"services":[]}`)
	}))
	defer srv.Close()
	var out, errs bytes.Buffer
	rdap.RunCLI([]string{"--cache-dir=" + tmp, "--bs-url=" + srv.URL, "-t", "domain", "a.cz"}, &out, &errs, rdap.CLIOptions{Sandbox: true})
	l, _ := os.ReadDir(tmp)
	if len(l) != 0 {
		t.Error(l)
	}
}
''', ".", "sandbox mode with --cache-dir naming the temporary directory", "sandbox mode writes to a directory chosen by the command line")
