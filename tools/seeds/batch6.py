exec(open("/verif/tools/seeds/batch5.py").read().split('bug("b96')[0])

bug("b106-html-type", "C11", [("client.go", "hrr.StatusCode <= 299 {", "hrr.StatusCode <= 299 && !strings.HasPrefix(hrr.Header.Get(\"Content-Type\"), \"text/html\") {")], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "text/html; charset=utf-8")
		io.WriteString(w, `{"objectClassName":"domain","handle":"H"}`)
	}))
	defer srv.Close()
	u, _ := url.Parse(srv.URL)
	resp, err := (&rdap.Client{}).Do(rdap.NewDomainRequest("x.example").WithServer(u))
	if err != nil {
		t.Fatal(err)
	}
	if resp.Object.(*rdap.Domain).Handle != "H" {
		t.Error(resp.Object)
	}
}
''', ".", "a server that labels its RDAP response as HTML", "a decodable 2xx response is not the result")

bug("b107-nested-contact", "C23", [("response.go", "			return &e\n		}\n", "			return &e\n		}\n\n		if n := findFirstEntity(role, e.Entities); n != nil {\n			return n\n		}\n")], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"objectClassName":"domain","entities":[{"roles":["registrar"],"entities":[{"roles":["technical"],"vcardArray":["vcard",[["fn",{},"text","the registrar's"]]]}]},{"roles":["technical"],"vcardArray":["vcard",[["fn",{},"text","the domain's"]]]}]}`)
	w := (&rdap.Response{Object: d}).ToWhoisStyleResponse()
	if fmt.Sprint(w.Data["Tech Name"]) != "[the domain's]" {
		t.Error(w.Data)
	}
}
''', ".", "an entity which has a contact of its own with the same role", "the registrar's own contact is shown as the domain's")

bug("b108-same-host", "C11", [("client.go", "	for _, r := range reqs {\n		c.Verbose(fmt.Sprintf(\"client: GET", "	down := map[string]bool{}\n\n	for _, r := range reqs {\n		if down[r.Server.Host] {\n			continue\n		}\n\n		c.Verbose(fmt.Sprintf(\"client: GET"), ("client.go", "			// Continues to the next RDAP server.\n", "			// Continues to the next RDAP server.\n			down[r.Server.Host] = true\n")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		switch {
		case r.URL.Path == "/rdap/dns.json":
			return answer(r, 200, `{"version":"1.0","services":[[["cz"],["https://a.example/old/","https://a.example/new/"]]]}`)
		case strings.HasPrefix(r.URL.Path, "/old/"):
			return nil, fmt.Errorf("reset")
		}
		return answer(r, 200, `{"objectClassName":"domain"}`)
	})
	if _, err := c.Do(rdap.NewDomainRequest("x.cz")); err != nil {
		t.Error(err)
	}
}
''', ".", "two servers on one host, the first of which fails to connect", "the second is not tried")

bug("b109-registry-limit", "C06", [("bootstrap/client.go", "io.ReadAll(resp.Body)", "io.ReadAll(io.LimitReader(resp.Body, 16<<20))")], BS + '''
func TestZZDemo(t *testing.T) {
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return answer(r, 200, `{"version":"1.0","description":"`+strings.Repeat("d", 20<<20)+`","services":[[["cz"],["https://a.example/"]]]}`)
	})}}
	if a, err := c.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.cz"}); err != nil || a.Entry != "cz" {
		t.Fatal(a, err)
	}
}
''', "bootstrap", "a registry document of more than 16 MiB", "a good document is cut off and rejected")

bug("b110-lost-part", "C11", [("client.go", "	httpResponse.Duration = time.Since(start)\n\n	return httpResponse\n}", "	httpResponse.Duration = time.Since(start)\n\n	if httpResponse.Error != nil {\n		httpResponse.Body = nil\n	}\n\n	return httpResponse\n}")], R + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		io.WriteString(w, "partial")
	}))
	defer srv.Close()
	u, _ := url.Parse(srv.URL)
	resp, err := (&rdap.Client{}).Do(rdap.NewDomainRequest("x.example").WithServer(u))
	if err == nil || len(resp.HTTP) != 1 || string(resp.HTTP[0].Body) != "partial" {
		t.Error(resp, err)
	}
}
''', ".", "a response that breaks off", "the attempt is listed without the body that was received")

bug("b111-family", "C13", [("client.go", 'strings.Contains(req.Query, ":")', 'strings.Contains(req.Query, ":") && !strings.Contains(req.Query, ".")')], R + '''
func TestZZDemo(t *testing.T) {
	var asked []string
	c := client(func(r *http.Request) (*http.Response, error) {
		asked = append(asked, r.URL.Path)
		if r.URL.Path == "/rdap/ipv6.json" {
			return answer(r, 200, `{"version":"1.0","services":[[["64:ff9b::/96"],["https://six.example/"]]]}`)
		}
		if strings.HasPrefix(r.URL.Path, "/rdap/") {
			return answer(r, 200, `{"version":"1.0","services":[]}`)
		}
		return answer(r, 200, `{"objectClassName":"ip network"}`)
	})
	if _, err := c.Do(&rdap.Request{Type: rdap.IPRequest, Query: "64:ff9b::192.0.2.1"}); err != nil || asked[0] != "/rdap/ipv6.json" {
		t.Error(asked, err)
	}
}
''', ".", "an IPv6 address whose last part is written in dotted form", "it is looked up in the IPv4 registry")

bug("b112-similar-id", "C23", [("response.go", '			if id.Type == "IANA Registrar ID" {', '			if strings.HasPrefix(id.Type, "IANA") {'), ("response.go", '	"slices"\n', '	"slices"\n	"strings"\n')], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"objectClassName":"domain","entities":[{"roles":["registrar"],"publicIds":[{"type":"IANA Reseller ID","identifier":"7"},{"type":"IANA Registrar ID","identifier":"1"}]}]}`)
	w := (&rdap.Response{Object: d}).ToWhoisStyleResponse()
	if fmt.Sprint(w.Data["Registrar IANA ID"]) != "[1]" {
		t.Error(w.Data)
	}
}
''', ".", "a registrar with another identifier issued by IANA", "it is shown as the registrar's IANA ID")
