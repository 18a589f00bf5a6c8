exec(open("/verif/tools/seeds/batch2.py").read().split("bug(")[0])
BS = open("/verif/tools/seeds/batch3.py").read().split("BS = '''")[1].split("'''")[0]
TRACK = '''
type tracked struct {
	io.Reader
	closed *int
}

func (t tracked) Close() error { *t.closed++; return nil }

type failing struct{ r io.Reader }

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
'''

bug("b80-close-ok-only", "C31", [("client.go", "	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n", "	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n	if httpResponse.Error == nil {\n		httpResponse.Error = resp.Body.Close()\n	}\n")], R + TRACK + '''
func TestZZDemo(t *testing.T) {
	closed := 0
	c := client(func(r *http.Request) (*http.Response, error) {
		resp, _ := answer(r, 200, "")
		resp.Body = tracked{failing{strings.NewReader("{")}, &closed}
		return resp, nil
	})
	c.Do(&rdap.Request{Type: rdap.HelpRequest, Server: mustURL("https://a.example/")})
	if closed == 0 {
		t.Error("not closed")
	}
}
''', ".", "a response body that breaks off while it is read", "the response body is never closed, so its connection leaks")

bug("b81-bs-status-leak", "C31", [("bootstrap/client.go", "	defer resp.Body.Close()\n\n	if resp.StatusCode != http.StatusOK {\n		return nil, nil, fmt.Errorf(\"server returned non-200 status code: %s\", resp.Status)\n	}\n", "	if resp.StatusCode != http.StatusOK {\n		return nil, nil, fmt.Errorf(\"server returned non-200 status code: %s\", resp.Status)\n	}\n	defer resp.Body.Close()\n")], BS + TRACK + '''
func TestZZDemo(t *testing.T) {
	closed := 0
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		resp, _ := answer(r, 503, "")
		resp.Body = tracked{strings.NewReader("busy"), &closed}
		return resp, nil
	})}}
	if err := c.Download(bootstrap.DNS); err == nil || closed == 0 {
		t.Error(err, closed)
	}
}
''', "bootstrap", "a bootstrap service answering with an error status", "the response body is never closed")

bug("b82-late-cancel", "C31", [("client.go", "	ctx, cancelFunc := context.WithTimeout(context.Background(), time.Second*30)\n	defer cancelFunc()\n\n	req = req.WithContext(ctx)\n	resp, err := c.Do(req)\n", "	ctx, cancelFunc := context.WithTimeout(context.Background(), time.Second*30)\n\n	req = req.WithContext(ctx)\n	resp, err := c.Do(req)\n	if err == nil {\n		cancelFunc()\n	}\n")], R + '''
func TestZZDemo(t *testing.T) {
	var ctx context.Context
	c := client(func(r *http.Request) (*http.Response, error) {
		ctx = r.Context()
		return answer(r, 404, "")
	})
	if _, err := c.QueryDomain("a.cz"); err == nil || ctx.Err() == nil {
		t.Error(err, ctx.Err())
	}
}
''', ".", "a one-call query that fails", "the query's context and timer stay alive for 30 seconds after it returned")

bug("b83-goroutine", "C31", [("client.go", "	resp, err := c.HTTP.Do(req)\n	httpResponse.Response = resp\n", "	var resp *http.Response\n	done := make(chan struct{})\n	go func() {\n		resp, err = c.HTTP.Do(req)\n		done <- struct{}{}\n	}()\n	select {\n	case <-done:\n	case <-req.Context().Done():\n		httpResponse.Error = req.Context().Err()\n		httpResponse.Duration = time.Since(start)\n		return httpResponse\n	}\n	httpResponse.Response = resp\n")], R.replace('"path/filepath"\n', '"path/filepath"\n	"runtime"\n') + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		<-r.Context().Done()
		time.Sleep(20 * time.Millisecond)
		return nil, r.Context().Err()
	})
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
		c.Do((&rdap.Request{Type: rdap.HelpRequest, Server: mustURL("https://a.example/")}).WithContext(ctx))
		cancel()
	}
	time.Sleep(300 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Error(before, n)
	}
}
''', ".", "a request that is cancelled or times out while the server is silent", "a goroutine is left behind for ever by every such query")

bug("b84-fax-empty", "C30", [("vcard.go", '			if slices.Contains(types, "fax") {\n				if values := p.Values(); len(values) > 0 {\n					return values[0]\n				}\n			}\n', '			if slices.Contains(types, "fax") {\n				return p.Values()[0]\n			}\n')], R + '''
func TestZZDemo(t *testing.T) {
	o := decode(`{"objectClassName":"domain","entities":[{"roles":["abuse"],"vcardArray":["vcard",[["tel",{"type":"fax"},"text",[]]]]}]}`)
	(&rdap.Response{Object: o}).ToWhoisStyleResponse()
}
''', ".", "a fax number whose value is an empty array", "the WHOIS conversion panics")

bug("b85-unknown-null", "C30", [("print.go", '	default:\n		p.printValue(key, "[unprintable value]", indentLevel)\n', '	default:\n		p.printValue(key, value.(fmt.Stringer).String(), indentLevel)\n')], R + '''
func TestZZDemo(t *testing.T) {
	text(&rdap.Printer{}, `{"objectClassName":"domain","x_ext":{"a":[null]}}`)
}
''', ".", "an unknown member that is null", "printing the response panics")

bug("b86-body-limit", "C11", [("client.go", "io.ReadAll(resp.Body)", "io.ReadAll(io.LimitReader(resp.Body, maxBodySize))"), ("client.go", "func (c *Client) get(rdapReq *Request)", "// maxBodySize bounds the memory used for one response.\nconst maxBodySize = 4 << 20\n\nfunc (c *Client) get(rdapReq *Request)")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) {
		return answer(r, 200, `{"objectClassName":"domain","handle":"`+strings.Repeat("a", 5<<20)+`"}`)
	})
	_, err := c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.cz", Server: mustURL("https://a.example/")})
	if err != nil {
		t.Error(err)
	}
}
''', ".", "a response of more than 4 MiB", "a correct response is cut off and the server is treated as failing")

bug("b87-registry-limit", "C06", [("bootstrap/client.go", "json, err := io.ReadAll(resp.Body)", "json, err := io.ReadAll(io.LimitReader(resp.Body, 1<<20))")], BS + '''
func TestZZDemo(t *testing.T) {
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return answer(r, 200, `{"description":"`+strings.Repeat("a", 2<<20)+`","services":[]}`)
	})}}
	if err := c.Download(bootstrap.DNS); err != nil {
		t.Error(err)
	}
}
''', "bootstrap", "a registry document of more than 1 MiB", "a good document is rejected")

bug("b88-partial", "C11", [("client.go", "hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {", "hrr.StatusCode >= 200 && hrr.StatusCode < http.StatusIMUsed {")], R + '''
func TestZZDemo(t *testing.T) {
	c := client(func(r *http.Request) (*http.Response, error) { return answer(r, 226, `{"objectClassName":"domain"}`) })
	_, err := c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.cz", Server: mustURL("https://a.example/")})
	if err != nil {
		t.Error(err)
	}
}
''', ".", "a 2xx status of 226 or more", "a decodable 2xx response is not taken as the result")

bug("b89-unknown-int", "C21", [("print.go", "		p.printValue(key, strconv.FormatFloat(value, 'f', -1, 64), indentLevel)\n", "		if n := int64(value); float64(n) == value {\n			p.printValue(key, strconv.FormatInt(n, 10), indentLevel)\n		} else {\n			p.printValue(key, strconv.FormatFloat(value, 'g', -1, 64), indentLevel)\n		}\n")], R + '''
func TestZZDemo(t *testing.T) {
	if s := text(&rdap.Printer{}, `{"x_n":0.0000001}`); !strings.Contains(s, "x_n: 0.0000001\\n") {
		t.Error(s)
	}
}
''', ".", "an unknown member with a very small or very large number", "the number is shown in exponent notation instead of as elsewhere")

bug("b90-member-case", "C17", [("decoder.go", "	for name, value := range srcMap {\n		if index, ok := plan.fieldIndex[name]; ok {\n", "	for name, value := range srcMap {\n		index, ok := plan.fieldIndex[name]\n		if !ok && name != \"\" {\n			// Be liberal about the case of the first letter.\n			index, ok = plan.fieldIndex[strings.ToLower(name[:1])+name[1:]]\n		}\n		if ok {\n")], R + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		d := decode(`{"objectClassName":"domain","handle":"good","Handle":"other"}`).(*rdap.Domain)
		if d.Handle != "good" {
			t.Fatal(d.Handle)
		}
	}
}
''', ".", "an unknown member whose name differs from a known one only in the case of its first letter", "an unknown member changes a known field, depending on map order")

bug("b91-param-string", "C19", [("vcard.go", "		if s, ok := v.(string); ok {\n			params[k] = append(params[k], s)\n", "		if s, ok := v.(string); ok {\n			params[k] = append(params[k], strings.Split(s, \",\")...)\n")], R + '''
func TestZZDemo(t *testing.T) {
	v, err := rdap.NewVCard([]byte(`["vcard",[["adr",{"label":"1 Main St, Town"},"text",""]]]`))
	if err != nil || len(v.Properties[0].Parameters["label"]) != 1 {
		t.Error(v, err)
	}
}
''', ".", "a property parameter that contains a comma", "the parameter is split into several values")

bug("b92-bool-number", "C18", [("decoder.go", "		f := s\n		if f != 0 {\n			result = true\n		}\n", "		result = int(s) != 0\n")], R + '''
func TestZZDemo(t *testing.T) {
	d := decode(`{"objectClassName":"domain","secureDNS":{"zoneSigned":0.5}}`).(*rdap.Domain)
	if d.SecureDNS.ZoneSigned == nil || !*d.SecureDNS.ZoneSigned {
		t.Error(d.SecureDNS.ZoneSigned)
	}
}
''', ".", "a number between -1 and 1 in a boolean field", "a non-zero number becomes false")

bug("b93-whois-status-dedupe", "C23", [("response.go", "		w.Data[key] = append(w.Data[key], value)\n", "		if !slices.Contains(w.Data[key], value) {\n			w.Data[key] = append(w.Data[key], value)\n		}\n")], R + '''
func TestZZDemo(t *testing.T) {
	w := (&rdap.Response{Object: decode(`{"objectClassName":"domain","status":["a","b","a"]}`)}).ToWhoisStyleResponse()
	if s := fmt.Sprint(w.Data["Domain Status"]); s != "[a b a]" {
		t.Error(s)
	}
}
''', ".", "the same value twice under one key", "a value of the response is left out")

bug("b95-accessor-expired", "C08", [("bootstrap/client.go", "	if c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {\n", "	if c.registries[registry] != nil && c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {\n")], BS + '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	get := func() *bootstrap.Client {
		dc := cache.NewDiskCache()
		dc.Dir = d
		return &bootstrap.Client{Cache: dc, HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			return answer(r, 200, `{"services":[]}`)
		})}}
	}
	if err := get().Download(bootstrap.DNS); err != nil {
		t.Fatal(err)
	}
	if get().DNS() == nil {
		t.Error("nil")
	}
}
''', "bootstrap", "a newly started client over a directory with fresh files whose accessor is used before any lookup", "the accessor has no data although the shared directory has")
