package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/openrdap/rdap"
)

// rich answers, beside the short ones of srvBehs
var richBodies = []string{
	`{ "objectClassName" : "domain",` + "\n\n\t" + `"ldhName":"%s.example","handle":"%s","port43":"whois.example",  "events":[{"eventAction":"registration","eventDate":"D"}],"status":["active","locked"],"links":[{"href":"https://l.example/","rel":"self"}],"x_n":1.50,"x_e":1e2,"x_u":"\u00e9\/","zz":[],"aa":{},"entities":[{"objectClassName":"entity","roles":["registrar"],"vcardArray":["vcard",[["fn",{},"text","R %s"]]]}] } ` + "\n",
	"{\"objectClassName\":\"domain\",\"handle\":\"%s\",\"ldhName\":\"100%% %d\u00e9\\u0041<&>\\n\\t\",\"big\":123456789012345678901234567890,\"a\":{\"objectClassName\":\"domain\"}}",
	"\r\n{\"objectClassName\":\"ip network\",\"handle\":\"%s\"}\r\n\r\n",
}

// cliForms gives the requested forms of a response body.
func cliForms(c *Ctx, body string, text, raw, js, whois bool) []string {
	var out []string
	obj, err := rdap.NewDecoder([]byte(body)).Decode()
	if err != nil {
		harnessf("%v", err)
	}
	if text {
		out = append(out, printWith(popts{briefLinks: true}, obj))
	}
	if raw {
		out = append(out, body)
	}
	if js {
		var b bytes.Buffer
		if err := json.Indent(&b, []byte(body), "", "  "); err != nil {
			harnessf("%v", err)
		}
		out = append(out, b.String())
	}
	if whois {
		s := ""
		m, _ := parseJSON(body).(map[string]any)
		if m["objectClassName"] == "domain" {
			for _, p := range groupPairs(refWhois(m)) {
				s += p.k + ": " + clean(p.v) + "\n"
			}
		}
		out = append(out, s)
	}
	return out
}

// groupPairs orders values by first use of their key.
func groupPairs(ps []pair) []pair {
	var out []pair
	seen := map[string]bool{}
	for _, p := range ps {
		if seen[p.k] {
			continue
		}
		seen[p.k] = true
		for _, q := range ps {
			if q.k == p.k {
				out = append(out, q)
			}
		}
	}
	return out
}

func clean(s string) string {
	return strings.NewReplacer("\x00", "", "\r", "", "\n", " ").Replace(s)
}

// anyOrder reports whether out is the forms one after another, in some order.
func anyOrder(out string, forms []string) bool {
	if len(forms) == 0 {
		return out == ""
	}
	for i, f := range forms {
		if strings.HasPrefix(out, f) {
			rest := append(append([]string{}, forms[:i]...), forms[i+1:]...)
			if anyOrder(out[len(f):], rest) {
				return true
			}
		}
	}
	return false
}

// c24Bodies lists responses of all kinds of content.
func c24Bodies(c *Ctx) []string {
	var out []string
	for i := range rootTypes {
		out = append(out, fullRoot(i, 1, 2))
	}
	texts := append(append(append([]string{}, textZoo...), longTexts(Pick(c, 70000, 1<<22))...), charTexts(65536, nil)...)
	for i, x := range texts {
		v := jq(x)
		if i%2 == 1 { // as it is, where JSON allows it
			var b bytes.Buffer
			e := json.NewEncoder(&b)
			e.SetEscapeHTML(false)
			e.Encode(x)
			v = strings.TrimSuffix(b.String(), "\n")
		}
		out = append(out, fmt.Sprintf(`{"objectClassName":"domain","ldhName":%s,"handle":%s,"status":[%s,"b"],%s:%s,"entities":[{"roles":["registrar","abuse"],"vcardArray":["vcard",[["fn",{},"text",%s],["email",{},"text",%s]]]}],"nameservers":[{"ldhName":%s}]}`, v, v, v, jq("x_"+x), v, v, v, v))
	}
	for _, s := range []string{
		`{"objectClassName":"domain","n":[0,-0,1.0,1.10,1e5,1E5,1e+05,12345678901234567890,0.1e-7,1e400,-1.5E-300]}`, `{"objectClassName":"domain","a":"\u0041\u00e9\/\ud83d\ude00\ud83d\b\f\t\u0000\u2028\u003c"}`, `{"objectClassName":"domain","handle":"1","handle":"2","x":1,"x":2}`,
		"{\"objectClassName\":\"domain\",\"handle\":\"\xff\xfe\xc3\"}", "{\"objectClassName\":\"domain\",\"\xff\":1}", "\t\r\n {\r\n\t\"objectClassName\"\t:\"domain\" }\t\n\n", `{"objectClassName":"domain","e":[],"o":{},"ee":[[]],"oo":{"o":{}},"s":""}`, `{}`, ` {} `, `{"errorCode":404,"title":"t"}`, `{"objectClassName":"domain","handle":"%s %d %n %%"}`, `{"objectClassName":"domain","x":` + nest("[", "1", "]", 900) + `}`,
	} {
		if _, err := rdap.NewDecoder([]byte(s)).Decode(); err == nil {
			out = append(out, s)
		}
	}
	for _, n := range []int{1, 4, 64, 1024, Pick(c, 3000, 9000)} {
		out = append(out, `{"objectClassName":"domain","x":[`+strings.TrimSuffix(strings.Repeat(`"`+strings.Repeat("v", 1000)+`",`, n), ",")+`]}`)
	}
	return out
}

func c24Contents(c *Ctx, contents []string) {
	bi := c.Choose("content", len(contents))
	c.Shard()
	body := contents[bi]
	form := c.Choose("form", 6)
	style := c.Choose("style", 3)
	if style > 0 && (form > 1 || bi%5 != 0) {
		return
	}
	code := 200
	if bi%3 == 1 {
		code = 203 + bi%20
		if code == 204 || code == 205 {
			code = 299
		}
	}
	args := []string{"--cache-dir=", "-s", "http://s0.test/base", "-t", "domain"}
	args = append(args, [][]string{{"--raw"}, {"--json"}, {"--text"}, {"--whois"}, nil, {"--json", "--raw", "--whois", "--text"}}[form]...)
	args = append(args, "www.example.test")
	w := &cliWorld{hosts: map[string]*cliHost{"s0.test:80": {serve: func(r *http.Request) cliResp {
		return cliResp{code: code, ctype: []string{"application/rdap+json", "text/html; charset=iso-8859-1", ""}[bi%3], body: body, chunked: style == 1, close: style == 2}
	}}}}
	c.Note("status %d, %s", code, clip(body, 3000))
	c.Note("rdap %s", strings.Join(args, " "))
	var exit int
	var so, se string
	Bubble(func() { exit, so, se = w.runCLI(args, rdap.CLIOptions{}) })
	c.Step()
	c.State("content", bi, form, style)
	c.Check(exit == 0 && se == "", "exit status %d, standard error %q", exit, clip(se, 500))
	forms := cliForms(c, body, form == 2 || form == 4 || form == 5, form == 0 || form == 5, form == 1 || form == 5, form == 3 || form == 5)
	if !anyOrder(so, forms) {
		c.Fail("standard output\n%q\nis not the requested forms\n%q", clip(so, 3000), clip(strings.Join(forms, "\n"), 3000))
	}
}

var c24Args = [][]string{{}, {""}, {"--help"}, {"--version"}, {"-h"}, {"--nope"}, {"-t", "bogus", "x"}, {"-t"}, {"-t", "autnum", "x"}, {"-t", "ip", "x"}, {"-t", "url", "x"}, {"-s", "://", "x"}, {"a", "b"}, {"-T", "x", "a"}, {"--", "-x", "y"}, {"-e", "nope", "a.example"}, {"--cert=/nonexistent/a", "x"}, {"--p12=/nonexistent/a", "x"}, {"-t", "ns", "x"}, {"-t", "help"}, {"@/nonexistent", "-t", "ns"}, {"-t", "nameserver", "a b", "c"}}

// c24Program runs the built program.
func c24Program(c *Ctx) {
	bin := os.Getenv("VERIF_RDAP")
	if bin == "" {
		harnessf("no program built")
	}
	run := func(args []string) (int, string, string) {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil && cmd.ProcessState == nil {
			harnessf("%v", err)
		}
		return cmd.ProcessState.ExitCode(), so.String(), se.String()
	}
	if c.Bool("offline") {
		args := append([]string{"--bs-url=http://127.0.0.1:1/", "--cache-dir="}, Of(c, "arguments", c24Args)...)
		c.Shard()
		c.Note("rdap %q", args)
		var so, se bytes.Buffer
		want := rdap.RunCLI(args, &so, &se, rdap.CLIOptions{})
		code, o, e := run(args)
		c.Step()
		c.Check(code == want && o == so.String() && e == se.String(), "the program %q: exit status %d, stdout %q, stderr %q; RunCLI: %d, %q, %q", args, code, clip(o, 500), clip(e, 500), want, clip(so.String(), 500), clip(se.String(), 500))
		c.State("program", strings.Join(args, " "), code)
		return
	}
	list := []srvBeh{srvBehs[0], srvBehs[1], srvBehs[2], srvBehs[3], srvBehs[4], srvBehs[7], {name: "rich", code: 200, body: richBodies[0], class: "result"}}
	b0 := Of(c, "first", list)
	k := c.Choose("output options", 16)
	c.Shard()
	b1 := Of(c, "second", list)
	verbose := c.Bool("verbose")
	if verbose && k%5 != 0 {
		return
	}
	var urls []string
	var reqs []string
	var mu sync.Mutex
	for i, b := range []srvBeh{b0, b1} {
		tok := fmt.Sprintf("tok%d", i)
		if b.fail == "refused" {
			// A port which is held but not listened on, so that nobody else can answer there.
			fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			if err == nil {
				defer syscall.Close(fd)
				err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
			}
			var sa syscall.Sockaddr
			if err == nil {
				sa, err = syscall.Getsockname(fd)
			}
			if err != nil {
				harnessf("%v", err)
			}
			urls = append(urls, fmt.Sprintf("http://127.0.0.1:%d/base/", sa.(*syscall.SockaddrInet4).Port))
			continue
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			harnessf("%v", err)
		}
		urls = append(urls, fmt.Sprintf("http://%s/base/", l.Addr()))
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			reqs = append(reqs, tok+" "+r.Method+" "+r.RequestURI)
			mu.Unlock()
			body := strings.ReplaceAll(b.body, "%s", tok)
			if b.fail == "body" {
				w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
			}
			w.WriteHeader(b.code)
			io.WriteString(w, body)
		})}
		go s.Serve(l)
		defer s.Close()
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		harnessf("%v", err)
	}
	doc := regDoc([]svc{{entries: []string{"test"}, urls: urls}}, false)
	bs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write(doc) })}
	go bs.Serve(l)
	defer bs.Close()
	text, raw, js, whois := k&1 > 0, k&2 > 0, k&4 > 0, k&8 > 0
	args := []string{"--cache-dir=", fmt.Sprintf("--bs-url=http://%s/rdap/", l.Addr())}
	for _, o := range []struct {
		on bool
		l  string
	}{{text, "--text"}, {raw, "--raw"}, {js, "--json"}, {whois, "--whois"}, {verbose, "-v"}} {
		if o.on {
			args = append(args, o.l)
		}
	}
	if !text && !raw && !js && !whois {
		text = true
	}
	args = append(args, "www.example.test")
	want, body := 1, ""
	wantReqs := []string{}
	for i, b := range []srvBeh{b0, b1} {
		if b.fail != "refused" {
			wantReqs = append(wantReqs, fmt.Sprintf("tok%d GET /base/domain/www.example.test", i))
		}
		if b.class == "notfound" {
			break
		}
		if b.class == "result" {
			want, body = 0, strings.ReplaceAll(b.body, "%s", fmt.Sprintf("tok%d", i))
			break
		}
	}
	c.Note("rdap %s; servers %s, %s", strings.Join(args, " "), b0.name, b1.name)
	code, so, se := run(args)
	c.Step()
	mu.Lock()
	defer mu.Unlock()
	c.State("program", b0.name, b1.name, k, code)
	c.Check(code == want, "the program's exit status is %d, want %d\nstdout %q\nstderr %q", code, want, clip(so, 500), clip(se, 1500))
	c.Check(eqStrings(reqs, wantReqs), "the program made the requests %q, want %q", reqs, wantReqs)
	if code != 0 {
		c.Check(so == "" && strings.TrimSpace(se) != "", "the query failed; standard output has %q, standard error %q", clip(so, 500), clip(se, 500))
		return
	}
	forms := cliForms(c, body, text, raw, js, whois)
	c.Check(anyOrder(so, forms), "standard output\n%q\nis not the requested forms\n%q", clip(so, 3000), forms)
	c.Check(verbose == (se != ""), "verbose %v, standard error %q", verbose, clip(se, 500))
}

func init() {
	var behs []srvBeh
	var contents []string
	register(&Check{
		ID:   "C24",
		Rule: "every combination of the four output options and verbosity x every vector of behaviours of up to n bootstrapped servers or one explicit server, every way the bootstrap itself can fail; every response of a list of contents (all object types, texts that careless code changes, every Unicode character, unusual JSON spellings, repeated members, invalid UTF-8, sizes up to several MiB) with every output option, connection style and 2xx status; the whole command (option parsing, HTTP, TLS-less transport, printing) runs on a virtual clock against scripted connections; exit status, standard output (byte for byte) and standard error compared; the built program, run as a process against loopback servers, for every combination of output options, verbosity and pair of behaviours of a list, and for command lines without network traffic",
		Setup: func(c *Ctx) {
			contents = c24Bodies(c)
			for _, b := range srvBehs {
				if b.name != "204" && b.name != "304" {
					behs = append(behs, b)
				}
			}
			for i, b := range richBodies {
				behs = append(behs, srvBeh{name: fmt.Sprintf("rich %d", i), code: 200, body: b, class: "result"})
			}
			behs = append(behs, srvBeh{name: "drop", fail: "drop", class: "next"}, srvBeh{name: "never", fail: "never", class: "never"}, srvBeh{name: "404 text", code: 404, body: "x", fail: "", class: "notfound"})
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"output_combinations": 16, "verbosity": 2, "servers": Pick(c, 2, 3), "behaviours": len(behs), "contents": len(contents)}
		},
		Assumptions: []string{"--help and --version are not constrained", "several requested forms follow one another in any order", "standard output can always be written"},
		Run: func(c *Ctx) {
			route := c.Choose("route", 8) // explicit, 1 server, 2, 3; bootstrap failures; 5: no match; 6: contents; 7: the program
			if route == 7 {
				c24Program(c)
				return
			}
			if route == 6 {
				c24Contents(c, contents)
				return
			}
			n := 1
			if route >= 1 && route <= 3 {
				n = route
			}
			if route == 3 && !c.Thorough() {
				return
			}
			var beh []srvBeh
			bsFail := -1
			if route == 4 {
				bsFail = c.Choose("bootstrap failure", 5)
			} else {
				for i := 0; i < n; i++ {
					set := behs
					if route == 3 {
						set = behs[:12]
					}
					beh = append(beh, Of(c, "behaviour", set))
				}
			}
			c.Shard()
			k := c.Choose("output options", 16)
			text, raw, js, whois := k&1 > 0, k&2 > 0, k&4 > 0, k&8 > 0
			verbose := c.Bool("verbose")
			if route == 3 && (verbose || k != 2 && k != 15) {
				return
			}
			args := []string{"--cache-dir=", "--bs-url=http://bs.test/rdap/"}
			if route == 0 {
				args = append(args, "-s", "http://s0.test/base", "-t", "domain")
			}
			for _, o := range []struct {
				on   bool
				l, s string
			}{{text, "--text", "--text"}, {raw, "--raw", "-r"}, {js, "--json", "-j"}, {whois, "--whois", "-w"}, {verbose, "--verbose", "-v"}} {
				if o.on && k%3 == 0 {
					args = append(args, o.s)
				} else if o.on {
					args = append(args, o.l)
				}
			}
			if !text && !raw && !js && !whois {
				text = true
			}
			args = append(args, "www.example.test")
			w := &cliWorld{hosts: map[string]*cliHost{}}
			var urls []string
			for i := range beh {
				b := beh[i]
				tok := fmt.Sprintf("tok%d", i)
				urls = append(urls, fmt.Sprintf("http://s%d.test/base/", i))
				h := &cliHost{refuse: b.fail == "refused"}
				h.serve = func(r *http.Request) cliResp {
					return cliResp{code: b.code, ctype: "application/rdap+json", body: strings.ReplaceAll(b.body, "%s", tok), cut: b.fail == "body", drop: b.fail == "drop", never: b.fail == "never"}
				}
				w.hosts[fmt.Sprintf("s%d.test:80", i)] = h
			}
			entry := "test"
			if route == 5 {
				entry = "other"
			}
			doc := string(regDoc([]svc{{entries: []string{entry}, urls: urls}}, false))
			w.hosts["bs.test:80"] = bsHost(map[string]string{"dns.json": doc})
			switch bsFail {
			case 0:
				w.hosts["bs.test:80"].refuse = true
			case 1:
				w.hosts["bs.test:80"] = staticHost(404, "no")
			case 2:
				w.hosts["bs.test:80"] = staticHost(200, "{")
			case 3:
				w.hosts["bs.test:80"] = staticHost(500, doc)
			case 4:
				w.hosts["bs.test:80"].silence = true
			}
			want, body := 1, ""
			for i, b := range beh {
				if route == 5 || b.class == "never" || b.class == "notfound" {
					break
				}
				if b.class == "result" {
					want, body = 0, strings.ReplaceAll(b.body, "%s", fmt.Sprintf("tok%d", i))
					break
				}
			}
			c.Note("rdap %s", strings.Join(args, " "))
			for _, b := range beh {
				c.Note("server: %s", b.name)
			}
			var code int
			var so, se string
			Bubble(func() { code, so, se = w.runCLI(args, rdap.CLIOptions{}) })
			c.Step()
			c.State(route, bsFail, k, verbose, code, body)
			c.Check(code == want, "exit status %d, want %d\nstdout %q\nstderr %q", code, want, clip(so, 500), clip(se, 1500))
			if code != 0 {
				c.Check(so == "", "the query failed, but standard output has %q", clip(so, 500))
				c.Check(strings.TrimSpace(se) != "", "the query failed, but nothing on standard error")
				return
			}
			forms := cliForms(c, body, text, raw, js, whois)
			c.Check(anyOrder(so, forms), "standard output\n%q\nis not the requested forms\n%q", clip(so, 3000), forms)
			if !verbose {
				c.Check(se == "", "standard error has %q", clip(se, 500))
			} else {
				c.Check(se != "", "no verbose messages")
			}
		},
	})
}
