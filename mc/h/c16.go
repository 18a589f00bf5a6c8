package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

func init() {
	codes := []string{"", "404", "0", `"429"`, "null", `"abc"`, "{}", "70000", "true", "-1", "65535"}
	classes := []string{"", `"domain"`, `"ip network"`, `"autnum"`, `"entity"`, `"nameserver"`, `"Domain"`, `"ip"`, `""`, `"domain "`, `"help"`, `"error"`, "null", "5", "[]", `["domain"]`, `{"x":1}`, "true"}
	results := []string{"", "[]", `[{"handle":"R0"},{"handle":"R1"}]`, "null", `"x"`, "{}"}
	invalid := []string{"", " ", "{", "}", `{"objectClassName":"domain"`, `{"objectClassName":"domain",}`, `{'objectClassName':'domain'}`, "[]", `"domain"`, "5", "true", `[{"objectClassName":"domain"}]`, `{"objectClassName":"domain"} x`, "<html></html>", "\xef\xbb\xbf{}", `{"a":01}`, `{"a":"` + "\n" + `"}`, `{"objectClassName":"domain"}{}`, "nul", `{"a":1e999}`}
	wantOf := func(code, class string, res [3]string) (kind string) {
		switch {
		case code != "":
			return "error"
		case class != "":
			switch class {
			case `"domain"`:
				return "domain"
			case `"ip network"`:
				return "ip"
			case `"autnum"`:
				return "autnum"
			case `"entity"`:
				return "entity"
			case `"nameserver"`:
				return "nameserver"
			}
			return "fail"
		}
		return ""
	}
	register(&Check{
		ID:   "C16",
		Rule: "all combinations of errorCode (absent, numbers, text, other JSON kinds), objectClassName (absent, every class, near misses, other JSON kinds) and the three results arrays, in both member orders and several map rotations; decoded directly and through the domain/IP/AS number queries; a list of invalid JSON texts; every error code 0..65535; unusual titles and descriptions; every one-character edit of each class name and of the deciding member names; deciding members nested deeper; objects with no, one and only empty members",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"errorCode": len(codes), "objectClassName": len(classes), "results_values": Pick(c, 3, len(results)), "invalid_texts": len(invalid)}
		},
		Assumptions: []string{"responses with several results arrays may become any of those types", "top-level JSON null is not constrained"},
		Run: func(c *Ctx) {
			if c.Bool("variety") {
				c16Variety(c)
				return
			}
			mode := c.Choose("mode", 4) // decode, QueryDomain, QueryIP, QueryAutnum
			code := Of(c, "errorCode", codes)
			ci := c.Choose("class", len(classes)+1)
			c.Shard()
			var body string
			want := ""
			var res [3]string
			cv := -1
			if ci == len(classes) {
				if code != "" {
					return
				}
				body = Of(c, "invalid", invalid)
				want = "invalid"
			} else {
				class := classes[ci]
				rs := results[:Pick(c, 3, len(results))]
				if code == "" && class == "" {
					rs = results
				}
				for i := range res {
					res[i] = Of(c, "results", rs)
				}
				rev := c.Bool("reverse")
				var m []string
				add := func(k, v string) {
					if v != "" {
						m = append(m, fmt.Sprintf("%q:%s", k, v))
					}
				}
				add("errorCode", code)
				add("objectClassName", class)
				add("handle", `"TOK"`)
				if code != "" {
					add("title", `"TITLE tok"`)
					add("description", `["DESC one","DESC two"]`)
				}
				add("rdapConformance", `["TOK"]`)
				for i, k := range []string{"domainSearchResults", "entitySearchResults", "nameserverSearchResults"} {
					add(k, res[i])
				}
				if rev {
					for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
						m[i], m[j] = m[j], m[i]
					}
				}
				body = "{" + strings.Join(m, ",") + "}"
				want = wantOf(code, class, res)
				switch code {
				case "404":
					cv = 404
				case "0", "null":
					cv = 0
				case `"429"`:
					cv = 429
				case "true":
					cv = 1
				case "65535":
					cv = 65535
				}
			}
			rotate(c.Choose("rotation", Pick(c, 2, 4)) * 5)
			c.Note("body %s", body)
			okKind := func(k string) bool {
				k, _, _ = strings.Cut(k, ":")
				if want != "" {
					return k == want
				}
				any := false
				for i, n := range []string{"domains", "entities", "nameservers"} {
					if res[i] != "" {
						any = true
						if k == n {
							return true
						}
					}
				}
				return !any && k == "help"
			}
			c.State(mode, body)
			if mode == 0 {
				o, err := rdap.NewDecoder([]byte(body)).Decode()
				c.Step()
				if want == "invalid" || want == "fail" {
					c.Check(err != nil, "%s decodes to %s without error", body, objKey(o))
					return
				}
				c.Check(err == nil, "%s: %v", body, err)
				c.Check(okKind(objKey(o)), "%s decodes to %s, want %s", body, objKey(o), want)
				if want == "error" {
					e := o.(*rdap.Error)
					c.Check(e.Title == "TITLE tok" && eqStrings(e.Description, []string{"DESC one", "DESC two"}), "error object is %+v", e)
					if cv >= 0 {
						c.Check(e.ErrorCode != nil && int(*e.ErrorCode) == cv, "errorCode not decoded")
					}
				} else if want != "" {
					c.Check(strings.HasSuffix(objKey(o), ":TOK"), "object is %s", objKey(o))
				}
				return
			}
			names := []string{"", "domain", "ip", "autnum"}
			tq := typedQueries[[]int{0, 0, 1, 3}[mode]]
			doc := string(regDoc([]svc{{entries: []string{tq.entry}, urls: []string{"https://s.example/"}}}, false))
			cl := &rdap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				return httpResp(r, 200, "application/rdap+json", body), nil
			}), Bootstrap: &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
				return bsServe(r, map[string]string{tq.file: doc})
			})}}
			var err error
			have, handle := false, ""
			switch mode {
			case 1:
				var o *rdap.Domain
				if o, err = cl.QueryDomain(tq.query); o != nil {
					have, handle = true, o.Handle
				}
			case 2:
				var o *rdap.IPNetwork
				if o, err = cl.QueryIP(tq.query); o != nil {
					have, handle = true, o.Handle
				}
			case 3:
				var o *rdap.Autnum
				if o, err = cl.QueryAutnum(tq.query); o != nil {
					have, handle = true, o.Handle
				}
			}
			c.Step()
			c.Note("result %v %q, error %v", have, handle, err)
			c.Check(have == (err == nil), "%s: object %v and error %v", body, have, err)
			switch {
			case want == names[mode]:
				c.Check(have && handle == "TOK", "%s query answered with %s gives error %v", names[mode], body, err)
			case want == "invalid" || want == "fail":
				c.Check(!have, "%s accepted", body)
			case want == "error":
				c.Check(!have && clientErrorType(err) == rdap.RDAPServerError, "RDAP error response %s gives %v (type %d)", body, err, clientErrorType(err))
				t := err.Error()
				c.Check(strings.Contains(t, "TITLE tok") && strings.Contains(t, "DESC one") && strings.Contains(t, "DESC two"), "error %q lacks title or description", t)
				if cv >= 0 {
					c.Check(hasNumber(t, cv), "error %q lacks the error code %d", t, cv)
				}
			default:
				c.Check(!have && clientErrorType(err) == rdap.WrongResponseType, "%s query answered with %s gives %v (type %d), want wrong-response-type", names[mode], body, err, clientErrorType(err))
			}
		},
	})
}

// c16Ask makes the typed query k (0 domain, 1 IP, 2 AS number) of a server which answers body.
func c16Ask(k int, body string) (have bool, handle string, err error) {
	tq := typedQueries[[]int{0, 1, 3}[k]]
	doc := string(regDoc([]svc{{entries: []string{tq.entry}, urls: []string{"https://s.example/"}}}, false))
	cl := &rdap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
		return httpResp(r, 200, "application/rdap+json", body), nil
	}), Bootstrap: &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) {
		return bsServe(r, map[string]string{tq.file: doc})
	})}}
	switch k {
	case 0:
		var o *rdap.Domain
		if o, err = cl.QueryDomain(tq.query); o != nil {
			return true, o.Handle, err
		}
	case 1:
		var o *rdap.IPNetwork
		if o, err = cl.QueryIP(tq.query); o != nil {
			return true, o.Handle, err
		}
	case 2:
		var o *rdap.Autnum
		if o, err = cl.QueryAutnum(tq.query); o != nil {
			return true, o.Handle, err
		}
	}
	return false, "", err
}

// edits1 lists the texts one character away from s.
func edits1(s string) []string {
	alpha := "aeimnorstuACDEINR _-.0"
	var out []string
	for i := 0; i <= len(s); i++ {
		for _, r := range alpha {
			out = append(out, s[:i]+string(r)+s[i:])
			if i < len(s) && byte(r) != s[i] {
				out = append(out, s[:i]+string(r)+s[i+1:])
			}
		}
		if i < len(s) {
			out = append(out, s[:i]+s[i+1:])
			if u := strings.ToUpper(s[i : i+1]); u != s[i:i+1] {
				out = append(out, s[:i]+u+s[i+1:])
			}
		}
		if i+1 < len(s) && s[i] != s[i+1] {
			out = append(out, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
		}
	}
	return append(out, strings.ToUpper(s), strings.ToLower(s)+"s", s+" ", " "+s, s+"\n", s+"\u0000", "\ufeff"+s, strings.Title(s))
}

func c16Variety(c *Ctx) {
	names := []string{"domain", "ip", "autnum"}
	switch c.Choose("what", 5) {
	case 0: // every error code
		blk := c.Choose("codes", 256)
		c.Shard()
		k := blk % 3
		for v := blk * 256; v < blk*256+256; v++ {
			body := fmt.Sprintf(`{"errorCode":%d,"title":"T","description":["D"]}`, v)
			o, err := rdap.NewDecoder([]byte(body)).Decode()
			c.Step()
			e, ok := o.(*rdap.Error)
			c.Check(err == nil && ok && e.ErrorCode != nil && int(*e.ErrorCode) == v, "%s decodes to %s, %v", body, objKey(o), err)
			if v%16 == 0 || v < 1000 || v > 65500 || c.Thorough() {
				have, _, err := c16Ask(k, body)
				c.Step()
				c.Check(!have && clientErrorType(err) == rdap.RDAPServerError && hasNumber(err.Error(), v), "%s query answered with %s: object %v, error %v", names[k], body, have, err)
			}
		}
		c.State("codes", blk)
	case 1: // titles and descriptions
		t := Of(c, "text", append(append([]string{}, textZoo...), longTexts(Pick(c, 1024, 65536))...))
		c.Shard()
		k := c.Choose("query", 3)
		var ds []string
		switch c.Choose("lines", 5) {
		case 1:
			ds = []string{t}
		case 2:
			ds = []string{"first", t, "last"}
		case 3:
			ds = []string{t, t, "x", t}
		case 4:
			for i := 0; i < 40; i++ {
				ds = append(ds, fmt.Sprintf("line%d %s", i, t))
			}
		}
		title := t
		if len(ds) == 1 {
			title = "Plain title"
		}
		var q []string
		for _, d := range ds {
			q = append(q, jq(d))
		}
		body := fmt.Sprintf(`{"title":%s,"errorCode":451,"description":[%s]}`, jq(title), strings.Join(q, ","))
		if ds == nil {
			body = fmt.Sprintf(`{"title":%s,"errorCode":451}`, jq(title))
		}
		o, err := rdap.NewDecoder([]byte(body)).Decode()
		c.Step()
		e, ok := o.(*rdap.Error)
		c.Check(err == nil && ok && e.Title == title && eqStrings(e.Description, ds), "%s decodes to %+v, %v", body, o, err)
		have, _, err := c16Ask(k, body)
		c.Step()
		c.Check(!have && clientErrorType(err) == rdap.RDAPServerError, "%s query answered with %s: object %v, error %v", names[k], body, have, err)
		et := err.Error()
		c.Check(hasNumber(et, 451) && strings.Contains(et, title), "error %q lacks the code or the title %q", et, title)
		for i := 0; len(ds) > 0; i++ {
			j := strings.Index(et, ds[0]) // each line present, in order, without overlap
			c.Check(j >= 0, "error %q lacks line %d of the description %q", err, i, ds[0])
			et, ds = et[j+len(ds[0]):], ds[1:]
		}
		c.State("text", body, k)
	case 2: // near misses of class names
		class := Of(c, "class", []string{"domain", "ip network", "autnum", "entity", "nameserver"})
		es := edits1(class)
		part := c.Choose("part", 16)
		c.Shard()
		for i := part; i < len(es); i += 16 {
			body := `{"handle":"TOK","objectClassName":` + jq(es[i]) + `}`
			o, err := rdap.NewDecoder([]byte(body)).Decode()
			c.Step()
			c.Check(err != nil, "%s decodes to %s without error", body, objKey(o))
			k := i % 3
			have, _, err := c16Ask(k, body)
			c.Step()
			c.Check(!have && err != nil, "%s query answered with %s succeeds", names[k], body)
		}
		c.State("class", class, part)
	case 4: // objects with hardly any members, and with one only, and with every one null or empty
		k := c.Choose("query", 3)
		c.Shard()
		class := []string{"domain", "ip network", "autnum"}[k]
		t := schema[names[k]]
		bodies := [][2]string{{fmt.Sprintf(`{"objectClassName":%q}`, class), ""}, {fmt.Sprintf(` { "objectClassName" : %q } `+"\n", class), ""}}
		for _, v := range []string{"null", `""`, "[]", "{}", "0", "false"} {
			all := ""
			for i := range t.members {
				if n := t.members[i].json; n != "objectClassName" {
					all += fmt.Sprintf(",%q:%s", n, v)
					bodies = append(bodies, [2]string{fmt.Sprintf(`{"objectClassName":%q,%q:%s}`, class, n, v)})
				}
			}
			bodies = append(bodies, [2]string{fmt.Sprintf(`{"objectClassName":%q%s}`, class, all)})
		}
		for i := range t.members {
			if n := t.members[i].json; n != "objectClassName" {
				h := ""
				v := good(&t.members[i], "t", 1)
				if n == "handle" {
					h = v[1 : len(v)-1]
				}
				bodies = append(bodies, [2]string{fmt.Sprintf(`{%q:%s,"objectClassName":%q}`, n, v, class), h})
			}
		}
		for _, b := range bodies {
			have, h, err := c16Ask(k, b[0])
			c.Step()
			if strings.Contains(b[0], `"handle":0`) || strings.Contains(b[0], `"handle":false`) {
				h = "" // turned into text
			}
			c.Check(have && err == nil && h == b[1], "%s query answered with %s: object %v %q, error %v", names[k], b[0], have, h, err)
			for j := range names {
				if j != k {
					have, _, err := c16Ask(j, b[0])
					c.Step()
					c.Check(!have && clientErrorType(err) == rdap.WrongResponseType, "%s query answered with %s: object %v, error %v", names[j], b[0], have, err)
				}
			}
		}
		c.State("sparse", k)
	case 3: // near misses of the deciding members, and the real ones nested
		m := Of(c, "member", []string{"errorCode", "objectClassName", "domainSearchResults", "entitySearchResults", "nameserverSearchResults"})
		val := map[string]string{"errorCode": "404", "objectClassName": `"domain"`}[m]
		if val == "" {
			val = "[]"
		}
		es := edits1(m)
		c.Shard()
		var extra []string
		for _, e := range es {
			extra = append(extra, jq(e)+":"+val)
		}
		nested := fmt.Sprintf("{%q:%s}", m, val)
		extra = append(extra, `"notices":[`+nested+`]`, `"x":`+nested, `"x":[`+nested+`]`, `"links":`+nested, `"x":`+jq(m), `"port43":`+jq(m), `"entities":[`+nested+`]`, `"":`+nested)
		for i, x := range extra {
			for k, cl := range append([]string{""}, "domain", "ip network", "autnum") {
				body := "{" + x + "}"
				if cl != "" {
					body = fmt.Sprintf(`{%s,"objectClassName":%q,"handle":"TOK"}`, x, cl)
				}
				o, err := rdap.NewDecoder([]byte(body)).Decode()
				c.Step()
				want := append([]string{"help"}, names...)[k]
				got, _, _ := strings.Cut(objKey(o), ":")
				c.Check(err == nil && got == want, "%s decodes to %s, %v; want %s", body, objKey(o), err, want)
				if k > 0 && (i%4 == 0 || c.Thorough()) {
					have, h, err := c16Ask(k-1, body)
					c.Step()
					c.Check(have && h == "TOK" && err == nil, "%s query answered with %s: object %v, %v", want, body, have, err)
				}
			}
		}
		c.State("member", m)
	}
}

// hasNumber reports whether the decimal number n stands by itself in t.
func hasNumber(t string, n int) bool {
	s := fmt.Sprint(n)
	for i := 0; i+len(s) <= len(t); i++ {
		if t[i:i+len(s)] != s {
			continue
		}
		dig := func(k int) bool { return k >= 0 && k < len(t) && (t[k] >= '0' && t[k] <= '9' || t[k] == 'x') }
		if !dig(i-1) && !dig(i+len(s)) {
			return true
		}
	}
	return false
}
