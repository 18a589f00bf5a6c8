package main

import (
	"bytes"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// sweep takes a body through everything a user does with a response: a query, decoding, printing
// with every option combination, WHOIS conversion and the inspection methods.
func c30Body(c *Ctx, body []byte, all bool) {
	keep := append([]byte(nil), body...)
	o, err := rdap.NewDecoder(body).Decode()
	c.Step()
	c.Check(bytes.Equal(body, keep), "decoding changed the caller's bytes")
	c.Check((o == nil) == (err != nil), "decoding gives %T together with the error %v", o, err)
	if err != nil {
		c.Check(err.Error() != "", "empty error text")
		return
	}
	combos := []int{0, 15}
	if all {
		combos = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	}
	for _, k := range combos {
		var buf bytes.Buffer
		p := &rdap.Printer{Writer: &buf, OmitNotices: k&1 > 0, OmitRemarks: k&2 > 0, BriefOutput: k&4 > 0, BriefLinks: k&8 > 0}
		p.Print(o)
		out := buf.Bytes()
		c.Check(len(out) > 0 && out[len(out)-1] == '\n', "options %d: output does not end with a line: %q", k, clip(string(out), 300))
		c.Check(!bytes.ContainsAny(out, "\r\x00"), "options %d: output has control characters", k)
		for _, l := range bytes.Split(out[:len(out)-1], []byte("\n")) {
			c.Check(bytes.Contains(l, []byte(":")), "options %d: output line %q is not a labelled one", k, l)
		}
		buf.Reset()
		p.Print(o)
		c.Check(bytes.Equal(out, buf.Bytes()) || buf.String() == string(out), "options %d: printing again gives other output", k)
	}
	w := (&rdap.Response{Object: o}).ToWhoisStyleResponse()
	c.Check(w != nil && len(w.KeyDisplayOrder) == len(w.Data), "WHOIS view: %d keys listed, %d present", len(w.KeyDisplayOrder), len(w.Data))
	for _, k := range w.KeyDisplayOrder {
		c.Check(len(w.Data[k]) > 0, "WHOIS view: no values under %q", k)
		for _, v := range w.Data[k] {
			c.Check(v != "", "WHOIS view: empty value under %q", k)
		}
	}
	c30Inspect(c, reflect.ValueOf(o), 0)
}

// c30Inspect calls the inspection methods of everything inside.
func c30Inspect(c *Ctx, v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || !v.CanInterface() {
			return
		}
		switch t := v.Interface().(type) {
		case *rdap.DecodeData:
			_ = t.String()
			n := len(t.Fields())
			c.Check(len(t.UnknownFields()) <= n, "more unknown members than members")
			for _, f := range t.Fields() {
				t.Value(f)
				t.Notes(f)
			}
			return
		case *rdap.VCard:
			_ = t.String()
			for _, p := range t.Properties {
				c.Check(p != nil, "nil vCard property")
				_ = p.String()
				for _, s := range p.Values() {
					_ = s
				}
				c.Check(len(t.Get(p.Name)) > 0 && t.GetFirst(p.Name) != nil, "vCard property %q is not found by name", p.Name)
			}
			_ = t.Name() + t.POBox() + t.ExtendedAddress() + t.StreetAddress() + t.Locality() + t.Region() + t.PostalCode() + t.Country() + t.Tel() + t.Fax() + t.Email() + t.Org()
			return
		}
		c30Inspect(c, v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				c30Inspect(c, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c30Inspect(c, v.Index(i), depth+1)
		}
	case reflect.Interface:
		c30Inspect(c, v.Elem(), depth+1)
	}
}

// c30Query sends the body as the answer to each of the one-call queries and a search.
func c30Query(c *Ctx, body string) {
	docs := map[string]string{"dns.json": verDoc("dns.json", 1), "ipv4.json": verDoc("ipv4.json", 1), "asn.json": verDoc("asn.json", 1)}
	cl := &rdap.Client{Bootstrap: &bootstrap.Client{HTTP: httpClient(func(r *http.Request) (*http.Response, error) { return bsServe(r, docs) })}}
	cl.HTTP = httpClient(func(r *http.Request) (*http.Response, error) {
		return httpResp(r, 200, "application/rdap+json", body), nil
	})
	d, err := cl.QueryDomain("x.test")
	c.Check((d == nil) == (err != nil), "QueryDomain gives %v, %v", d, err)
	n, err := cl.QueryIP("10.1.2.3")
	c.Check((n == nil) == (err != nil), "QueryIP gives %v, %v", n, err)
	a, err := cl.QueryAutnum("AS50")
	c.Check((a == nil) == (err != nil), "QueryAutnum gives %v, %v", a, err)
	if err != nil {
		_ = err.Error()
	}
	c.Step()
}

func nest(open, inner, close string, n int) string {
	return strings.Repeat(open, n) + inner + strings.Repeat(close, n)
}

func init() {
	subst := []byte{'{', '}', '[', ']', '"', ',', ':', '0', '-', 'n', '\\', ' ', 0, 0xff, 0xc3, 'e'}
	// every JSON value of up to a few nodes
	var trees []string
	var paths []objPath
	var samples []string
	deep := []int{1, 2, 3, 4, 10, 100, 1000, 9990, 10001}
	register(&Check{
		ID:   "C30",
		Rule: "(a) every JSON tree of up to three levels from a small alphabet as the whole body; (b) for every path to an object (depth bound), every member given every value of a list; (c) every truncation, every deletion and every replacement of one byte of sample bodies by each byte of a list; (d) nesting of arrays, objects, entities and vCard values to several depths up to 10,001; (f) contacts whose vCard properties have every combination of name, parameters and value shape; (e) arrays of up to 5,000 elements and members with hostile names. Every body goes through decoding, printing with every option combination, WHOIS conversion, all inspection methods and the one-call queries",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"trees": len(trees), "paths": len(paths), "values": len(anyValues), "replacement_bytes": len(subst), "sample_bodies": len(samples), "nesting": deep}
		},
		Setup: func(c *Ctx) {
			leaves := []string{"null", "true", "1", `"a"`, "[]", "{}", `"vcard"`, `"domain"`, "1e308"}
			names := []string{"objectClassName", "handle", "entities", "vcardArray", "errorCode", "notices", "x", "", "secureDNS", "network", "domainSearchResults"}
			level := leaves
			for l := 0; l < 2; l++ {
				var next []string
				next = append(next, leaves...)
				for _, v := range level {
					next = append(next, "["+v+"]", "["+v+",null]", `["vcard",[`+v+`]]`)
					for _, n := range names {
						next = append(next, fmt.Sprintf(`{%q:%s}`, n, v))
						if l == 1 {
							next = append(next, fmt.Sprintf(`{"objectClassName":"domain",%q:%s}`, n, v), fmt.Sprintf(`{"objectClassName":"entity",%q:%s}`, n, v))
						}
					}
				}
				level = next
			}
			trees = level
			paths = objPaths(Pick(c, 2, 3))
			for i := range rootTypes {
				samples = append(samples, fullRoot(i, 0, 1))
			}
			samples = append(samples, `{"objectClassName":"domain","handle":"é\u00e9\ud83d\ude00","entities":[{"roles":["registrar"],"vcardArray":["vcard",[["fn",{"type":["a","b"]},"text","N"],["adr",{},"text",["","",["s1","s2"],"l","r","p","c"]],["tel",{"type":"fax"},"uri","tel:1"]]]}],"secureDNS":{"dsData":[{"keyTag":1.5}]}}`, ` `, `{}`, `[]`, `null`, "\xef\xbb\xbf{}")
		},
		Run: func(c *Ctx) {
			switch c.Choose("mode", 6) {
			case 0:
				i := c.Choose("block", 64)
				c.Shard()
				for k := i; k < len(trees); k += 64 {
					c.Note("%s", trees[k])
					c30Body(c, []byte(trees[k]), true)
					if k%7 == 0 {
						c30Query(c, trees[k])
					}
					c.notes = c.notes[:0]
				}
				c.State("trees", i)
			case 1:
				p := Of(c, "path", paths)
				t := p.target()
				mi := c.Choose("member", len(t.members)+1)
				c.Shard()
				name := "x_\x01ext"
				if mi < len(t.members) {
					name = t.members[mi].json
				}
				for _, v := range anyValues {
					ms := setKV(goodKV(t, "t", 0), name, v)
					if len(p.steps) == 0 && name != "objectClassName" {
						ms = p.discriminate(ms, name)
					}
					body := p.wrap(render(ms, false), false, false)
					c.Note("%s", clip(body, 1000))
					c30Body(c, []byte(body), len(p.steps) < 2)
					if len(p.steps) == 0 {
						c30Query(c, body)
					}
					c.notes = c.notes[:0]
				}
				c.State(p.String(), name)
			case 2:
				si := c.Choose("sample", len(samples))
				s := samples[si]
				op := c.Choose("op", 2+len(subst))
				c.Shard()
				for i := 0; i < len(s); i++ {
					var b []byte
					switch op {
					case 0:
						b = []byte(s[:i])
					case 1:
						b = append([]byte(s[:i]), s[i+1:]...)
					default:
						b = []byte(s)
						b[i] = subst[op-2]
					}
					c.Note("%s", clip(string(b), 2000))
					c30Body(c, b, false)
					c.notes = c.notes[:0]
				}
				c.State(si, op)
			case 3:
				n := Of(c, "nesting", deep)
				c.Shard()
				bodies := []string{
					nest("[", "1", "]", n), nest(`{"x":`, "1", "}", n), `{"objectClassName":"domain","x":` + nest("[", `"v"`, "]", n) + `}`, `{"objectClassName":"domain","x":` + nest(`{"y":`, `"v"`, "}", n) + `}`,
					nest(`{"objectClassName":"entity","handle":"h","entities":[`, `{"handle":"i"}`, "]}", n), nest(`{"objectClassName":"entity","networks":[{"handle":"n","entities":[`, `{"handle":"i"}`, "]}]}", n),
					`{"objectClassName":"entity","vcardArray":["vcard",[["adr",{},"text",` + nest("[", `"v"`, "]", n) + `]]]}`, `{"objectClassName":"entity","vcardArray":` + nest("[", `"v"`, "]", n) + `}`,
					`{"objectClassName":"domain","status":` + nest("[", `"v"`, "]", n) + `}`, `{"objectClassName":"domain","secureDNS":` + nest(`{"dsData":`, `1`, "}", n) + `}`,
				}
				k := c.Choose("body", len(bodies))
				c.Note("nesting %d of body %d", n, k)
				c30Body(c, []byte(bodies[k]), n <= 100)
				c30Query(c, bodies[k])
				c.State("deep", n, k)
			case 5:
				// a contact's vCard properties in every shape
				name := Of(c, "property", []string{"fn", "adr", "tel", "email", "org", "n", "x"})
				par := Of(c, "parameters", []string{`{}`, `{"type":"fax"}`, `{"type":"voice"}`, `{"type":["fax","voice"]}`, `{"type":[]}`, `{"type":null}`, `{"type":{}}`, `{"label":5}`, `[]`})
				c.Shard()
				vals := []string{"[]", "[[]]", "[[],[]]", "null", "[null]", `""`, `[""]`, "5", "true", "{}", "[{}]", `"v"`, `["v"]`, `[["v"]]`, `[[["v"]]]`, `[[[["v"]]]]`, `["a","b","c","d","e","f","g","h"]`, `[["a","b"],[],null,5,true,[["x"]],"g"]`}
				for _, v := range vals {
					for _, more := range []string{"", ",[]", ",null", `,"w"`} {
						prop := fmt.Sprintf(`[%q,%s,"text",%s%s]`, name, par, v, more)
						for _, pre := range []string{"", prop + ",", `["fn",{},"text","N"],`, `["tel",{"type":"fax"},"uri","f"],`} {
							var es []string
							for _, r := range []string{"registrar", "registrant", "administrative", "technical", "abuse"} {
								es = append(es, fmt.Sprintf(`{"roles":[%q],"vcardArray":["vcard",[%s%s]]}`, r, pre, prop))
							}
							body := `{"objectClassName":"domain","entities":[` + strings.Join(es, ",") + `]}`
							c.Note("%s", body)
							c30Body(c, []byte(body), false)
							c.notes = c.notes[:0]
						}
					}
				}
				c.State("vcard", name, par)
			case 4:
				n := Of(c, "elements", []int{0, 1, 2, 3, 10, 64, 65, 1000, 5000})
				c.Shard()
				el := Of(c, "element", []string{`"s"`, "1", "null", `{"handle":"h"}`, `["a"]`, `{}`, `"%s %n %!d(MISSING) %%"`})
				mem := Of(c, "member", []string{"status", "entities", "notices", "nameservers", "x_unknown", "vcardArray", "publicIds", "%s%d", "events", "links"})
				body := fmt.Sprintf(`{"objectClassName":"domain","handle":"%%!s(h)",%q:[%s]}`, mem, strings.TrimSuffix(strings.Repeat(el+",", n), ","))
				c.Note("%d elements %s of %q", n, el, mem)
				c30Body(c, []byte(body), n <= 64)
				c30Query(c, body)
				c.State("wide", n, el, mem)
			}
		},
	})
	_ = utf8.RuneError
}
