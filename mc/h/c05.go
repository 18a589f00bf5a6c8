package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
)

// Fragments of registry documents, as JSON text.
var c05Entries = []string{`["a"]`, `["b","c"]`, `[]`, `["a","a"]`, `["10.0.0.0/8"]`, `["",".","A"]`}

// Contacts of an object-tag triple.
var c05Contacts = []string{`["c@example.com"]`, `[]`, `["",""]`, `["x","y@z","not an address"]`}
var c05URLs = []string{`["https://a.example/"]`, `["http://b.example/x","https://c.example"]`, `[]`, `["://bad","https://ok.example/"]`, `["://bad"]`, `["https://d.example/%zz","https://[::1/"]`, `["","https://e.example/?q=1#f"]`}

// Services that are not an entries/URLs pair nor an object-tag triple.
var c05BadSvc = []string{`[]`, `[["a"]]`, `[["c"],["a"],["https://a.example/"],["x"]]`, `[["a"],["https://a.example/"],["x"],["y"],["z"]]`, `"str"`, `5`, `true`, `{"a":1}`, `[["a"],"https://a.example/"]`, `["a",["https://a.example/"]]`, `[["a"],[5]]`, `[[1],["https://a.example/"]]`, `[["a"],["https://a.example/"],5]`, `[[["a"]],["https://a.example/"]]`, `[["a"],{"u":"https://a.example/"}]`}
var c05Mid = []string{``, `"services":`}
var c05Docs = []string{``, ` `, `null x`, `[]`, `"x"`, `5`, `true`, `{`, `{}}`, `{"services":}`, `{"services":[]`, `{"services":{}}`, `{"services":"x"}`, `{"services":5}`, `{"services":true}`, `{"description":5,"services":[]}`, `{"publication":[],"services":[]}`, `{"version":1.0,"services":[]}`, `{'services':[]}`, "{\"services\":[]}\x00", `{"services":[]} {}`, "\xef\xbb\xbf{\"services\":[]}", "\ufeff" + `{"services":[[["a"],["https://a.example/"]]]}`, "\xff\xfe{\"services\":[]}", "\u00a0{\"services\":[]}", "//c\n{\"services\":[]}", `{services:[]}`, `{"services":[],}`, `{"services":[[["a"],["https://a.example/"],]]}`, `)]}'{"services":[]}`, `{"services":NaN}`, `{"services":undefined}`, "{\"services\":[],\"x\":\"a\nb\"}", "{\"services\":[],\"x\":\"a\tb\"}", `{"services":[],"x":"\q"}`, `{"services":[],"x":01}`, `{"services":[],"x":+1}`, `{"services":[],"x":.5}`, `{"services":[],"x":0x1}`, `{"services":[[["a"],["https://a.example/"]],]}`}

// Accepted documents which have no services.
var c05Empty = []string{`{}`, `{"services":[]}`, ` {"services":[]} `, "{\"services\":[]}\n", `{"services":null}`, `{"description":"x"}`, `{"services":[],"other":[1,{"a":null}]}`}

type c05Ref struct {
	entries map[string][]string
	reject  bool
}

// c05Interp is the reference reader, over the generic JSON value.
func c05Interp(doc []byte) (out c05Ref, d, p, v string) {
	out.entries = map[string][]string{}
	var g map[string]any
	dec := json.NewDecoder(bytes.NewReader(doc))
	if err := dec.Decode(&g); err != nil {
		out.reject = true
		return
	}
	if _, err := dec.Token(); err == nil || err.Error() != "EOF" {
		out.reject = true
		return
	}
	str := func(k string) string {
		switch t := g[k].(type) {
		case nil:
			return ""
		case string:
			return t
		default:
			out.reject = true
			return ""
		}
	}
	d, p, v = str("description"), str("publication"), str("version")
	var svcs []any
	switch t := g["services"].(type) {
	case nil:
	case []any:
		svcs = t
	default:
		out.reject = true
		return
	}
	strs := func(x any) []string {
		l, ok := x.([]any)
		if !ok {
			out.reject = true
			return nil
		}
		var o []string
		for _, e := range l {
			s, ok := e.(string)
			if !ok {
				out.reject = true
				return nil
			}
			o = append(o, s)
		}
		return o
	}
	for _, s := range svcs {
		l, ok := s.([]any)
		if !ok || (len(l) != 2 && len(l) != 3) {
			out.reject = true
			return
		}
		if len(l) == 3 {
			strs(l[0])
			l = l[1:]
		}
		es, us := strs(l[0]), strs(l[1])
		var good []string
		for _, u := range us {
			if pu, err := url.Parse(u); err == nil {
				good = append(good, pu.String())
			}
		}
		if len(good) > 0 {
			for _, e := range es {
				out.entries[e] = good
			}
		}
	}
	return
}

// c05Contents makes valid documents with unusual texts as entries, URLs and header fields, and large ones.
func c05Contents(c *Ctx) string {
	hdr := `"description":"d","publication":"p","version":"v"`
	arr := func(ts []string) string {
		var o []string
		for _, t := range ts {
			o = append(o, jq(t))
		}
		return "[" + strings.Join(o, ",") + "]"
	}
	texts := append(append([]string{}, textZoo...), longTexts(Pick(c, 512, 16384))...)
	switch c.Choose("what", 6) {
	case 0: // one entry of that text, beside another
		t := Of(c, "text", texts)
		c.Shard()
		return `{` + hdr + `,"services":[[` + arr([]string{"other", t}) + `,["https://a.example/"]],[` + arr([]string{"last"}) + `,["https://b.example/","http://b.example/"]]]}`
	case 1: // a URL of that text, with others around it
		t := Of(c, "text", texts)
		c.Shard()
		t = []string{"", "https://h.example/", "https://h.example/?q=", "https://", "http://u@h.example:80/#", "HTTP://H.Example"}[c.Choose("prefix", 6)] + t
		return `{` + hdr + `,"services":[[["e","f"],` + arr([]string{"https://first.example/", t, "https://first.example/", t}) + `]]}`
	case 2: // header fields
		t := Of(c, "text", texts)
		c.Shard()
		return `{"publication":` + jq("p"+t) + `,"version":` + jq(t) + `,"description":` + jq(t+"d") + `,"services":[[["e"],["https://a.example/"]]]}`
	case 3: // every character, in entries
		ts := charTexts(Pick(c, 4096, 256), func(r rune) bool { return r == 0xfffd })
		k := c.Choose("characters", len(ts))
		c.Shard()
		return `{` + hdr + `,"services":[[` + arr([]string{ts[k]}) + `,` + arr([]string{"https://a.example/?q=" + url.QueryEscape(ts[k])}) + `]]}`
	case 4: // many services
		n := Of(c, "size", docSizes(Pick(c, 20, 100), Pick(c, 4096, 32768)))
		c.Shard()
		triple := c.Bool("triples")
		var ss []string
		for i := 0; i < n; i++ {
			s := arr([]string{fmt.Sprintf("e%d", i), fmt.Sprintf("f%d", i)}) + "," + arr(urlsFor(i))
			if i%5 == 3 {
				s = arr([]string{fmt.Sprintf("e%d", i)}) + "," + arr([]string{"://bad", "https://[::1/"})
			}
			if triple {
				s = `["c@example.com"],` + s
			}
			ss = append(ss, "["+s+"]")
		}
		return `{` + hdr + `,"services":[` + strings.Join(ss, ",") + `]}`
	default: // one service of many entries and URLs
		n := Of(c, "size", docSizes(Pick(c, 20, 100), Pick(c, 4096, 32768)))
		c.Shard()
		var es, us []string
		for i := 0; i < n; i++ {
			es = append(es, fmt.Sprintf("%d.entry", i))
			if i%2 == 0 {
				us = append(us, fmt.Sprintf("https://s%d.example/%d", i%7, i))
			} else {
				us = append(us, fmt.Sprintf("://bad%d", i))
			}
		}
		return `{` + hdr + `,"services":[[["x"],["https://x.example/"]],[` + arr(es) + `,` + arr(us) + `],[["y"],["https://y.example/"]]]}`
	}
}

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "all documents of up to N services drawn from a grammar of entry lists, URL lists (incl. unparsable URLs), pairs/triples and malformed services at every position, header fields present/absent/empty, member order and whitespace; every proper prefix of a document; a list of documents that are not registry objects; valid documents with unusual texts (incl. every Unicode character) as entries, URLs and header fields; large documents; each loaded by NewFile and by every registry constructor",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"services": Pick(c, 2, 3), "entry_lists": len(c05Entries), "url_lists": len(c05URLs), "malformed_services": len(c05BadSvc), "texts": len(textZoo), "large_sizes": docSizes(Pick(c, 20, 100), Pick(c, 4096, 32768)), "whole_documents": len(c05Docs) + len(c05Empty)}
		},
		Run: func(c *Ctx) {
			var doc string
			knownReject := -1 // -1 by reference reader only
			switch c.Choose("kind", 4) {
			case 3:
				doc = c05Contents(c)
				knownReject = 0
			case 0:
				doc = Of(c, "doc", c05Docs)
				knownReject = 1
				c.Shard()
			case 1:
				doc = Of(c, "doc", c05Empty)
				knownReject = 0
				c.Shard()
			case 2:
				n := c.Choose("services", Pick(c, 2, 3)+1)
				var ss []string
				knownReject = 0
				for i := 0; i < n; i++ {
					if c.Choose("malformed", 2) == 1 {
						ss = append(ss, Of(c, "badsvc", c05BadSvc))
						knownReject = 1
					} else {
						e := Of(c, "entries", c05Entries)
						u := Of(c, "urls", c05URLs)
						if t := c.Choose("triple", 1+len(c05Contacts)); t > 0 {
							ss = append(ss, fmt.Sprintf(`[%s,%s,%s]`, c05Contacts[t-1], e, u))
						} else {
							ss = append(ss, fmt.Sprintf(`[%s,%s]`, e, u))
						}
					}
					if i == 0 {
						c.Shard()
					}
				}
				if n == 0 {
					c.Shard()
				}
				if knownReject == 0 || c.Thorough() {
					switch c.Choose("header", 3) {
					case 0:
						doc = `{"description":"A \"b\" ü","publication":"2019-01-01T00:00:00Z","version":"1.0","services":[` + strings.Join(ss, ",") + `]}`
					case 1:
						doc = "{\n \"services\" : [ " + strings.Join(ss, " ,\n ") + " ] ,\n \"version\" : \"\" , \"x\":{\"services\":[1]} }\n"
					case 2:
						doc = `{"services":[` + strings.Join(ss, ",") + `],"description":null,"publication":"p"}`
					}
				} else {
					doc = `{"description":"d","services":[` + strings.Join(ss, ",") + `]}`
				}
			}
			cut := false
			if len(doc) < 4000 && knownReject == 0 && c.Bool("truncate") {
				// every proper prefix that loses more than trailing space
				full := strings.TrimRight(doc, " \n")
				if strings.HasPrefix(full, "{") && (c.Thorough() || len(full) < 220) {
					cut = true
					for i := 0; i < len(full); i++ {
						f, err := bootstrap.NewFile([]byte(full[:i]))
						c.Step()
						c.Check(err != nil && f == nil, "truncated document accepted: %q", full[:i])
						if i%7 == 0 {
							r, err := bootstrap.NewDNSRegistry([]byte(full[:i]))
							c.Check(err != nil && r == nil, "truncated document accepted as registry: %q", full[:i])
						}
					}
				}
			}
			if cut {
				c.State("cut", doc)
				return
			}
			if len(doc) < 4000 {
				c.Note("doc %q", doc)
			}
			orig := []byte(doc)
			in := append([]byte{}, orig...)
			ref, d, p, v := c05Interp(orig)
			if knownReject >= 0 && (knownReject == 1) != ref.reject {
				harnessf("reference reader disagrees with the grammar on %q", doc)
			}
			rotate(c.Choose("rotation", 2) * 4)
			f, err := bootstrap.NewFile(in)
			c.Step()
			c.Check(bytes.Equal(in, orig), "NewFile changed its input")
			if ref.reject {
				c.Check(err != nil && f == nil, "malformed document accepted: %q -> %+v", doc, f)
			} else {
				c.Check(err == nil && f != nil, "valid document rejected: %q: %v", doc, err)
				c.Check(f.Description == d && f.Publication == p && f.Version == v, "header fields of %q: %q %q %q", doc, f.Description, f.Publication, f.Version)
				c.Check(bytes.Equal(f.JSON, orig), "raw document not preserved")
				got := map[string][]string{}
				for k, us := range f.Entries {
					got[k] = urlStrings(us)
				}
				c.Check(len(got) == len(ref.entries), "entries of %q: %v, want %v", doc, got, ref.entries)
				for k, us := range ref.entries {
					c.Check(eqStrings(got[k], us), "entry %q of %q: %v, want %v", k, doc, got[k], us)
				}
			}
			// every registry constructor agrees
			mk := []func([]byte) (bootstrap.Registry, error){
				func(b []byte) (bootstrap.Registry, error) {
					r, e := bootstrap.NewASNRegistry(b)
					if r == nil {
						return nil, e
					}
					return r, e
				},
				func(b []byte) (bootstrap.Registry, error) {
					r, e := bootstrap.NewDNSRegistry(b)
					if r == nil {
						return nil, e
					}
					return r, e
				},
				func(b []byte) (bootstrap.Registry, error) {
					r, e := bootstrap.NewNetRegistry(b, 4)
					if r == nil {
						return nil, e
					}
					return r, e
				},
				func(b []byte) (bootstrap.Registry, error) {
					r, e := bootstrap.NewNetRegistry(b, 6)
					if r == nil {
						return nil, e
					}
					return r, e
				},
				func(b []byte) (bootstrap.Registry, error) {
					r, e := bootstrap.NewServiceProviderRegistry(b)
					if r == nil {
						return nil, e
					}
					return r, e
				},
			}
			for i, m := range mk {
				r, err := m(append([]byte{}, orig...))
				c.Step()
				c.Check((err != nil) == ref.reject && (r == nil) == ref.reject, "registry constructor %d on %q: %v", i, doc, err)
				if r != nil {
					c.Check(bytes.Equal(r.File().JSON, orig) && len(r.File().Entries) == len(ref.entries), "registry constructor %d: File() differs", i)
				}
			}
			var ks []string
			for k, u := range ref.entries {
				ks = append(ks, k+fmt.Sprint(u))
			}
			sort.Strings(ks)
			c.State(ref.reject, strings.Join(ks, ";"), d, p, v)
		},
	})
}
