package main

import (
	"fmt"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
)

// names of 1..max labels over the alphabet.
func labelNames(alpha []string, max int) []string {
	var out []string
	cur := []string{""}
	for l := 1; l <= max; l++ {
		var next []string
		for _, c := range cur {
			for _, a := range alpha {
				n := a
				if c != "" {
					n = a + "." + c
				}
				next = append(next, n)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

// long names (reverse DNS and the like): the registry lists any one or two of the name's own suffixes, or
// near misses of them, and the name is looked up with each number of labels.
func deepNames(c *Ctx) {
	max := Of(c, "labels", Pick(c, []int{6, 34, 300}, []int{6, 12, 34, 127, 300, 1100}))
	style := c.Choose("style", 4)
	var labels []string
	for i := 0; i < max; i++ {
		switch style {
		case 0:
			labels = append(labels, string(rune('0'+i%10)))
		case 1:
			labels = append(labels, fmt.Sprintf("l%d-%d", i, max-i))
		case 2:
			labels = append(labels, []string{"_x", "in-addr", "a"}[i%3])
		case 3:
			labels = append(labels, strings.Repeat("m", 1+(i*7)%63))
		}
	}
	if style == 3 && max > 34 {
		labels = labels[:60]
	}
	n := len(labels)
	suf := func(k int) string { return strings.Join(labels[k:], ".") } // k labels dropped
	c.Shard()
	var i, j int
	if n > 127 { // names no resolver accepts, but the registry must not mind
		at := []int{0, 1, n / 2, n - 130, n - 101, n - 2, n - 1, n}
		a := c.Choose("first", len(at))
		i = at[a]
		j = at[a+c.Choose("second", len(at)-a)]
	} else {
		i = c.Choose("first", n+1)
		j = i + c.Choose("second", n+1-i)
	}
	near := c.Bool("near-miss") // the entry one character short of / past a label boundary
	owner := map[string][]string{}
	var svcs []svc
	put := func(e string, u int) {
		if _, ok := owner[e]; !ok {
			owner[e] = urlsFor(u)
			svcs = append(svcs, svc{entries: []string{e}, urls: urlsFor(u)})
		}
	}
	put(suf(j), 0)
	put(suf(i), 1)
	if near {
		put("z"+suf(i), 2)
		if len(suf(i)) > 1 && suf(i)[1] != '.' {
			put(suf(i)[1:], 3)
		}
	}
	rotate(c.Choose("rotation", 2) * 3)
	doc := regDoc(svcs, false)
	r, err := bootstrap.NewDNSRegistry(doc)
	c.Check(err == nil && r != nil, "NewDNSRegistry rejects a valid document: %v", err)
	for k := 0; k <= n; k++ {
		best, found := "", false
		for d := k; d <= n && !found; d++ {
			if _, ok := owner[suf(d)]; ok {
				best, found = suf(d), true
			}
		}
		for _, q := range []string{suf(k), strings.ToUpper(suf(k)) + "."} {
			a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: q})
			c.Step()
			c.Check(err == nil && a != nil, "lookup %q: error %v", q, err)
			c.Check(a.Entry == best && (found || len(a.URLs) == 0), "lookup %q: entry %q urls %v, longest suffix is %q (found %v)\ndocument %s", q, a.Entry, urlStrings(a.URLs), best, found, doc)
			if found {
				c.Check(eqStrings(urlStrings(a.URLs), owner[best]), "lookup %q: urls %v, want %v\ndocument %s", q, urlStrings(a.URLs), owner[best], doc)
			}
		}
		c.State("deep", max, style, i, j, near, k, best, found)
	}
}

func init() {
	var entries []string
	var sets [][]int
	var queries []string
	alpha := []string{"a", "b", "ab", "xn--p1ai"}
	register(&Check{
		ID:   "C03",
		Rule: "all sets of entries over names of up to 3 labels (labels that are prefixes/suffixes of one another) and the root x document order x map rotation; all query names of up to 4 labels in three letter cases, with and without trailing dot; long names of up to 127 labels against every pair of their own suffixes (of 300 and 1100 labels: against pairs of eight suffixes); large documents and labels of unusual contents, each entry looked up bare, below, extended, cut short; sweeps: every label of one or two characters and the special-use names against four documents",
		Setup: func(c *Ctx) {
			entries = append([]string{""}, labelNames(alpha[:3], 2)...)
			entries = append(entries, "a.b.ab", "b.b.b", "ab.a.b", "xn--p1ai")
			sets = subsets(len(entries), Pick(c, 3, 4))
			queries = labelNames(alpha[:3], Pick(c, 4, 4))
			queries = append(queries, "xn--p1ai", "a.xn--p1ai", "p1ai", "xn--p1a", "a.b.xn--p1ai", "", "aa", "bab.ab", "ab.ab.ab.ab.ab.ab.a", "a.b..", "..", ".a", "a..b", "..a.b", "a.b.ab..")
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"entries": entries, "max_set": Pick(c, 3, 4), "queries": len(queries), "large_sizes": docSizes(Pick(c, 20, 100), Pick(c, 2048, 8192)), "label_texts": len(textZoo)}
		},
		Run: func(c *Ctx) {
			switch c.Choose("mode", 4) {
			case 1:
				deepNames(c)
				return
			case 2:
				scaleDNS(c)
				return
			case 3:
				sweepDNS(c)
				return
			}
			set := Of(c, "entries", sets)
			c.Shard()
			n := len(set)
			var order []int
			if n <= 3 {
				order = Of(c, "order", permsOf(n))
			} else {
				r := c.Choose("order-rot", n)
				for i := 0; i < n; i++ {
					order = append(order, (i+r)%n)
				}
			}
			shape := c.Choose("shape", 3) // separate services; one service; plus many unrelated
			rotate(c.Choose("rotation", Pick(c, 2, 8)) * 3)
			owner := map[string][]string{}
			var svcs []svc
			if shape == 1 {
				s := svc{urls: urlsFor(1)}
				for _, k := range order {
					s.entries = append(s.entries, entries[set[k]])
					owner[entries[set[k]]] = s.urls
				}
				svcs = append(svcs, s)
			} else {
				for _, k := range order {
					s := svc{entries: []string{entries[set[k]]}, urls: urlsFor(k)}
					svcs = append(svcs, s)
					owner[entries[set[k]]] = s.urls
				}
			}
			if shape == 2 {
				for k := 0; k < 20; k++ {
					svcs = append(svcs, svc{entries: []string{fmt.Sprintf("t%d", k)}, urls: []string{"https://other.example/"}})
				}
			}
			doc := regDoc(svcs, false)
			c.Note("doc %s", doc)
			r, err := bootstrap.NewDNSRegistry(doc)
			c.Check(err == nil && r != nil, "NewDNSRegistry rejects a valid document: %v", err)
			for _, name := range queries {
				// reference: longest suffix of whole labels
				labels := strings.Split(name, ".")
				best, found := "", false
				for i := 0; i <= len(labels) && !found; i++ {
					suf := strings.Join(labels[i:], ".")
					if _, ok := owner[suf]; ok {
						best, found = suf, true
					}
				}
				for v := 0; v < 6; v++ {
					qn := name
					switch v / 2 {
					case 1:
						qn = strings.ToUpper(name)
					case 2:
						if name != "" {
							qn = strings.ToUpper(name[:1]) + name[1:]
						}
					}
					if v%2 == 1 {
						qn += "."
					}
					a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: qn})
					c.Step()
					c.Check(err == nil && a != nil, "lookup %q: error %v", qn, err)
					if !found {
						c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %q: nothing matches, got entry %q urls %v\ndocument %s", qn, a.Entry, urlStrings(a.URLs), doc)
					} else {
						c.Check(a.Entry == best, "lookup %q: entry %q, longest suffix is %q\ndocument %s", qn, a.Entry, best, doc)
						c.Check(eqStrings(urlStrings(a.URLs), owner[best]), "lookup %q: urls %v, want %v\ndocument %s", qn, urlStrings(a.URLs), owner[best], doc)
					}
				}
				c.State(fmt.Sprint(set), name, best, found)
			}
		},
	})
}
