package main

import (
	"fmt"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
)

// words enumerates all strings of length 0..max over the alphabet.
func words(alpha []string, max int) []string {
	out := []string{""}
	cur := []string{""}
	for l := 1; l <= max; l++ {
		var next []string
		for _, w := range cur {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func init() {
	tags := []string{"A", "B", "AB", "BA", "AAB", "a", "VRSN", "", "A-B", "~A"}
	var handles []string
	var sets [][]int
	register(&Check{
		ID:   "C04",
		Rule: "all subsets of a set of tags that are suffixes/prefixes/case variants of one another x document order x map rotation; all handles up to the length bound over {A,B,a,-,~}; large documents, tags and handles of unusual contents; sweeps: every tag of one or two characters and the registered ones",
		Setup: func(c *Ctx) {
			handles = words([]string{"A", "B", "a", "-", "~"}, Pick(c, 5, 6))
			handles = append(handles, "12345-VRSN", "12345~VRSN", "1-2-VRSN", "1~2-VRSN", "1-2~VRSN", "12345-vrsn", "VRSN", "-VRSN", "12345-VRSN ", "x-VRSNx", "x-\u00c4", "12345-VRSN-", "12345-VRSN~", "-", "~")
			sets = subsets(len(tags), Pick(c, 3, 5))
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"tags": tags, "max_tags": Pick(c, 3, 5), "handles": len(handles), "max_handle_len": Pick(c, 5, 6), "large_sizes": docSizes(Pick(c, 20, 100), Pick(c, 2048, 8192)), "tag_texts": len(textZoo)}
		},
		Run: func(c *Ctx) {
			switch c.Choose("mode", 3) {
			case 1:
				scaleTags(c)
				return
			case 2:
				sweepTags(c)
				return
			}
			set := Of(c, "tags", sets)
			c.Shard()
			rev := c.Bool("reverse")
			one := c.Bool("one-service")
			triple := !c.Bool("pairs")
			rotate(c.Choose("rotation", 2) * 5)
			owner := map[string][]string{}
			var svcs []svc
			for i := range set {
				k := i
				if rev {
					k = len(set) - 1 - i
				}
				t := tags[set[k]]
				if one && len(svcs) > 0 {
					svcs[0].entries = append(svcs[0].entries, t)
				} else {
					svcs = append(svcs, svc{entries: []string{t}, urls: urlsFor(k)})
				}
				owner[t] = svcs[len(svcs)-1].urls
			}
			doc := regDoc(svcs, triple)
			c.Note("doc %s", doc)
			r, err := bootstrap.NewServiceProviderRegistry(doc)
			c.Check(err == nil && r != nil, "NewServiceProviderRegistry rejects a valid document: %v", err)
			for _, h := range handles {
				want := ""
				// (an empty tag is no tag, even if the registry lists one)
				if i := strings.LastIndexAny(h, "-~"); i >= 0 && i < len(h)-1 {
					if _, ok := owner[h[i+1:]]; ok {
						want = h[i+1:]
					}
				}
				a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ServiceProvider, Query: h})
				c.Step()
				c.Check(err == nil && a != nil, "lookup %q: error %v", h, err)
				c.Check(a.Entry == want, "lookup %q: entry %q, want %q\ndocument %s", h, a.Entry, want, doc)
				var urls []string
				if want != "" {
					urls = owner[want]
				}
				c.Check(eqStrings(urlStrings(a.URLs), append([]string{}, urls...)), "lookup %q: urls %v, want %v\ndocument %s", h, urlStrings(a.URLs), urls, doc)
				c.State(fmt.Sprint(set), want, len(h))
			}
		},
	})
}
