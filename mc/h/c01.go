package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
)

type asnIv struct{ lo, hi uint64 }

// intervals enumerates all sets of up to maxN disjoint intervals with endpoints among pts.
func intervalSets(pts []uint64, maxN int) [][]asnIv {
	var out [][]asnIv
	var rec func(i int, cur []asnIv)
	rec = func(i int, cur []asnIv) {
		out = append(out, append([]asnIv{}, cur...))
		if len(cur) == maxN {
			return
		}
		for a := i; a < len(pts); a++ {
			for b := a; b < len(pts); b++ {
				rec(b+1, append(cur, asnIv{pts[a], pts[b]}))
			}
		}
	}
	rec(0, nil)
	return out
}

var c01Junk = []string{"abc", "1-2-3", "", "-5", "5-", "4294967296", "1-4294967296", "1.5", "0x1", " 5-9", "5-9 ", "2 - 3", "\t4", "4\n", "+4", "1_0", "0-4294967295x", "1,2", "2:9"}
var c01Bad = []string{"", "AS", "x", "4294967296", "AS4294967296", "-1", "AS-1", "1.0", "1-2", "AS1-AS2", "AS 1", "99999999999999999999", "1a", "0x10", "SA1", "SAS1", "AASS1", "ASAS1", "S1", "A1", "１", "18446744073709551617", " 1", "1 ", "AS1 ", " AS1", "AS\t1", "1\n", "+1", "1_0", "AS+1", "1e1", "0b1", "AS0x1", "as", "aS", "1AS", "AS1.0", "ASN1", "asn1", "ASN 1", "N1", "AS#1", "AS:1", "AS.1", "AS_1", "#1", "(1)", "1,", "1,000", "AS1/32", "AS1-", "1-", "AS1AS2", "1.10", "AS0.1", "0.1", "AS1*", "*1", "as#1", "AS\u00a01", "AŚ1", "ªs1", "1;", "AS1\x00", "\x001", "ASN", "AS1 # x", "AS12AS"}

func init() {
	pointSets := func(c *Ctx) [][]uint64 {
		return Pick(c, [][]uint64{{0, 1, 9, 10, 100, 65535, 65536, 4294967295}, {2, 3, 4, 5, 4294967294, 4294967295}},
			[][]uint64{{0, 1, 9, 10, 100, 65535, 65536, 4294967294, 4294967295}, {2, 3, 4, 5, 6, 7, 8, 9}, {0, 99, 100, 999, 1000, 2147483647, 2147483648, 4294967295}})
	}
	var sets [][][]asnIv
	register(&Check{
		ID:   "C01",
		Rule: "all sets of disjoint AS ranges with endpoints among the given points x document order x grouping into services x spelling of ranges x junk entries x map rotation; every endpoint +-1 looked up in three spellings, plus malformed texts; large documents: every number of ranges up to a bound and around powers of two x 5 layouts x order x grouping, both ends and middle of every range and the gaps next to it; sweeps: every AS number up to 2^17 and 600 around powers of ten and two and reserved numbers (thorough: all 2^32 against one document) against four documents",
		Setup: func(c *Ctx) {
			for _, p := range pointSets(c) {
				sets = append(sets, intervalSets(p, Pick(c, 4, 6)))
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"points": pointSets(c), "max_ranges": Pick(c, 4, 6), "large_sizes": docSizes(Pick(c, 40, 200), Pick(c, 1024, 4096)), "rotations": 8, "permutations": Pick(c, "all of <=3 ranges, 4 ranges: rotations of order", "all of <=4 ranges")}
		},
		Run: func(c *Ctx) {
			switch c.Choose("mode", 3) {
			case 1:
				scaleASN(c)
				return
			case 2:
				sweepASN(c)
				return
			}
			pi := c.Choose("points", len(sets))
			ivs := Of(c, "ranges", sets[pi])
			c.Shard()
			n := len(ivs)
			order := make([]int, n)
			if n <= Pick(c, 3, 4) {
				copy(order, Of(c, "order", permsOf(n)))
			} else {
				r := c.Choose("order-rot", n)
				rev := c.Bool("order-rev")
				for i := range order {
					order[i] = (i + r) % n
					if rev {
						order[i] = (n - 1 - i + r) % n
					}
				}
			}
			shape := c.Choose("shape", 5) // 0: one service each; 1: all in one; 2: reversed spelling; 3: junk mixed in; 4: many other ranges
			rotN := 8
			if n < 2 {
				rotN = 1
			}
			rotate(c.Choose("rotation", rotN))
			text := func(iv asnIv, rev bool) string {
				if iv.lo == iv.hi {
					if rev {
						return fmt.Sprintf("%d-%d", iv.lo, iv.hi)
					}
					return fmt.Sprintf("%d", iv.lo)
				}
				if rev {
					return fmt.Sprintf("%d-%d", iv.hi, iv.lo)
				}
				return fmt.Sprintf("%d-%d", iv.lo, iv.hi)
			}
			owner := make([]int, n) // service index of range i
			var svcs []svc
			if shape == 1 {
				s := svc{urls: urlsFor(1)}
				for k, i := range order {
					s.entries = append(s.entries, text(ivs[i], k%2 == 1))
					owner[i] = 0
				}
				svcs = append(svcs, s)
			} else {
				for k, i := range order {
					s := svc{entries: []string{text(ivs[i], shape == 2)}, urls: urlsFor(i)}
					if shape == 3 {
						s.entries = append(s.entries, c01Junk[(k*5)%len(c01Junk)], c01Junk[(k*5+1)%len(c01Junk)])
					}
					owner[i] = len(svcs)
					svcs = append(svcs, s)
				}
			}
			if shape == 3 {
				svcs = append(svcs, svc{entries: c01Junk, urls: []string{"https://junk.example/"}})
			}
			if shape == 4 {
				for k := 0; k < 33; k++ {
					lo := uint64(200000 + 1000*((k*17)%33))
					svcs = append(svcs, svc{entries: []string{fmt.Sprintf("%d-%d", lo, lo+10)}, urls: []string{fmt.Sprintf("https://fill%d.example/", k)}})
				}
			}
			doc := regDoc(svcs, false)
			c.Note("doc %s", doc)
			r, err := bootstrap.NewASNRegistry(doc)
			c.Check(err == nil && r != nil, "NewASNRegistry rejects a valid document: %v", err)
			seen := map[uint64]bool{}
			var qs []uint64
			add := func(v uint64) {
				if v <= 4294967295 && !seen[v] {
					seen[v] = true
					qs = append(qs, v)
				}
			}
			for _, p := range pointSets(c)[pi] {
				add(p)
				add(p + 1)
				if p > 0 {
					add(p - 1)
				}
			}
			if shape == 4 {
				for i := range ivs {
					if ivs[i].lo < 200000 && ivs[i].hi > 200000 {
						return // overlaps the filler
					}
				}
			}
			for _, v := range qs {
				want := -1
				for i, iv := range ivs {
					if v >= iv.lo && v <= iv.hi {
						want = i
					}
				}
				for _, sp := range []string{"%d", "AS%d", "as%d"} {
					query := fmt.Sprintf(sp, v)
					a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: query})
					c.Step()
					c.Check(err == nil && a != nil, "lookup %s: error %v", query, err)
					c.Check(a.Query == strconv.FormatUint(v, 10), "lookup %s: Answer.Query is %q", query, a.Query)
					if want < 0 {
						c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %s: no range contains it, got entry %q urls %v\ndocument %s", query, a.Entry, urlStrings(a.URLs), doc)
					} else {
						lo, hi, ok := parseEntry(a.Entry)
						c.Check(ok && lo == ivs[want].lo && hi == ivs[want].hi, "lookup %s: entry %q, the range containing it is %v\ndocument %s", query, a.Entry, ivs[want], doc)
						c.Check(eqStrings(urlStrings(a.URLs), svcs[owner[want]].urls), "lookup %s: urls %v, want %v\ndocument %s", query, urlStrings(a.URLs), svcs[owner[want]].urls, doc)
					}
				}
				c.State("q", fmt.Sprint(ivs), v, want)
			}
			for _, b := range c01Bad {
				a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: b})
				c.Step()
				c.Check(err != nil && a == nil, "lookup of %q, which is not an AS number, answers %+v", b, a)
			}
		},
	})
}

func parseEntry(s string) (lo, hi uint64, ok bool) {
	p := strings.Split(s, "-")
	for i := range p {
		p[i] = strings.TrimPrefix(p[i], "AS")
	}
	var err error
	if lo, err = strconv.ParseUint(p[0], 10, 64); err != nil {
		return
	}
	hi = lo
	if len(p) == 2 {
		if hi, err = strconv.ParseUint(p[1], 10, 64); err != nil {
			return
		}
	}
	return lo, hi, len(p) <= 2
}
