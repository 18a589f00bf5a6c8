package main

import (
	"fmt"
	"math/big"
	"net/netip"

	"github.com/openrdap/rdap/bootstrap"
)

// pfx is a network: the top bits of an address, as a big integer.
type pfx struct {
	ip   *big.Int
	bits int
}

func addrText(v int, ip *big.Int) string {
	n := v / 8
	b := ip.FillBytes(make([]byte, n))
	a, _ := netip.AddrFromSlice(b)
	return a.String()
}

func (p pfx) text(v int) string { return fmt.Sprintf("%s/%d", addrText(v, p.ip), p.bits) }

func (p pfx) contains(v int, q pfx) bool {
	if p.bits > q.bits {
		return false
	}
	sh := uint(v - p.bits)
	return new(big.Int).Rsh(p.ip, sh).Cmp(new(big.Int).Rsh(q.ip, sh)) == 0
}

func mkPfx(v int, s string) pfx {
	p := netip.MustParsePrefix(s)
	return pfx{new(big.Int).SetBytes(p.Addr().AsSlice()), p.Bits()}
}

var c02Fam = map[int][]string{
	32:  {"0.0.0.0/0", "0.0.0.0/1", "128.0.0.0/1", "10.0.0.0/8", "11.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "10.1.0.0/16", "10.1.2.0/24", "10.1.3.0/24", "10.1.2.3/32", "10.1.2.2/31", "255.255.255.255/32", "9.0.0.0/8"},
	128: {"::/0", "8000::/1", "2001::/16", "2001:db8::/32", "2001:db9::/32", "2001:db8::/33", "2001:db8:8000::/33", "2001:db8:1::/48", "2001:db8::/64", "2001:db8::1/128", "2001:db8::/127", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128", "2000::/3", "2001:db7::/32", "::ffff:0:0/96", "::ffff:10.1.2.3/128", "::/80"},
}

var c02Bad = map[int][]string{
	32:  {"", "x", "10.1.2", "10.1.2.3.4", "256.1.1.1", "10.1.2.3/33", "10.1.2.3/-1", "10.1.2.3/", "10.1.2.3/a", "/8", "2001:db8::", "2001:db8::/32", "::1", "10.1.2.3/8/9", "10.1.2.3 ", "10.1.2.03", "::ffff:10.1.2.3", "::ffff:10.1.2.3/128", "::ffff:a01:203/120"},
	128: {"", "x", "2001:db8", "2001:db8:::1", "2001:db8::/129", "2001:db8::/", "2001:db8::/x", "::/-1", "10.1.2.3", "10.0.0.0/8", "2001:db8::%eth0", "g::", "1:2:3:4:5:6:7:8:9", "2001:db8::/32/3"},
}

func subsets(n, maxK int) [][]int {
	var out [][]int
	for k := 0; k <= maxK; k++ {
		var rec func(i int, cur []int)
		rec = func(i int, cur []int) {
			if len(cur) == k {
				out = append(out, append([]int{}, cur...))
				return
			}
			for j := i; j < n; j++ {
				rec(j+1, append(cur, j))
			}
		}
		rec(0, nil)
	}
	return out
}

func init() {
	type fam struct {
		v       int
		nets    []pfx
		sets    [][]int
		queries []pfx
		qtext   []string
	}
	var fams []fam
	register(&Check{
		ID:   "C02",
		Rule: "all sets of networks from a nested/sibling family per address family x document order x grouping x junk/other-family entries x map rotation; every block of the family, both ends +-1 of every block and blocks one longer/shorter looked up; malformed texts; chains: networks of all prefix lengths along 5 addresses but two, only two, or all between two, with every block of the chain and its sibling looked up; large documents: numbers of networks up to a bound and around powers of two x 3 layouts x order x grouping; sweeps: every /16 (thorough: /20), every /14 against all /8, and every special-purpose block with its ends, halves and neighbours against four documents",
		Setup: func(c *Ctx) {
			for _, v := range []int{32, 128} {
				f := fam{v: v}
				for _, s := range c02Fam[v] {
					f.nets = append(f.nets, mkPfx(v, s))
				}
				f.sets = subsets(len(f.nets), Pick(c, 3, 4))
				f.sets = append(f.sets, []int{0, 3, 5, 7, 8, 10}, []int{10, 8, 7, 5, 3, 0, 1, 4}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, []int{13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0})
				seen := map[string]bool{}
				add := func(p pfx, host bool) {
					var t string
					if p.ip.Sign() < 0 || p.ip.BitLen() > v || p.bits < 0 || p.bits > v {
						return
					}
					if host {
						t = addrText(v, p.ip)
					} else {
						t = p.text(v)
					}
					if seen[t] {
						return
					}
					seen[t] = true
					f.queries = append(f.queries, p)
					f.qtext = append(f.qtext, t)
				}
				one := big.NewInt(1)
				for _, p := range f.nets {
					size := new(big.Int).Lsh(one, uint(v-p.bits))
					last := new(big.Int).Sub(new(big.Int).Add(p.ip, size), one)
					for _, a := range []*big.Int{p.ip, last, new(big.Int).Sub(p.ip, one), new(big.Int).Add(last, one), new(big.Int).Add(p.ip, one)} {
						add(pfx{a, v}, true)
						add(pfx{a, v}, false)
					}
					add(p, false)
					add(pfx{p.ip, p.bits + 1}, false)
					add(pfx{p.ip, p.bits - 1}, false)
					add(pfx{last, p.bits}, false) // host bits set in a block query
					add(pfx{last, p.bits + 1}, false)
				}
				fams = append(fams, f)
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"families": c02Fam, "max_set": Pick(c, 3, 4), "plus": "sets of 6, 8 and 14 networks", "rotations": 8, "chains": "5 addresses x 3 modes x pairs of lengths per family", "large_sizes": docSizes(Pick(c, 20, 100), Pick(c, 512, 4096))}
		},
		Run: func(c *Ctx) {
			switch c.Choose("mode", 4) {
			case 1:
				chainNet(c)
				return
			case 2:
				scaleNet(c)
				return
			case 3:
				sweepNet(c)
				return
			}
			f := fams[c.Choose("family", 2)]
			set := Of(c, "networks", f.sets)
			c.Shard()
			n := len(set)
			order := make([]int, n)
			if n <= 3 {
				copy(order, Of(c, "order", permsOf(n)))
			} else {
				r := c.Choose("order-rot", n)
				rev := c.Bool("order-rev")
				for i := range order {
					order[i] = (i + r) % n
					if rev {
						order[i] = (n - 1 - i + r) % n
					}
				}
			}
			shape := c.Choose("shape", 3) // 0: one service each; 1: all in one with alias spelling; 2: junk and other family mixed in
			rotN := 8
			if n < 2 {
				rotN = 1
			}
			rotate(c.Choose("rotation", rotN))
			owner := map[int]int{}
			var svcs []svc
			if shape == 1 {
				s := svc{urls: urlsFor(2)}
				for _, k := range order {
					p := f.nets[set[k]]
					s.entries = append(s.entries, p.text(f.v))
					owner[set[k]] = 0
				}
				svcs = append(svcs, s)
			} else {
				for _, k := range order {
					owner[set[k]] = len(svcs)
					svcs = append(svcs, svc{entries: []string{f.nets[set[k]].text(f.v)}, urls: urlsFor(k)})
				}
			}
			if shape == 2 {
				junk := []string{"junk", "", "10.0.0.0", "10.0.0.0/33", "10.1.2.3/40", "300.0.0.0/8", "2001:db8::/129", "10.0.0.0/8x"}
				if f.v == 32 {
					junk = append(junk, "::/0", "2001:db8::/32", "::1/128", "::ffff:10.1.2.3/128", "::ffff:0:0/96")
				} else {
					junk = append(junk, "0.0.0.0/0", "10.0.0.0/8", "10.1.2.3/32")
				}
				svcs = append([]svc{{entries: junk, urls: []string{"https://junk.example/"}}}, svcs...)
				for k := range owner {
					owner[k]++
				}
			}
			doc := regDoc(svcs, false)
			c.Note("doc %s", doc)
			ver, rt := 4, bootstrap.IPv4
			if f.v == 128 {
				ver, rt = 6, bootstrap.IPv6
			}
			r, err := bootstrap.NewNetRegistry(doc, ver)
			c.Check(err == nil && r != nil, "NewNetRegistry rejects a valid document: %v", err)
			for i, p := range f.queries {
				best := -1
				for _, k := range set {
					if f.nets[k].contains(f.v, p) && (best < 0 || f.nets[k].bits > f.nets[best].bits) {
						best = k
					}
				}
				a, err := r.Lookup(&bootstrap.Question{RegistryType: rt, Query: f.qtext[i]})
				c.Step()
				c.Check(err == nil && a != nil, "lookup %s: error %v", f.qtext[i], err)
				if best < 0 {
					c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %s: no network contains it, got entry %q urls %v\ndocument %s", f.qtext[i], a.Entry, urlStrings(a.URLs), doc)
				} else {
					ep, perr := netip.ParsePrefix(a.Entry)
					wp := netip.MustParsePrefix(f.nets[best].text(f.v))
					c.Check(perr == nil && ep == wp, "lookup %s: entry %q, the longest containing network is %s\ndocument %s", f.qtext[i], a.Entry, wp, doc)
					c.Check(eqStrings(urlStrings(a.URLs), svcs[owner[best]].urls), "lookup %s: urls %v, want %v\ndocument %s", f.qtext[i], urlStrings(a.URLs), svcs[owner[best]].urls, doc)
				}
				c.State(f.v, fmt.Sprint(set), i, best)
			}
			for _, b := range c02Bad[f.v] {
				a, err := r.Lookup(&bootstrap.Question{RegistryType: rt, Query: b})
				c.Step()
				c.Check(err != nil && a == nil, "lookup of %q answers %+v", b, a)
			}
		},
	})
}
