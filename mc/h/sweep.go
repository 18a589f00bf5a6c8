package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
)

// Sweeps: consecutive stretches of the query space of each registry (and the numbers, blocks, names and tags
// that mean something elsewhere), so that no single value is treated differently from its neighbours.

var asnMarks = []uint64{1e5, 1e6, 1e7, 1e8, 1e9, 4e9, 4200000000, 4294967294, 4294967295, 1 << 17, 1 << 18, 1 << 20, 1 << 24, 1 << 31, 131072, 196608, 262144, 327680, 393216, 398000, 400000}

func sweepASN(c *Ctx) {
	type win struct{ lo, hi uint64 }
	var ws []win
	step := uint64(1 << 14)
	for lo := uint64(0); lo < 1<<17; lo += step {
		ws = append(ws, win{lo, lo + step - 1})
	}
	for _, m := range asnMarks {
		ws = append(ws, win{m - 600, min(m+600, 4294967295)})
	}
	kind := c.Choose("sweep-doc", 4)
	if c.Thorough() && kind == 0 {
		ws = nil
		for lo := uint64(0); lo < 1<<32; lo += 1 << 22 {
			ws = append(ws, win{lo, lo + 1<<22 - 1})
		}
	}
	w := ws[c.Choose("window", len(ws))]
	c.Shard()
	var svcs []svc
	lo, hi := uint64(0), uint64(4294967295)
	owner := func(v uint64) (a, b uint64, s int) { return lo, hi, 0 }
	switch kind {
	case 0: // one range for everything
		svcs = []svc{{entries: []string{"0-4294967295"}, urls: urlsFor(0)}}
	case 1: // blocks of 64, alternating owners
		svcs = []svc{{urls: urlsFor(0)}, {urls: urlsFor(1)}}
		for b := w.lo / 64 * 64; b <= w.hi; b += 64 {
			k := b / 64 % 2
			svcs[k].entries = append(svcs[k].entries, fmt.Sprintf("%d-%d", b, b+63))
		}
		owner = func(v uint64) (uint64, uint64, int) { return v / 64 * 64, v/64*64 + 63, int(v / 64 % 2) }
	case 2: // every number on its own
		svcs = []svc{{urls: urlsFor(0)}, {urls: urlsFor(1)}, {urls: urlsFor(2)}}
		for b := w.lo; b <= w.hi; b++ {
			svcs[b%3].entries = append(svcs[b%3].entries, fmt.Sprint(b))
		}
		owner = func(v uint64) (uint64, uint64, int) { return v, v, int(v % 3) }
	case 3: // nothing there
		svcs = []svc{{entries: []string{fmt.Sprint((w.lo + 1<<19) % (1 << 32))}, urls: urlsFor(0)}}
		owner = func(v uint64) (uint64, uint64, int) { return 0, 0, -1 }
	}
	rotate(kind)
	r, err := bootstrap.NewASNRegistry(regDoc(svcs, false))
	c.Check(err == nil && r != nil, "NewASNRegistry rejects a valid document: %v", err)
	for v := w.lo; v <= w.hi; v++ {
		s := strconv.FormatUint(v, 10)
		if v%2 == 0 || kind == 2 {
			s = "AS" + s
		}
		a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: s})
		c.Step()
		if err != nil || a == nil {
			c.Fail("lookup %s: error %v", s, err)
		}
		lo, hi, o := owner(v)
		if o < 0 {
			if a.Entry != "" || len(a.URLs) != 0 {
				c.Fail("lookup %s: no range contains it, got %q %v", s, a.Entry, urlStrings(a.URLs))
			}
			continue
		}
		if glo, ghi, ok := parseEntry(a.Entry); !ok || glo != lo || ghi != hi {
			c.Fail("lookup %s: entry %q, want %d-%d", s, a.Entry, lo, hi)
		}
		if len(a.URLs) != len(svcs[o].urls) || len(a.URLs) == 0 || a.URLs[0].String() != svcs[o].urls[0] {
			c.Fail("lookup %s: urls %v, want %v", s, urlStrings(a.URLs), svcs[o].urls)
		}
	}
	c.State("sweep", kind, w.lo)
}

// the blocks of the IANA special-purpose registries, and others with a meaning of their own
var specialNets = map[int][]string{
	32:  {"0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "127.0.0.1/32", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/24", "192.0.0.0/29", "192.0.0.8/32", "192.0.0.9/32", "192.0.0.170/32", "192.0.2.0/24", "192.31.196.0/24", "192.52.193.0/24", "192.88.99.0/24", "192.168.0.0/16", "192.175.48.0/24", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24", "224.0.0.0/4", "224.0.0.1/32", "239.0.0.0/8", "240.0.0.0/4", "255.255.255.255/32", "1.1.1.1/32", "8.8.8.8/32", "100.0.0.0/8", "198.0.0.0/8"},
	128: {"::1/128", "::/128", "::/96", "::ffff:0:0/96", "64:ff9b::/96", "64:ff9b:1::/48", "100::/64", "100:0:0:1::/64", "2001::/23", "2001::/32", "2001:1::1/128", "2001:2::/48", "2001:3::/32", "2001:4:112::/48", "2001:10::/28", "2001:20::/28", "2001:30::/28", "2001:db8::/32", "2002::/16", "2620:4f:8000::/48", "3fff::/20", "5f00::/16", "fc00::/7", "fd00::/8", "fe80::/10", "fec0::/10", "ff00::/8", "ff02::1/128", "2000::/3", "2a00::/12", "2600::/12"},
}

func sweepNet(c *Ctx) {
	v := []int{32, 128}[c.Choose("sweep-family", 2)]
	ver, rt := 4, bootstrap.IPv4
	if v == 128 {
		ver, rt = 6, bootstrap.IPv6
	}
	one := big.NewInt(1)
	kind := c.Choose("sweep-doc", 4)
	var nets []pfx // later ones are the more specific ones
	top := func(bits int, from, n uint64) {
		for i := from; i < from+n; i++ {
			nets = append(nets, pfx{new(big.Int).Lsh(new(big.Int).SetUint64(i), uint(v-bits)), bits})
		}
	}
	var qs []pfx
	q := func(p pfx) {
		if p.ip.Sign() >= 0 && p.ip.BitLen() <= v {
			qs = append(qs, p)
		}
	}
	block := func(p pfx) {
		last := new(big.Int).Sub(new(big.Int).Add(p.ip, new(big.Int).Lsh(one, uint(v-p.bits))), one)
		q(p)
		q(pfx{p.ip, v})
		q(pfx{last, v})
		q(pfx{new(big.Int).Add(p.ip, one), v})
		q(pfx{new(big.Int).Sub(p.ip, one), v})
		q(pfx{new(big.Int).Add(last, one), v})
		if p.bits < v {
			q(pfx{p.ip, p.bits + 1})
		}
		if p.bits > 0 {
			q(pfx{p.ip, p.bits - 1})
		}
	}
	part := -1
	switch kind {
	case 0: // everything, every /16 asked for
		top(0, 0, 1)
		part = c.Choose("part", 16)
	case 1: // every /8 (and the special blocks), every /12 of it
		top(8, 0, 256)
		part = c.Choose("part", 4)
	case 2: // the special blocks alone
	case 3: // everything but what is special
		top(0, 0, 1)
		part = c.Choose("part", 4)
	}
	c.Shard()
	bits, n := 0, 0
	switch kind {
	case 0:
		bits, n = Pick(c, 16, 20), Pick(c, 1<<16, 1<<20)/16
	case 1:
		bits, n = 14, 1<<14/4
	}
	for i := part * n; i < part*n+n; i++ {
		p := pfx{new(big.Int).Lsh(big.NewInt(int64(i)), uint(v-bits)), bits}
		q(pfx{new(big.Int).Add(p.ip, one), v})
		if kind == 1 || i%16 == 0 {
			q(p)
		}
	}
	var sp []pfx
	for _, s := range specialNets[v] {
		sp = append(sp, mkPfx(v, s))
	}
	switch kind {
	case 2:
		nets = sp
	case 3:
		for i, p := range sp {
			if i%4 == part {
				nets = append(nets, p)
			}
		}
	}
	for _, p := range sp {
		block(p)
	}
	uniq := map[string]int{}
	var svcs []svc
	for i, p := range nets {
		if i%5 == 0 {
			svcs = append(svcs, svc{urls: urlsFor(len(svcs))})
		}
		t := p.text(v)
		if _, ok := uniq[t]; ok {
			continue
		}
		uniq[t] = len(svcs) - 1
		svcs[len(svcs)-1].entries = append(svcs[len(svcs)-1].entries, t)
	}
	rotate(kind)
	r, err := bootstrap.NewNetRegistry(regDoc(svcs, false), ver)
	c.Check(err == nil && r != nil, "NewNetRegistry rejects a valid document: %v", err)
	for i, p := range qs {
		best := -1
		if kind == 1 {
			if p.bits >= 8 {
				best = int(new(big.Int).Rsh(p.ip, uint(v-8)).Uint64())
			}
		} else {
			for k := range nets {
				if nets[k].contains(v, p) && (best < 0 || nets[k].bits > nets[best].bits) {
					best = k
				}
			}
		}
		query := p.text(v)
		if p.bits == v && i%7 != 0 {
			query = addrText(v, p.ip)
		}
		a, err := r.Lookup(&bootstrap.Question{RegistryType: rt, Query: query})
		c.Step()
		c.Check(err == nil && a != nil, "lookup %s: error %v", query, err)
		if best < 0 {
			c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %s: no network contains it, got entry %q urls %v", query, a.Entry, urlStrings(a.URLs))
			continue
		}
		want := nets[best].text(v)
		ep, perr := netip.ParsePrefix(a.Entry)
		c.Check(perr == nil && ep == netip.MustParsePrefix(want), "lookup %s: entry %q, want %s", query, a.Entry, want)
		c.Check(eqStrings(urlStrings(a.URLs), svcs[uniq[want]].urls), "lookup %s: urls %v, want %v", query, urlStrings(a.URLs), svcs[uniq[want]].urls)
	}
	c.State("sweep", v, kind, part)
}

// names that mean something elsewhere
var specialNames = []string{"localhost", "local", "localdomain", "arpa", "in-addr.arpa", "ip6.arpa", "e164.arpa", "uri.arpa", "home.arpa", "10.in-addr.arpa", "168.192.in-addr.arpa", "254.169.in-addr.arpa", "d.f.ip6.arpa", "example", "example.com", "example.net", "example.org", "invalid", "test", "onion", "alt", "internal", "corp", "home", "mail", "lan", "bit", "eth", "i2p", "root", "nic", "iana", "icann", "int", "mil", "gov", "edu", "com", "net", "org", "uk", "co.uk", "de", "eu.org", "com.au", "jp", "co.jp", "cn", "xn--fiqs8s", "xn--zckzah", "www", "rdap", "whois", "mobi", "info", "name", "aero", "1", "127.0.0.1", "255.255.255.255", "as1", "as23456", "ns1", "null", "nil", "none", "true", "false", "undefined", "*", "*.com", "-", "_", "--", "services", "dns", "ipv4"}

// all one- and two-character texts over the alphabet.
func shortTexts(alpha string) []string {
	var out []string
	for _, a := range alpha {
		out = append(out, string(a))
	}
	for _, a := range alpha {
		for _, b := range alpha {
			out = append(out, string(a)+string(b))
		}
	}
	return out
}

func sweepDNS(c *Ctx) {
	all := append(shortTexts("abcdefghijklmnopqrstuvwxyz0123456789-_"), specialNames...)
	kind := c.Choose("sweep-doc", 4)
	c.Shard()
	owner := map[string]int{}
	var svcs []svc
	put := func(e string) {
		if _, ok := owner[e]; ok {
			return
		}
		if len(owner)%7 == 0 {
			svcs = append(svcs, svc{urls: urlsFor(len(svcs))})
		}
		owner[e] = len(svcs) - 1
		svcs[len(svcs)-1].entries = append(svcs[len(svcs)-1].entries, e)
	}
	if kind == 0 || kind == 3 {
		put("")
	}
	switch kind {
	case 1: // every one
		for _, e := range all {
			put(e)
		}
	case 2, 3: // every other one
		for i := range all {
			if e := all[len(all)-1-i]; i%2 == 0 {
				put(e)
			}
		}
	}
	rotate(kind)
	r, err := bootstrap.NewDNSRegistry(regDoc(svcs, false))
	c.Check(err == nil && r != nil, "NewDNSRegistry rejects a valid document: %v", err)
	for _, e := range all {
		for _, p := range []string{"", "w.", "a.b.", "1.0.0.127.", "xn--p1ai.", "*.", "_tcp."} {
			name := p + e
			best, found := "", false
			for s := name; !found; {
				if _, ok := owner[s]; ok {
					best, found = s, true
				} else if s == "" {
					break
				} else if i := strings.IndexByte(s, '.'); i >= 0 {
					s = s[i+1:]
				} else {
					s = ""
				}
			}
			for _, query := range []string{name, strings.ToUpper(name), name + "."} {
				a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: query})
				c.Step()
				c.Check(err == nil && a != nil, "lookup %q: error %v", query, err)
				if !found {
					c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %q: nothing matches, got entry %q urls %v", query, a.Entry, urlStrings(a.URLs))
					continue
				}
				c.Check(a.Entry == best && eqStrings(urlStrings(a.URLs), svcs[owner[best]].urls), "lookup %q: entry %q urls %v, want %q %v", query, a.Entry, urlStrings(a.URLs), best, svcs[owner[best]].urls)
			}
		}
	}
	c.State("sweep", kind)
}

func sweepTags(c *Ctx) {
	all := append(shortTexts("ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz0123456789_. /"), "ARIN", "APNIC", "RIPE", "LACNIC", "AFRINIC", "AFNIC", "FRNIC", "NRS", "VRSN", "ARIN2", "JPNIC", "KRNIC", "TWNIC", "NICBR", "IANA", "ICANN", "RIPE-NCC", "GANDI", "FRNIC-FR", "DNSBE", "null", "nil", "true", "0", "TEST", "EXAMPLE", "NONE", "ROLE", "MNT", "PERSON", "AP", "LOA", "ORG", "HANDLE", "TAG")
	kind := c.Choose("sweep-doc", 3)
	c.Shard()
	owner := map[string]int{}
	var svcs []svc
	for i, e := range all {
		if kind == 1 && i%2 == 0 || kind == 2 && i%2 == 1 {
			continue
		}
		if _, ok := owner[e]; ok {
			continue
		}
		if len(owner)%7 == 0 {
			svcs = append(svcs, svc{urls: urlsFor(len(svcs))})
		}
		owner[e] = len(svcs) - 1
		svcs[len(svcs)-1].entries = append(svcs[len(svcs)-1].entries, e)
	}
	rotate(kind)
	r, err := bootstrap.NewServiceProviderRegistry(regDoc(svcs, kind != 1))
	c.Check(err == nil && r != nil, "NewServiceProviderRegistry rejects a valid document: %v", err)
	for _, e := range all {
		for _, h := range []string{e, "H-" + e, "H~" + e, "-" + e, "MNT-" + e, "ORG-X1-" + e, e + "-" + e, e + "-MNT", "1.2.3.4-" + e, "AS1-" + e} {
			want, ok := -1, false
			if i := strings.LastIndexAny(h, "-~"); i >= 0 && i < len(h)-1 {
				want, ok = owner[h[i+1:]]
			}
			a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ServiceProvider, Query: h})
			c.Step()
			c.Check(err == nil && a != nil, "lookup %q: error %v", h, err)
			if !ok {
				c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %q: no such tag, got entry %q urls %v", h, a.Entry, urlStrings(a.URLs))
				continue
			}
			c.Check(a.Entry == h[strings.LastIndexAny(h, "-~")+1:] && eqStrings(urlStrings(a.URLs), svcs[want].urls), "lookup %q: entry %q urls %v, want %v", h, a.Entry, urlStrings(a.URLs), svcs[want].urls)
		}
	}
	c.State("sweep", kind)
}
