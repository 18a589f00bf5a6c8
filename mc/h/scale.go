package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
)

// sizes of large documents: every small size, and the neighbourhood of powers of two beyond.
func docSizes(all, max int) []int {
	var out []int
	for n := 0; n <= all; n++ {
		out = append(out, n)
	}
	for n := 16; n <= max; n *= 2 {
		for _, d := range []int{-1, 0, 1} {
			if n+d > all {
				out = append(out, n+d)
			}
		}
	}
	return out
}

// docOrder is the document position -> item order of n items.
func docOrder(kind, n int) []int {
	o := make([]int, n)
	for i := range o {
		switch kind {
		case 0:
			o[i] = i
		case 1:
			o[i] = n - 1 - i
		default: // odd items first, then even ones downwards
			if h := n / 2; i < h {
				o[i] = 2*i + 1
			} else {
				o[i] = 2 * (n - 1 - i)
			}
		}
	}
	return o
}

// group puts the ordered entries into services of g entries (0: all in one); owner maps entry index to URLs.
func group(order []int, text func(i int) string, g int) (svcs []svc, owner []int) {
	owner = make([]int, len(order))
	for k, i := range order {
		if g == 0 && k == 0 || g > 0 && k%g == 0 {
			svcs = append(svcs, svc{urls: urlsFor(len(svcs))})
		}
		s := &svcs[len(svcs)-1]
		s.entries = append(s.entries, text(i))
		owner[i] = len(svcs) - 1
	}
	return
}

func scaleASN(c *Ctx) {
	n := Of(c, "size", docSizes(Pick(c, 40, 200), Pick(c, 1024, 4096)))
	c.Shard()
	layout := c.Choose("layout", 5)
	order := docOrder(c.Choose("order", 3), n)
	g := Of(c, "group", []int{1, 3, 0})
	rotate(n % 8)
	var ivs []asnIv
	at := []uint64{0, 1, 64512, 4200000000, 7}[layout]
	for i := 0; i < n; i++ {
		var w, gap uint64
		switch layout {
		case 0: // back to back
			w, gap = 9, 0
		case 1: // single numbers one apart
			w, gap = 0, 1
		case 2: // widths grow, gaps shrink
			w, gap = uint64(i), uint64(n-i)
		case 3: // in the high half
			w, gap = uint64(i%3), uint64(i%2)
		case 4: // spread over the whole space
			w, gap = 4294967295/uint64(n+1)/2, 4294967295/uint64(n+1)/3
		}
		ivs = append(ivs, asnIv{at, at + w})
		at += w + gap + 1
	}
	if n > 0 && layout == 0 {
		ivs[n-1].hi = 4294967295
	}
	svcs, owner := group(order, func(i int) string {
		if ivs[i].lo == ivs[i].hi {
			return fmt.Sprint(ivs[i].lo)
		}
		return fmt.Sprintf("%d-%d", ivs[i].lo, ivs[i].hi)
	}, g)
	r, err := bootstrap.NewASNRegistry(regDoc(svcs, false))
	c.Check(err == nil && r != nil, "NewASNRegistry rejects a valid document: %v", err)
	ask := func(v uint64, want int) {
		a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: "AS" + strconv.FormatUint(v, 10)})
		c.Step()
		c.Check(err == nil && a != nil, "lookup AS%d: error %v", v, err)
		if want < 0 {
			c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup AS%d among %d ranges (layout %d): no range contains it, got %q %v", v, n, layout, a.Entry, urlStrings(a.URLs))
			return
		}
		lo, hi, ok := parseEntry(a.Entry)
		c.Check(ok && lo == ivs[want].lo && hi == ivs[want].hi, "lookup AS%d among %d ranges (layout %d): entry %q, want %v", v, n, layout, a.Entry, ivs[want])
		c.Check(eqStrings(urlStrings(a.URLs), svcs[owner[want]].urls), "lookup AS%d among %d ranges (layout %d): urls %v, want %v", v, n, layout, urlStrings(a.URLs), svcs[owner[want]].urls)
	}
	for i, iv := range ivs {
		ask(iv.lo, i)
		ask(iv.hi, i)
		ask(iv.lo+(iv.hi-iv.lo)/2, i)
		if iv.lo > 0 && (i == 0 || ivs[i-1].hi < iv.lo-1) {
			ask(iv.lo-1, -1)
		}
		if iv.hi < 4294967295 && (i == n-1 || ivs[i+1].lo > iv.hi+1) {
			ask(iv.hi+1, -1)
		}
	}
	c.State("scale", n, layout)
}

// chainNet: networks of every length along one address, with one or two left out or the only ones, and the
// lookup of every block of the chain and of every sibling of it.
func chainNet(c *Ctx) {
	v := []int{32, 128}[c.Choose("chain-family", 2)]
	pat := c.Choose("bits", 5)
	ip := new(big.Int)
	for i := 0; i < v; i++ { // bit i from the top
		var b bool
		switch pat {
		case 1:
			b = true
		case 2:
			b = i%2 == 0
		case 3:
			b = i%2 == 1
		case 4:
			b = (i*i+3*i/2)%5 < 2
		}
		if b {
			ip.SetBit(ip, v-1-i, 1)
		}
	}
	mode := c.Choose("chain", 3) // 0: all but those two; 1: only those two; 2: all from the first to the second
	i := c.Choose("one", v+1)
	c.Shard()
	in := make([]bool, v+1)
	js := []int{}
	for j := i; j <= v; j++ {
		if v == 32 || mode != 0 || c.Thorough() || j-i < 3 || j == v {
			js = append(js, j)
		}
	}
	cut := func(bits int) pfx {
		sh := uint(v - bits)
		return pfx{new(big.Int).Lsh(new(big.Int).Rsh(ip, sh), sh), bits}
	}
	flip := func(bits int) pfx { // the sibling block of the chain's block of that length
		p := cut(bits)
		x := new(big.Int).Set(p.ip)
		k := v - bits
		x.SetBit(x, k, 1-x.Bit(k))
		return pfx{x, bits}
	}
	ver, rt := 4, bootstrap.IPv4
	if v == 128 {
		ver, rt = 6, bootstrap.IPv6
	}
	j := Of(c, "two", js)
	var nets []int
	for l := 0; l <= v; l++ {
		switch mode {
		case 0:
			in[l] = l != i && l != j
		case 1:
			in[l] = l == i || l == j
		case 2:
			in[l] = l >= i && l <= j
		}
		if in[l] {
			nets = append(nets, l)
		}
	}
	order := docOrder((i+j)%3, len(nets))
	rotate((i + 3*j) % 8)
	svcs, owner := group(order, func(k int) string { return cut(nets[k]).text(v) }, []int{1, 0, 5}[i%3])
	own := map[int]int{}
	for k, l := range nets {
		own[l] = owner[k]
	}
	r, err := bootstrap.NewNetRegistry(regDoc(svcs, false), ver)
	c.Check(err == nil && r != nil, "NewNetRegistry rejects a valid document: %v", err)
	ask := func(p pfx, query string, max int) {
		best := -1
		for l := max; l >= 0 && best < 0; l-- {
			if in[l] {
				best = l
			}
		}
		a, err := r.Lookup(&bootstrap.Question{RegistryType: rt, Query: query})
		c.Step()
		c.Check(err == nil && a != nil, "lookup %s: error %v", query, err)
		if best < 0 {
			c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %s, lengths %v: no network contains it, got entry %q urls %v", query, nets, a.Entry, urlStrings(a.URLs))
			return
		}
		ep, perr := netip.ParsePrefix(a.Entry)
		c.Check(perr == nil && ep == netip.MustParsePrefix(cut(best).text(v)), "lookup %s, lengths %v: entry %q, want %s", query, nets, a.Entry, cut(best).text(v))
		c.Check(eqStrings(urlStrings(a.URLs), svcs[own[best]].urls), "lookup %s, lengths %v: urls %v, want %v", query, nets, urlStrings(a.URLs), svcs[own[best]].urls)
	}
	step := 1
	if !c.Thorough() && v == 128 && mode == 1 {
		step = 5
	}
	for l := 0; l <= v; l++ {
		if step > 1 && l%step != 0 && l != i && l != j && l != i-1 && l != j-1 && l != i+1 && l != j+1 {
			continue
		}
		ask(cut(l), cut(l).text(v), l)
		if l > 0 {
			s := flip(l)
			ask(s, s.text(v), l-1)
			ask(pfx{s.ip, v}, addrText(v, s.ip), l-1)
			// the address itself with one bit changed below the block
			x := new(big.Int).Set(ip)
			x.SetBit(x, v-l, 1-x.Bit(v-l))
			ask(pfx{x, v}, addrText(v, x), l-1)
		}
	}
	ask(pfx{ip, v}, addrText(v, ip), v)
	c.State("chain", v, pat, mode, i, j)
}

// scaleNet: documents of many disjoint networks inside one another's gaps.
func scaleNet(c *Ctx) {
	v := []int{32, 128}[c.Choose("scale-family", 2)]
	n := Of(c, "size", docSizes(Pick(c, 20, 100), Pick(c, 512, 4096)))
	c.Shard()
	layout := c.Choose("layout", 3)
	order := docOrder(c.Choose("order", 3), n)
	g := Of(c, "group", []int{1, 4, 0})
	rotate(n % 8)
	var nets []pfx
	base := new(big.Int)
	for i := 0; i < n; i++ {
		var bits int
		var x *big.Int
		switch layout {
		case 0: // consecutive blocks
			bits = v - 8
			x = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(v-4)), new(big.Int).Lsh(big.NewInt(int64(i)), 8))
		case 1: // every other block, of two lengths
			bits = v - 8 - i%2
			x = new(big.Int).Lsh(big.NewInt(int64(4*i)), 8)
		case 2: // a block and, inside it, hosts
			bits = v
			x = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(3), uint(v-3)), big.NewInt(int64(3*i)))
		}
		nets = append(nets, pfx{x.Or(x, base), bits})
	}
	if layout == 2 && n > 0 {
		nets[0] = pfx{new(big.Int).Lsh(big.NewInt(3), uint(v-3)), v - 16}
	}
	svcs, owner := group(order, func(i int) string { return nets[i].text(v) }, g)
	ver, rt := 4, bootstrap.IPv4
	if v == 128 {
		ver, rt = 6, bootstrap.IPv6
	}
	r, err := bootstrap.NewNetRegistry(regDoc(svcs, false), ver)
	c.Check(err == nil && r != nil, "NewNetRegistry rejects a valid document: %v", err)
	ask := func(x *big.Int, cand ...int) {
		best := -1
		for _, k := range cand {
			if k >= 0 && k < n && nets[k].contains(v, pfx{x, v}) && (best < 0 || nets[k].bits > nets[best].bits) {
				best = k
			}
		}
		query := addrText(v, x)
		a, err := r.Lookup(&bootstrap.Question{RegistryType: rt, Query: query})
		c.Step()
		c.Check(err == nil && a != nil, "lookup %s: error %v", query, err)
		if best < 0 {
			c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %s among %d networks (layout %d): no network contains it, got entry %q urls %v", query, n, layout, a.Entry, urlStrings(a.URLs))
			return
		}
		ep, perr := netip.ParsePrefix(a.Entry)
		c.Check(perr == nil && ep == netip.MustParsePrefix(nets[best].text(v)), "lookup %s among %d networks (layout %d): entry %q, want %s", query, n, layout, a.Entry, nets[best].text(v))
		c.Check(eqStrings(urlStrings(a.URLs), svcs[owner[best]].urls), "lookup %s among %d networks (layout %d): urls %v, want %v", query, n, layout, urlStrings(a.URLs), svcs[owner[best]].urls)
	}
	one := big.NewInt(1)
	for i, p := range nets {
		last := new(big.Int).Sub(new(big.Int).Add(p.ip, new(big.Int).Lsh(one, uint(v-p.bits))), one)
		ask(p.ip, 0, i)
		if i == 0 && layout == 2 {
			continue
		}
		ask(last, 0, i)
		if d := new(big.Int).Sub(p.ip, one); d.Sign() >= 0 {
			ask(d, 0, i-1)
		}
		ask(new(big.Int).Add(last, one), 0, i+1)
	}
	c.State("scale", v, n, layout)
}

// scaleDNS: many entries, and labels of unusual contents.
func scaleDNS(c *Ctx) {
	var entries []string
	kind := c.Choose("dns-scale", 3)
	switch kind {
	case 0: // many
		n := Of(c, "size", docSizes(Pick(c, 20, 100), Pick(c, 2048, 8192)))
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				entries = append(entries, fmt.Sprintf("t%d", i))
			case 1:
				entries = append(entries, fmt.Sprintf("sub.t%d", i-1))
			case 2:
				entries = append(entries, fmt.Sprintf("%d.sub.t%d", i, i-2))
			case 3:
				entries = append(entries, fmt.Sprintf("t%d.x", i-3))
			}
		}
	case 1: // contents
		for _, t := range append(append([]string{}, textZoo...), longTexts(512)...) {
			if strings.ToLower(t) == t {
				entries = append(entries, t)
			}
		}
		for b := 0; b < 128; b++ {
			if b < 'A' || b > 'Z' {
				entries = append(entries, string(rune(b)), "p"+string(rune(b)), string(rune(b))+"s")
			}
		}
		k := c.Choose("slice", 4)
		n := (len(entries) + 3) / 4
		entries = entries[k*n : min(len(entries), (k+1)*n)]
	case 2: // internationalised and long real-looking labels
		entries = []string{"xn--p1ai", "xn--vermgensberatung-pwb", "xn--clchc0ea0b2g2a9gcd", strings.Repeat("a", 62), strings.Repeat("a", 63), strings.Repeat("a", 64), "in-addr.arpa", "ip6.arpa", "e164.arpa", "_tcp", "3com", "0", "00", "1", "-a", "a-", "a--b", "museum", "co.uk", "com.co", "рф", "ελ", "中国", "भारत", "ß", "ﬁ", "e\u0301", "1.168.192.in-addr.arpa", "8.b.d.0.1.0.0.2.ip6.arpa"}
	}
	c.Shard()
	seen := map[string]bool{}
	u := entries[:0:0]
	for _, e := range entries {
		if !seen[e] {
			seen[e] = true
			u = append(u, e)
		}
	}
	entries = u
	root := c.Bool("root")
	if root && !seen[""] {
		entries = append(entries, "")
	}
	order := docOrder(c.Choose("order", 3), len(entries))
	svcs, owner := group(order, func(i int) string { return entries[i] }, Of(c, "group", []int{1, 5, 0}))
	idx := map[string]int{}
	for i, e := range entries {
		idx[e] = i
	}
	rotate(len(entries) % 8)
	r, err := bootstrap.NewDNSRegistry(regDoc(svcs, false))
	c.Check(err == nil && r != nil, "NewDNSRegistry rejects a valid document: %v", err)
	ask := func(query, name string) { // name: lower case, no trailing dot
		best := -1
		for s := name; best < 0; {
			if k, ok := idx[s]; ok {
				best = k
			} else if i := strings.IndexByte(s, '.'); i >= 0 {
				s = s[i+1:]
			} else if s != "" {
				s = ""
			} else {
				break
			}
		}
		a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: query})
		c.Step()
		c.Check(err == nil && a != nil, "lookup %q: error %v", query, err)
		if best < 0 {
			c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %q: nothing matches, got entry %q urls %v", query, a.Entry, urlStrings(a.URLs))
			return
		}
		c.Check(a.Entry == entries[best], "lookup %q: entry %q, longest suffix is %q", query, a.Entry, entries[best])
		c.Check(eqStrings(urlStrings(a.URLs), svcs[owner[best]].urls), "lookup %q: urls %v, want %v", query, urlStrings(a.URLs), svcs[owner[best]].urls)
	}
	for _, e := range entries {
		for _, p := range []string{"", "w.", "a.b.", "x", "_", "."} {
			name := strings.TrimSuffix(p+e, ".")
			ask(p+e, name)
			if !strings.HasSuffix(e, ".") {
				ask(p+e+".", p+e)
			}
			if isASCII(e) {
				ask(strings.ToUpper(p+e), name)
			}
		}
		if len(e) > 1 && isASCII(e) {
			ask("w."+e[1:], strings.TrimSuffix("w."+e[1:], "."))
			ask("w."+e[:len(e)-1], strings.TrimSuffix("w."+e[:len(e)-1], "."))
		}
		ask(e+".zz9", e+".zz9")
	}
	c.State("scale", kind, len(entries), root)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// scaleTags: many tags, tags and handles of unusual contents.
func scaleTags(c *Ctx) {
	var tags []string
	kind := c.Choose("tag-scale", 2)
	switch kind {
	case 0:
		n := Of(c, "size", docSizes(Pick(c, 20, 100), Pick(c, 2048, 8192)))
		for i := 0; i < n; i++ {
			tags = append(tags, []string{"T%d", "t%d", "%d", "T%dX"}[i%4])
			tags[i] = fmt.Sprintf(tags[i], i/4)
		}
	case 1:
		tags = append(append([]string{}, textZoo...), longTexts(512)...)
		for b := 0; b < 256; b++ {
			tags = append(tags, string(rune(b)), "P"+string(rune(b)), string(rune(b))+"S")
		}
		k := c.Choose("slice", 4)
		n := (len(tags) + 3) / 4
		tags = tags[k*n : min(len(tags), (k+1)*n)]
	}
	c.Shard()
	seen := map[string]bool{}
	u := tags[:0:0]
	for _, e := range tags {
		if !seen[e] {
			seen[e] = true
			u = append(u, e)
		}
	}
	tags = u
	idx := map[string]int{}
	for i, e := range tags {
		idx[e] = i
	}
	order := docOrder(c.Choose("order", 3), len(tags))
	svcs, owner := group(order, func(i int) string { return tags[i] }, Of(c, "group", []int{1, 5, 0}))
	rotate(len(tags) % 8)
	r, err := bootstrap.NewServiceProviderRegistry(regDoc(svcs, !c.Bool("pairs")))
	c.Check(err == nil && r != nil, "NewServiceProviderRegistry rejects a valid document: %v", err)
	ask := func(h string) {
		want := -1
		if i := strings.LastIndexAny(h, "-~"); i >= 0 && i < len(h)-1 {
			if k, ok := idx[h[i+1:]]; ok {
				want = k
			}
		}
		a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ServiceProvider, Query: h})
		c.Step()
		c.Check(err == nil && a != nil, "lookup %q: error %v", h, err)
		if want < 0 {
			c.Check(a.Entry == "" && len(a.URLs) == 0, "lookup %q: no such tag, got entry %q urls %v", h, a.Entry, urlStrings(a.URLs))
			return
		}
		c.Check(a.Entry == tags[want] && eqStrings(urlStrings(a.URLs), svcs[owner[want]].urls), "lookup %q: entry %q urls %v, want %q %v", h, a.Entry, urlStrings(a.URLs), tags[want], svcs[owner[want]].urls)
	}
	for _, t := range tags {
		ask(t)
		for _, p := range []string{"-", "~", "H-", "H~", "a-b-", "a~b-", "a-b~", "日-", " -", "x", "--", "-H"} {
			ask(p + t)
		}
		ask("H-" + strings.ToLower(t))
		ask("H-" + strings.ToUpper(t))
		ask("H-" + t + " ")
		ask("H-" + t + "\n")
		ask("H- " + t)
		ask(strings.Repeat("h", 300) + "-" + t)
		ask(t + "-")
	}
	if kind == 1 && len(tags) > 4 {
		for _, h := range append(append([]string{}, textZoo...), longTexts(2048)...) {
			ask(h + "-" + tags[1])
			ask(h)
		}
	}
	c.State("scale", kind, len(tags))
}
