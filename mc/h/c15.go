package main

import (
	"net/netip"
	"net/url"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
)

// refAuto is the documented detection. kind "?" means the documentation does not say.
func refAuto(t string) (kind, value string) {
	low := strings.ToLower(t)
	if strings.HasPrefix(low, "http:") || strings.HasPrefix(low, "https:") {
		if u, err := url.Parse(t); err == nil {
			if u.Host == "" {
				return "?", ""
			}
			if u.Path == "" || u.Path == "/" {
				return "domain", u.Hostname()
			}
			return "raw", t
		}
	}
	if a, err := netip.ParseAddr(t); err == nil {
		if a.Zone() != "" {
			return "?", ""
		}
		return "ip", a.Unmap().String()
	}
	if addr, bits, ok := strings.Cut(t, "/"); ok {
		if a, err := netip.ParseAddr(addr); err == nil && bits != "" {
			digits := true
			for i := 0; i < len(bits); i++ {
				digits = digits && bits[i] >= '0' && bits[i] <= '9'
			}
			if digits {
				if len(bits) > 1 && bits[0] == '0' {
					return "?", "" // leading zeros
				}
				n, err := strconv.Atoi(bits)
				if err == nil && n <= a.BitLen() {
					if a.Zone() != "" || a.Is4In6() {
						return "?", ""
					}
					return "net", netip.PrefixFrom(a, n).Masked().String()
				}
			}
		}
	}
	if n, ok := refASN(t); ok {
		return "autnum", strconv.FormatUint(uint64(n), 10)
	}
	if strings.Contains(t, ".") {
		return "domain", t
	}
	return "entity", t
}

func init() {
	tokens := []string{"AS", "as", "aS", "1", "0", "4294967295", "4294967296", "255", "256", ".", "-", ":", "::", "/", "24", "129", "http://", "https://", "HTTP://", "example", ".com", "?q=1", "#f", " ", "+", "ffff", "2001:db8", "%", "@", "\u00e9", "\x00", "[", "]"}
	extra := []string{"192.0.2.1", "192.0.2.1/24", "192.0.2.255/31", "10.0.0.0/0", "2001:db8::1", "2001:DB8::A/64", "::ffff:192.0.2.1", "::/0", "::1/128", "192.0.2.1/33", "::1/129", "192.0.2.01", "1.2.3", "1.2.3.4.5", "fe80::1%eth0", "AS2856", "as2856", "As4294967295", "AS4294967296", "5400", "+5", "-5", "5e3", "0x10", "1_000", "AS 5", "ASN5", "ASAS5", "SA5", "AS", "", "EXAMPLE-ARIN", "example.com.", "xn--bcher-kva.example", "https://rdap.example/domain/x.com", "https://example.com", "http://example.com/", "http://example.com:8080/", "http://example.com:8080/x", "https://example.com/?x=1", "https://example.com?x=/y", "https://user:pw@example.com/", "https://[2001:db8::1]/", "https://[2001:db8::1]:443", "https://192.0.2.1/", "ftp://example.com/x", "HTTPS://EXAMPLE.COM/Domain/X", "http:/x.y/z", "http:", "https://%zz/", "http://a b.com/", "http://example.com/%zz", "//example.com/x", "mailto:a@b.c", "http://example.com//", "http://example.com/.", "http://example.com/#frag", "0", "00", "007", "AS007", "192.0.2.1 ", " 192.0.2.1", "192.0.2.1\n", "AS1\n", "example.com/x", "h-TAG", "::ffff:1.2.3.4/120", "1.2.3.4/08", "1.1", "1.", ".", "..", "\xff.\xfe"}
	var texts []string
	register(&Check{
		ID:   "C15",
		Rule: "all token sequences up to the length bound over AS prefixes, numbers at the 32-bit boundary, address parts, URL parts and odd characters, plus fixed boundary texts; type and query text compared with the documented rules",
		Setup: func(c *Ctx) {
			texts = append(words(tokens, 3), extra...)
			small := []string{"AS", "1", "255", ".", ":", "/", "24", "http://", "x", "?"}
			texts = append(texts, words(small, Pick(c, 5, 6))...)
			addr := []string{"1", "0", ".", ":", "f", "/"}
			texts = append(texts, words(addr, Pick(c, 7, 8))...)
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"tokens": len(tokens), "sequence_length": 3, "small_alphabet_length": Pick(c, 5, 6), "address_alphabet_length": Pick(c, 7, 8), "texts": len(texts)}
		},
		Assumptions: []string{"zone-qualified addresses, blocks of IPv4-mapped addresses, prefix lengths with leading zeros and http URLs without a host are not constrained beyond not panicking"},
		Run: func(c *Ctx) {
			n := 256
			lo := c.Choose("slice", n)
			c.Shard()
			for k := lo; k < len(texts); k += n {
				t := texts[k]
				r := rdap.NewAutoRequest(t)
				c.Step()
				kind, val := refAuto(t)
				if r == nil {
					c.Fail("%q: no request", t)
				}
				if kind == "?" {
					continue
				}
				c.State(kind)
				got := ""
				switch r.Type {
				case rdap.RawRequest:
					got = "raw"
				case rdap.DomainRequest:
					got = "domain"
				case rdap.IPRequest:
					got = "ip"
				case rdap.AutnumRequest:
					got = "autnum"
				case rdap.EntityRequest:
					got = "entity"
				}
				want := kind
				if kind == "net" {
					want = "ip"
				}
				c.Check(got == want, "%q becomes a %s request (query %q), want %s", t, r.Type, r.Query, want)
				switch kind {
				case "raw":
					u, _ := url.Parse(t)
					c.Check(r.Server != nil && r.Server.String() == u.String(), "%q becomes raw request for %v", t, r.Server)
				case "ip":
					a, err := netip.ParseAddr(r.Query)
					c.Check(err == nil && a.Unmap().String() == val, "%q becomes an IP request for %q, want %s", t, r.Query, val)
				case "net":
					p, err := netip.ParsePrefix(r.Query)
					c.Check(err == nil && p.Masked().String() == val, "%q becomes an IP request for %q, want %s", t, r.Query, val)
				case "autnum":
					n, ok := refASN(r.Query)
					c.Check(ok && strconv.FormatUint(uint64(n), 10) == val, "%q becomes an AS number request for %q, want %s", t, r.Query, val)
				default:
					c.Check(r.Query == val, "%q becomes a %s request for %q, want %q", t, kind, r.Query, val)
				}
				if kind != "raw" {
					c.Check(r.Server == nil && len(r.Params) == 0, "%q: server %v, params %v set", t, r.Server, r.Params)
				}
			}
		},
	})
}
