package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"runtime"
	"strings"
)

// svc is one service of a bootstrap registry document.
type svc struct {
	entries []string
	urls    []string
}

// regDoc renders a registry document. triple adds the object-tags contact list.
func regDoc(svcs []svc, triple bool) []byte {
	services := []any{}
	for _, s := range svcs {
		e, u := s.entries, s.urls
		if e == nil {
			e = []string{}
		}
		if u == nil {
			u = []string{}
		}
		if triple {
			services = append(services, [][]string{{"contact@example.com"}, e, u})
		} else {
			services = append(services, [][]string{e, u})
		}
	}
	b, err := json.Marshal(map[string]any{"description": "d", "publication": "2020-01-01T00:00:00Z", "version": "1.0", "services": services})
	if err != nil {
		harnessf("%v", err)
	}
	return b
}

func urlStrings(us []*url.URL) []string {
	out := []string{}
	for _, u := range us {
		if u == nil {
			out = append(out, "<nil>")
		} else {
			out = append(out, u.String())
		}
	}
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// rotate sets the map iteration start for everything that follows in this execution.
func rotate(r int) { runtime.VerifMapIter(uint64(r)) }

// perms returns all permutations of 0..n-1 in a fixed order, identity first.
func perms(n int) [][]int {
	var out [][]int
	var rec func(cur []int, used uint)
	rec = func(cur []int, used uint) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

var permCache = map[int][][]int{}

func permsOf(n int) [][]int {
	if p, ok := permCache[n]; ok {
		return p
	}
	p := perms(n)
	permCache[n] = p
	return p
}

// urlsFor gives service i its own list of server URLs.
func urlsFor(i int) []string {
	switch i % 3 {
	case 0:
		return []string{fmt.Sprintf("https://s%d.example/rdap/", i)}
	case 1:
		return []string{fmt.Sprintf("https://z%d.example/", i), fmt.Sprintf("http://a%d.example/x", i)}
	default:
		return []string{fmt.Sprintf("https://m%d.example:8443/rdap", i), fmt.Sprintf("https://b%d.example/", i), fmt.Sprintf("http://m%d.example/", i)}
	}
}

func q(s string) string { return fmt.Sprintf("%q", s) }

func joinQ(ss []string) string {
	var o []string
	for _, s := range ss {
		o = append(o, q(s))
	}
	return "[" + strings.Join(o, " ") + "]"
}
