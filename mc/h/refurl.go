package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/openrdap/rdap"
)

// what is documented for each request type
type reqSpec struct {
	typ   rdap.RequestType
	name  string
	path  string // fixed path, or the prefix of the query segment
	seg   bool   // the query text is a path segment
	param string // the query text is this parameter
	reg   string // bootstrap registry, "" none, "ip" by address family
}

var reqSpecs = []reqSpec{
	{rdap.DomainRequest, "domain", "domain", true, "", "dns.json"},
	{rdap.IPRequest, "ip", "ip", true, "", "ip"},
	{rdap.AutnumRequest, "autnum", "autnum", true, "", "asn.json"},
	{rdap.EntityRequest, "entity", "entity", true, "", "object-tags.json"},
	{rdap.NameserverRequest, "nameserver", "nameserver", true, "", ""},
	{rdap.HelpRequest, "help", "help", false, "", ""},
	{rdap.DomainSearchRequest, "domain-search", "domains", false, "name", ""},
	{rdap.DomainSearchByNameserverRequest, "domain-search-by-nameserver", "domains", false, "nsLdhName", ""},
	{rdap.DomainSearchByNameserverIPRequest, "domain-search-by-nameserver-ip", "domains", false, "nsIp", ""},
	{rdap.NameserverSearchRequest, "nameserver-search", "nameservers", false, "name", ""},
	{rdap.NameserverSearchByNameserverIPRequest, "nameserver-search-by-ip", "nameservers", false, "ip", ""},
	{rdap.EntitySearchRequest, "entity-search", "entities", false, "fn", ""},
	{rdap.EntitySearchByHandleRequest, "entity-search-by-handle", "entities", false, "handle", ""},
	{rdap.AutnumSearchRequest, "autnum-search", "autnums", false, "handle", ""},
}

// checkReqURL says what is wrong with got as the request URL for the query on server, "" if nothing.
func checkReqURL(got string, server *url.URL, sp reqSpec, query string, params url.Values) string {
	u, err := url.Parse(got)
	if err != nil {
		return fmt.Sprintf("URL %q does not parse: %v", got, err)
	}
	if u.Scheme != server.Scheme || u.Host != server.Host || u.Opaque != server.Opaque {
		return fmt.Sprintf("URL %q goes to %s://%s, server is %s://%s", got, u.Scheme, u.Host, server.Scheme, server.Host)
	}
	if fmt.Sprint(u.User) != fmt.Sprint(server.User) {
		return fmt.Sprintf("URL %q has user %v, server %v", got, u.User, server.User)
	}
	base := strings.TrimSuffix(server.EscapedPath(), "/") + "/"
	p := u.EscapedPath()
	if !strings.HasPrefix(p, base) {
		return fmt.Sprintf("URL %q: path %q does not start with the server's base path %q", got, p, base)
	}
	segs := strings.Split(strings.TrimPrefix(p, base), "/")
	want := []string{sp.path}
	if sp.seg {
		if sp.typ == rdap.IPRequest {
			a, b, net := strings.Cut(query, "/")
			want = append(want, a)
			if net {
				want = append(want, b)
			}
		} else {
			want = append(want, query)
		}
	}
	if len(segs) != len(want) {
		return fmt.Sprintf("URL %q: path segments %q, want %q", got, segs, want)
	}
	for i, s := range segs {
		d, err := url.PathUnescape(s)
		if err != nil || d != want[i] {
			return fmt.Sprintf("URL %q: path segment %q decodes to %q (%v), want %q", got, s, d, err, want[i])
		}
	}
	wantQ := url.Values{}
	for k, v := range server.Query() {
		wantQ[k] = v
	}
	for k, v := range params {
		wantQ[k] = v
	}
	if sp.param != "" {
		wantQ[sp.param] = []string{query}
	}
	gotQ, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return fmt.Sprintf("URL %q: query %q does not parse: %v", got, u.RawQuery, err)
	}
	if len(gotQ) != len(wantQ) {
		return fmt.Sprintf("URL %q: parameters %v, want %v", got, gotQ, wantQ)
	}
	for k, v := range wantQ {
		if !eqStrings(gotQ[k], v) {
			return fmt.Sprintf("URL %q: parameters %v, want %v", got, gotQ, wantQ)
		}
	}
	return ""
}
