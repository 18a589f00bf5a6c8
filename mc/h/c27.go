package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/openrdap/rdap"
)

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

func must[T any](v T, err error) T {
	if err != nil {
		harnessf("%v", err)
	}
	return v
}

var serial int64 = 100

func newAuthority(cn string) authority {
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Date(1995, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der := must(x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k))
	return authority{must(x509.ParseCertificate(der)), k}
}

func (a authority) issue(cn string, notAfter time.Time, names ...string) tls.Certificate {
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Date(1995, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: notAfter, DNSNames: dnsNames(names), IPAddresses: ipAddrs(names), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	der := must(x509.CreateCertificate(rand.Reader, t, a.cert, &k.PublicKey, a.key))
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

func dnsNames(names []string) (out []string) {
	for _, n := range names {
		if net.ParseIP(n) == nil {
			out = append(out, n)
		}
	}
	return
}

func ipAddrs(names []string) (out []net.IP) {
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			out = append(out, ip)
		}
	}
	return
}

func init() {
	// where the explicit server of a command may be
	places := []string{"srv.test", "srv.test:8443", "127.0.0.1", "127.0.0.1:8443", "[::1]", "[::1]:444", "localhost", "localhost:8443", "192.0.2.7", "10.1.2.3:443", "data.iana.org", "a.localhost", "box.local", "srv.test:80"}
	kinds := []string{"trusted", "untrusted CA", "self-signed", "wrong host", "expired"}
	certs := map[string]tls.Certificate{}
	var dir string
	register(&Check{
		ID:   "C27",
		Rule: "every combination of the server's role (explicit, bootstrapped, of a whole URL, bootstrap service, first of two servers, second of two, behind a redirect) x its certificate (trusted, untrusted CA, self-signed, wrong host, expired) x insecure flag (absent, short, long) x client certificate (none, PEM, PEM with the chain of an authority that is not trusted, PKCS#12 with and without password) x the server's request for one (no, optional, required) x other options; whole commands over real TLS on scripted connections and a virtual clock",
		Setup: func(c *Ctx) {
			dir = filepath.Join(scratchRoot, "tls")
			os.MkdirAll(filepath.Join(dir, "none"), 0o755)
			ca, other := newAuthority("trusted CA"), newAuthority("other CA")
			late, old := time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 6, 1, 0, 0, 0, 0, time.UTC)
			hosts := []string{"srv.test", "srv2.test", "bs.test", "127.0.0.1", "::1", "localhost", "192.0.2.7", "10.1.2.3", "data.iana.org", "a.localhost", "box.local"}
			certs["trusted"] = ca.issue("s", late, hosts...)
			certs["untrusted CA"] = other.issue("s", late, hosts...)
			certs["wrong host"] = ca.issue("srv.test", late, "else.test")
			certs["expired"] = ca.issue("s", old, hosts...)
			self := newAuthority("srv.test")
			self.cert.DNSNames = hosts
			certs["self-signed"] = self.issue("srv.test", late, hosts...)
			put := func(name, typ string, b []byte) {
				os.WriteFile(filepath.Join(dir, name), pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}), 0o600)
			}
			put("roots.pem", "CERTIFICATE", ca.cert.Raw)
			cl := ca.issue("client-pem", late)
			put("client.pem", "CERTIFICATE", cl.Certificate[0])
			// a client certificate of the other authority, with its chain
			chain := other.issue("client-chain", late)
			os.WriteFile(filepath.Join(dir, "chain.pem"), append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: chain.Certificate[0]}), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: other.cert.Raw})...), 0o600)
			put("chain.key", "PRIVATE KEY", must(x509.MarshalPKCS8PrivateKey(chain.PrivateKey)))
			put("client.key", "PRIVATE KEY", must(x509.MarshalPKCS8PrivateKey(cl.PrivateKey)))
			os.WriteFile(filepath.Join(dir, "client.p12"), must(base64.StdEncoding.DecodeString(p12Secret)), 0o600)
			os.WriteFile(filepath.Join(dir, "blank.p12"), must(base64.StdEncoding.DecodeString(p12Blank)), 0o600)
			os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "roots.pem"))
			os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
			pool := must(x509.SystemCertPool())
			if !pool.Equal(func() *x509.CertPool { p := x509.NewCertPool(); p.AddCert(ca.cert); return p }()) {
				harnessf("the trusted roots are not the harness's")
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"roles": 7, "places_of_the_server": places, "places_of_the_bootstrap_service": len(places) + 3, "other_options": 9, "certificates": len(kinds), "insecure_forms": 3, "client_certificates": 5, "request_policies": 3}
		},
		Assumptions: []string{"the system's trusted roots are those of the harness", "client certificates are accepted from any issuer"},
		Run: func(c *Ctx) {
			role := c.Choose("role", 7)
			kind := Of(c, "certificate", kinds)
			c.Shard()
			insecure := c.Choose("insecure", 3)
			client := c.Choose("client certificate", 5)
			policy := Of(c, "policy", []tls.ClientAuthType{tls.NoClientCert, tls.RequestClientCert, tls.RequireAnyClientCert})
			c.scrub = scratchRoot
			cert := certs[kind]
			cfg := &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: policy}
			w := &cliWorld{hosts: map[string]*cliHost{}}
			docs := func(urls ...string) map[string]string {
				return map[string]string{"dns.json": string(regDoc([]svc{{[]string{"test"}, urls}}, false))}
			}
			args := []string{"--cache-dir="}
			under := "srv.test:443" // the server whose certificate is in question
			secure := staticHost(200, `{"objectClassName":"domain","handle":"SECURE"}`)
			secure.tls = cfg
			fallback := false
			query := "x.test"
			switch role {
			case 0:
				host := Of(c, "place", places)
				args = append(args, "-s", "https://"+host+"/", "-t", "domain")
				under = host
				if u := must(url.Parse("https://" + host)); u.Port() == "" {
					under += ":443"
				}
				w.hosts[under] = secure
			case 6: // the whole URL is given
				host := Of(c, "place", places)
				args = append(args, Of(c, "as", [][]string{{}, {"-t", "url"}})...)
				query = "https://" + host + "/rdap/domain/x.test?a=b"
				under = host
				if u := must(url.Parse("https://" + host)); u.Port() == "" {
					under += ":443"
				}
				w.hosts[under] = secure
			case 1:
				host := Of(c, "place", places)
				under = host
				if u := must(url.Parse("https://" + host)); u.Port() == "" {
					under += ":443"
				}
				args = append(args, "--bs-url=http://bs.test/")
				w.hosts["bs.test:80"] = bsHost(docs("https://" + host + "/"))
				w.hosts[under] = secure
			case 2:
				host := Of(c, "place", append([]string{"bs.test", "bs.test/path", "bs.test:8443/a/b"}, places...))
				args = append(args, "--bs-url=https://"+host+"/")
				u := must(url.Parse("https://" + host))
				under = u.Host
				if u.Port() == "" {
					under += ":443"
				}
				w.hosts[under] = bsHost(docs("http://plain.test/"))
				w.hosts[under].tls = cfg
				w.hosts["plain.test:80"] = staticHost(200, `{"objectClassName":"domain","handle":"SECURE"}`)
			case 3:
				fallback = true
				args = append(args, "--bs-url=http://bs.test/")
				w.hosts["bs.test:80"] = bsHost(docs("https://srv.test/", "http://plain.test/"))
				w.hosts[under] = secure
				w.hosts["plain.test:80"] = staticHost(200, `{"objectClassName":"domain","handle":"PLAIN"}`)
			case 4:
				under = "srv2.test:443"
				args = append(args, "--bs-url=http://bs.test/")
				w.hosts["bs.test:80"] = bsHost(docs("http://plain.test/", "https://srv2.test/"))
				w.hosts["plain.test:80"] = staticHost(500, `{"objectClassName":"domain","handle":"PLAIN"}`)
				w.hosts[under] = secure
			case 5:
				args = append(args, "-s", "http://redir.test/", "-t", "domain")
				w.hosts["redir.test:80"] = &cliHost{serve: func(*http.Request) cliResp { return cliResp{code: 302, loc: "https://srv.test/there"} }}
				w.hosts[under] = secure
			}
			if insecure > 0 {
				args = append(args, []string{"-k", "--insecure"}[insecure-1])
			}
			cn := ""
			switch client {
			case 1:
				args = append(args, "--cert="+filepath.Join(dir, "client.pem"), "-K", filepath.Join(dir, "client.key"))
				cn = "client-pem"
			case 2:
				args = append(args, "-P", filepath.Join(dir, "client.p12")+":s3cret:x")
				cn = "client-p12"
			case 3:
				args = append(args, "--p12="+filepath.Join(dir, "blank.p12"))
				cn = "client-p12"
			case 4:
				args = append(args, "-C", filepath.Join(dir, "chain.pem"), "--key="+filepath.Join(dir, "chain.key"))
				cn = "client-chain"
			}
			more := Of(c, "more", [][]string{nil, {"-e"}, {"--exp=test_rdap_net"}, {"--exp=object_tag", "-v"}, {"--json", "-T", "5"}, {"--raw"}, {"-w"}, {"--bs-ttl=0"}, {"-f", "all"}, {"--exp=sandbox"}})
			if more != nil && !(policy == tls.RequestClientCert && insecure < 2 && (role < 2 && under == "srv.test:443" || role == 6 && under == "srv.test:8443" || role == 2 && under == "bs.test:443" || c.Thorough())) {
				return
			}
			if more != nil && more[0] == "--exp=sandbox" && client > 0 {
				return // the sandbox refuses them
			}
			args = append(args, more...)
			args = append(args, query)
			c.Note("rdap %q; certificate of %s: %s, client certificates: %v", args, under, kind, policy)
			var code int
			var so, se string
			Bubble(func() { code, so, se = w.runCLI(args, rdap.CLIOptions{}) })
			c.Step()
			accept := (kind == "trusted" || insecure > 0) && !(policy == tls.RequireAnyClientCert && client == 0)
			c.State(role, kind, insecure > 0, client, int(policy), code)
			seen := 0
			for _, q := range w.reqs {
				if q.host == under {
					seen++
					want := cn
					if policy == tls.NoClientCert {
						want = ""
					}
					c.Check(q.cert == want, "the server sees the client certificate %q, want %q", q.cert, want)
				}
			}
			if !accept {
				c.Check(seen == 0, "the certificate of %s is %s and verification is on (or a required client certificate is missing), but the request was sent: %q", under, kind, w.requests())
				if fallback {
					c.Check(code == 0 && strings.Contains(so, "PLAIN"), "the second server was not used: exit status %d, %s", code, clip(se, 600))
				} else {
					c.Check(code == 1 && so == "", "exit status %d, want 1\n%s", code, clip(so, 500))
					for _, q := range w.reqs {
						c.Check(!(role == 2 && q.host == "plain.test:80"), "the query went on without the bootstrap service")
					}
				}
				return
			}
			c.Check(seen == 1, "%s saw %d requests, want 1: %q\n%s", under, seen, w.requests(), clip(se, 600))
			c.Check(code == 0 && strings.Contains(so, "SECURE"), "exit status %d: %s %s", code, clip(so, 300), clip(se, 600))
		},
	})
	_ = fmt.Sprint
}
