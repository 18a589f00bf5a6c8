package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
)

// A cliResp is what a scripted server does with one request.
type cliResp struct {
	code  int
	ctype string
	body  string
	loc   string        // Location header
	after time.Duration // answers this late
	never bool          // never answers
	cut   bool          // closes the connection in the middle of the body
	drop  bool          // closes the connection without answering

	chunked bool // chunked transfer
	close   bool // no length, the connection is closed after the body
}

// A cliHost is one scripted server, by "host:port".
type cliHost struct {
	serve   func(r *http.Request) cliResp
	tls     *tls.Config
	refuse  bool
	silence bool // accepts and never answers
}

// cliReq is a request that reached a server.
type cliReq struct {
	host   string // host:port dialled
	method string
	uri    string
	hdr    http.Header
	hostH  string
	at     time.Duration
	certs  int // client certificates presented
	cert   string
	tls    bool
}

func (r cliReq) String() string { return r.host + " " + r.method + " " + r.uri }

// cliWorld is the network of one command run.
type cliWorld struct {
	hosts map[string]*cliHost
	mu    sync.Mutex
	reqs  []cliReq
	dials []string
	hands []string // TLS handshakes: "host error"
	conns []net.Conn
	t0    time.Time
	took  time.Duration
	done  chan struct{}
}

var errDial = errors.New("connection refused (scripted)")

func (w *cliWorld) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.dials = append(w.dials, addr)
	h := w.hosts[addr]
	if h == nil || h.refuse {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errDial}
	}
	a, b := memPipe()
	w.conns = append(w.conns, a, b)
	go w.handle(addr, h, b)
	return a, nil
}

func (w *cliWorld) handle(addr string, h *cliHost, conn net.Conn) {
	defer conn.Close()
	if h.silence {
		io.Copy(io.Discard, conn)
		return
	}
	var tc *tls.Conn
	if h.tls != nil {
		tc = tls.Server(conn, h.tls)
		err := tc.Handshake()
		w.mu.Lock()
		w.hands = append(w.hands, fmt.Sprintf("%s ok=%v", addr, err == nil))
		w.mu.Unlock()
		if err != nil {
			return
		}
		conn = tc
	}
	br := bufio.NewReader(conn)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, r.Body)
		q := cliReq{host: addr, method: r.Method, uri: r.RequestURI, hdr: r.Header, hostH: r.Host, at: time.Since(w.t0)}
		if tc != nil {
			q.tls = true
			st := tc.ConnectionState()
			q.certs = len(st.PeerCertificates)
			if q.certs > 0 {
				q.cert = st.PeerCertificates[0].Subject.CommonName
			}
		}
		w.mu.Lock()
		w.reqs = append(w.reqs, q)
		w.mu.Unlock()
		a := h.serve(r)
		if a.never {
			io.Copy(io.Discard, br)
			return
		}
		if a.drop {
			return
		}
		if a.after > 0 {
			select {
			case <-time.After(a.after):
			case <-w.done:
				return
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", a.code, http.StatusText(a.code))
		if a.ctype != "" {
			fmt.Fprintf(&b, "Content-Type: %s\r\n", a.ctype)
		}
		if a.loc != "" {
			fmt.Fprintf(&b, "Location: %s\r\n", a.loc)
		}
		n := len(a.body)
		if a.cut {
			n += 10
		}
		if a.code == 204 || a.code == 304 {
			fmt.Fprintf(&b, "\r\n")
		} else {
			switch {
			case a.chunked:
				fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n")
				for rest := a.body; rest != ""; {
					k := min(len(rest), 1000)
					fmt.Fprintf(&b, "%x\r\n%s\r\n", k, rest[:k])
					rest = rest[k:]
				}
				fmt.Fprintf(&b, "0\r\n\r\n")
			case a.close:
				fmt.Fprintf(&b, "Connection: close\r\n\r\n%s", a.body)
				conn.Write(b.Bytes())
				return
			default:
				fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", n, a.body)
			}
		}
		conn.Write(b.Bytes())
		if a.cut {
			return
		}
	}
}

// runCLI runs the command line client inside the current bubble.
func (w *cliWorld) runCLI(args []string, o rdap.CLIOptions) (code int, stdout, stderr string) {
	var so, se bytes.Buffer
	w.t0 = time.Now()
	w.done = make(chan struct{})
	net.VerifDial = w.dial
	defer func() {
		net.VerifDial = nil
		close(w.done)
		w.mu.Lock()
		for _, c := range w.conns {
			c.Close()
		}
		w.mu.Unlock()
	}()
	code = rdap.RunCLI(args, &so, &se, o)
	w.took = time.Since(w.t0)
	return code, so.String(), se.String()
}

func (w *cliWorld) requests() []string {
	var out []string
	for _, r := range w.reqs {
		out = append(out, r.String())
	}
	return out
}

func sorted(xs []string) []string {
	ys := append([]string{}, xs...)
	sort.Strings(ys)
	return ys
}

func staticHost(code int, body string) *cliHost {
	return &cliHost{serve: func(*http.Request) cliResp { return cliResp{code: code, ctype: "application/rdap+json", body: body} }}
}

// bsHost serves the registry files.
func bsHost(files map[string]string) *cliHost {
	return &cliHost{serve: func(r *http.Request) cliResp {
		i := strings.LastIndex(r.URL.Path, "/")
		if b, ok := files[r.URL.Path[i+1:]]; ok {
			return cliResp{code: 200, body: b}
		}
		return cliResp{code: 404}
	}}
}
