package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sync"
)

// rtFunc is a scripted network.
type rtFunc func(r *http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func httpClient(f rtFunc) *http.Client { return &http.Client{Transport: f} }

func httpResp(r *http.Request, code int, ctype, body string) *http.Response {
	h := http.Header{}
	if ctype != "" {
		h.Set("Content-Type", ctype)
	}
	return &http.Response{
		StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader([]byte(body))), ContentLength: int64(len(body)), Request: r,
	}
}

var errRefused = errors.New("connection refused (scripted)")
var errBody = errors.New("connection reset while reading the body (scripted)")

// brokenBody delivers some bytes and then fails.
type brokenBody struct {
	r    io.Reader
	err  error
	once sync.Once
}

func (b *brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		return n, b.err
	}
	return n, err
}

func (b *brokenBody) Close() error { return nil }

// slowBody delivers part, then waits for the context.
type hangBody struct {
	r   io.Reader
	ctx context.Context
}

func (b *hangBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		<-b.ctx.Done()
		return n, b.ctx.Err()
	}
	return n, err
}

func (b *hangBody) Close() error { return nil }
