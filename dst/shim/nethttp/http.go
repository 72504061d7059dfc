// Package http routes every request into the simulated network.
package http

import (
	"context"
	"crypto/tls"
	"errors"
	"net"

	real "net/http"
	"net/url"
	"time"

	"sim/rt"
)

type roundTripper struct{}

func (roundTripper) RoundTrip(r *real.Request) (*real.Response, error) {
	if rt.HTTPHook == nil || !rt.InSim() {
		return nil, errors.New("no network outside of the simulation")
	}
	resp, err := rt.HTTPHook(r)
	if err != nil {
		return nil, err
	}
	return resp.(*real.Response), nil
}

func init() {
	real.DefaultTransport = roundTripper{}
	real.DefaultClient = &real.Client{}
}

var DefaultTransport real.RoundTripper = roundTripper{}
var DefaultClient = &real.Client{Transport: roundTripper{}}

// Transport looks like the real one; the settings have no effect on the simulated network.
type Transport struct {
	Proxy                  func(*real.Request) (*url.URL, error)
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

func (t *Transport) RoundTrip(r *real.Request) (*real.Response, error) {
	return roundTripper{}.RoundTrip(r)
}
func (t *Transport) CloseIdleConnections() {}
func (t *Transport) Clone() *Transport     { c := *t; return &c }

func Get(u string) (*Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*Response, error) { return DefaultClient.Head(u) }
