// Package http stands in for net/http. Requests, responses, headers and
// handlers are the real package's; the client sends through a simulated
// network whose behaviour the harness decides.
package http

import (
	"bytes"
	"context"
	"errors"
	"io"
	real "net/http"
	"net/url"
	"strings"
	"time"

	"verif.local/sim/dst"
)

// Answer is what the network and the far end do with one request.
type Answer struct {
	Err       error         // the connection fails
	Hang      bool          // nothing ever comes back
	Delay     time.Duration // until the status line arrives (or the failure)
	Status    int
	Header    real.Header
	Body      []byte
	Cut       int           // bytes of the body that arrive before BodyErr or BodyHang
	BodyErr   error         // the connection breaks inside the body
	BodyHang  bool          // the rest of the body never arrives
	BodyDelay time.Duration // until the rest of the body arrives
}

// Exchange is one request on the simulated network.
type Exchange struct {
	Req      *real.Request
	Body     []byte
	Start    time.Duration // virtual time of the request
	Idle     time.Duration // idle time of the run at the request
	Status   int           // status line delivered to the caller
	Read     bool          // the whole body was delivered to the caller
	Failed   error         // what the caller was told instead
	Answered bool
	End      time.Duration
	Tag      interface{} // the harness's
}

// Net decides what becomes of a request; it runs as a task of its own outside
// every simulated process and may block.
var Net func(x *Exchange) Answer

// ErrRefused is a refused connection.
var ErrRefused = errors.New("connect: connection refused")

// ErrReset is a broken connection.
var ErrReset = errors.New("read: connection reset by peer")

type timeoutError struct{ s string }

func (e *timeoutError) Error() string   { return e.s }
func (e *timeoutError) Timeout() bool   { return true }
func (e *timeoutError) Temporary() bool { return true }
func (e *timeoutError) Is(t error) bool { return t == context.DeadlineExceeded }

// Client is http.Client.
type Client struct {
	Transport     real.RoundTripper
	CheckRedirect func(req *real.Request, via []*real.Request) error
	Jar           real.CookieJar
	Timeout       time.Duration
}

// DefaultClient is http.DefaultClient.
var DefaultClient = &Client{}

func (c *Client) CloseIdleConnections() {}

type pipe struct {
	ready chan struct{} // closed when the answer is known
	ans   Answer
	x     *Exchange
	dl    chan struct{} // closed at the client's deadline
	timer *dst.Timer
	ctx   context.Context
	rest  chan struct{} // closed when the rest of the body is there
	off   int
	open  bool
}

// wait waits for ch, the deadline or the request's context.
func (p *pipe) wait(ch chan struct{}, what string) error {
	switch dst.Select(false, dst.RecvCase((<-chan struct{})(ch)), dst.RecvCase((<-chan struct{})(p.dl)), dst.RecvCase(p.ctx.Done())) {
	case 0:
		return nil
	case 1:
		return &timeoutError{"context deadline exceeded (Client.Timeout exceeded while " + what + ")"}
	}
	return p.ctx.Err()
}

func (p *pipe) fail(err error) error {
	if p.x.Failed == nil {
		p.x.Failed = err
		p.x.End = dst.SinceStart()
	}
	return err
}

// Do sends a request.
func (c *Client) Do(req *real.Request) (*real.Response, error) {
	dst.Y(0)
	if dst.Unwinding() {
		return nil, errors.New("process is gone")
	}
	uerr := func(err error) error {
		m := req.Method
		if m == "" {
			m = "GET"
		}
		return &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: err}
	}
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, uerr(err)
		}
		body = b
	}
	if req.URL == nil || req.URL.Host == "" || (req.URL.Scheme != "http" && req.URL.Scheme != "https") {
		return nil, uerr(errors.New("unsupported protocol scheme \"" + req.URL.Scheme + "\""))
	}
	x := &Exchange{Req: req, Body: body, Start: dst.SinceStart(), Idle: dst.Idle()}
	p := &pipe{x: x, ready: make(chan struct{}), dl: make(chan struct{}), rest: make(chan struct{}), ctx: req.Context(), open: true}
	if c.Timeout > 0 {
		p.timer = dst.AfterKernelNoGroup(c.Timeout, func() { dst.CloseKernel(p.dl) })
	}
	dst.GoIn(nil, "net.http", func() {
		a := Net(x)
		if a.Hang {
			return
		}
		dst.AfterKernelNoGroup(a.Delay+1, func() {
			p.ans = a
			x.Answered = true
			dst.CloseKernel(p.ready)
		})
	})
	if err := p.wait(p.ready, "awaiting headers"); err != nil {
		p.timer.Stop()
		return nil, uerr(p.fail(err))
	}
	if p.ans.Err != nil {
		p.timer.Stop()
		return nil, uerr(p.fail(p.ans.Err))
	}
	if p.ans.Status == 0 {
		p.ans.Status = 200
	}
	x.Status = p.ans.Status
	h := p.ans.Header
	if h == nil {
		h = real.Header{"Content-Type": {"application/json;charset=utf-8"}}
	}
	n := int64(len(p.ans.Body))
	if p.ans.BodyDelay > 0 || p.ans.BodyErr != nil || p.ans.BodyHang {
		n = -1
	}
	if p.ans.BodyHang || p.ans.BodyErr != nil || p.ans.BodyDelay > 0 {
		if p.ans.Cut > len(p.ans.Body) {
			p.ans.Cut = len(p.ans.Body)
		}
		if !p.ans.BodyHang {
			dst.AfterKernelNoGroup(p.ans.BodyDelay+1, func() { dst.CloseKernel(p.rest) })
		}
	} else {
		p.ans.Cut = len(p.ans.Body)
		dst.CloseKernel(p.rest)
	}
	return &real.Response{Status: real.StatusText(p.ans.Status), StatusCode: p.ans.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: p, ContentLength: n, Request: req}, nil
}

// Read reads the response body.
func (p *pipe) Read(b []byte) (int, error) {
	dst.Y(0)
	if !p.open {
		return 0, errors.New("http: read on closed response body")
	}
	if len(b) == 0 {
		return 0, nil
	}
	if p.off < p.ans.Cut {
		n := copy(b, p.ans.Body[p.off:p.ans.Cut])
		p.off += n
		return n, nil
	}
	if err := p.wait(p.rest, "reading body"); err != nil {
		return 0, p.fail(err)
	}
	if p.ans.BodyErr != nil {
		return 0, p.fail(p.ans.BodyErr)
	}
	if p.off < len(p.ans.Body) {
		n := copy(b, p.ans.Body[p.off:])
		p.off += n
		return n, nil
	}
	if !p.x.Read {
		p.x.Read = true
		p.x.End = dst.SinceStart()
	}
	return 0, io.EOF
}

// Close closes the response body.
func (p *pipe) Close() error {
	p.open = false
	p.timer.Stop()
	return nil
}

func (c *Client) Get(u string) (*real.Response, error) {
	r, err := real.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}

func (c *Client) Head(u string) (*real.Response, error) {
	r, err := real.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}

func (c *Client) Post(u, ct string, body io.Reader) (*real.Response, error) {
	r, err := real.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", ct)
	return c.Do(r)
}

func (c *Client) PostForm(u string, data url.Values) (*real.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

func Get(u string) (*real.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*real.Response, error) { return DefaultClient.Head(u) }
func Post(u, ct string, body io.Reader) (*real.Response, error) {
	return DefaultClient.Post(u, ct, body)
}
func PostForm(u string, data url.Values) (*real.Response, error) {
	return DefaultClient.PostForm(u, data)
}

// Request rebuilds the request as the far end's server sees it.
func (x *Exchange) Request() *real.Request {
	r, err := real.NewRequest(x.Req.Method, x.Req.URL.String(), bytes.NewReader(x.Body))
	if err != nil {
		panic(err)
	}
	r.Header = x.Req.Header.Clone()
	r.RequestURI = x.Req.URL.RequestURI()
	r.RemoteAddr = "127.0.0.1:40000"
	return r
}

// Recorder is a response writer.
type Recorder struct {
	H    real.Header
	Code int
	B    bytes.Buffer
}

func (w *Recorder) Header() real.Header {
	if w.H == nil {
		w.H = real.Header{}
	}
	return w.H
}
func (w *Recorder) WriteHeader(c int) {
	if w.Code == 0 {
		w.Code = c
	}
}
func (w *Recorder) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.B.Write(b)
}
func (w *Recorder) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *Recorder) Flush()                            {}
