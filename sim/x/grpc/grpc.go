// Package grpc stands in for google.golang.org/grpc: unary calls with real
// message encoding over a simulated network whose behaviour the harness
// decides. Dialling does not block, calls fail fast when the far end refuses,
// deadlines come from the caller's context.
package grpc

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"time"

	"github.com/golang/protobuf/proto"
	real "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/keepalive"
	"google.golang.org/grpc/status"

	"verif.local/sim/dst"
	xcontext "verif.local/sim/x/context"
)

// Answer is what the network does with one call.
type Answer struct {
	Err    error         // the call fails with this
	Hang   bool          // the call is lost (Reach: after the far end executed it)
	Delay  time.Duration // before the request arrives
	Delay2 time.Duration // before the reply arrives
	Reach  bool          // the far end executes the call although it fails or hangs
	Reply  proto.Message // a simulated peer's reply
	Local  bool          // hand it to the server listening on the port
	Bytes  []byte        // reply bytes instead of Reply
}

// Call is one call on the simulated network.
type Call struct {
	Target, Method string
	Req            []byte
	Start          time.Duration
	Idle, IdleEnd  time.Duration
	End            time.Duration
	Done           bool
	OK             bool  // the reply was delivered to the caller
	Err            error // what the caller got instead
	Tag            interface{}
}

// Net decides what becomes of a call; it runs as a task outside every simulated
// process and may block.
var Net func(c *Call) Answer

// Observe, when set, is called in the caller's task when a call starts and when
// it is done.
var Observe func(c *Call)

// Up, when set, tells whether a blocking dial gets through.
var Up func(target string) bool

// Server side.

type (
	CallOption             = real.CallOption
	UnaryServerInfo        = real.UnaryServerInfo
	UnaryHandler           = real.UnaryHandler
	UnaryServerInterceptor = real.UnaryServerInterceptor
	StreamDesc             = real.StreamDesc
	ServiceInfo            = real.ServiceInfo
)

const (
	SupportPackageIsVersion3 = true
	SupportPackageIsVersion4 = true
	SupportPackageIsVersion5 = true
	SupportPackageIsVersion6 = true
)

// ClientConnInterface is grpc.ClientConnInterface for unary calls.
type ClientConnInterface interface {
	Invoke(ctx context.Context, method string, args interface{}, reply interface{}, opts ...CallOption) error
}

// MethodDesc is grpc.MethodDesc.
type MethodDesc struct {
	MethodName string
	Handler    func(srv interface{}, ctx context.Context, dec func(interface{}) error, interceptor UnaryServerInterceptor) (interface{}, error)
}

// ServiceDesc is grpc.ServiceDesc.
type ServiceDesc struct {
	ServiceName string
	HandlerType interface{}
	Methods     []MethodDesc
	Streams     []StreamDesc
	Metadata    interface{}
}

type service struct {
	srv     interface{}
	methods map[string]MethodDesc
}

// ServerOption configures a server.
type ServerOption interface{}

func UnaryInterceptor(i UnaryServerInterceptor) ServerOption { return i }

type maxRecv int
type maxSend int

// defaultLimit is the size of the messages accepted by default.
const defaultLimit = 4 << 20

func MaxRecvMsgSize(n int) ServerOption { return maxRecv(n) }
func MaxMsgSize(n int) ServerOption     { return maxRecv(n) }
func MaxSendMsgSize(n int) ServerOption { return maxSend(n) }

// Options that change nothing here.
func MaxConcurrentStreams(uint32) ServerOption                            { return nil }
func ConnectionTimeout(time.Duration) ServerOption                        { return nil }
func KeepaliveParams(keepalive.ServerParameters) ServerOption             { return nil }
func KeepaliveEnforcementPolicy(keepalive.EnforcementPolicy) ServerOption { return nil }
func ReadBufferSize(int) ServerOption                                     { return nil }
func WriteBufferSize(int) ServerOption                                    { return nil }
func InitialWindowSize(int32) ServerOption                                { return nil }
func InitialConnWindowSize(int32) ServerOption                            { return nil }

// Server is grpc.Server.
type Server struct {
	services map[string]service
	inter    UnaryServerInterceptor
	g        *dst.Group
	stop     dst.Cell
	maxRecv  int
	maxSend  int
	lis      []net.Listener
	busy     int // calls in progress
}

var servers = map[string]*Server{}
var ep uint32

func table() map[string]*Server {
	if ep != dst.Epoch() {
		ep, servers = dst.Epoch(), map[string]*Server{}
	}
	return servers
}

func NewServer(opts ...ServerOption) *Server {
	s := &Server{services: map[string]service{}, g: dst.CurrentGroup(), maxRecv: defaultLimit, maxSend: math.MaxInt32}
	for _, o := range opts {
		switch o := o.(type) {
		case UnaryServerInterceptor:
			s.inter = o
		case maxRecv:
			s.maxRecv = int(o)
		case maxSend:
			s.maxSend = int(o)
		}
	}
	return s
}

func (s *Server) RegisterService(d *ServiceDesc, srv interface{}) {
	m := map[string]MethodDesc{}
	for _, x := range d.Methods {
		m["/"+d.ServiceName+"/"+x.MethodName] = x
	}
	s.services[d.ServiceName] = service{srv, m}
}

func port(addr string) string {
	for i := len(addr) - 1; i >= 0; i-- {
		if addr[i] == ':' {
			return addr[i+1:]
		}
	}
	return addr
}

// Serve serves until the server is stopped.
func (s *Server) Serve(lis net.Listener) error {
	dst.Y(0)
	if s.stop.IsSet() {
		lis.Close()
		return ErrServerStopped
	}
	table()[port(lis.Addr().String())] = s
	s.lis = append(s.lis, lis)
	s.stop.Wait("serve")
	return nil
}

// ErrServerStopped is grpc.ErrServerStopped.
var ErrServerStopped = errors.New("grpc: the server has been stopped")

func (s *Server) close() {
	for p, x := range table() {
		if x == s {
			delete(table(), p)
		}
	}
	for _, l := range s.lis {
		l.Close()
	}
	s.lis = nil
}

func (s *Server) Stop() {
	dst.Y(0)
	if dst.Unwinding() {
		return
	}
	s.close()
	s.stop.Set()
}

// GracefulStop waits for the calls in progress.
func (s *Server) GracefulStop() {
	dst.Y(0)
	if dst.Unwinding() {
		return
	}
	s.close()
	for s.busy > 0 {
		dst.Sleep(time.Millisecond)
	}
	s.stop.Set()
}

// Serving tells whether a live server listens on the port.
func Serving(addr string) bool {
	s := table()[port(addr)]
	return s != nil && (s.g == nil || !s.g.Dead)
}

// Handle executes one call on the server's process; it blocks until the handler
// returned. dead reports that the process died.
func Handle(addr, method string, req []byte, deadline time.Duration) (rep []byte, err error, dead bool) {
	s := table()[port(addr)]
	if s == nil || (s.g != nil && s.g.Dead) {
		return nil, status.Error(codes.Unavailable, "connection refused"), false
	}
	var md MethodDesc
	var srv interface{}
	for _, sv := range s.services {
		if m, ok := sv.methods[method]; ok {
			md, srv = m, sv.srv
		}
	}
	if srv == nil {
		return nil, status.Error(codes.Unimplemented, "unknown method "+method), false
	}
	if len(req) > s.maxRecv {
		return nil, tooLarge("received", len(req), s.maxRecv), false
	}
	s.busy++
	t := dst.GoIn(s.g, "rpc"+method, func() {
		ctx := context.Background()
		var cancel context.CancelFunc
		if deadline > 0 {
			ctx, cancel = xcontext.WithTimeout(ctx, deadline)
		} else {
			ctx, cancel = xcontext.WithCancel(ctx)
		}
		var out interface{}
		out, err = md.Handler(srv, ctx, func(v interface{}) error {
			if e := proto.Unmarshal(req, v.(proto.Message)); e != nil {
				return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", e)
			}
			return nil
		}, s.inter)
		cancel()
		if err != nil {
			return
		}
		// a nil message cannot be sent
		m, _ := out.(proto.Message)
		rep, err = proto.Marshal(m)
		if err != nil {
			err = status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
		}
		if len(rep) > s.maxSend {
			rep, err = nil, tooLarge("trying to send", len(rep), s.maxSend)
		}
	})
	t.Join()
	s.busy--
	return rep, err, !t.Completed()
}

func tooLarge(what string, n, max int) error {
	return status.Errorf(codes.ResourceExhausted, "grpc: %s message larger than max (%d vs. %d)", what, n, max)
}

// Client side.

// DialOption configures a connection.
type DialOption func(*ClientConn)

func WithInsecure() DialOption               { return func(*ClientConn) {} }
func WithBlock() DialOption                  { return func(c *ClientConn) { c.block = true } }
func WithTimeout(d time.Duration) DialOption { return func(c *ClientConn) { c.timeout = d } }
func WithUserAgent(string) DialOption        { return func(*ClientConn) {} }
func WithDefaultCallOptions(o ...CallOption) DialOption {
	return func(c *ClientConn) { c.opts = append(c.opts, o...) }
}
func WithMaxMsgSize(n int) DialOption            { return WithDefaultCallOptions(MaxCallRecvMsgSize(n)) }
func WithReadBufferSize(int) DialOption          { return func(*ClientConn) {} }
func WithWriteBufferSize(int) DialOption         { return func(*ClientConn) {} }
func WithInitialWindowSize(int32) DialOption     { return func(*ClientConn) {} }
func WithInitialConnWindowSize(int32) DialOption { return func(*ClientConn) {} }
func WithAuthority(string) DialOption            { return func(*ClientConn) {} }
func WithDisableRetry() DialOption               { return func(*ClientConn) {} }
func FailOnNonTempDialError(bool) DialOption     { return func(*ClientConn) {} }

func WithKeepaliveParams(keepalive.ClientParameters) DialOption { return func(*ClientConn) {} }
func WithBackoffMaxDelay(time.Duration) DialOption              { return func(*ClientConn) {} }
func WithDefaultServiceConfig(string) DialOption                { return func(*ClientConn) {} }

// Call options: other ones than these two kinds change nothing.
func WaitForReady(b bool) CallOption      { return real.WaitForReady(b) }
func FailFast(b bool) CallOption          { return real.FailFast(b) }
func MaxCallRecvMsgSize(n int) CallOption { return real.MaxCallRecvMsgSize(n) }
func MaxCallSendMsgSize(n int) CallOption { return real.MaxCallSendMsgSize(n) }

// ClientConn is grpc.ClientConn.
type ClientConn struct {
	target  string
	block   bool
	timeout time.Duration
	closed  chan struct{}
	isDone  bool
	owner   *dst.Group
	opts    []CallOption
}

// Open counts the connections that were not closed, by who opened them.
var Open = map[*dst.Group]int{}

// ErrClientConnClosing is grpc.ErrClientConnClosing.
var ErrClientConnClosing = status.Error(codes.Canceled, "grpc: the client connection is closing")

func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	dst.Y(0)
	if dst.Unwinding() {
		return nil, errors.New("process is gone")
	}
	c := &ClientConn{target: target, closed: make(chan struct{})}
	for _, o := range opts {
		o(c)
	}
	if c.block {
		var over <-chan struct{} = make(chan struct{})
		if c.timeout > 0 {
			var cancel context.CancelFunc
			ctx, cancel = xcontext.WithTimeout(ctx, c.timeout)
			defer cancel()
		}
		over = ctx.Done()
		for Up != nil && !Up(target) {
			retry := make(chan struct{})
			dst.AfterKernelNoGroup(time.Second, func() { dst.CloseKernel(retry) })
			if dst.Select(false, dst.RecvCase((<-chan struct{})(retry)), dst.RecvCase(over)) == 1 {
				return nil, ctx.Err()
			}
		}
	}
	c.owner = dst.CurrentGroup()
	Open[c.owner]++
	return c, nil
}

func (c *ClientConn) Target() string { return c.target }

func (c *ClientConn) Close() error {
	dst.Y(0)
	if dst.Unwinding() {
		return nil
	}
	if c.isDone {
		return ErrClientConnClosing
	}
	c.isDone = true
	Open[c.owner]--
	dst.CloseKernel(c.closed)
	return nil
}

// Invoke is grpc.Invoke.
func Invoke(ctx context.Context, method string, args, reply interface{}, cc *ClientConn, opts ...CallOption) error {
	return cc.Invoke(ctx, method, args, reply, opts...)
}

// Invoke performs one unary call.
func (c *ClientConn) Invoke(ctx context.Context, method string, args interface{}, reply interface{}, opts ...CallOption) error {
	dst.Y(0)
	if dst.Unwinding() {
		return errors.New("process is gone")
	}
	if c.isDone {
		return ErrClientConnClosing
	}
	req, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	recv, send, wait := defaultLimit, math.MaxInt32, false
	for _, o := range append(append([]CallOption(nil), c.opts...), opts...) {
		switch o := o.(type) {
		case real.MaxRecvMsgSizeCallOption:
			recv = o.MaxRecvMsgSize
		case real.MaxSendMsgSizeCallOption:
			send = o.MaxSendMsgSize
		case real.FailFastCallOption:
			wait = !o.FailFast
		}
	}
	if len(req) > send {
		return tooLarge("trying to send", len(req), send)
	}
	x := &Call{Target: c.target, Method: method, Req: req, Start: dst.SinceStart(), Idle: dst.Idle()}
	var left time.Duration
	if d, ok := ctx.Deadline(); ok {
		left = time.Duration(d.UnixNano() - dst.NowNano())
	}
	if Observe != nil {
		Observe(x)
	}
	if err := ctx.Err(); err != nil { // over before it was sent
		err = ctxErr(err)
		x.Done, x.Err, x.End, x.IdleEnd = true, err, dst.SinceStart(), dst.Idle()
		if Observe != nil {
			Observe(x)
		}
		return err
	}
	ready := make(chan struct{})
	var rep []byte
	var rerr error
	dst.GoIn(nil, "net.grpc", func() {
		a := Net(x)
		for wait && !x.Done && status.Code(a.Err) == codes.Unavailable && status.Convert(a.Err).Message() == "connection refused" {
			dst.Sleep(time.Second) // tries to connect again
			a = Net(x)
		}
		dst.Sleep(a.Delay)
		if a.Local || a.Reach {
			var dead bool
			rep, rerr, dead = Handle(c.target, method, req, left)
			if dead {
				rerr = status.Error(codes.Unavailable, "transport is closing")
			}
		}
		switch {
		case a.Hang:
			return
		case a.Err != nil:
			rep, rerr = nil, a.Err
		case a.Bytes != nil:
			rep = a.Bytes
		case a.Reply != nil:
			if rep, rerr = proto.Marshal(a.Reply); rerr != nil {
				panic(rerr)
			}
		case !a.Local:
			rerr = status.Error(codes.Unavailable, "no answer given")
		}
		dst.Sleep(a.Delay2)
		dst.CloseKernel(ready)
	})
	switch dst.Select(false, dst.RecvCase((<-chan struct{})(ready)), dst.RecvCase(ctx.Done()), dst.RecvCase((<-chan struct{})(c.closed))) {
	case 0:
		err = rerr
		if err != nil {
			if _, ok := status.FromError(err); !ok {
				err = status.Error(codes.Unknown, err.Error())
			}
		} else if len(rep) > recv {
			err = tooLarge("received", len(rep), recv)
		} else if e := proto.Unmarshal(rep, reply.(proto.Message)); e != nil {
			err = status.Errorf(codes.Internal, "grpc: failed to unmarshal the received message %v", e)
		}
	case 1:
		err = ctxErr(ctx.Err())
	default:
		err = ErrClientConnClosing
	}
	x.Done, x.OK, x.Err, x.End, x.IdleEnd = true, err == nil, err, dst.SinceStart(), dst.Idle()
	if Observe != nil && !dst.Unwinding() {
		Observe(x)
	}
	return err
}

func ctxErr(err error) error {
	if err == context.Canceled {
		return status.Error(codes.Canceled, err.Error())
	}
	return status.Error(codes.DeadlineExceeded, err.Error())
}

// NewStream is not simulated.
func (c *ClientConn) NewStream(context.Context, *StreamDesc, string, ...CallOption) (real.ClientStream, error) {
	return nil, fmt.Errorf("streams are not simulated")
}

// Code is grpc.Code.
func Code(err error) codes.Code { return status.Code(err) }

// Errorf is grpc.Errorf.
func Errorf(c codes.Code, f string, a ...interface{}) error { return status.Errorf(c, f, a...) }
